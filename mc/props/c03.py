"""C03: names of spectral types and units at every entry point"""
import contextlib
import io
import itertools
import os
import numpy as np
from dispersion import (Spectrum, Constant, Interpolation, Extrapolation,
                        Material, Catalogue)
from dispersion.material import Simple
import dispersion.spectral_data as sd
from mc import ref

BOUNDS = {t: "all documented spellings x case variants x 25 entry points; all "
             "type/unit spelling pairs; all names one edit away from a "
             "documented one; list of undocumented names"
          for t in ('quick', 'thorough')}
ASSUMPTIONS = []
TYPES = ['wavelength', 'frequency', 'energy', 'angularfrequency', 'wavenumber']
UNIT_TYPE = {u: t for t, u in ref.TU}
NAMES = [(UNIT_TYPE[u], u, s) for u in ref.SPELLINGS for s in ref.SPELLINGS[u]]


def cases(name, full):
    """letter case variants"""
    letters = [i for i, ch in enumerate(name) if ch.upper() != ch.lower()]
    if len(letters) <= (6 if full else 4):
        out = []
        for bits in itertools.product([0, 1], repeat=len(letters)):
            chars = list(name.lower())
            for bit, i in zip(bits, letters):
                if bit:
                    chars[i] = chars[i].upper()
            out.append(''.join(chars))
        return out
    return compound(name) + [
            name.lower(), name.upper(), name.title(), name.swapcase(),
            name[:-1].lower() + name[-1].upper(),
            ''.join(ch.upper() if i % 2 else ch for i, ch in enumerate(name)),
            ''.join(ch.lower() if i % 2 else ch.upper()
                    for i, ch in enumerate(name))]


PREFIXES = ['nano', 'micro', 'centi', 'electron', 'wave', 'angular']


def compound(name):
    """capital letters where the words of a name begin"""
    for prefix in PREFIXES:
        if name.startswith(prefix):
            rest = name[len(prefix):].title()
            return [prefix + rest, prefix.title() + rest, prefix.upper() + rest,
                    prefix + rest.upper()]
    return []


def neighbours(name):
    """names that differ by one edit"""
    out = set()
    for i in range(len(name)):
        out.add(name[:i] + name[i + 1:])
        out.add(name[:i] + name[i] + name[i:])
        if i:
            out.add(name[:i - 1] + name[i] + name[i - 1] + name[i + 1:])
            for mark in ' _-.':
                out.add(name[:i] + mark + name[i:])
    for mark in ['s', 'e', '.', '-', '_', '1', '/', '-1', '^-1', 'ec', 'ond', '(s)']:
        out.add(name + mark)
    for mark in ['1/', '/', '1', 'k', 'm', 'u', 'n', 'c', 'the ', '[', '(']:
        out.add(mark + name)
    out.add('[' + name + ']')
    out.add('(' + name + ')')
    return sorted(out)


BAD_UNITS = ['1/sec', 'rad/sec', 'rads/s', 's^-1', 's-1', 'cm^-1', 'kayser',
             '1/centimeter', '/cm', 'aa', 'angstroem', '\u00e5ngstr\u00f6m',
             'nmeter', 'mum', '\u212b', 'ev.', 'hz.', '1/cm.', '1\\cm',
             'electronvolts', '1 / s', '1 /cm', 'nano', 'micro', 'centi',
             'electron', 'volt',
             '', ' ', 'meters', 'metres', 'nanometers', 'micron', 'microns',
             '\u03bcm', '\u00b5m', 'mm', 'millimeter', 'pm', 'km', 'n', 'u',
             'thz', 'ghz', 'mhz', 'khz', 'hertz ', ' hz', 'mev', 'kev', 'gev',
             'joule', 'j', '1/m', '1/nm', 'cm-1', '1/cm ', 'rad', 's', '1/',
             'rad/s ', 'rads', 'wavelength', 'energy', 'none', 'None', 'nm ',
             ' nm', 'nm\n', 'e', 'v', 'h', 'z', 'o', 'ang', 'angstroms',
             '\u00e5', 'c', '1', 'inch', 'ev/s', 'hz/s', 'electron volt',
             'electron-volt', 'centimetres', 'met', 'ometer']
BAD_TYPES = ['', ' ', 'wavelengths', 'wave length', 'wave', 'lambda', 'length',
             'freq', 'frequencies', 'energies', 'photonenergy', 'ev', 'nm',
             'angular frequency', 'angular_frequency', 'omega', 'wave number',
             'wavenumbers', 'wavelength ', ' energy', 'none', 'w', 'f', 'e',
             'k', 'colour', 'time', 'avelength', 'e\u0301nergy']

# positions (metre) used as numbers
MET = np.array([4.1e-7, 5.3e-7, 6.9e-7])


def work(name):
    return os.path.join(os.environ['MC_WORK'], name)


def put(name, text):
    path = work(name)
    with open(path, 'w', encoding='utf-8') as fpt:
        fpt.write(text)
    return path


def table_for(tu):
    pos = ref.from_m(tu, MET)
    return np.column_stack([pos, [1.5, 1.6, 1.8], [0.1, 0.2, 0.4]])


def linear_at(tu, met):
    pos = ref.from_m(tu, MET)
    x = ref.from_m(tu, met)
    return (ref.linear(pos, [1.5, 1.6, 1.8], x) +
            1j * ref.linear(pos, [0.1, 0.2, 0.4], x))


PROBE = [4.1e-7, 4.7e-7, 6.1e-7, 6.9e-7]


def check_material(c, mat, tu):
    for met in PROBE:
        got = mat.get_nk_data(np.array([met]))
        c.op()
        c.check(ref.close(got, [linear_at(tu, met)], 1e-6, 1e-7),
                "{} m: {} instead of {}", met, got, linear_at(tu, met))
    rng = mat.get_maximum_valid_range()
    exp = np.sort(ref.from_m(tu, MET[[0, 2]]))
    c.check(np.allclose(rng, exp, rtol=1e-7, atol=1e-9 if tu[1] == 'ev' else 0),
            "valid range {} instead of {}", rng, exp)


def e_spectrum(c, t, u, tu):
    spec = Spectrum(ref.from_m(tu, MET), spectrum_type=t, unit=u)
    c.check(np.allclose(spec.convert_to('wavelength', 'm'), MET, rtol=1e-10),
            "means {} m", spec.convert_to('wavelength', 'm'))
    c.check(ref.label_ok(spec.get_type_unit_string(), tu), "label {}",
            spec.get_type_unit_string())


def e_convert(c, t, u, tu):
    spec = Spectrum(MET)
    got = spec.convert_to(t, u)
    c.check(ref.conv_ok(tu, got, ref.from_m(tu, MET)), "convert_to gave {}", got)


def e_convert_inplace(c, t, u, tu):
    spec = Spectrum(MET)
    spec.convert_to(t, u, in_place=True)
    c.check(ref.conv_ok(tu, spec.values, ref.from_m(tu, MET)),
            "convert_to gave {}", spec.values)
    c.check(ref.label_ok(spec.get_type_unit_string(), tu), "label {}",
            spec.get_type_unit_string())
    c.check(np.allclose(spec.convert_to('wavelength', 'm'), MET, rtol=1e-8),
            "means {} m", spec.convert_to('wavelength', 'm'))


def in_range(c, data, low, high):
    for met, ok in ((low, True), (high, True), (low * .99, False),
                    (high * 1.01, False), ((low * high) ** .5, True)):
        try:
            data.evaluate(Spectrum(met))
            got = True
        except ValueError:
            got = False
        c.op()
        c.check(got == ok, "{} m accepted: {}", met, got)


def e_constant(c, t, u, tu):
    rng = np.sort(ref.from_m(tu, MET[[0, 2]]))
    in_range(c, Constant(1.5, valid_range=rng, spectrum_type=t, unit=u),
             MET[0], MET[2])


def e_interpolation(c, t, u, tu):
    data = Interpolation(table_for(tu)[:, :2], spectrum_type=t, unit=u)
    in_range(c, data, MET[0], MET[2])
    for met in PROBE:
        c.check(ref.close(data.evaluate(Spectrum(met)),
                          linear_at(tu, met).real, 1e-6, 1e-7),
                "wrong value at {}", met)
    sug = data.suggest_spectrum()
    met = sug.convert_to('wavelength', 'm')
    c.check(abs(met.min() / MET[0] - 1) < 1e-7 and
            abs(met.max() / MET[2] - 1) < 1e-7, "suggested spectrum {}..{}",
            met.min(), met.max())


def e_model(c, t, u, tu):
    name = {'um': 'Cauchy', 'ev': 'Drude'}.get(tu[1])
    if name is None:
        for cls in (sd.Cauchy, sd.Drude):
            try:
                cls(ref.TYPICAL[cls.__name__], [0.1, 10.], spectrum_type=t,
                    unit=u)
            except ValueError:
                continue
            c.fail("{} accepts {} {}".format(cls.__name__, t, u))
        return
    rng = np.sort(ref.from_m(tu, MET[[0, 2]]))
    data = getattr(sd, name)(ref.TYPICAL[name], rng, spectrum_type=t, unit=u)
    in_range(c, data, MET[0], MET[2])
    exp = ref.evaluate_formula(name, ref.TYPICAL[name], ref.from_m(tu, 5e-7))
    c.check(ref.close(data.evaluate(Spectrum(5e-7)), exp, 1e-6),
            "wrong value {}", data.evaluate(Spectrum(5e-7)))


def e_model_kw(c, t, u, tu):
    name = {'um': 'Sellmeier', 'ev': 'DrudeLorentz'}.get(tu[1])
    rng = np.sort(ref.from_m(tu, MET[[0, 2]]))
    kws = {'name': name or 'Sellmeier', 'spectrum_type': t, 'unit': u,
           'valid_range': rng, 'parameters': np.array(
               ref.TYPICAL[name or 'Sellmeier'])}
    if name is None:
        try:
            Material(model_kw=kws)
        except ValueError:
            return
        c.fail("model accepts {} {}".format(t, u))
    mat = Material(model_kw=kws)
    exp = ref.evaluate_formula(name, ref.TYPICAL[name], ref.from_m(tu, 5e-7))
    got = (mat.get_nk_data(5e-7) if name == 'Sellmeier'
           else mat.get_permittivity(5e-7))
    c.check(ref.close(got, exp, 1e-6), "wrong value {}", got)
    got = mat.get_maximum_valid_range()
    c.check(np.allclose(got, rng, rtol=1e-7), "valid range {}", got)


def e_table(c, t, u, tu):
    check_material(c, Material(tabulated_nk=table_for(tu), spectrum_type=t,
                               unit=u), tu)


def e_table_n(c, t, u, tu):
    mat = Material(tabulated_n=table_for(tu)[:, :2], spectrum_type=t, unit=u)
    for met in PROBE:
        c.check(ref.close(mat.get_nk_data(met), linear_at(tu, met).real + 0j,
                          1e-6, 1e-7), "wrong value at {}", met)


def e_table_n_alpha(c, t, u, tu):
    tab = table_for(tu)
    tab[:, 2] *= 1e5
    mat = Material(tabulated_n_alpha=tab, spectrum_type=t, unit=u)
    for i, met in enumerate(MET):
        exp = tab[i, 1] + 1j * tab[i, 2] * met * 100 / (4 * np.pi)
        c.check(ref.close(mat.get_nk_data(met), exp, 1e-6, 1e-7),
                "wrong value at {}: {}", met, mat.get_nk_data(met))


def e_fixed(c, t, u, tu):
    mat = Material(fixed_nk=1.5 + 0.2j, spectrum_type=t, unit=u)
    c.check(ref.close(mat.get_nk_data(5e-7), 1.5 + .2j), "wrong value")
    smp = mat.get_sample_spectrum()
    mat.get_nk_data(smp)
    rng = mat.get_maximum_valid_range()
    c.check(rng[0] == 0 and np.isinf(rng[1]), "range {}", rng)


def e_eval_nk(c, t, u, tu):
    mat = Material(tabulated_nk=table_for(('wavelength', 'nm')))
    got = mat.get_nk_data(ref.from_m(tu, np.array(PROBE)), spectrum_type=t, unit=u)
    exp = [linear_at(('wavelength', 'nm'), m) for m in PROBE]
    c.check(ref.close(got, exp, 1e-6, 1e-7), "{} instead of {}", got, exp)


def e_eval_eps(c, t, u, tu):
    mat = Material(tabulated_nk=table_for(('wavelength', 'nm')))
    got = mat.get_permittivity(ref.from_m(tu, np.array(PROBE)), spectrum_type=t,
                               unit=u)
    exp = np.array([linear_at(('wavelength', 'nm'), m) for m in PROBE]) ** 2
    c.check(ref.close(got, exp, 1e-6, 1e-7), "{} instead of {}", got, exp)


def e_plot(c, t, u, tu):
    import matplotlib.pyplot as plt
    mat = Material(tabulated_nk=table_for(('wavelength', 'nm')))
    fig = plt.figure()
    try:
        axes = fig.add_subplot()
        mat.plot_nk_data(values=list(ref.from_m(tu, np.array(PROBE))),
                         spectrum_type=t, unit=u, axes=axes)
        got = axes.lines[0].get_ydata()
        exp = [linear_at(('wavelength', 'nm'), m).real for m in PROBE]
        c.check(ref.close(got, exp, 1e-6, 1e-7), "plotted {}", got)
        c.check(ref.label_ok(axes.get_xlabel(), tu), "label {}",
                axes.get_xlabel())
    finally:
        plt.close(fig)


def text_file(ext, t, u, tu):
    com, sep = {'.txt': ('#', ' '), '.csv': ('#', ','), '.nk': (';', '\t')}[ext]
    tab = table_for(tu)
    tab = tab[np.argsort(tab[:, 0])]
    rows = "\n".join(sep.join(repr(float(v)) for v in row) for row in tab)
    return put('e' + ext, "{0} SPECTRUMTYPE: {1}\n{0} UNIT: {2}\n{3}\n".format(
        com, t, u, rows))


def e_txt(c, t, u, tu):
    check_material(c, Material(file_path=text_file('.txt', t, u, tu)), tu)


def e_csv(c, t, u, tu):
    check_material(c, Material(file_path=text_file('.csv', t, u, tu)), tu)


def e_nk(c, t, u, tu):
    check_material(c, Material(file_path=text_file('.nk', t, u, tu)), tu)


def e_txt_fallback(c, t, u, tu):
    tab = table_for(tu)
    tab = tab[np.argsort(tab[:, 0])]
    path = put('f.txt', "\n".join(" ".join(repr(float(v)) for v in row)
                                  for row in tab) + "\n")
    check_material(c, Material(file_path=path, spectrum_type=t, unit=u), tu)


def e_yml(c, t, u, tu):
    tab = table_for(tu)
    tab = tab[np.argsort(tab[:, 0])]
    rows = "\n".join("        " + " ".join(repr(float(v)) for v in row)
                     for row in tab)
    path = put('e.yml', "DATA:\n  - DataType: tabulated nk\n    Unit: '{}'\n"
                        "    SpectrumType: '{}'\n    Data: |\n{}\n"
               .format(u, t, rows))
    check_material(c, Material(file_path=path), tu)


def e_contains(c, t, u, tu):
    own = Spectrum(np.sort(ref.from_m(tu, MET[[0, 2]])), t, u)
    for met, ok in ((MET[0], True), (MET[2], True), (MET[0] * .99, False),
                    (MET[2] * 1.01, False), (5e-7, True)):
        try:
            got = bool(own.contains(Spectrum(met)))
        except ValueError:
            got = False
        c.check(got == ok, "contains {} m: {}", met, got)
        try:
            got = bool(Spectrum(MET[[0, 2]]).contains(
                Spectrum(float(ref.from_m(tu, met)), t, u)))
        except ValueError:
            got = False
        c.check(got == ok, "{} m contained: {}", met, got)


def e_yml_model(c, t, u, tu):
    name = {'um': 'Sellmeier', 'ev': 'DrudeLorentz'}.get(tu[1])
    rng = np.sort(ref.from_m(tu, MET[[0, 2]]))
    path = put('m.yml', "DATA:\n  - DataType: model {}\n    Unit: '{}'\n"
                        "    SpectrumType: '{}'\n    ValidRange: {!r} {!r}\n"
                        "    Parameters: {}\n"
               .format(name or 'Sellmeier', u, t, float(rng[0]), float(rng[1]),
                       " ".join(repr(float(v)) for v in
                                ref.TYPICAL[name or 'Sellmeier'])))
    if name is None:
        try:
            Material(file_path=path)
        except ValueError:
            return
        c.fail("model accepts {} {}".format(t, u))
    mat = Material(file_path=path)
    exp = ref.evaluate_formula(name, ref.TYPICAL[name], ref.from_m(tu, 5e-7))
    got = (mat.get_nk_data(5e-7) if name == 'Sellmeier'
           else mat.get_permittivity(5e-7))
    c.check(ref.close(got, exp, 1e-6), "wrong value {}", got)


def e_yml_constant(c, t, u, tu):
    rng = np.sort(ref.from_m(tu, MET[[0, 2]]))
    path = put('k.yml', "DATA:\n  - DataType: constant n\n    Unit: '{}'\n"
                        "    SpectrumType: '{}'\n    ValidRange: {!r} {!r}\n"
                        "    Value: 1.5\n".format(u, t, float(rng[0]),
                                                 float(rng[1])))
    mat = Material(file_path=path)
    for met, ok in ((MET[0], True), (MET[2], True), (MET[0] * .99, False),
                    (MET[2] * 1.01, False)):
        try:
            got = mat.get_nk_data(float(met)) == 1.5
        except ValueError:
            got = False
        c.check(got == ok, "constant at {} m: {}", met, got)


def e_target(c, t, u, tu):
    mat = Material(tabulated_nk=table_for(('wavelength', 'nm')))
    mat.extrapolate(Spectrum(float(ref.from_m(tu, 8e-7)), t, u), spline_order=1)
    rng = mat.get_maximum_valid_range()
    c.check(np.allclose(rng, [410., 800.], rtol=1e-7), "range {}", rng)


def e_mixture(c, t, u, tu):
    mat = Material(tabulated_nk=table_for(('wavelength', 'nm')))
    spec = Spectrum(ref.from_m(tu, np.array(PROBE)), t, u)
    mix = Simple(spec, mat, Material(fixed_n=1.0), 0.25)
    for met in PROBE:
        exp = .75 * linear_at(('wavelength', 'nm'), met) ** 2 + .25
        got = mix.get_permittivity(met)
        c.check(ref.close(got, exp, 1e-6, 1e-7), "{} instead of {}", got, exp)


def e_reference(c, t, u, tu):
    root = work('refroot')
    os.makedirs(os.path.join(root, 'UserData'), exist_ok=True)
    with open(os.path.join(root, 'UserData', 'a.txt'), 'w') as fpt:
        for met, real, imag in table_for(('wavelength', 'nm')):
            fpt.write("{!r} {!r} {!r}\n".format(float(met), float(real),
                                               float(imag)))
    conf = {'Path': root, 'File': 'c.csv', 'Interactive': False,
            'WarnMissingPackages': False, 'Modules': {'UserData': True},
            'ReferenceSpectrum': {'Value': float(ref.from_m(tu, 6.1e-7)),
                                  'SpectrumType': t, 'Unit': u}}
    with contextlib.redirect_stdout(io.StringIO()):
        row = Catalogue(config=conf, rebuild='All').get_database().iloc[0]
    exp = linear_at(('wavelength', 'nm'), 6.1e-7)
    c.check(ref.close(row.N_Reference + 1j * row.K_Reference, exp, 1e-6),
            "reference {} {}", row.N_Reference, row.K_Reference)


ENTRY = {f.__name__[2:]: f for f in
         (e_spectrum, e_convert, e_convert_inplace, e_constant,
          e_interpolation, e_model, e_model_kw, e_table, e_table_n,
          e_table_n_alpha, e_fixed, e_eval_nk, e_eval_eps, e_plot, e_txt, e_csv,
          e_nk, e_txt_fallback, e_yml, e_contains, e_yml_model, e_yml_constant,
          e_target, e_mixture, e_reference)}
SLOW = ('plot',)


def spellings(c):
    """every documented spelling is understood everywhere"""
    entry = c.choose('entry point', list(ENTRY))
    stype, unit, name = c.choose('unit', NAMES)
    tcases = cases(stype, c.thorough)
    ucases = cases(name, c.thorough)
    if entry in SLOW and not c.thorough:
        pairs = [(tcases[0], ucases[0]), (tcases[1], ucases[-1])]
    elif c.thorough:
        pairs = [(t, u) for t in tcases for u in ucases]
    else:
        pairs = ([(tcases[0], u) for u in ucases] +
                 [(t, ucases[0]) for t in tcases] +
                 [(t, u) for t, u in zip(tcases, reversed(ucases))])
    for t, u in pairs:
        c.op()
        try:
            ENTRY[entry](c, t, u, (stype, unit))
        except Exception as exc:
            c.fail("<{}> <{}> at {}: {}".format(t, u, entry, exc))
        c.state(entry, t, u)
    c.outcome(entry, stype, unit)


def reject(c, entry, t, u):
    tu = ('wavelength', 'um')
    value = None
    c.op()
    try:
        value = ENTRY[entry](Quiet(c), t, u, tu)
    except Accepted:
        value = True
    except (ValueError, KeyError, NotImplementedError, TypeError):
        return
    if entry in ('model', 'model_kw') and value is None:
        pass
    c.fail("<{}> <{}> accepted at {}".format(t, u, entry))


class Accepted(Exception):
    pass


class Quiet:
    """in rejection tests reaching a comparison means a value was produced"""

    def __init__(self, ctx):
        self.ctx = ctx

    def op(self, count=1):
        self.ctx.op(count)

    def check(self, *args):
        raise Accepted()

    def fail(self, *args):
        raise Accepted()


def mismatched(c):
    """a unit of another type is refused everywhere"""
    entry = c.choose('entry point', list(ENTRY))
    stype = c.choose('type', TYPES)
    for utype, unit, name in NAMES:
        if utype == stype:
            continue
        for u in (name, name.upper()):
            reject(c, entry, stype, u)
            c.state(entry, stype, u)


def unknown_unit(c):
    """undocumented unit names are refused everywhere"""
    entry = c.choose('entry point', list(ENTRY))
    stype = c.choose('type', TYPES)
    for u in BAD_UNITS:
        if entry in FILES and u != u.strip():
            continue        # blanks around header values are not part of them
        if entry in FILES and u in FILE_EMPTY:
            continue        # an empty entry falls back to the default
        reject(c, entry, stype, u)
        c.state(entry, stype, u)


FILES = ('txt', 'csv', 'nk', 'yml', 'yml_model', 'yml_constant')
FILE_EMPTY = ('', 'none', 'None')


def unknown_type(c):
    """undocumented spectral types are refused everywhere"""
    entry = c.choose('entry point', list(ENTRY))
    for t in BAD_TYPES:
        if entry in FILES and (t != t.strip() or t in FILE_EMPTY):
            continue
        for u in ('m', 'nm', 'um', 'hz', 'ev', '1/s', '1/cm'):
            reject(c, entry, t, u)
            c.state(entry, t, u)


def near_units(c):
    """names one edit away from a documented unit"""
    entry = c.choose('entry point', list(ENTRY))
    stype, unit, name = c.choose('unit', NAMES)
    known = {n for _, _, n in NAMES}
    for u in neighbours(name):
        if u in known or entry in FILES and (u != u.strip() or u in FILE_EMPTY):
            continue
        if entry in SLOW and not c.thorough and len(name) > 3:
            continue
        for v in (u, u.upper()):
            reject(c, entry, stype, v)
        c.state(entry, stype, u)


def near_types(c):
    """names one edit away from a spectral type"""
    entry = c.choose('entry point', list(ENTRY))
    stype, unit = c.choose('unit', ref.TU)
    for t in neighbours(stype):
        if t in TYPES or entry in FILES and (t != t.strip() or t in FILE_EMPTY):
            continue
        if entry in SLOW and not c.thorough:
            continue
        reject(c, entry, t, unit)
        c.state(entry, t, unit)


def comparisons(c):
    """names compared with each other: equal for the names of one unit only"""
    name = c.choose('name', NAMES)
    for variant in cases(name[2], c.thorough):
        for _, unit, spelling in NAMES:
            got = Spectrum.check_unit(variant, spelling)
            c.op()
            c.check(bool(got) == (unit == name[1]), "check_unit({!r}, {!r}) is {}",
                    variant, spelling, got)
        c.state('unit', variant)
    for t in TYPES:
        for variant in cases(t, c.thorough):
            for other in TYPES:
                got = Spectrum.check_type(variant, other)
                c.op()
                c.check(bool(got) == (t == other), "check_type({!r}, {!r}) is {}",
                        variant, other, got)
        for wrong in neighbours(t):
            if wrong in TYPES:
                continue
            try:
                got = Spectrum.check_type(wrong, t)
            except ValueError:
                continue
            c.check(got is False, "check_type({!r}, {!r}) is {}", wrong, t, got)
    c.outcome('compared', name[1])


SCENARIOS = {'comparisons': comparisons, 'near units': near_units, 'near types': near_types, 'spellings': spellings, 'mismatched': mismatched,
             'unknown unit': unknown_unit, 'unknown type': unknown_type}
