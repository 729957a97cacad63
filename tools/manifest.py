"""writes MANIFEST.json from properties.jsonl and the modules in mc/props"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = {
    'default': "stateless model checking: exhaustive bounded enumeration of "
               "inputs and operation sequences on the real code, compared step by "
               "step with an independent reference model",
    'C17': "stateless model checking: all folder states, all configurations and "
           "all thread interleavings of first starts at file system calls, on the "
           "real code",
    'C18': "stateless model checking: all answer sequences of the dialogues up to "
           "a bound, executed on the real code against a model of the dialogue",
    'C19': "stateless model checking: all interleavings of operations on several "
           "objects up to a depth, compared with each object alone in a fresh "
           "process",
    'C20': "fault enumeration model checking: a crash and an I/O error at every "
           "written byte and every file operation of each save, on the real code",
}
NOTE = {
    'default': "exhaustive within the bounds printed in the evidence (values on "
               "grids, tables and histories up to a length); values between grid "
               "points are not covered; trusts the reference model in mc/ref.py",
    'C20': "exhaustive over crash points inside the process (each byte written, "
           "each file operation); power failure with lost page cache is not "
           "modelled",
}


def main():
    checks, missing = [], []
    with open(os.path.join(HERE, 'properties.jsonl')) as fpt:
        props = [json.loads(line) for line in fpt if line.strip()]
    for prop in props:
        pid = prop['id']
        if not os.path.exists(os.path.join(HERE, 'mc', 'props',
                                           pid.lower() + '.py')):
            missing.append({'property': pid, 'reason': 'check not built yet'})
            continue
        checks.append({
            'property': pid,
            'quick_cmd': 'bash check.sh {} quick'.format(pid),
            'thorough_cmd': 'bash check.sh {} thorough'.format(pid),
            'evidence_file': 'evidence/{}.json'.format(pid),
            'technique': TECHNIQUE.get(pid, TECHNIQUE['default']),
            'level': 'model_checking',
            'level_note': NOTE.get(pid, NOTE['default'])})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fpt:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
                   'not_applicable': missing}, fpt, indent=1)
        fpt.write('\n')


if __name__ == '__main__':
    main()
