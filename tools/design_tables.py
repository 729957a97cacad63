"""prints the tables of DESIGN.md that follow from other files"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted change | property | needs |\n|---|---|---|")
for path in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    with open(path) as fpt:
        meta = json.load(fpt)
    print("| {} | {} | {} |".format(os.path.basename(os.path.dirname(path)),
                                    meta['property'], meta['needs']))
