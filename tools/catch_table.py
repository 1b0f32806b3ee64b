"""Print the table of planted bugs for DESIGN.md from seeded/*/meta.json and the last results in tools/caught.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(here, 'tools', 'caught.json')))
print('| bug | property | needs | caught by |\n|---|---|---|---|')
for d in sorted(glob.glob(os.path.join(here, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    b = os.path.basename(d)
    print('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '/'), res.get(b, '-')))
