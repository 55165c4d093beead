"""prints the table of planted bugs for DESIGN.md"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| seed | property | what it breaks | shows up for |')
print('| - | - | - | - |')
for s in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, s)))
    print('| %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'], m['needs']))
