"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, glob, os
p = '/verif/DESIGN.md'
s = open(p).read()
mark = '<!-- planted -->'
s = s.split(mark)[0].rstrip('\n') + '\n\n' + mark + '\n| id | breaks | needs |\n|---|---|---|\n'
for d in sorted(glob.glob('/verif/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    s += '| %s | %s | %s |\n' % (os.path.basename(d), m['what_it_breaks'].replace('|', '\\|'), m['needs'].replace('|', '\\|'))
open(p, 'w').write(s)
