"""the table of planted bugs in DESIGN.md, from seeded/*/meta.json (all are caught by the check of their property, see seed.py check)"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | what it breaks | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['what_it_breaks'], m['needs'], m.get('caught_by', m['property'])))
p = V + '/DESIGN.md'
s = open(p).read()
s = s.replace('TABLE-PLACEHOLDER', '<!-- table -->\n<!-- end table -->')
s = re.sub(r'(?s)<!-- table -->\n.*<!-- end table -->', lambda _: '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end table -->', s)
open(p, 'w').write(s)
