# writes the table of planted bugs into DESIGN.md from seeded/*/meta.json (documentation only; no check uses it)
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
for s in sorted(os.listdir(R + '/seeded')):
    f = R + '/seeded/%s/meta.json' % s
    if os.path.exists(f):
        m = json.load(open(f)); also = m.get('also_caught_by', [])
        rows.append('| %s | %s%s | %s |' % (s, m['property'], ''.join(', ' + x for x in also), m['needs'].replace('|', '/').replace('\n', ' ')))
d = open(R + '/DESIGN.md').read()
d = re.sub(r'<!-- seedtable -->.*?<!-- /seedtable -->', lambda _: '<!-- seedtable -->\n' + '\n'.join(rows) + '\n<!-- /seedtable -->', d, flags=re.S)
open(R + '/DESIGN.md', 'w').write(d)
