"""The table of DESIGN.md: every planted bug, what it needs, and the check of its property (which catches it unless said)."""
import json, os, re, sys
root = os.path.join(os.path.dirname(__file__), '..')
missed = set(sys.argv[1:])
rows = ['| bug | what it needs to manifest | check |', '|---|---|---|']
for d in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| `{d}` | {m['needs']} | {m['property']}{' (missed)' if d in missed else ''} |".replace('||', '&#124;&#124;'))
p = f'{root}/DESIGN.md'
s = open(p).read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
