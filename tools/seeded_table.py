#!/usr/bin/env python3
"""seeded_table.py [planting logs...]: keeps tools/seeded_results.json (which parts of which check caught a planted
change) and writes the table in DESIGN.md between its markers."""
import glob, json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res_f = here + '/tools/seeded_results.json'
res = json.load(open(res_f)) if os.path.exists(res_f) else {}
for log in sys.argv[1:]:
    for block in open(log).read().split('===== ')[1:]:
        name = block.split()[0]
        if 'CHECK rc 1' in block or 'CHECK rc 0' in block:
            prop = name.split('-')[0]
            subs = []
            lines = block.splitlines()
            for i, l in enumerate(lines):
                if l.startswith('VIOLATION') and i:
                    m = re.match(r'\[([^\]]+)\]', lines[i - 1])
                    if m and m.group(1) not in subs:
                        subs.append(m.group(1))
            res[name] = subs if 'CAUGHT' in block else []
res = {k: v for k, v in sorted(res.items()) if os.path.isdir(f'{here}/seeded/{k}')}
json.dump(res, open(res_f, 'w'), indent=1)
rows = ['| planted change | what it breaks | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(here + '/seeded/*/meta.json')):
    k = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    by = res.get(k)
    by = 'not run' if by is None else (f"{m['property']}: " + ', '.join(by) if by else 'missed')
    rows.append(f"| {k} | {m['what_it_breaks']} | {m['needs']} | {by} |".replace('\n', ' '))
p = here + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeded -->\n', '<!-- /seeded -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n' + '\n'.join(rows) + '\n\n' + s[j:])
