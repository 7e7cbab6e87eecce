"""Rewrite the table of planted bugs in DESIGN.md (run by hand; no check reads seeded/)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    s = lambda x: re.sub(r'\s+', ' ', str(x)).replace('|', '/')
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {s(m['needs'])} | {s(m.get('caught_by', 'check ' + m['property']))} |")
p = root + '/DESIGN.md'
t = open(p).read().replace('@@BUGS@@', '<!-- bugs --><!-- /bugs -->')
t = re.sub(r'<!-- bugs -->.*?<!-- /bugs -->', lambda _: '<!-- bugs -->\n' + '\n'.join(rows) + '\n<!-- /bugs -->', t, flags=re.S)
open(p, 'w').write(t)
