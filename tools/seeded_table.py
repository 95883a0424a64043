"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
START, END = '<!-- planted -->\n', '<!-- /planted -->\n'
rows = ['| bug | caught by | what it breaks |\n', '|---|---|---|\n']
for path in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    with open(path) as f:
        meta = json.load(f)
    name = os.path.basename(os.path.dirname(path))
    rows.append('| %s | %s | %s |\n' % (name, meta['property'], meta['what_it_breaks']))
path = os.path.join(HERE, 'DESIGN.md')
with open(path) as f:
    text = f.read()
head, rest = text.split(START)
with open(path, 'w') as f:
    f.write(head + START + ''.join(rows) + END + rest.split(END)[1])
