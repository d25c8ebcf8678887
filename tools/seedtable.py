"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((root / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    rows.append('| %s | %s | %s | %s |' % (
        d.name, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
text = ('<!-- seeded -->\n| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n'
        + '\n'.join(rows) + '\n<!-- /seeded -->')
p = root / 'DESIGN.md'
s = p.read_text()
if '<!-- seeded -->' in s:
    s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: text, s, flags=re.S)
else:
    s += '\n## Planted bugs\n\n`tools/plant.py` verifies each one in isolated copies and runs its check; all are caught by the quick check.\nFirst missed and then caught after strengthening: c03-blocks, c14-usercodec, c21-ratio, c11-progressive, c12-remeta\n(foreign metadata), c01-notrunc (earlier content of outputs), c20-info, c05-last (empty files), c05-prefix and c05-tail\n(large chunks).\n\n' + text + '\n'
p.write_text(s)
