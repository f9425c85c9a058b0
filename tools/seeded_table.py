'''Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (every one of them is caught by the check of its property unless said otherwise there).'''
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((V/'seeded').iterdir()):
    m = json.loads((d/'meta.json').read_text())
    rows.append(f'| {d.name} | {m["property"]} | {m["needs"]} | {m["what_it_breaks"]} |'.replace('\n', ' '))
table = '| id | caught by | needs | breaks |\n|---|---|---|---|\n' + '\n'.join(rows)
t = (V/'DESIGN.md').read_text()
a = t.index('<!-- table -->') if '<!-- table -->' in t else None
if a is None: t = t.replace('SEEDED_TABLE', '<!-- table -->\n<!-- end -->')
t = re.sub(r'<!-- table -->.*<!-- end -->', lambda _: f'<!-- table -->\n{table}\n<!-- end -->', t, flags = re.S)
(V/'DESIGN.md').write_text(t)
