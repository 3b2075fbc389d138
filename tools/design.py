"""python3 tools/design.py: writes DESIGN.md from tools/design_head.md, the catalogue, the META of the checks, and the planted changes."""
import ast, json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / 'tools'))
from catalogue import P
from design_text import HOW, NOTES

out = [(ROOT / 'tools/design_head.md').read_text().rstrip(), '']


def meta(id):
    tree = ast.parse((ROOT / f"props/{id.lower()}.py").read_text())
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', None) == 'META':
            return ast.literal_eval(n.value)
    return {}


seeds = {}
for d in sorted((ROOT / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    seeds.setdefault(m['property'], []).append((d.name, m))

out += ['## Properties', '']
for p in P:
    out += [f"### {p['id']} {p['title']}", '']
    if not (ROOT / f"props/{p['id'].lower()}.py").exists():
        out += ['Not applicable: ' + p['reason'] + '.', '']
        continue
    how, cost = HOW[p['id']]
    m = meta(p['id'])
    out += ['- **How**: ' + how, '- **Bounds**: ' + m['bounds'] + '.']
    if m.get('outside'):
        out += ['- **Outside**: ' + '; '.join(m['outside']) + '.']
    if m.get('assumptions'):
        out += ['- **Assumed**: ' + '; '.join(m['assumptions']) + '.']
    out += ['- **Why tests cannot**: ' + p['tests'] + '.', f"- **Cost** (quick, 8 cores): {cost}."]
    if seeds.get(p['id']):
        out += ['- **Planted changes caught**: ' + ', '.join(n for n, _ in seeds[p['id']]) + '.']
    out += ['']

out += [NOTES.strip(), '', '## Planted changes', '', 'Each is caught by the quick check of its property unless it says otherwise (`bash tools/catch.sh ID`).', '',
        '| id | property | needs |', '|---|---|---|']
for ps in seeds.values():
    for n, m in ps:
        out.append(f"| {n} | {m['property']} | {m['needs']} |")
(ROOT / 'DESIGN.md').write_text('\n'.join(out) + '\n')
