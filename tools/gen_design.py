"""Composes DESIGN.md from tools/design_text.md, rules/about.py, rules/obligations.py, specs/*.pys, known_findings.txt and seeded/*/meta.json."""
import ast, collections, glob, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'rules'))
import obligations, about
doc = {}
for f in glob.glob(os.path.join(H, 'specs', '*.pys')):
    m = os.path.basename(f)[:-4]
    for n in ast.parse(open(f, encoding='utf-8').read()).body:
        if isinstance(n, ast.FunctionDef): doc[m, n.name] = (ast.get_docstring(n) or '').split('\n')[0]
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'), encoding='utf-8')]
cost = {}
for p in props:
    try: cost[p['id']] = json.load(open(os.path.join(H, 'tools', 'cost.json')))[p['id']]
    except (OSError, KeyError): pass
seeds = collections.defaultdict(list)
for f in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f)); seeds[m['property']].append((os.path.basename(os.path.dirname(f)), m))
out = [open(os.path.join(H, 'tools', 'design_text.md'), encoding='utf-8').read().rstrip(), '', '## The properties', '']
for p in props:
    i = p['id']
    out.append(f"### {i}: {p['title']}"); out.append('')
    if i not in obligations.OBL:
        out += ['Not applicable: ' + about.NA[i], '']; continue
    what, oracle, bounds = about.EXPLAIN[i]
    c = collections.OrderedDict()
    for tier, m, f, a in obligations.OBL[i]:
        c.setdefault((m, f), [0, 0]); c[m, f][tier != 'q'] += 1
    out += [f'* Analysed: {what}', f'* Oracle: {oracle}', f'* Bounds: {bounds}' + (f' Cost: {cost[i]}.' if i in cost else '')]
    out.append('* Obligations (quick + additional thorough): ' + '; '.join(
        f"`{m}.{f}` {q}" + (f'+{t}' if t else '') + (f' ({doc[m, f]})' if doc.get((m, f)) else '') for (m, f), (q, t) in c.items()))
    if seeds[i]:
        out.append('* Planted bugs: ' + '; '.join(f"{n} ({m.get('caught', 'caught')}): {m['what_it_breaks']}" for n, m in seeds[i]))
    out.append('')
open(os.path.join(H, 'DESIGN.md'), 'w', encoding='utf-8').write('\n'.join(out) + '\n')
