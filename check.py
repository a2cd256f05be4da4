#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR]

Decides one property of the repository by abstract interpretation of its byte code (nothing of the repository is
imported or run).  Exit 0: no violation found (undecided obligations are listed).  Exit 1: VIOLATION lines.
Exit 2: an anchor of the rules is gone or the analyser failed, so there is no answer."""
import argparse, json, os, sys, time
from multiprocessing import Pool

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, 'rules')]
sys.dont_write_bytecode = True

BUDGET = {'quick': 420, 'thorough': 780}
PER_TASK = {'quick': 150, 'thorough': 400}


def work(a):
    mod, fn, args, repo, deadline, per = a
    from sa.runner import run_spec, machine_for
    from sa.machine import AnchorError
    now = time.time()
    if now > deadline: return dict(task=(mod, fn, args), skipped=True)
    try:
        m, _ = machine_for(mod, repo)
        m.analysed = set(); m.sites = set()
        m.deadline = min(deadline, now + per)
        r = run_spec(mod, fn, args, repo)
        def name(c): return (os.path.relpath(c.co_filename, repo), c.co_qualname)
        return dict(task=(mod, fn, args), wall=r.wall, paths=r.paths, completed=r.completed, forks=r.forks, steps=r.steps, ok=dict(r.ok),
                    viol=[fmt(x) for x in dedupe(r.viol)], und=[(x.label, x.where, x.imp[0] if x.imp else '') for x in dedupe(r.und)],
                    inc=sorted(set(map(str, r.incomplete))), fns=sorted(m.analysed),
                    sites=sorted({name(c) + (ip,) for c, ip in m.sites if c.co_filename.startswith(repo)}))
    except AnchorError as e:
        return dict(task=(mod, fn, args), anchor=str(e))
    except RecursionError as e:
        return dict(task=(mod, fn, args), inc=['recursion limit of the analyser'], ok={}, viol=[], und=[], fns=[], sites=[], wall=0, paths=0, completed=0, forks=0, steps=0)
    except Exception as e:
        import traceback
        return dict(task=(mod, fn, args), error=f'{type(e).__name__}: {e}', tb=traceback.format_exc()[-1500:])


def dedupe(fs):
    seen = {}
    for f in fs: seen.setdefault((f.label, f.where), f)
    return list(seen.values())


def fmt(f):
    return dict(label=f.label, where=f.where, msg=str(f.msg)[:400], trace=[f'{a}: {b}' for a, b in f.trace[-40:]], stack=list(f.stack))


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if not line.startswith('known: '): continue
            head, _, text = line[7:].partition(' :: ')
            kv = dict(x.split('=', 1) for x in head.split(' | '))
            if kv.get('property') == prop: out.append((kv, text))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo'); ap.add_argument('--jobs', type=int, default=os.cpu_count() or 1)
    o = ap.parse_args()
    tier = 'thorough' if o.tier == 'thorough' else 'quick'
    t0 = time.time()
    import obligations
    from about import EXPLAIN
    if o.prop not in obligations.OBL:
        print(f'ERROR no rules for {o.prop}'); return 2
    todo = [x for x in obligations.OBL[o.prop] if x[0] == 'q' or tier == 'thorough']
    deadline = t0 + BUDGET[tier]
    tasks = [(mod, fn, args, o.repo, deadline, PER_TASK[tier]) for _, mod, fn, args in todo]
    # expensive configurations last, so that a time limit cuts those
    with Pool(max(1, min(o.jobs, len(tasks)))) as pool:
        res = list(pool.imap_unordered(work, tasks, chunksize=1 if len(tasks) < 200 else 4))
    anchors = [r for r in res if 'anchor' in r]
    errors = [r for r in res if 'error' in r]
    if anchors:
        print(f"ERROR property={o.prop} anchor lost: {anchors[0]['anchor']}"); return 2
    if len(errors) == len(res):
        print(f"ERROR property={o.prop} analyser failed: {errors[0]['error']}\n{errors[0]['tb']}"); return 2
    done = [r for r in res if 'ok' in r]
    skipped = [r for r in res if r.get('skipped')]
    labels, und, viol = {}, {}, {}
    for r in done:
        for k, v in r['ok'].items(): labels[k] = labels.get(k, 0) + v
        for x in r['und']: und.setdefault((x[0], x[1], x[2]), r['task'])
        for x in r['viol']: viol.setdefault((x['label'], x['where']), (r['task'], x))
        for x in r['inc']: und.setdefault(('analysis cut short', x, ''), r['task'])
    for r in errors: und.setdefault(('analyser error', r['error'], r['tb'].strip().splitlines()[-2].strip() if r.get('tb') else ''), r['task'])
    for r in skipped: und.setdefault(('not analysed (time)', '', ''), r['task'])
    discharged = sum(1 for r in done if not r['viol'] and not r['und'] and not r['inc'] and r['completed'])
    fns = sorted({tuple(f) for r in done for f in r['fns']})
    sites = sorted({tuple(s) for r in done for s in r['sites']})
    print(f"property {o.prop}: {len(done)} of {len(tasks)} obligations analysed, {discharged} discharged; "
          f"{len(labels)} rules applied at {sum(labels.values())} points on {sum(r['paths'] for r in done)} abstract paths; "
          f"{len(fns)} functions and {len(sites)} call sites of the repository covered")
    for f in sorted({f[0] for f in fns}):
        print(f"  analysed {f}: " + ', '.join(sorted({q for p, q in fns if p == f})))
    for (l, w, why), t in sorted(und.items(), key=repr)[:40]:
        print(f"UNDECIDED {l} | {w} | {why} | {t[0]}.{t[1]}{t[2]}")
    kf = known_findings(o.prop)
    reported = []
    rd = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(o.prop + '-'): os.remove(os.path.join(rd, f))
    hit = {}
    for (label, where), (task, x) in sorted(viol.items(), key=lambda y: repr(y[0])):
        match = [i for i, (kv, text) in enumerate(kf) if kv.get('label') == label and (not kv.get('spec') or kv['spec'] == f'{task[0]}.{task[1]}') and (not kv.get('where') or where.startswith(kv['where']))]
        if match:
            hit[match[0]] = True; continue
        reported.append((label, where, task, x))
    for i in sorted(hit):
        print(f"KNOWN-FINDING: property={o.prop} {kf[i][1]}")
    for n, (label, where, task, x) in enumerate(reported[:20]):
        p = os.path.join(rd, f'{o.prop}-{n + 1}.txt')
        with open(p, 'w', encoding='utf-8') as fh:
            fh.write(f"property {o.prop}\nrule     {label}\nat       {where}\ndetail   {x['msg']}\nconfiguration {task[0]}.{task[1]}{task[2]}\n\ncall stack in the repository:\n")
            fh.writelines(f'  {s}\n' for s in x['stack'])
            fh.write('\ndecisions on the path:\n'); fh.writelines(f'  {s}\n' for s in x['trace'])
        print(f"rule violated: {label}\n  at {where}\n  {x['msg'][:200]}")
        rep = [s for s in x['trace'] if not s.startswith(HERE)]
        for s in rep[-5:]: print(f'    {s}')
        print(f'VIOLATION property={o.prop} replay={p}')
    wall = time.time() - t0
    exp = EXPLAIN.get(o.prop, '')
    if exp: exp = f'Analysed: {exp[0]} Oracle: {exp[1]} Bounds: {exp[2]}'
    ev = dict(property=o.prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', wall_s=round(wall, 2),
              coverage=dict(explanation='Abstract interpretation of the byte code of the repository, driven by specifications. ' + exp,
                            obligations=len(tasks), discharged=discharged, undecided=len(und), abstract_paths=sum(r['paths'] for r in done),
                            rules={k: v for k, v in sorted(labels.items())}, functions_analysed=[f'{a}:{b}' for a, b in fns], call_sites=len(sites),
                            branch_decisions=sum(r['forks'] for r in done), instructions=sum(r['steps'] for r in done),
                            samples=[f"{r['task'][0]}.{r['task'][1]}{r['task'][2]}: {r['paths']} paths, {sum(r['ok'].values())} checks" for r in done[:5]]),
              assumptions=['library behaviour as modelled in sa/stubs and sa/builtins_model.py', 'number of groups and sub-collections bounded as listed in rules/obligations.py'],
              violations=[f'{l} at {w}' for l, w, _, _ in reported])
    if not labels and not reported:
        print(f'ERROR property={o.prop} nothing was decided'); return 2
    with open(os.path.join(HERE, 'evidence', f'{o.prop}.json'), 'w', encoding='utf-8') as fh: json.dump(ev, fh, indent=1)
    print(f'{o.prop}: {"VIOLATED" if reported else "no violation"} ({wall:.1f} s)')
    return 1 if reported else 0


if __name__ == '__main__':
    sys.exit(main())
