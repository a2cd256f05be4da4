"""Runs specifications (specs/*.pys) with the abstract machine."""
import os, sys, time
from .machine import Machine, AnchorError
from .values import *
from .spec_rt import Record, Finding


class SpecResult:
    pass


_MACH = {}
def machine_for(mod, repo='/repo'):
    """abstract machine with the specification module (and everything it imports) loaded"""
    key = (mod, repo)
    if key not in _MACH:
        m = Machine(repo)
        m.load(mod)
        _MACH[key] = (m, dict(m.choices))
    return _MACH[key]


def conv(m, st, v):
    if isinstance(v, tuple): return m.mktuple(st, [conv(m, st, x) for x in v])
    if isinstance(v, list): return m.mklist(st, [conv(m, st, x) for x in v])
    if isinstance(v, dict): return m.mkdict(st, [(k, conv(m, st, x)) for k, x in v.items()])
    return v


def run_spec(mod, fn, args=(), repo='/repo', verbose=False):
    m, ch = machine_for(mod, repo)
    m.choices = dict(ch)
    m.incomplete = []; m.unmodelled = {}; m.rec = Record(); m.spec_name = f'{mod}.{fn}{tuple(args)!r}'
    m.forkcount = 0; m.dropped = 0
    t = time.time(); n0 = m.total
    f = m.mod_attr(m.st0, mod, fn)
    st = m.st0.fork()
    a = [conv(m, st, x) for x in args]
    outs = m.call_outcomes(st, f, a)
    for o in outs:
        if o.kind == 'exc':
            exc = o.val
            name = m.exc_name(o.st, exc)
            fnd = Finding(m.spec_name, f'no unexpected {name}', m.show_exc(o.st, exc), o.st.rd(exc).d.get('%origin', '?'), o.st.trace, [], o.st.imp)
            (m.rec.und if o.st.imp else m.rec.viol).append(fnd)
    r = SpecResult()
    r.name = m.spec_name; r.ok = m.rec.ok; r.viol = m.rec.viol; r.und = m.rec.und
    r.incomplete = list(m.incomplete); r.paths = len(outs); r.steps = m.total - n0; r.forks = m.forkcount
    r.wall = time.time() - t
    r.completed = sum(1 for o in outs if o.kind == 'ret')
    return r
