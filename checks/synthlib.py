"""Drive tulip's GR(1) synthesis and record what it returns."""
import contextlib
import io
import logging

import ltl
import vp
from tulip import spec as tspec
from tulip import synth
from tulip.interfaces import gr1c
from tulip.interfaces import omega as omega_int

logging.disable(logging.CRITICAL)
QI = dict(AA=r'\A \A', AE=r'\A \E', EE=r'\E \E', EA=r'\E \A')


LOST = [False]


def _watch_gr1py():
    """gr1py 0.4 can merge an initial node into an equal non-initial one and so lose

    the initial flag: note such strategies of this third-party solver, to not judge them.
    """
    import gr1py.solve as gs
    synthesize, initial = gs.synthesize, gs.get_initial_states
    seen = list()

    def note(*a, **kw):
        r = initial(*a, **kw)
        seen.append(len(r or ()))
        return r

    def wrapped(*a, **kw):
        seen.clear()
        g = synthesize(*a, **kw)
        if g is not None and seen:
            n = sum(bool(d['initial']) for _, d in g.nodes(data=True))
            LOST[0] = n < seen[-1]
        return g
    gs.get_initial_states, gs.synthesize = note, wrapped


_watch_gr1py()


def grspec(g, vs):
    f = lambda k: [ltl.render(x, vs) for x in g[k]]
    s = tspec.GRSpec(
        vs.tulip('env'), vs.tulip('sys'),
        f('ei'), f('si'), f('es'), f('ss'), f('ep'), f('sp'))
    s.moore = g['moore']
    s.plus_one = g['plus_one']
    s.qinit = QI[g['qinit']]
    return s


def machine(ctrl, vs):
    """Mealy machine -> record for GR1.tla."""
    ix = {u: k for k, u in enumerate(ctrl.states(), 1)}
    names = [d['name'] for d in vs.d]
    edges = list()
    for u, v, d in ctrl.transitions(data=True):
        val = [vs.decode(k, d[n]) if n in d else 99 for k, n in enumerate(names)]
        edges.append(dict(a=ix[u], b=ix[v], val=val))
    return dict(n=len(ix), init=sorted(ix[u] for u in ctrl.states.initial), edges=edges)


def quiet(fn, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return vp.guarded(fn, *a, seconds=60, **kw)


def runs(g, vs, solver, rmdead=(False,), make=None):
    """Realizability and synthesis of `g` with `solver`."""
    make = make or (lambda: grspec(g, vs))
    out = list()
    r = quiet(lambda: synth.is_realizable(make(), solver=solver))
    if r[0] == 'ok':
        out.append(dict(kind='real', ans=bool(r[1]), solver=solver, rmdead=False))
    else:
        out.append(dict(kind='exc_real', what=f'is_realizable {r[1]}: {r[2]}', solver=solver))
    for rm in rmdead:
        LOST[0] = False
        r = quiet(lambda: synth.synthesize(make(), solver=solver, rm_deadends=rm))
        if solver == 'gr1py' and (LOST[0] or r[:2] == ('exc', 'Timeout')):
            # gr1py 0.4 can also fail to terminate
            continue
        if r[0] != 'ok':
            out.append(dict(kind='exc_synth', what=f'synthesize {r[1]}: {r[2]}', solver=solver))
        elif r[1] is None:
            out.append(dict(kind='none', solver=solver, rmdead=rm))
        else:
            out.append(dict(kind='synth', solver=solver, rmdead=rm, mach=machine(r[1], vs)))
    return out


def loaded(g, vs):
    """Synthesis where the solver does not report which nodes of the strategy are initial (as `gr1c` and `slugs`)."""
    called = list()

    def strategy(specs):
        called.append(specs)
        a = omega_int.synthesize_enumerated_streett(specs)
        if a is not None:
            del a.initial_nodes
        return a
    before = gr1c.synthesize
    gr1c.synthesize = strategy
    try:
        r = quiet(lambda: synth.synthesize(grspec(g, vs), solver='gr1c', rm_deadends=False))
    finally:
        gr1c.synthesize = before
    if not called:
        # the stand-in for the solver is not used
        return []
    if r[0] == 'ok' and r[1] is not None:
        return [dict(kind='synth', solver='gr1c', rmdead=False, mach=machine(r[1], vs))]
    return [] if r[0] == 'ok' else [dict(kind='exc_synth', what=f'synthesize {r[1]}: {r[2]}', solver='gr1c')]


def gr1py_supports(g, vs):
    # the gr1c language of gr1py has no arithmetic, nor comparison of two variables, and gr1py only this quantification
    fs = [f for k in ('ei', 'si', 'es', 'ss', 'ep', 'sp') for f in g[k]]
    return (not g['moore'] and not g['plus_one'] and g['qinit'] == 'AE' and
            all(d['lo'] == 0 for d in vs.d) and
            not any({'add', 'sub'} & ltl.ops_used(f) or ltl.compares_variables(f) for f in fs))


BOOL2 = ltl.Vars([ltl.decl('x', 'env', 'bool'), ltl.decl('y', 'sys', 'bool')])


def random_spec(rng):
    """Specification over 1..2 environment and 1..2 system variables of mixed domains."""
    doms = ['bool', 'bool', (0, 2), (1, 3), (-1, 1), (0, 1), (2, 2), (3, 8), ['a', 'b', 'c'], ['b', 'c', 'a'],
            ['q', 'p'], ['p', 'q'], ['only']]
    names = rng.choice([('e0', 'e1', 's0', 's1'), ('u', 'key', 'v', 'check'), ('x', 'xx', 'y', 'xy'), ('loc', 'state', 'data', 'n')])
    while True:
        ne, ns = rng.choice([(1, 1), (1, 1), (1, 2), (2, 1), (0, 1), (0, 2)])
        ds = [ltl.decl(names[k], 'env', rng.choice(doms)) for k in range(ne)]
        ds += [ltl.decl(names[2 + k], 'sys', rng.choice(doms)) for k in range(ns)]
        vs = ltl.Vars(ds)
        size = 1
        for d in ds:
            size *= d['hi'] - d['lo'] + 1
        if size <= 18:
            break
    gen = ltl.Gen(rng, vs)
    E = list(range(1, ne + 1))
    S = list(range(ne + 1, ne + ns + 1))
    A = E + S

    def some(n, cur, nxt, depth):
        return [gen.formula(cur, nxt, rng.randint(1, depth)) for _ in range(rng.choice(n))]
    q = rng.choice(['AE', 'AE', 'AA', 'EE', 'EA'])
    g = dict(
        vars=vs.tla(),
        es=some([0, 1, 1, 2], A, E, 2) if E else [],
        ss=some([0, 1, 1, 2], A, A, 2),
        ep=some([0, 0, 1, 2], A, [], 1),
        sp=some([0, 1, 1, 2], A, [], 2),
        moore=rng.random() < .5, plus_one=rng.random() < .5, qinit=q,
        ei=dict(AE=lambda: some([0, 1], E, [], 1) if E else [],
                EA=lambda: some([0, 1], E, [], 1) if E else [],
                AA=lambda: some([1, 1, 2], A, [], 2), EE=lambda: [])[q](),
        si=[] if q == 'AA' else some([0, 1, 1], A, [], 1))
    return g, vs
