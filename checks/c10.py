"""C10: labeled graphs keep states, transitions and labels consistent."""
import concurrent.futures as cf
import copy
import json
import os
import random

import graphlib as gl
import vp
from tulip.transys import automata, transys as ts_mod

KINDS = gl.kinds()
MC = '''
CONSTANTS MaxLen={maxlen} Stride=1 Offset=0
INIT Init
NEXT Next
VIEW View
INVARIANT {inv}
CHECK_DEADLOCK FALSE
'''


def values(t, rng=None):
    """Valid values of a label type (as sequences of atoms)."""
    if t.power:
        return [[], list(t.dom)]
    return [[x] for x in t.dom]


def full(types, pick):
    return [[k, values(t)[pick % len(values(t))]] for k, t in enumerate(types, 1)]


def alphabet(kd):
    A = list()
    nl = [full(kd.nt, 0), full(kd.nt, 1)] if kd.nt else [[]]
    el = [full(kd.et, 0), full(kd.et, 1)] if kd.et else [[]]
    if kd.et and el[0] == el[1]:
        el = el[:1]
    for s in ('a', 'b'):
        for l in nl:
            A.append(dict(op='node', s=s, l=l))
    for u, v in (('a', 'b'), ('b', 'a')):
        for l in el:
            A.append(dict(op='edge', a=u, b=v, l=l))
    A.append(dict(op='edge', a='b', b='b', l=el[0]))
    A.append(dict(op='edge', a='a', b='z', l=el[0]))
    for k, t in enumerate(kd.et, 1):
        if not t.any:
            A.append(dict(op='edge', a='a', b='b', l=[x if x[0] != k else [k, [t.bad[0]]] for x in el[0]]))
    A.append(dict(op='edge', a='a', b='b', l=[[0, ['v']]] + el[0]))
    for k, t in enumerate(kd.nt, 1):
        A.append(dict(op='node', s='b', l=[x if x[0] != k else [k, [t.bad[0]]] for x in nl[0]]))
        A.append(dict(op='relabel', s='a', k=k, v=values(t)[-1]))
        A.append(dict(op='relabel', s='a', k=k, v=[t.bad[0]]))
    A.append(dict(op='node', s='a', l=[[0, ['v']]] + nl[0]))
    A += [dict(op='rmnode', s='a'), dict(op='rmnode', s='b')]
    A.append(dict(op='rmedge', a='a', b='b', l=el[-1]))
    A.append(dict(op='rmedges', a='a', b='b'))
    A.append(dict(op='rmedges', a='b', b='a'))
    A += [dict(op='init+', ss=['a']), dict(op='init+', ss=['a', 'b']), dict(op='init-', s='a')]
    if kd.acc:
        A += [dict(op='acc+', ss=['a', 'b']), dict(op='acc+', ss=['b']), dict(op='acc-', s='b')]
    for (g, k) in kd.growers:
        t = (kd.nt if g == 'nval' else kd.et)[k - 1]
        if t.grow:
            A.append(dict(op=g, k=k, v=t.grow))
    A.append(dict(op='deadends'))
    return A


def rnd_value(t, rng, bad=.04, dom=None):
    dom = dom or t.dom
    if rng.random() < bad:
        b = rng.choice(t.bad)
        return sorted([b] + [x for x in dom if rng.random() < .4]) if t.power else [b]
    if t.power:
        return sorted(x for x in dom if rng.random() < .5)
    return [rng.choice(dom)]


def rnd_label(types, rng, partial, doms):
    l = list()
    for k, t in enumerate(types, 1):
        if t.default is None and rng.random() < partial:
            continue
        if t.default is not None and partial and rng.random() < .4:
            continue
        l.append([k, rnd_value(t, rng, dom=doms[k - 1])])
    if rng.random() < .02:
        l = [[0, ['v']]] + l
    return l


def wanted(types, rng, l, doms):
    """Label to search for, given one that occurs."""
    out = list()
    for k, v in l:
        t = types[k - 1] if 0 < k <= len(types) else None
        if t and t.guard:
            v = [x for x in v if rng.random() < .6]
        elif t and rng.random() < .1:
            v = rnd_value(t, rng, 0, doms[k - 1])
        out.append([k, v])
    return out


def rnd_queries(kd, rng, x, doms, edoms):
    S = x['V'] or []
    some = lambda: [s for s in S if rng.random() < .5]
    q = [dict(q='counts'), dict(q='terminal'), dict(q='deadends'), dict(q='consistent'), dict(q='post0')]
    q = [r for r in q if rng.random() < .4]
    q += [dict(q='post', **{'from': some()}), dict(q='pre', **{'from': some()})]
    if S:
        q += [dict(q='fwd', s=rng.choice(S)), dict(q='bwd', s=rng.choice(S))]
    af, at = rng.random() < .5, rng.random() < .5
    labs = [l for l in x['L'] if l]
    al = not labs or rng.random() < .3
    q.append(dict(q='states', anyfrom=af, anylab=al, l=[] if al else wanted(kd.nt, rng, rng.choice(labs), doms), **{'from': some()}))
    labs = [e[2] for e in x['E'] if e[2]]
    al = not labs or rng.random() < .3
    q.append(dict(q='edges', anyfrom=rng.random() < .5, anyto=at, anylab=al,
                  l=[] if al else wanted(kd.et, rng, rng.choice(labs), edoms), to=some(), **{'from': some()}))
    if kd.player:
        q.append(dict(q='player', k=kd.player, v=[rng.choice('01')]))
    return q


def rnd_op(kd, rng, x, names, doms, edoms):
    """Random operation, given the latest observation."""
    V = x['V']
    u, v = rng.choice(names), rng.choice(names)
    if V and rng.random() < .8:
        u = rng.choice(V)
        v = rng.choice(V)
    between = [e for e in x['E'] if e[0] == u and e[1] == v]

    def node(s):
        return dict(op='node', s=s, l=rnd_label(kd.nt, rng, 0 if s in V else .3, doms))

    def edge(u, v):
        l = rnd_label(kd.et, rng, .2, edoms)
        if not l and kd.et and not any(t.default for t in kd.et) and any(e[:2] == [u, v] and e[2] for e in x['E']):
            # unlabeled next to labeled edges: documented as unsupported, unspecified here
            l = [[k, rnd_value(t, rng, 0, edoms[k - 1])] for k, t in enumerate(kd.et, 1)]
        return dict(op='edge', a=u, b=v, l=l)
    r = rng.random()
    if r < .17 or not V:
        return node(rng.choice(names))
    if r < .45:
        return edge(u, v)
    if r < .50:
        return dict(op='rmnode', s=u if rng.random() < .9 else 'z')
    if r < .56 and between:
        e = rng.choice(between)
        if e[2]:
            return dict(op='rmedge', a=u, b=v, l=e[2])
        return dict(op='rmedges', a=u, b=v)
    if r < .59:
        return dict(op='rmedges', a=u, b=v)
    if r < .61 and kd.et:
        return dict(op='rmedge', a=u, b=v, l=[[k, rnd_value(t, rng, 0)] for k, t in enumerate(kd.et, 1)])
    if r < .67:
        return dict(op='init+', ss=sorted({u, v} | ({'z'} if rng.random() < .1 else set())))
    if r < .71:
        return dict(op='init-', s=u)
    if r < .76 and kd.acc:
        return dict(op='acc+', ss=sorted({u, v} | ({'z'} if rng.random() < .1 else set())))
    if r < .79 and kd.acc:
        return dict(op='acc-', s=u)
    if r < .84 and kd.nt and V:
        k = rng.randrange(len(kd.nt))
        return dict(op='relabel', s=rng.choice(V), k=k + 1, v=rnd_value(kd.nt[k], rng, .2, doms[k]))
    if r < .86 and kd.growers:
        g, k = rng.choice(sorted(kd.growers))
        t = (kd.nt if g == 'nval' else kd.et)[k - 1]
        if t.grow:
            return dict(op=g, k=k, v=t.grow)
    if r < .87 and V:
        pw = [(s, k) for s, l in zip(V, x['L']) for k, v in l
              if k < 99 and kd.nt[k - 1].power]
        if pw:
            s, k = rng.choice(pw)
            return dict(op='mut', s=s, k=k, v=rng.choice(doms[k - 1]))
    if r < .88:
        return dict(op='deadends')

    def share(ops, types, doms):
        """Give some labels to all elements of a bulk operation; own labels take precedence."""
        com = [] if rng.random() < .5 else [
            [k, rnd_value(t, rng, 0, doms[k - 1])] for k, t in enumerate(types, 1)
            if rng.random() < .5 and not t.power]
        for q in ops:
            q['own'] = q['l']
            have = [k for k, _ in q['l']]
            q['l'] = sorted(q['l'] + [y for y in com if y[0] not in have])
        return dict(ops=ops, common=com)
    if r < .90:
        ns = rng.sample(names, 2)
        return dict(op='bulk', how='nodes', **share([node(s) for s in ns], kd.nt, doms))
    if r < .92:
        return dict(op='bulk', how='rmnodes', ops=[dict(op='rmnode', s=s) for s in rng.sample(names, 2)])
    if r < .94:
        if rng.random() < .5 and len(x['E']) > 1:
            ops = list()
            for a, b, l in rng.sample(x['E'], rng.choice([2, min(3, len(x['E']))])):
                if l and rng.random() < .9:
                    ops.append(dict(op='rmedge', a=a, b=b, l=l))
                else:
                    ops.append(dict(op='rmedges', a=a, b=b))
            return dict(op='bulk', how='rmedges', ops=ops)
        prs = rng.sample([(a, b) for a in V for b in V], min(2, len(V)))
        return dict(op='bulk', how='edges', **share([edge(*p) for p in prs], kd.et, edoms))
    if r < .98:
        # add_comb and add_adj give one label to all edges
        us = rng.sample(V, min(len(V), 2))
        if r < .96:
            vs = rng.sample(V, min(len(V), 2))
            prs = [(a, b) for a in us for b in vs]
            extra = dict(how='comb', us=us, vs=vs)
        else:
            ix = [(p, q) for p in range(len(us)) for q in range(len(us)) if rng.random() < .6]
            prs = [(us[p], us[q]) for p, q in ix]
            extra = dict(how='adj', us=us, pairs=ix)
        l = [[k, rnd_value(t, rng, .05, edoms[k - 1])] for k, t in enumerate(kd.et, 1)]
        return dict(op='bulk', l=l, ops=[dict(op='edge', a=a, b=b, l=l) for a, b in prs], **extra)
    return edge(u, v)


def random_history(item):
    kname, seed, length = item
    kd = next(k for k in KINDS if k.name == kname)
    rng = random.Random(seed)
    names = rng.sample(['a', 'b', 'c', 'd', 'e', 'f'], rng.choice([3, 4, 5]))
    g = kd.make()
    doms = [list(t.dom) for t in kd.nt]
    edoms = [list(t.dom) for t in kd.et]
    steps = list()
    x = gl.observe(kd, g, True, None, [], 0)
    for n in range(length):
        o = rnd_op(kd, rng, x, names, doms, edoms)
        style = rng.randrange(1000)
        ok = gl.do(kd, g, o, style)
        if ok and o['op'] in ('nval', 'eval'):
            d = (doms if o['op'] == 'nval' else edoms)[o['k'] - 1]
            if o['v'] not in d:
                d.append(o['v'])
        x = gl.observe(kd, g, ok, o, [], 0)
        qs = rnd_queries(kd, rng, x, doms, edoms) if rng.random() < .5 else []
        x = gl.observe(kd, g, ok, o, qs, style)
        steps.append(x)
        if o['op'] == 'deadends' and not ok:
            break
    return dict(cfg=kd.cfg(), kind=kname, hist=steps, branches=[])


def replay(item):
    """One TLC-generated history, followed by each operation of the alphabet."""
    kname, hist, A, seed = item
    kd = next(k for k in KINDS if k.name == kname)
    rng = random.Random(seed)

    def build():
        g = kd.make()
        oks = [gl.do(kd, g, o, j) for j, o in enumerate(hist)]
        return g, all(oks)
    branches = list()
    for o in A:
        g, ok0 = build()
        style = rng.randrange(1000)
        ok = gl.do(kd, g, o, style)
        if not ok0:
            ok = None
        x = gl.observe(kd, g, ok, o, [], 0)
        if rng.random() < .3:
            x = gl.observe(kd, g, ok, o, rnd_queries(kd, rng, x, [t.dom for t in kd.nt], [t.dom for t in kd.et]), style)
        branches.append(x)
    # the generated history itself, observed at its end only
    g, ok0 = build()
    h = list()
    g2 = kd.make()
    for j, o in enumerate(hist):
        ok = gl.do(kd, g2, o, j)
        h.append(gl.observe(kd, g2, ok, o, [], j))
    return dict(cfg=kd.cfg(), kind=kname, hist=h, branches=branches)


def constructed(item):
    """tuple2fts, tuple2ba, line_labeled_with, cycle_labeled_with against the operations they stand for."""
    what, seed = item
    rng = random.Random(seed)
    kd = next(k for k in KINDS if k.name == ('BuchiAutomaton' if what.startswith('ba') else 'FTS'))
    kd = copy.copy(kd)
    cfg = kd.cfg()
    for t in cfg['nt'] + cfg['et']:
        t['dom'] = []
    if what == 'ba-plain':
        kd.et = [gl.Type('letter', [])]
        cfg['et'] = [kd.et[0].tla()]
    n = rng.randint(1, 4)
    prefix = rng.choice([None, 's'])
    names = [f'n{k}' for k in range(n)]
    if what in ('line', 'cycle'):
        m = rng.choice([0, 2]) if what == 'line' else 0
        names = [f's{m + k}' for k in range(n)]
    py = (lambda s: s[1:]) if prefix else (lambda s: s)
    if prefix and what not in ('line', 'cycle'):
        names = ['s' + s for s in names]
    pairs = [(a, b) for a in names for b in names]
    ops = list()
    if what == 'fts':
        AP = rng.sample(['p', 'q', 'home'], rng.randint(0, 3))
        lab = {s: sorted(x for x in AP if rng.random() < .5) for s in names}
        Act = rng.choice([None, ['x'], ['x', 'yy']])
        E = rng.sample(pairs, rng.randint(0, len(pairs)))
        act = [rng.choice(Act) if Act else None for _ in E]
        S0 = [s for s in names if rng.random() < .4]
        form = rng.choice(['pairs', 'list', 'none', 'strings'])
        if form == 'strings':
            lab = {s: [rng.choice(AP)] if AP else [] for s in names}
        if form == 'pairs':
            L = [(py(s), set(lab[s])) for s in names]
        elif form == 'list':
            L = [set(lab[s]) if lab[s] else rng.choice([None, set()]) for s in names]
        elif form == 'strings':
            L = [lab[s][0] if lab[s] else None for s in names]
        else:
            L = None
            lab = {s: [] for s in names}
        trans = [(py(a), py(b), x) if Act else (py(a), py(b)) for (a, b), x in zip(E, act)]
        make = lambda: ts_mod.tuple2fts([py(s) for s in names], [py(s) for s in S0], AP, L, Act, trans, prepend_str=prefix)
        ops += [dict(op='nval', k=1, v=x) for x in AP] + [dict(op='eval', k=2, v=x) for x in Act or []]
        ops += [dict(op='node', s=s, l=[[1, lab[s]]]) for s in names]
        ops += [dict(op='edge', a=a, b=b, l=[[2, [x]]] if x else []) for (a, b), x in zip(E, act)]
    elif what in ('line', 'cycle'):
        S0 = []
        L = [rng.choice([None, {'p'}, {'p', 'q'}, 'p', 'home', {'home'}]) for _ in names]
        enc = lambda x: [] if x is None else ([x] if isinstance(x, str) else sorted(x))
        ops += [dict(op='nval', k=1, v=x) for x in ('p', 'q', 'home')]
        ops += [dict(op='node', s=s, l=[[1, enc(x)]]) for s, x in zip(names, L)]
        ops += [dict(op='edge', a=a, b=b, l=[]) for a, b in zip(names, names[1:])]
        if what == 'cycle':
            ops.append(dict(op='edge', a=names[-1], b=names[0], l=[]))
            make = lambda: ts_mod.cycle_labeled_with(L)
        else:
            make = lambda: ts_mod.line_labeled_with(L, m)
    else:
        AP = rng.sample(['p', 'q', 'home'], rng.randint(1, 3))
        S0 = [s for s in names if rng.random() < .4]
        Sa = [s for s in names if rng.random() < .4]
        E = [(a, b, sorted(x for x in AP if rng.random() < .5) if what == 'ba' else [rng.choice(AP)])
             for a, b in rng.sample(pairs, rng.randint(0, len(pairs)))]
        trans = [(py(a), py(b), (set(x) or None) if what == 'ba' else x[0]) for a, b, x in E]
        make = lambda: automata.tuple2ba(
            [py(s) for s in names], [py(s) for s in S0], [py(s) for s in Sa], set(AP), trans,
            prepend_str=prefix, atomic_proposition_based=what == 'ba')
        ops += [dict(op='eval', k=1, v=x) for x in AP]
        ops += [dict(op='node', s=s, l=[]) for s in names]
        ops += [dict(op='edge', a=a, b=b, l=[[1, x]]) for a, b, x in E]
        ops.append(dict(op='acc+', ss=Sa))
    ops.append(dict(op='init+', ss=S0))
    o = dict(op='bulk', how=what, ops=ops)
    r = vp.guarded(make)
    if r[0] != 'ok':
        x = gl.observe(kd, kd.make(), False, o, [], 0)
    else:
        g = r[1]
        x = gl.observe(kd, g, True, o, [], 0)
        if what in ('line', 'cycle') and rng.random() < .5:
            lab = rng.choice([{'p'}, {'p', 'q'}, {'home'}])
            ok = vp.guarded(ts_mod.add_initial_states, g, [lab])[0] == 'ok'
            ss = [s for s, l in zip(names, L) if enc(l) == sorted(lab)]
            y = gl.observe(kd, g, ok, dict(op='init+', ss=ss), [], 0)
            return dict(cfg=cfg, kind=what, hist=[x, y], branches=[])
    return dict(cfg=cfg, kind=what, hist=[x], branches=[])


def body(c):
    recs = list()
    maxlen = c.pick(5, 7)

    def mc(kd):
        path = os.path.join(vp.SCRATCH, f'conf_{kd.name}.json')
        with open(path, 'w') as f:
            json.dump(dict(cfg=kd.cfg(), alphabet=alphabet(kd)), f)
        return c.generate(
            'LGraphMC', MC.format(maxlen=maxlen, inv='Inv DeadEnds RejectKeeps Emit'),
            env=dict(CONF=path), timeout=800)
    with cf.ThreadPoolExecutor(8) as ex:
        hs = list(ex.map(mc, KINDS))
    items = list()
    for kd, h in zip(KINDS, hs):
        c.bump(f'model_states_{kd.name}', len(h))
        h = [x['h'] for x in h]
        n = c.pick(22, 400)
        if len(h) > n:
            h = c.rng.sample(h, n)
        items += [(kd.name, x, alphabet(kd), c.rng.randrange(10**9)) for x in h]
    recs += vp.pmap(replay, items)
    recs += vp.pmap(random_history, [
        (kd.name, c.rng.randrange(10**9), c.rng.choice([10, 20, 35]))
        for kd in KINDS for _ in range(c.pick(30, 600))])
    recs += vp.pmap(constructed, [
        (w, c.rng.randrange(10**9)) for w in ('fts', 'line', 'cycle', 'ba', 'ba-plain')
        for _ in range(c.pick(25, 400))])
    for r in recs:
        for x in r['hist'] + r['branches']:
            c.bump(x['op']['op'] + ('' if x['ok'] else '_rejected'))
    bad = c.validate('LGraphTrace', recs)
    for r, b in zip(recs, bad):
        for cl in b:
            c.violation(f'{r["kind"]}:{cl}', f'{cl} in {r["kind"]}', r)
    c.sample(recs[-1])
    cor = list()
    for r in recs:
        y = copy.deepcopy(r)
        if r['branches'] or len(cor) >= 60 or not r['hist'][-1]['ok']:
            continue
        x = y['hist'][-1]
        if x['E']:
            x['E'].pop()
        elif x['V']:
            x['V'].pop()
            x['L'].pop()
        else:
            continue
        cor.append(y)
    c.binding('LGraphTrace', cor)


if __name__ == '__main__':
    vp.main('C10', body)
