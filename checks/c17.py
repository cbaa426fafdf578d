"""C17: least-cost paths and plans of minimum violation."""
import copy
import itertools
import logging
import math
import random
import warnings

import c12
import vp
from tulip import mvp
from tulip import transys as trs
from tulip.spec.prioritized_safety import PrioritizedSpecification
from tulip.transys import graph_algorithms as ga
from tulip.transys.automata import FiniteStateAutomaton
from tulip.transys.automata import WeightedFiniteStateAutomaton as WFA
from tulip.transys.cost import VectorCost
from tulip.transys.mathset import PowerSet

KINDS = ['str', 'int', 'tuple', 'mixed']


def vec(c, d=None):
    """The cost in halves, as a list; [] if infinite; [-1] if none of these."""
    if isinstance(c, VectorCost):
        c = list(c)
    elif isinstance(c, (int, float)) and not isinstance(c, bool):
        if math.isinf(c):
            return []
        c = [c] * (d or 1)
    else:
        return [-1]
    try:
        if any(2 * x != int(2 * x) for x in c):
            return [-1]
        return [int(2 * x) for x in c]
    except (TypeError, ValueError, OverflowError):
        return [-1]


def number(rng, top=3):
    return rng.choice([rng.randint(0, top), rng.randint(0, top), rng.randint(0, 2 * top) / 2])


# ---- order ----

def order(x):
    a, b = x['a'], x['b']
    va = VectorCost(a)
    vb = b[0] if x['scalar'] else VectorCost(x['it'](b))
    log = f'VectorCost({a}) and {vb if x["scalar"] else b}'
    try:
        r = dict(
            kind='order', a=vec(VectorCost(a)), b=vec(VectorCost(b)),
            lt=va < vb, le=va <= vb, gt=va > vb, ge=va >= vb, eq=va == vb, ne=va != vb,
            sum=vec(va + vb), rsum=vec(vb + va),
            same=list(va) == a and (x['scalar'] or list(vb) == b) and len(va) == len(a)
            and [va[k] for k in range(len(a))] == a)
    except Exception as e:
        r = dict(kind='order', a=vec(VectorCost(a)), b=vec(VectorCost(b)), lt=True, le=True, gt=True,
                 ge=True, eq=True, ne=True, sum=[-1], rsum=[-1], same=False)
        log += f' {type(e).__name__}: {e}'
    return dict(r, log=log)


def rank(x):
    vs = [VectorCost(v) for v in x['in']]
    out = sorted(vs) if not x['reverse'] else sorted(vs, reverse=True)[::-1]
    mn = min(vs) if x['low'] else min(reversed(vs))
    return dict(kind='sorted', **{'in': [vec(v) for v in vs]}, out=[vec(v) for v in out],
                min=vec(mn), log=f'sorted {x["in"]}')


# ---- search ----

def search(x):
    warnings.simplefilter('ignore')
    rng = random.Random(x['seed'])
    n, d = x['n'], x['d']
    names = c12.names(rng, n, x['names'])
    scalar = d == 1 and rng.random() < .8
    key = 'cost'
    if not scalar:
        g = WFA()
    elif rng.random() < .3:
        g = trs.LabeledDiGraph(edge_label_types=[dict(name='weight', values=None, setter=True)])
        key = 'weight'
    else:
        g = trs.WeightedKripkeStructure()
    order = list(range(n))
    rng.shuffle(order)
    for k in order:
        g.states.add(names[k])
    edges = list()
    for u, v, c in x['edges']:
        g.transitions.add(names[u - 1], names[v - 1], {key: c[0] if scalar else VectorCost(c)})
        edges.append([u, v, vec(VectorCost(c))])
    src = [names[k - 1] for k in x['src']]
    tgt = [names[k - 1] for k in x['tgt']]
    before = c12.snap(g)
    targets = rng.choice([list, tuple, set])(tgt)
    log = f'{x["names"]} {names} {x}'
    kw = dict() if key == 'cost' and rng.random() < .5 else dict(cost_key=key)
    if len(src) == 1 and rng.random() < .7:
        r = vp.guarded(ga.dijkstra_single_source_multiple_targets, g, src[0], targets, **kw)
    else:
        r = vp.guarded(ga.dijkstra_multiple_sources_multiple_targets, g, rng.choice([list, iter, set])(src), targets, **kw)
    rec = dict(kind='search', n=n, d=d, edges=edges, src=x['src'], tgt=x['tgt'], exc='', cost=[-1], path=[])
    if r[0] == 'exc':
        rec['exc'] = f'{r[1]}: {r[2]}'[:200]
    else:
        cost, path = r[1]
        rec.update(cost=vec(cost, d), path=[names.index(s) + 1 if s in names else -1 for s in path])
    return dict(rec, same=c12.snap(g) == before, log=f'{log} -> {r[1:]}'[:1500])


# ---- plans ----

def automaton(x, names, aps, rng):
    cls = rng.choice([WFA, WFA, FiniteStateAutomaton])
    fa = cls()
    fa.atomic_propositions.add_from(rng.sample(aps, len(aps)))
    fa.states.add_from(rng.sample(names, len(names)))
    fa.states.initial.add_from([names[k - 1] for k in x['init']])
    fa.accepting.add_from([names[k - 1] for k in x['acc']])
    for u, letter, v in x['edges']:
        fa.transitions.add(names[u - 1], names[v - 1], letter=set(letter))
    return fa


def plan(x):
    warnings.simplefilter('ignore')
    logging.disable(logging.WARNING)
    rng = random.Random(x['seed'])
    n = x['n']
    names = c12.names(rng, n, x['names'])
    if x['null'] and 'null' not in names:
        names[0] = 'null'
    weighted = x['weighted']
    ks = trs.WeightedKripkeStructure() if weighted else trs.KripkeStructure()
    aps = x['aps']
    ks.atomic_propositions.add_from(aps)
    for k in rng.sample(range(n), n):
        ks.states.add(names[k])
        if x['ap'][k] or rng.random() < .5:
            ks.states[names[k]]['ap'] = set(x['ap'][k])
    ks.states.initial.add_from([names[k - 1] for k in x['init']])
    edges = list()
    for u, v, c in x['edges']:
        twin = sum(e[:2] == [u, v] for e in x['edges']) > 1
        if not weighted and [u, v, 0] in edges:
            continue
        if weighted and (c or twin or rng.random() < .5):
            ks.transitions.add(names[u - 1], names[v - 1], {'cost': c})
        else:
            c = 0
            ks.transitions.add(names[u - 1], names[v - 1])
        edges.append([u, v, int(2 * c)])
    spec = PrioritizedSpecification()
    qnames = [c12.names(rng, r['n'], x['rnames'][k]) for k, r in enumerate(x['rules'])]
    for r, q in zip(x['rules'], qnames):
        spec.add_rule(automaton(r, q, aps, rng), priority=r['prio'], level=r['level'])
    nlev = max(r['level'] for r in x['rules']) + 1
    # the components of the product are ordered by level
    perm = sorted(range(len(x['rules'])), key=lambda k: x['rules'][k]['level'])
    rules = [dict(x['rules'][k], prio=2 * x['rules'][k]['prio']) for k in perm]
    qn = [qnames[k] for k in perm]
    before = c12.snap(ks)
    rec = dict(kind='plan', n=n, edges=edges, ap=x['ap'], init=x['init'], goal=x['goal'], nlev=nlev,
               rules=rules, exc='', cost=[-1], path=[], ppath=[], wedges=[], winit=[], wacc=[])

    def node(s):
        try:
            a, q = s
            return [names.index(a) + 1 if a in names else 0,
                    [qn[k].index(p) + 1 for k, p in enumerate(q)]]
        except (ValueError, TypeError, IndexError):
            return [-1, []]

    r = vp.guarded(mvp.solve, ks, x['goal'], spec)
    if r[0] == 'exc':
        rec['exc'] = f'{r[1]}: {r[2]}'[:200]
    else:
        cost, path, ppath, w = r[1]
        rec.update(
            cost=vec(cost), path=[names.index(s) + 1 if s in names else -1 for s in path],
            ppath=[node(s) for s in ppath],
            wedges=[[node(u), node(v), vec(d['cost'])] for u, v, d in w.transitions.find()],
            winit=[node(s) for s in w.states.initial], wacc=[node(s) for s in w.accepting])
    return dict(rec, same=c12.snap(ks) == before, log=f'{names} {qn} {x} -> {r[1:]}'[:1800])


def priorities(x):
    spec = PrioritizedSpecification()
    ids = dict()
    log = list()
    for k, prio, level in x['added']:
        fa = WFA()
        ids[id(fa)] = k
        fa.keep = fa
        log.append((k, prio, level))
        spec.add_rule(fa, priority=prio, level=level)

    def show(r):
        return [ids.get(id(r.automaton()), -1), r.priority(), r.level()]

    for r in spec:  # an iteration that is interrupted
        if x['cut']:
            break
    it = [show(r) for r in spec]
    try:
        end = spec[len(it)]
        end = 'value'
    except Exception as e:
        end = type(e).__name__
    return dict(
        kind='spec', added=[list(t) for t in log], iter=it,
        items=[show(spec[k]) for k in range(len(x['added']))], rules=[show(r) for r in spec.get_rules()],
        len=len(spec), nlev=spec.get_num_levels(),
        at=[[show(r) for r in spec.get_rules_at(lv)] for lv in range(6)], end=end,
        log=f'rules (automaton, priority, level) {log}')


# ---- inputs ----

def random_graph(rng):
    n = rng.randint(1, 7)
    d = rng.choice([1, 1, 2, 3])
    top = rng.choice([1, 3, 9])
    m = rng.randint(0, 2 * n + 3)
    edges = list()
    for _ in range(m):
        e = [rng.randint(1, n), rng.randint(1, n), [number(rng, top) for _ in range(d)]]
        if e not in edges and [*e[:2], [float(c) for c in e[2]]] not in edges:
            edges.append(e)
    return dict(n=n, d=d, edges=edges, names=rng.choice(KINDS),
                src=rng.sample(range(1, n + 1), min(n, rng.choice([1, 1, 1, 2, 3]))),
                tgt=rng.sample(range(1, n + 1), min(n, rng.choice([0, 1, 1, 1, 2]))))


def letters(aps):
    return [list(c) for k in range(len(aps) + 1) for c in itertools.combinations(aps, k)]


def random_rule(rng, aps):
    L = letters(aps)
    kind = rng.randrange(5)
    p = rng.choice(aps)
    if kind == 0:  # never p (or some letters)
        bad = [l for l in L if p in l] if rng.random() < .5 else rng.sample(L, len(L) // 2)
        r = dict(n=1, init=[1], acc=[1], edges=[[1, l, 1] for l in L if l not in bad])
    elif kind == 1:  # at most k letters with p
        k = rng.randint(2, 3)
        r = dict(n=k, init=[1], acc=list(range(1, k + 1)),
                 edges=[[q, l, q] for q in range(1, k + 1) for l in L if p not in l]
                 + [[q, l, q + 1] for q in range(1, k) for l in L if p in l])
    elif kind == 2:  # after p, never q
        q = rng.choice(aps)
        r = dict(n=2, init=[1], acc=rng.choice([[1, 2], [2], [1]]),
                 edges=[[1, l, 2 if p in l else 1] for l in L] + [[2, l, 2] for l in L if q not in l])
    else:
        n = rng.choice([1, 2, 2, 3])
        dens = rng.choice([.2, .4, .7])
        edges = [[a, l, b] for a in range(1, n + 1) for b in range(1, n + 1) for l in L
                 if rng.random() < dens / n * 1.5]
        r = dict(n=n, edges=edges, init=rng.sample(range(1, n + 1), rng.choice([1, 1, min(2, n)])),
                 acc=rng.sample(range(1, n + 1), rng.randint(1, n)))
    return dict(r, prio=rng.randint(1, 3), level=rng.choice([0, 0, 1, 1, 2]))


def random_plan(rng):
    n = rng.randint(1, 5)
    aps = rng.choice([['p'], ['p', 'g'], ['p', 'g']])
    nr = rng.choice([1, 1, 2, 2, 3]) if n <= 3 else rng.choice([1, 1, 2])
    edges = list()
    for _ in range(rng.randint(n - 1, 2 * n + 1)):
        e = [rng.randint(1, n), rng.randint(1, n), number(rng)]
        if e not in edges and [*e[:2], float(e[2])] not in edges:
            edges.append(e)
    rules = [random_rule(rng, aps) for _ in range(nr)]
    while math.prod(r['n'] for r in rules) * (n + 1) > 30:
        rules.pop()
    if not rules:
        rules = [dict(n=1, init=[1], acc=[1], edges=[], prio=1, level=0)]
    return dict(
        n=n, edges=edges, aps=aps, ap=[[a for a in aps if rng.random() < .45] for _ in range(n)],
        init=rng.sample(range(1, n + 1), rng.choice([1, 1, 1, min(2, n)])), goal=rng.choice(aps),
        rules=rules, names=rng.choice(KINDS), rnames=[rng.choice(KINDS) for _ in rules],
        null=rng.random() < .1, weighted=rng.random() < .8)


def run(x):
    return dict(order=order, sorted=rank, search=search, plan=plan, spec=priorities)[x['what']](x)


def body(chk):
    rng = chk.rng
    chk.model_check('PlanMC', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS ThOrder ThSettled ThPlan\n', workers=8, timeout=300)
    items = list()
    small = list(itertools.product([0, 1, 2.5], repeat=2))
    for a, b in itertools.product(small, small):
        items.append(dict(what='order', a=list(a), b=list(b), scalar=False, it=rng.choice([list, tuple])))
    for _ in range(chk.pick(600, 4000)):
        d = rng.randint(1, 4)
        a = [number(rng, 2) for _ in range(d)]
        b = [y if rng.random() < .6 else number(rng, 2) for y in a]
        sc = rng.random() < .25
        if sc:
            b = [number(rng, 2)] * d
            if rng.random() < .4:
                a = list(b)
        items.append(dict(what='order', a=a, b=b, scalar=sc, it=rng.choice([list, tuple])))
    for _ in range(chk.pick(150, 1500)):
        d = rng.randint(1, 3)
        items.append(dict(what='sorted', low=rng.random() < .5, reverse=rng.random() < .5,
                          **{'in': [[number(rng, 1) for _ in range(d)] for _ in range(rng.randint(1, 6))]}))
    for _ in range(chk.pick(1500, 20000)):
        items.append(dict(random_graph(rng), what='search', seed=rng.random()))
    for _ in range(chk.pick(1200, 15000)):
        items.append(dict(random_plan(rng), what='plan', seed=rng.random()))
    for _ in range(chk.pick(150, 1000)):
        items.append(dict(what='spec', cut=rng.random() < .3,
                          added=[(k, rng.randint(1, 5), rng.randint(0, 4)) for k in range(rng.randint(0, 6))]))
    recs = vp.pmap(run, items, chunk=20)
    bare = [{k: v for k, v in r.items() if k != 'log'} for r in recs]
    for r, bad in zip(recs, chk.validate('PlanTrace', bare)):
        for clause in bad:
            chk.violation(f'{r["kind"]} {clause}: {r["log"][:60]}', f'{r["kind"]} {clause}: {r["log"]}', r)
        chk.bump(r['kind'])
        if r['kind'] in ('search', 'plan') and not r['cost']:
            chk.bump(r['kind'] + '_unreachable')
    # a priority that is not an integer is documented for `add_rule`
    fa = WFA()
    got = vp.guarded(PrioritizedSpecification().add_rule, fa, priority=1.5, level=0)
    if got[0] == 'exc':
        chk.violation('add_rule priority=1.5', f'add_rule(fa, priority=1.5, level=0) raises {got[1]}', got[1:])
    cor = list()
    for r in [r for r in bare if r['kind'] == 'plan' and len(r['path']) > 1][:20]:
        cor.append(dict(r, cost=[c + (k == 0) for k, c in enumerate(r['cost'])]))
        cor.append(dict(r, path=r['path'][:-1]))
        cor.append(dict(r, wedges=r['wedges'][1:] if r['wedges'][0][0] in r['winit'] else []))
    for r in [r for r in bare if r['kind'] == 'search' and len(r['path']) > 1][:20]:
        cor.append(dict(r, cost=[c + 1 for c in r['cost']]))
        cor.append(dict(r, path=r['path'][1:] if r['path'][1] not in r['src'] else []))
    for r in [r for r in bare if r['kind'] == 'order'][:20]:
        cor.append(dict(r, le=not r['le']))
    chk.binding('PlanTrace', cor)
    for kind in ('plan', 'search'):
        chk.sample(next(r['log'] for r in recs if r['kind'] == kind))
    chk.assumptions += ['costs are nonnegative multiples of one half',
                        'rules whose automata are over explicit sets of propositions']


if __name__ == '__main__':
    vp.main('C17', body)
