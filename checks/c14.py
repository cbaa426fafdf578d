"""C14: synchronous parallel composition and policies."""
import fractions
import itertools
import logging
import random
import warnings

import c12
import tulip.transys as trs
from tulip.transys import compositions, cost, mathfunc
import vp

TYPES = dict(ks=trs.KripkeStructure, wks=trs.WeightedKripkeStructure, mc=trs.MarkovChain, mdp=trs.MarkovDecisionProcess)
APS = ['p', 'q', 'p2', 'pq']


def some(values):
    return [v for v in values if v is not None]


OPS = dict(
    sum=None, mult=None,
    first=lambda *v: some(v)[0],
    max=lambda *v: max(some(v)),
    min=lambda *v: min(some(v)),
    where=lambda *v: sum((1 if x is None else 2) * 3**k for k, x in enumerate(v)),
    count=lambda *v: len(some(v)))


def number(v, rng):
    return rng.choice([int, float])(v[0]) if len(v) == 1 else cost.VectorCost(v)


def build(m, names, rng):
    g = TYPES[m['kind']]()
    order = list(range(m['n']))
    rng.shuffle(order)
    props = list(m['props'])
    rng.shuffle(props)
    g.atomic_propositions.add_from(props)
    if m['kind'] == 'mdp':
        g.actions.add_from(m['actions'])
    for k in order:
        ap = set(m['ap'][k])
        if rng.random() < .5 and ap:
            g.states.add(names[k], ap=ap)
        else:
            g.states.add(names[k])
            if ap or rng.random() < .5:
                g.states[names[k]]['ap'] = ap
    g.states.initial.add_from([names[k - 1] for k in m['init']])
    edges = list(m['edges'])
    rng.shuffle(edges)
    for e in edges:
        a = dict()
        if e['cost']:
            a['cost'] = number(e['cost'], rng)
        if e['prob']:
            a['probability'] = e['prob'][0] / e['prob'][1] if rng.random() < .7 else fractions.Fraction(*e['prob'])
        if e['act']:
            a['action'] = e['act'][0]
        if rng.random() < .5:
            g.transitions.add(names[e['u'] - 1], names[e['v'] - 1], a)
        else:
            g.transitions.add(names[e['u'] - 1], names[e['v'] - 1], **a)
    return g


def observe(g, names, ndec):
    """States as tuples of numbers; actions as tuples of names."""
    def num(s):
        assert len(s) == len(names), s
        return [n.index(x) + 1 for n, x in zip(names, s)]
    kind = {v: k for k, v in TYPES.items()}.get(type(g), repr(type(g)))

    def act(a):
        if ndec == 1:
            return [a]
        return list(a)
    out = dict(ok=True, kind=kind, states=[num(s) for s in g.states()], init=[num(s) for s in g.states.initial],
               props=list(g.atomic_propositions), ap=[list(g.states[s]['ap']) for s in g.states()],
               actions=[act(a) for a in g.actions] if kind == 'mdp' else list(), edges=list())
    for u, v, d in g.transitions(data=True):
        d = dict(d)
        c = d.pop('cost', None)
        p = d.pop('probability', None)
        a = d.pop('action', None)
        out['edges'].append(dict(
            u=num(u), v=num(v),
            cost=list() if c is None else [int(k) if k == int(k) else repr(k) for k in (list(c) if isinstance(c, cost.VectorCost) else [c])],
            prob=list() if p is None else list(fractions.Fraction(p).as_integer_ratio()),
            act=list() if a is None else [act(a)]))
        if d:
            out['edges'][-1]['act'] = [[repr(d)]]
    return out


FAIL = dict(ok=False, kind='', states=[], init=[], props=[], ap=[], actions=[], edges=[])
BAD = dict(
    mc=[dict(probability=v) for v in (-.5, 1.5, 'x', None, [1])],
    mdp=[dict(probability=.5, action='no'), dict(probability=2, action='a')],
    wks=[dict(cost=v) for v in (-1, 'x', None)],
    ks=[dict(cost=1)])


def record(x):
    warnings.simplefilter('ignore')
    logging.disable(logging.WARNING)
    x = dict(x)
    rng = random.Random(x['seed'])
    names = [c12.names(rng, m['n'], x['kinds'][k]) for k, m in enumerate(x['ms'])]
    gs = [build(m, n, rng) for m, n in zip(x['ms'], names)]
    if x['twice']:
        # the same object is given twice
        gs[1] = gs[0]
        names[1] = names[0]
    log = [f'names {names} models {x["ms"]} ops {x["ops"]} nested={x["nested"]}']
    # labels that are not allowed
    rejected = True
    for g, m, n in zip(gs, x['ms'], names):
        s = c12.snap(g)
        for a in rng.sample(BAD[m['kind']], min(2, len(BAD[m['kind']]))):
            r = vp.guarded(g.transitions.add, n[0], n[-1], a)
            if r[0] == 'ok' or r[1] in ('UnboundLocalError', 'NameError') or c12.snap(g) != s:
                rejected = False
                log.append(f'transition with {a}: {r}')
    before = [c12.snap(g) for g in gs]
    ops = dict()
    if x['ops']['cost'] != 'sum':
        ops['cost'] = OPS[x['ops']['cost']]
    if x['ops']['prob'] != 'mult':
        ops['probability'] = OPS[x['ops']['prob']]
    given = dict(ops)
    ndec = sum(m['kind'] == 'mdp' for m in x['ms'])
    decs = None
    if x['nested'] and len(gs) > 2:
        first = compositions.synchronous_parallel(gs[:2])
        a, b = (sum(m['kind'] == 'mdp' for m in x['ms'][k]) for k in (slice(0, 2), slice(2, None)))
        # actions of a composition that has two decision processes are pairs
        if a == 2 and b:
            decs = (0, 1, lambda t: [*t[0], *t[1:]])
        else:
            decs = (0, 1, list)
        r = vp.guarded(compositions.synchronous_parallel, [first, *gs[2:]])
    elif ops or rng.random() < .3:
        r = vp.guarded(compositions.synchronous_parallel, gs, ops)
    else:
        r = vp.guarded(compositions.synchronous_parallel, gs)
    x['opskept'] = ops == given
    nested = x['nested'] and len(gs) > 2
    x.update(got=FAIL, chain=FAIL, at=list(), policy=list(), apart=True, rejected=rejected)
    if r[0] != 'ok':
        log.append(f'synchronous_parallel: {r[1:]}')
    else:
        g = r[1]
        if nested:
            look = lambda g: observe2(g, names, ndec, decs)
        else:
            look = lambda g: observe(g, names, ndec)
        r = vp.guarded(look, g)
        if r[0] == 'ok':
            x['got'] = r[1]
        else:
            log.append(f'observing the composition: {r[1:]}')
        if x['got']['ok'] and x['got']['kind'] == 'mdp':
            acts = list(g.actions)
            if not acts:
                raise vp.MachineryError('no actions')
            pol = {s: rng.choice(acts) for s in g.states()}
            back = {repr(a): [a] if ndec == 1 else decs[2](a) if nested else list(a) for a in acts}
            x['at'] = x['got']['states']
            x['policy'] = [back[repr(pol[s])] for s in g.states()]
            if rng.random() < .5:
                fn = mathfunc.FunctionOnLabeledState('state', 'action')
                for s, a in pol.items():
                    fn.add(s, a)
                pol = fn
            before_g = c12.snap(g)
            r = vp.guarded(compositions.apply_policy, g, pol)
            if r[0] == 'ok':
                h = r[1]
                x['chain'] = look(h)
                s = rng.choice(list(h.states()))
                h.states[s]['ap'] ^= {rng.choice(APS)} & set(h.atomic_propositions)
                for u, v, d in h.edges(data=True):
                    d['probability'] = 1
                h.states.add('more')
                h.states.initial.add('more')
                h.atomic_propositions.add('more')
                if c12.snap(g) != before_g:
                    x['apart'] = False
                    log.append('changing the chain changes the decision process')
            else:
                log.append(f'apply_policy: {r[1:]}')
        elif x['got']['ok']:
            r = vp.guarded(compositions.apply_policy, g, dict())
            if r[0] == 'ok':
                x['rejected'] = False
                log.append('apply_policy of a model without actions')
    x['kept'] = before == [c12.snap(g) for g in gs]
    if x['got']['ok']:
        # the composition and the models do not share objects
        for s in list(g.states()):
            for p in APS:
                if p in g.atomic_propositions:
                    g.states[s]['ap'] ^= {p}
        g.atomic_propositions.add('more')
        g.states.add('more')
        g.states.initial.add('more')
        if before != [c12.snap(k) for k in gs]:
            x['apart'] = False
            log.append('changing the composition changes a model')
    x['log'] = log
    return x


def observe2(g, names, ndec, decs):
    """Observe a composition of a composition."""
    def leaf(s):
        return [*s[0], *s[1:]]
    kind = {v: k for k, v in TYPES.items()}.get(type(g), repr(type(g)))
    h = TYPES[kind]()
    h.atomic_propositions.add_from(g.atomic_propositions)
    if kind == 'mdp':
        # flatten actions
        fl = {a: (tuple(decs[2](a)) if ndec > 1 else a) for a in g.actions}
        h.actions.add_from(fl.values())
    for s in g.states():
        h.states.add(tuple(leaf(s)))
        h.states[tuple(leaf(s))]['ap'] = set(g.states[s]['ap'])
    h.states.initial.add_from([tuple(leaf(s)) for s in g.states.initial])
    for u, v, d in g.transitions(data=True):
        d = dict(d)
        if 'action' in d:
            d['action'] = fl[d['action']]
        h.transitions.add(tuple(leaf(u)), tuple(leaf(v)), d)
    return observe(h, names, ndec)


def random_model(rng, kind, vec):
    n = rng.choice([1, 2, 2, 3, 4])
    props = rng.sample(APS, rng.randint(0, 3))
    m = dict(kind=kind, n=n, init=sorted(rng.sample(range(1, n + 1), rng.choice([0, 1, 1, n]))), props=props,
             ap=[[p for p in props if rng.random() < .5] for _ in range(n)], actions=list(), edges=list())
    if kind == 'mdp':
        m['actions'] = rng.sample(['a', 'b', 'go'], rng.choice([1, 2, 2, 3]))
    for u in range(1, n + 1):
        if kind in ('ks', 'wks'):
            for v in range(1, n + 1):
                if rng.random() < .4:
                    k = rng.choice([1, 1, 2]) if kind == 'wks' else 1
                    for c in rng.sample(range(4), k):
                        m['edges'].append(dict(u=u, v=v, cost=list() if kind == 'ks' else [c] + [rng.randrange(3) for _ in range(vec - 1)], prob=[], act=[]))
        else:
            for a in (m['actions'] or ['-']):
                if rng.random() < .25 and (kind == 'mdp' or rng.random() < .3):
                    continue
                vs = rng.sample(range(1, n + 1), rng.randint(1, min(n, 3)))
                weights = {1: [[4]], 2: [[1, 3], [2, 2]], 3: [[1, 1, 2], [2, 1, 1]]}[len(vs)]
                for v, w in zip(vs, rng.choice(weights)):
                    m['edges'].append(dict(u=u, v=v, cost=[], prob=[w, 4], act=[a] if kind == 'mdp' else []))
                if rng.random() < .08:
                    m['edges'].append(dict(u=u, v=rng.choice([v for v in range(1, n + 1)]), cost=[], prob=[0, 1], act=[a] if kind == 'mdp' else []))
    # one transition for each pair of states and action in Markov models
    seen = set()
    keep = list()
    for e in m['edges']:
        k = (e['u'], e['v'], *e['act'], *e['cost'])
        if k not in seen:
            seen.add(k)
            keep.append(e)
    m['edges'] = keep
    return m


def body(chk):
    rng = chk.rng
    cfg = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
    chk.model_check('ComposeMC', f'CONSTANT Small = {chk.pick("TRUE", "FALSE")}\n' + cfg + 'INVARIANTS Markov Commute\n', workers=8, timeout=850)
    pairs = chk.generate('ComposeMC', 'CONSTANT Small = TRUE\n' + cfg + 'INVARIANT Emit\n', workers=1)
    items = list()
    for c in rng.sample(pairs, min(len(pairs), chk.pick(900, 4000))):
        items.append(dict(ms=c['ms'], ops=dict(cost='sum', prob='mult')))
    for _ in range(chk.pick(1300, 9000)):
        pool = rng.choice([['ks'], ['wks'], ['ks', 'wks'], ['mc'], ['mdp'], ['mc', 'mdp'], ['mc', 'mdp', 'ks'], ['mdp', 'ks'], ['mc', 'ks']])
        k = rng.choice([1, 2, 2, 2, 3, 3, 4])
        vecs = rng.choice([[1], [1], [2], [1, 3]])
        ms = list()
        for _ in range(k):
            kind = rng.choice(pool)
            m = random_model(rng, kind, rng.choice(vecs))
            if k > 2 and m['n'] > (3 if k == 3 else 2):
                m = random_model(rng, kind, 1)
            ms.append(m)
        size = 1
        for m in ms:
            size *= max(1, len(m['edges']))
        if size > 300:
            continue
        scalar = all(len(e['cost']) < 2 for m in ms for e in m['edges'])
        items.append(dict(ms=ms, ops=dict(cost=rng.choice(['sum', 'sum', 'first', 'count', 'where', 'where'] + ['max'] * scalar), prob=rng.choice(['mult'] * 3 + ['min', 'first']))))
    for x in items:
        k = len(x['ms'])
        kind = rng.choice(['str', 'str', 'int', 'tuple', 'mixed'])
        kinds = [kind if rng.random() < .7 else rng.choice(['str', 'int', 'tuple', 'mixed']) for _ in range(k)]
        default = x['ops'] == dict(cost='sum', prob='mult')
        x.update(seed=rng.random(), kinds=kinds, nested=default and k > 2 and rng.random() < .5, twice=False, wellformed=all(m['kind'] in ('mc', 'mdp') for m in x['ms']))
        if k == 2 and rng.random() < .06 and not x['nested']:
            x['twice'] = True
            x['ms'] = [x['ms'][0], x['ms'][0]]
    recs = vp.pmap(record, items)
    fields = ('ms', 'ops', 'got', 'chain', 'at', 'policy', 'kept', 'apart', 'opskept', 'rejected', 'wellformed')
    bare = [{k: r[k] for k in fields} for r in recs]
    for r, bad in zip(recs, chk.validate('ComposeTrace', bare)):
        if 'model-stochastic' in bad:
            raise vp.MachineryError(f'generated a model that is not stochastic: {r["ms"]}')
        for clause in bad:
            chk.violation(f'{clause}:{r["log"][0][:60]}', f'{clause}: {" ".join(r["log"][1:] + r["log"][:1])[:900]}', r)
        chk.bump('type_' + r['got']['kind'])
        chk.bump('nested', r['nested'])
        chk.bump('policies', bool(r['at']))
        chk.bump('with_transitions', bool(r['got']['edges']))
    cor = list()
    for r in [r for r in bare if r['got']['ok'] and r['got']['edges']][:20]:
        g = r['got']
        cor.append(dict(r, got=dict(g, edges=g['edges'][1:])))
        cor.append(dict(r, got=dict(g, kind='none')))
        cor.append(dict(r, got=dict(g, edges=[dict(e, prob=[1, 3]) for e in g['edges']])))
    for r in [r for r in bare if r['at'] and r['chain']['edges']][:10]:
        cor.append(dict(r, chain=dict(r['chain'], edges=r['chain']['edges'][1:])))
    chk.binding('ComposeTrace', cor)
    chk.sample(recs[0]['log'])
    chk.sample(recs[-1]['log'])
    chk.assumptions += ['Markov models have at most one transition for each action and pair of states',
                        'models that are composed have the types that the documentation allows: [WKS, KS] or [MDP, MC, KS], or one WKS',
                        'a decision process has at least one action']


if __name__ == '__main__':
    vp.main('C14', body)
