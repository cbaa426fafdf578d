"""C20: reachability is sound, and abstractions have only transitions that controllers can implement."""
import copy
import itertools
import json
import logging
import multiprocessing
import random
import warnings

import numpy as np
import polytope as pc

import vp
from tulip import hybrid
from tulip.abstract import discretization as disc, feasible as fs, prop2partition as p2p

project = pc.Polytope.project

Q = 4  # numbers count quarters


def poly(b):
    return pc.box2poly([[lo / Q, hi / Q] for lo, hi in b])


def region(boxes, wrap=False):
    ps = [poly(b) for b in boxes]
    return pc.Region(ps) if wrap or len(ps) > 1 else ps[0]


def has(got, pts):
    """Points that set `got` contains."""
    if not len(pts) or got is None:
        return list()
    ps = got.list_poly if isinstance(got, pc.Region) else [got]
    arr = np.array(pts, dtype=float).T / Q
    hit = np.zeros(len(pts), dtype=bool)
    for p in ps:
        if len(p.b) == 0:
            continue
        hit |= np.all(p.A @ arr <= p.b.reshape(-1, 1) + 1e-6, axis=0)
    return [p for p, h in zip(pts, hit) if h]


def eye(n, k, c=1):
    return [c * int(j == k) for j in range(n)]


class Plant:
    """Integer system."""
    def __init__(self, rng, n, shear=False, calm=None, dep=None, tidy=False):
        self.n = n
        sign = lambda: rng.choice([1, 1, 1, -1])
        if shear:
            self.A = [[rng.choice([0, 1, 1, -1, 2]) for _ in range(n)] for _ in range(n)]
            rows = list(range(n))
        else:
            perm = rng.sample(range(n), n) if rng.random() < .4 else list(range(n))
            if n > 1 and rng.random() < .2:
                perm[0] = perm[1]
            self.A = [eye(n, perm[k], sign()) for k in range(n)]
            rows = list(range(n))
        m = self.m = rng.choice([1, n, n, n] if n > 1 else [1, 1, 1, 1 if tidy else 2])
        at = rng.sample(rows, min(m, n))
        self.B = [[0] * m for _ in range(n)]
        for k, i in enumerate(at):
            self.B[i][k] = sign()
        if m > n:
            k = rng.randrange(m)
            for row in self.B:
                row[-1], row[k] = row[k], row[-1]
        if not shear:
            for i in at:
                if rng.random() < .08:
                    self.A[i] = [0] * n
        at = {k: i for i in range(n) for k in range(m) if self.B[i][k]}
        p = self.p = rng.choice([1, n])
        self.E = [[0] * p for _ in range(n)]
        for k, i in enumerate(rng.sample(rows, p)):
            if rng.random() < .8:
                self.E[i][k] = sign()
        if n == 1 and rng.random() < .15:
            # many vertices
            p = self.p = 4
            self.E = [[rng.choice([1, -1, 0, 0]) for _ in range(p)]]
        self.K = [Q * rng.choice([0, 0, 0, 1, -1, 2]) for _ in range(n)]
        self.ubox = [self.interval(rng, -2, 1, 3) for _ in range(m)]
        self.U = list()
        for k, (lo, hi) in enumerate(self.ubox):
            self.U += [[eye(m, k, -1), [0] * n, - lo], [eye(m, k), [0] * n, hi]]
        self.dep = rng.random() < .3 if dep is None else dep
        if self.dep:
            for _ in range(rng.randint(1, 2)):
                c = rng.choice([1, -1])
                k = rng.randrange(m)
                if rng.random() < .75 and k in at:
                    i = at[k]
                    self.U.append([eye(m, k, c * self.B[i][k]), [c * x for x in self.A[i]], Q * rng.randint(-1, 5)])
                else:
                    self.U.append([[0] * m, eye(n, rng.randrange(n), c), Q * rng.randint(-1, 5)])
        calm = rng.random() < .4 if calm is None else calm
        self.W = list() if calm else [self.interval(rng, -1, 0, 2 if p < 4 else 1) for _ in range(p)]
        if self.W and rng.random() < .15:
            k = rng.randrange(p)
            self.W[k] = [self.W[k][0]] * 2
        if calm:
            self.how = rng.choice(['none', 'empty', 'zero'])
            if self.how != 'empty':
                self.E = [[0] * p for _ in range(n)]
            if self.how == 'none':
                self.p = 1
                self.E = [[0]] * n
            if self.how == 'zero':
                self.W = [[0, Q]] * p

    @staticmethod
    def interval(rng, lo, hi, w):
        a = rng.randint(lo, hi)
        return [Q * a, Q * (a + rng.randint(1, w))]

    def widen(self, rng):
        """Inputs that move far."""
        if self.dep or self.m > 1:
            return
        lo, hi = rng.choice([(-3, 1), (-1, 3), (-3, 3), (-4, 0), (0, 4)])
        self.ubox = [[Q * lo, Q * hi]]
        self.U = [[[-1], [0] * self.n, - Q * lo], [[1], [0] * self.n, Q * hi]]

    def record(self):
        return dict(A=self.A, B=self.B, E=self.E, K=self.K, U=self.U, ubox=self.ubox, W=self.W)

    def tulip(self, domain=None):
        arr = lambda x: np.array(x, dtype=float)
        a = np.array([u + (x if self.dep else []) for u, x, _ in self.U], dtype=float)
        b = np.array([b for _, _, b in self.U], dtype=float) / Q
        kw = dict(A=arr(self.A), B=arr(self.B), K=arr([[x / Q] for x in self.K]), Uset=pc.Polytope(a, b), domain=domain)
        if not self.W:
            if self.how == 'empty':
                # no value of the disturbance, as without disturbances
                h = [eye(self.p, 0), eye(self.p, 0, -1)]
                kw.update(E=arr(self.E), Wset=pc.Polytope(arr(h), arr([-1, -1])))
        else:
            kw.update(E=arr(self.E), Wset=poly(self.W))
        return hybrid.LtiSysDyn(**kw)


def some_box(rng, n, side, within=None):
    b = list()
    for k in range(n):
        lo, hi = within[k] if within else (-Q, Q * side)
        u, v = sorted(rng.sample(range(lo // Q, hi // Q + 1), 2))
        b.append([Q * u, Q * v])
    return b


def query(rng, n, plant, shear):
    side = {1: 6, 2: 4, 3: 2}[n]
    N = 1 if shear or n > 2 else rng.choice([1, 2, 2, 3] if n == 1 else [1, 1, 2, 2, 3])
    closed = rng.random() < .6
    multi = rng.random() < .4
    # results of several steps: only for sets of which computations do not omit pieces
    if multi and N > 1:
        if closed and n > 1 or not closed and plant.W and any(map(any, plant.E)):
            multi = False
    def boxes():
        return [some_box(rng, n, side) for _ in range(rng.choice([1, 2] if multi else [1]))]
    def disjoint(bs):
        return all(any(u[k][1] <= v[k][0] or v[k][1] <= u[k][0] for k in range(n)) for u, v in itertools.combinations(bs, 2))
    while True:
        P1, P2 = boxes(), boxes()
        if disjoint(P1) and disjoint(P2):
            break
    T = list()
    if rng.random() < .5:
        T = [[[min(p[k][0] for p in P1 + P2), max(p[k][1] for p in P1 + P2)] for k in range(n)]]
        if rng.random() < .3:
            T = [some_box(rng, n, side)]
    return dict(P1=P1, P2=P2, T=T, N=N, closed=closed, all=closed and rng.random() < .35)


def points_of(boxes, margin, step):
    n = len(boxes[0])
    ranges = [range(min(b[k][0] for b in boxes) - margin + 2, max(b[k][1] for b in boxes) + margin, step) for k in range(n)]
    return [list(p) for p in itertools.product(*ranges)]


def solve(item):
    seed, shear = item
    rng = random.Random(seed)
    if shear == 'open':
        return several(rng)
    if shear == 'keep':
        return trimmed(rng)
    n = rng.choice([1, 1, 2, 2, 2, 2] if not shear else [1, 2, 2])
    plant = Plant(rng, n, shear)
    q = query(rng, n, plant, shear)
    return run(plant, q, rng, shear)


def several(rng):
    """Several steps in open loop, with inputs that depend on states."""
    n = rng.choice([1, 1, 1, 2])
    while True:
        plant = Plant(rng, n, calm=rng.random() < .3, dep=True)
        if plant.m <= n and any(map(any, plant.A)) and sum(any(c) for _, c, _ in plant.U):
            break
    # sets that hardly constrain
    big = [[-8 * Q, 8 * Q] if rng.random() < .7 else [-Q * rng.randint(0, 3), Q * rng.randint(3, 6)] for _ in range(n)]
    P1 = [[-Q * rng.randint(0, 2), Q * rng.randint(3, 5)] for _ in range(n)]
    end = big if rng.random() < .5 else [[-Q * rng.randint(0, 2), Q * rng.randint(2, 6)] for _ in range(n)]
    N = rng.choice([2, 3, 3] if n == 1 else [2])
    q = dict(P1=[P1], P2=[end], T=[big], N=N, closed=False, all=False)
    return run(plant, q, rng)


def trimmed(rng):
    """Only the largest pieces of sets are used."""
    n = rng.choice([1, 1, 2])
    plant = Plant(rng, n, calm=rng.random() < .5)
    still = not (plant.W and any(map(any, plant.E)))
    def pieces():
        for _ in range(1000):
            bs = [some_box(rng, n, 8 if n == 1 else 4) for _ in range(rng.choice([1, 2, 3, 3, 4]))]
            # apart, so that pieces are not merged
            if all(any(u[k][1] < v[k][0] or v[k][1] < u[k][0] for k in range(n)) for u, v in itertools.combinations(bs, 2)):
                return bs
        return bs[:1]
    P1, P2 = pieces(), pieces()
    N = rng.choice([1, 1, 2]) if still and n == 1 else 1
    q = dict(P1=P1, P2=P2, T=list(), N=N, closed=False, all=False)
    return run(plant, q, rng, keep=rng.randint(1, 3))


def exact(fn):
    """With projections computed by elimination.

    Other algorithms of package `polytope` sometimes return the empty set.
    """
    pc.Polytope.project = lambda self, dim, **kw: project(self, dim, solver='fm')
    try:
        return fn()
    finally:
        pc.Polytope.project = project


def run(plant, q, rng, shear=False, keep=0):
    pts = points_of(q['P1'], Q, 2 if shear else Q)
    P1, P2 = region(q['P1'], rng.random() < .3), region(q['P2'], rng.random() < .3)
    T = region(q['T']) if q['T'] else None
    d = dict(what='solve', fail='', sys=plant.record(), q=q, points=pts, got=list(), feasible=False, judge=not shear and not keep, keep=keep)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sys = plant.tulip()
        args = (sys, q['N'], q['closed'], q['all'], T)
        r = vp.guarded(lambda: (fs.solve_feasible(P1, P2, *args, **(dict(max_num_poly=keep) if keep else dict())), fs.is_feasible(P1, P2, *args)), seconds=120)
    if r[0] != 'ok':
        d['fail'] = f'solve_feasible raised {r[1]}'
        return [(d, str(r)[:500])]
    d['got'], d['feasible'] = has(r[1][0], pts), bool(r[1][1])
    return [(d, '')]


def holding(props, c):
    return {x for x, b in props if all(lo <= v <= hi for v, (lo, hi) in zip(c, b))}


def split(rng, dom):
    """Two boxes, or one."""
    ks = [k for k, (lo, hi) in enumerate(dom) if hi - lo > Q]
    if not ks or rng.random() < .5:
        return [dom]
    k = rng.choice(ks)
    c = rng.randrange(dom[k][0] + Q, dom[k][1], Q)
    out = [copy.deepcopy(dom), copy.deepcopy(dom)]
    out[0][k][1] = out[1][k][0] = c
    rng.shuffle(out)
    return out


class World:
    """Domain, propositions, dynamics."""
    def __init__(self, rng, long=False):
        if long:
            self.line(rng)
            return
        n = self.n = rng.choice([1, 1, 2, 2])
        self.dom = [Plant.interval(rng, -1, 0, {1: 6, 2: 3}[n]) for _ in range(n)]
        for b in self.dom:
            b[1] = max(b[1], b[0] + 2 * Q)
        names = rng.sample(['home', 'lot', 'p', 'q'], rng.choice([1, 1, 2]))
        self.props = [[x, some_box(rng, n, 0, self.dom)] for x in names]
        self.cells = points_of([self.dom], 0, Q)

    def line(self, rng):
        """Many regions in a row, or a region around another."""
        self.n = 1
        self.dom = [[0, Q * rng.randint(5, 7)]]
        size = self.dom[0][1] // Q
        if rng.random() < .5:
            lo = rng.randint(1, size - 3)
            self.props = [['p', [[Q * lo, Q * rng.randint(lo + 1, size - 2)]]]]
        else:
            cuts = sorted(rng.sample(range(size + 1), 4))
            self.props = [[x, [[Q * a, Q * b]]] for x, a, b in zip('pqr', cuts, cuts[1:])]
        self.cells = points_of([self.dom], 0, Q)

    def plants(self, rng, boxes):
        calm = rng.random() < .5
        dep = rng.random() < .2
        out = list()
        for b in boxes:
            p = Plant(rng, self.n, calm=calm, dep=dep, tidy=True)
            while out and (p.m != out[0].m or p.p != out[0].p):
                p = Plant(rng, self.n, calm=calm, dep=dep, tidy=True)
            p.domain = b
            if p.W:
                p.W = [w if rng.random() < .3 else [w[0], w[0] + min(Q, w[1] - w[0])] for w in p.W]
            out.append(p)
        return out

    def partition(self):
        return p2p.prop2part(poly(self.dom), {x: poly(b) for x, b in self.props})

    def regions(self, regs):
        return [[has(r, self.cells), sorted(r.props)] for r in regs]


def dynamics(plants, dom):
    if len(plants) == 1:
        return plants[0].tulip(poly(dom))
    return hybrid.PwaSysDyn([p.tulip(poly(p.domain)) for p in plants], poly(dom))


def parameters(rng, w, plants):
    closed = rng.random() < .75
    d = dict(N=rng.choice([1, 1, 2]), closed_loop=closed, conservative=rng.random() < .3,
             trans_length=rng.choice([1, 1, 2, 3]), min_cell_volume=rng.choice([.1, .5, 2.]),
             simu_type=rng.choice(['bi', 'bi', 'dual']))
    if closed and rng.random() < .2:
        d['use_all_horizon'] = True
    if rng.random() < .3:
        d['remove_trans'] = True
    if w.n == 1 and rng.random() < .2:
        d['N'] = 3
    return d


class Errors(logging.Handler):
    def __init__(self):
        super().__init__()
        self.n = 0

    def emit(self, rec):
        self.n += rec.levelno >= logging.ERROR


def verify(ab):
    """Whether `verify_transitions` reports nothing."""
    log = logging.getLogger('tulip.abstract.discretization')
    h = Errors()
    level, prop = log.level, log.propagate
    log.addHandler(h)
    log.setLevel(logging.ERROR)
    log.propagate = False
    logging.disable(logging.NOTSET)
    try:
        ab.verify_transitions()
    finally:
        logging.disable(logging.ERROR)
        log.removeHandler(h)
        log.setLevel(level)
        log.propagate = prop
    return h.n == 0


def describe(ab, w):
    n = len(ab.ppp)
    ts = ab.ts
    names = list(ab.ppp2ts)
    return dict(
        regions=w.regions(ab.ppp.regions),
        adj=[[int(bool(x)) for x in row] for row in ab.ppp.adj.toarray()],
        states=[str(x) for x in ts], ppp2ts=[str(x) for x in names],
        labels=[sorted(ts.states[x]['ap']) for x in names] if set(ts) == set(names) else list(),
        ap=sorted(ts.atomic_propositions),
        edges=[[names.index(u) + 1, names.index(v) + 1] for u, v in ts.transitions()],
        pwa=[x for x, _ in w.regions(ab.pwa_ppp.regions)], orig=[x for x, _ in w.regions(ab.orig_ppp.regions)],
        ppp2pwa=[int(ab.ppp2pwa(k)[0]) + 1 for k in range(n)], ppp2sys=[int(ab.ppp2sys(k)[0]) + 1 for k in range(n)],
        ppp2orig=[int(ab.ppp2orig(k)[0]) + 1 for k in range(n)])


def abstraction(item):
    rng = random.Random(item[0])
    long = len(item) > 1
    w = World(rng, long)
    plants = w.plants(rng, split(rng, w.dom))
    pwa = len(plants) > 1 or rng.random() < .2
    kw = parameters(rng, w, plants)
    if long:
        kw.update(N=rng.choice([1, 1, 1, 2]), conservative=rng.random() < .5, trans_length=rng.choice([1, 2, 3, 3, 4]), min_cell_volume=.1)
        for p in plants:
            if rng.random() < .5:
                p.widen(rng)
    calm = not any(p.W for p in plants)
    d = dict(what='abstraction', fail='', sys=[dict(p.record(), domain=p.domain) for p in plants], domain=w.dom, props=w.props,
             simu=kw['simu_type'], N=kw['N'], all=kw.get('use_all_horizon', False), conservative=kw['conservative'],
             hops=kw['trans_length'], closed=kw['closed_loop'], complete=False, stable=False, extra=list(), flagged=False, quiet=True)
    info = f'{kw} pwa={pwa}'

    def make():
        ppp = w.partition()
        if pwa:
            dyn = hybrid.PwaSysDyn([p.tulip(poly(p.domain)) for p in plants], poly(w.dom))
        else:
            dyn = dynamics(plants, w.dom)
        return disc.discretize(ppp, dyn, **kw)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = vp.guarded(make, seconds=100)
        if r[0] != 'ok':
            d['fail'] = f'discretize raised {r[1]}'
            return [(d, f'{info} {r}'[:600])]
        ab = r[1]
        single = all(len(x) <= 1 for x in ab.ppp.regions)
        r = vp.guarded(lambda: describe(ab, w), seconds=60)
        if r[0] != 'ok':
            d['fail'] = f'attributes of abstraction raised {r[1]}'
            return [(d, f'{info} {r}'[:600])]
        d.update(r[1])
        d['complete'] = calm and (kw['N'] == 1 or single)
        d['stable'] = d['complete'] and kw['simu_type'] == 'bi' and kw['min_cell_volume'] < 1
        r = vp.guarded(lambda: verify(ab), seconds=60)
        if r[0] != 'ok':
            d['fail'] = f'verify_transitions raised {r[1]}'
            return [(d, f'{info} {r}'[:600])]
        d['quiet'] = r[1]
        n = len(d['regions'])
        e = [rng.randint(1, n), rng.randint(1, n)]
        if e not in d['edges']:
            ab.ts.transitions.add(ab.ppp2ts[e[0] - 1], ab.ppp2ts[e[1] - 1])
            d['extra'] = [e]
            r = vp.guarded(lambda: verify(ab), seconds=60)
            d['flagged'] = r[0] == 'ok' and not r[1]
            if r[0] != 'ok':
                d['fail'] = f'verify_transitions raised {r[1]}'
    return [(d, info)]


def switched(item):
    rng = random.Random(item[0])
    w = World(rng)
    k, q = rng.choice([(1, 1), (2, 1), (1, 2), (2, 1), (2, 2)])
    named = rng.random() < .6
    env, acts = (['normal', 'refuel'][:k], ['fly', 'hover'][:q]) if named else (list(range(k)), list(range(q)))
    modes = [(e, s) for e in env for s in acts]
    if len(modes) == 4 and rng.random() < .5:
        modes.pop(rng.randrange(4))
    plants = {m: w.plants(rng, split(rng, w.dom) if rng.random() < .5 else [w.dom]) for m in modes}
    calm = not any(p.W for ps in plants.values() for p in ps)
    params = {m: dict(N=rng.choice([1, 1, 2]), trans_length=rng.choice([1, 1, 2, 3])) for m in modes}
    for m in modes:
        if rng.random() < .4:
            params[m]['min_cell_volume'] = rng.choice([.1, .5])
        if rng.random() < .2:
            params[m]['conservative'] = True
    default = rng.random() < .1
    if default:
        params = {m: dict(N=1, trans_length=1) for m in modes}
    parallel = not default and rng.random() < .25
    d = dict(what='switched', fail='', domain=w.dom, props=w.props, simu='bi', complete=calm)
    info = f'{params} {(k, q)} named={named} parallel={parallel} default={default}'

    def make():
        pwa = {m: hybrid.PwaSysDyn([p.tulip(poly(p.domain)) for p in plants[m]], poly(w.dom)) for m in modes}
        dyn = hybrid.SwitchedSysDyn(disc_domain_size=(k, q), dynamics=pwa, cts_ss=poly(w.dom),
                                    **(dict(env_labels=env, disc_sys_labels=acts) if named else dict()))
        ppp = w.partition()
        if rng.random() < .5:
            ppp, _ = p2p.part2convex(ppp)
        if default:
            return disc.discretize_switched(ppp, dyn)
        if parallel:
            multiprocessing.current_process()._config.pop('daemon', None)
            return disc.multiproc_discretize_switched(ppp, dyn, params)
        return disc.discretize_switched(ppp, dyn, params)

    def tell(sw):
        n = len(sw.ppp)
        names = list(sw.ppp2ts)
        adj = sw.ppp.adj
        adj = adj.toarray() if hasattr(adj, 'toarray') else adj
        ts = sw.ts
        edges = [(names.index(u) + 1, names.index(v) + 1, [str(x) for x in (c['env_actions'], c['sys_actions'])])
                 for u, v, c in ts.transitions(data=True)]
        labels = [sorted(ts.states[x]['ap']) for x in names]
        return dict(
            regions=w.regions(sw.ppp.regions), adj=[[int(bool(x)) for x in row] for row in adj],
            states=[str(x) for x in ts], ppp2ts=[str(x) for x in names], labels=labels, ap=sorted(ts.atomic_propositions),
            labeled=[c for _, _, c in edges],
            modes=[dict(name=[str(x) for x in m], sys=[dict(p.record(), domain=p.domain) for p in plants[m]],
                        regions=[c for c, _ in w.regions(sw.modes[m].ppp.regions)],
                        parents=[int(sw.ppp2modes[m][i]) + 1 for i in range(n)],
                        trans=[c for c, _ in w.regions([sw.ppp2pwa(m, i)[1] for i in range(n)])],
                        ppp2sys=[int(sw.ppp2sys(m, i)[0]) + 1 for i in range(n)],
                        edges=[[u, v] for u, v, c in edges if c == [str(x) for x in m]],
                        N=params[m]['N'], hops=params[m]['trans_length']) for m in modes])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = vp.guarded(make, seconds=60)
        for p in multiprocessing.active_children() if parallel else ():
            p.kill()
        if r[0] != 'ok':
            d['fail'] = f'discretize_switched raised {r[1]}'
            return [(d, f'{info} {r}'[:600])]
        r = vp.guarded(tell, r[1], seconds=60)
        if r[0] != 'ok':
            d['fail'] = f'attributes of switched abstraction raised {r[1]}'
            return [(d, f'{info} {r}'[:600])]
        d.update(r[1])
    return [(d, info)]


def replay(g):
    """Compute the sets that the specification generated."""
    sy, q = g['sys'], g['q']
    arr = lambda x: np.array(x, dtype=float)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        dyn = hybrid.LtiSysDyn(A=arr(sy['A']), B=arr(sy['B']), E=arr(sy['E']), K=arr([[k / Q] for k in sy['K']]),
                               Uset=poly(sy['ubox']), Wset=poly(sy['W']))
        T = region(q['T']) if q['T'] else None
        r = vp.guarded(lambda: fs.solve_feasible(region(q['P1']), region(q['P2']), dyn, q['N'], q['closed'], q['all'], T), seconds=60)
    if r[0] != 'ok':
        return f'raised {r[1]}'
    pts = points_of(q['P1'], Q, Q)
    got = {tuple(p) for p in has(r[1], pts)}
    up, low = ({tuple(p) for p in g[x]} for x in ('up', 'low'))
    return '' if low <= got <= up else f'computed {sorted(got)}'


def job(item):
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        if item[0] == 'exact':
            return exact(lambda: job(item[1]))
        return {'solve': solve, 'abstraction': abstraction, 'switched': switched, 'replay': lambda x: replay(x[0])}[item[0]](item[1:])


def body(chk):
    logging.disable(logging.ERROR)
    rng = chk.rng
    cfg = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Moves Exact Stays Arrives Bounds OpenClosed Nominally AllHorizon\n'
    chk.model_check('ReachMC', f'CONSTANTS Emitting = FALSE Steps_ = {chk.pick(2, 3)} Side = {chk.pick(2, 4)}\n' + cfg, workers=8, timeout=800)
    gen = chk.generate('ReachMC', f'CONSTANTS Emitting = TRUE Steps_ = 3 Side = {chk.pick(2, 3)}\nINIT Init\nNEXT NoNext\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\n', workers=1, timeout=800)
    gen = rng.sample(gen, min(len(gen), chk.pick(300, 3000)))
    for g, bad in zip(gen, vp.pmap(job, [('replay', g) for g in gen])):
        bad = bad and exact(lambda: job(('replay', g)))
        if bad:
            chk.violation('replay', f'set of the specification: {bad} {g}'[:3000], g)
        chk.bump('sets replayed')
    items = [('solve', rng.getrandbits(40), sh) for sh, k in ((False, chk.pick(240, 3000)), (True, chk.pick(80, 1000))) for _ in range(k)]
    items += [('solve', rng.getrandbits(40), 'open') for _ in range(chk.pick(160, 2000))]
    items += [('solve', rng.getrandbits(40), 'keep') for _ in range(chk.pick(120, 1500))]
    items += [('abstraction', rng.getrandbits(40)) for _ in range(chk.pick(150, 1500))]
    items += [('abstraction', rng.getrandbits(40), 'long') for _ in range(chk.pick(120, 1200))]
    items += [('switched', rng.getrandbits(40)) for _ in range(chk.pick(60, 600))]
    recs, logs = list(), list()
    for out in vp.pmap(job, items):
        for r, log in out:
            recs.append(r)
            logs.append(log)
    # clauses that fail when projections are computed to be empty
    numeric = {'incomplete', 'is_feasible incomplete', 'transitions missing', 'not bisimilar', 'verify_transitions alarms'}
    verdicts = list(chk.validate('ReachTrace', recs))
    again = [k for k, bad in enumerate(verdicts) if any(c in numeric for c in bad)]
    outs = vp.pmap(job, [("exact", items[k]) for k in again])
    for k, bad in zip(again, chk.validate('ReachTrace', [out[0][0] for out in outs]) if again else ()):
        verdicts[k] = [c for c in verdicts[k] if c in bad or c not in numeric]
        chk.bump('projections repeated')
    for r, log, bad in zip(recs, logs, verdicts):
        for clause in bad:
            chk.violation(f'{r["what"]} {clause}', f'{r["what"]} {clause}: {log} {json.dumps(r)}'[:4000], r)
        chk.bump(r['what'])
        for clause in bad:
            chk.bump(f'{r["what"]}: {clause}')
    cor = list()
    for what in ('solve', 'abstraction', 'switched'):
        done = 0
        for r in recs:
            if r['what'] != what or r['fail'] or done == 12:
                continue
            c = copy.deepcopy(r)
            if what == 'solve':
                b = [p for p in c['points'] if any(not all(lo <= x <= hi for x, (lo, hi) in zip(p, q)) for q in c['q']['P1'])
                     and all(x % 4 == 2 for x in p)]
                b = [p for p in b if not any(all(lo <= x <= hi for x, (lo, hi) in zip(p, q)) for q in c['q']['P1'])]
                if not b:
                    continue
                c['got'].append(b[0])
            elif done % 3 == 0:
                c['labels'][0] = sorted(set(c['labels'][0]) ^ {c['ap'][0]})
            elif done % 3 == 1:
                c['regions'][-1][0].pop()
            elif what == 'abstraction':
                c['ppp2sys'][-1] = 0
            else:
                c['modes'][0]['parents'][0] = 0
            done += 1
            cor.append(c)
    chk.binding('ReachTrace', cor)
    for what in ('solve', 'abstraction', 'switched'):
        chk.sample(next(r for r in recs if r['what'] == what))
    chk.assumptions += ['systems have integer coefficients and boxes with integer corners, so that sets are unions of lattice cells; general matrices for one step',
                        'completeness is decided for convex sets, or without disturbances; and again with exact projections, because package polytope sometimes projects to the empty set']


if __name__ == '__main__':
    vp.main('C20', body)
