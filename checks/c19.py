"""C19: partitions preserve propositions and cover the domain."""
import copy
import itertools
import logging
import random
import warnings

import numpy as np
import polytope as pc
import scipy.sparse as sp

import vp
from tulip import hybrid
from tulip.abstract import prop2partition as p2p


# A polytope is a list of half-spaces [a, b] of integers, at scale S.

def box(b):
    """Half-spaces of box [[lo, hi], ...]."""
    n = len(b)
    q = list()
    for k, (lo, hi) in enumerate(b):
        e = [int(j == k) for j in range(n)]
        q += [[[- x for x in e], - lo], [e, hi]]
    return q


def poly(h, S):
    return pc.Polytope(np.array([a for a, _ in h], dtype=float), np.array([b for _, b in h], dtype=float) / S)


def inside(h, p):
    return all(sum(a * x for a, x in zip(r[0], p)) < r[1] for r in h)


def boundary(h, p):
    return any(sum(a * x for a, x in zip(r[0], p)) == r[1] for r in h)


class Scene:
    def __init__(self, rng, boxes=True):
        self.boxes = boxes
        self.rng = rng
        (self.draw if boxes else self.draw_general)()

    def draw(self):
        rng = self.rng
        dim = self.dim = rng.choice([1, 1, 2, 2, 2, 2, 3])
        q = self.q = rng.choice([1, 1, 2, 3]) if dim < 3 else 1
        S = self.S = 2 * q
        side = {1: 5, 2: 3 if q < 3 else 2, 3: 2}[dim]
        self.dom_box = list()
        for _ in range(dim):
            lo = rng.randint(-2, 2)
            self.dom_box.append([S * lo, S * (lo + rng.randint(1, side))])
        self.domain = box(self.dom_box)

        def some_box(margin):
            b = list()
            for lo, hi in self.dom_box:
                u, v = sorted(rng.sample(range((lo - margin * S) // 2, (hi + margin * S) // 2 + 1), 2))
                if rng.random() < .25:
                    u, v = lo // 2, hi // 2
                b.append([2 * u, 2 * v])
            return box(b)
        names = rng.sample(['p', 'q', 'home', 'lot', 'Z'], rng.choice([0, 1, 1, 2, 2, 3]))
        self.props = [[x, some_box(rng.choice([0, 0, 1]))] for x in names]
        if len(self.props) > 1 and rng.random() < .1:
            self.props[1][1] = copy.deepcopy(self.props[0][1])
        self.points = [list(p) for p in itertools.product(*[range(lo + 1, hi, 2) for lo, hi in self.dom_box])]
        # domains of subsystems
        k = rng.randrange(dim)
        lo, hi = self.dom_box[k]
        cuts = sorted(rng.sample(range(lo + 2, hi, 2), rng.randint(0, min(2, (hi - lo) // 2 - 1))))
        self.subs = list()
        for u, v in zip([lo] + cuts, cuts + [hi]):
            b = copy.deepcopy(self.dom_box)
            b[k] = [u, v]
            if u == lo and rng.random() < .2:
                b[k][0] -= S
            self.subs.append(box(b))
        self.partial = False
        if len(self.subs) > 1 and rng.random() < .15:
            self.subs.pop(rng.randrange(len(self.subs)))
            self.partial = True
        rng.shuffle(self.subs)

    def draw_general(self):
        rng = self.rng
        self.dim = 2
        S = self.S = 12
        self.dom_box = [[0, S * rng.randint(2, 4)], [0, S * rng.randint(2, 4)]]
        self.domain = box(self.dom_box)

        def cut():
            a = [rng.randint(-2, 2), rng.randint(-2, 2)]
            if a == [0, 0]:
                a[0] = 1
            c = [rng.randint(lo + S // 2, hi - S // 2) for lo, hi in self.dom_box]
            return [a, sum(x * y for x, y in zip(a, c))]
        self.props = [[x, [cut() for _ in range(rng.choice([1, 2, 2]))] + box([[lo - S, hi + S] for lo, hi in self.dom_box])]
                      for x in rng.sample(['p', 'q', 'home'], rng.choice([1, 2, 2]))]
        a, b = cut()
        self.subs = [self.domain + [[a, b]], self.domain + [[[- x for x in a], - b]]]
        self.partial = False
        pts = list()
        hs = [h for _, h in self.props] + self.subs
        while len(pts) < 60:
            p = [rng.randint(lo + 1, hi - 1) for lo, hi in self.dom_box]
            if p not in pts and not any(boundary(h, p) for h in hs):
                pts.append(p)
        self.points = pts

    def base(self, what, ppp=None, old=None):
        d = dict(what=what, fail='', boxes=self.boxes, points=self.points, domain=self.domain,
                 props=self.props, old=old or list(), new=list(), adj=list(), named=list())
        if ppp is not None:
            d['new'] = self.regions(ppp)
            d['adj'] = [[int(x) for x in row] for row in ppp.adj.toarray()]
            d['named'] = sorted(ppp.prop_regions)
        return d

    def regions(self, ppp):
        S = self.S
        out = list()
        for r in ppp.regions:
            out.append([[p for p in self.points if r.contains(np.array([p], dtype=float).T / S, 0)[0]], sorted(r.props)])
        return out


def pieces(r):
    return len(r.list_poly)


def chain(seed, boxes, ops=None, scene=None):
    """Partition, and refinements of it."""
    rng = random.Random(seed)
    s = scene or Scene(rng, boxes)
    recs = list()

    def attempt(what, fn, old=None):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = vp.guarded(fn, seconds=120)
        if r[0] != 'ok':
            d = s.base(what, None, old)
            d['fail'] = f'{what} raised {r[1]}'
            recs.append((d, f'{r[1]}: {r[2]}'))
            return None
        return r[1]
    S = s.S
    props = {x: poly(h, S) for x, h in s.props}
    ppp = attempt('quotient', lambda: p2p.prop2part(poly(s.domain, S), props))
    if ppp is None:
        return recs
    recs.append((s.base('quotient', ppp), ''))
    for op in ops if ops is not None else [rng.choice(['convex', 'subsystems', 'grid']) for _ in range(rng.randint(1, 3))]:
        old = s.regions(ppp)
        if len(old) > 40:
            break
        if op == 'convex':
            r = attempt(op, lambda: p2p.part2convex(ppp), old)
            if r is None:
                break
            new, parents = r
            d = s.base(op, new, old)
            d.update(parents=[int(k) + 1 for k in parents], pieces=[pieces(x) for x in new.regions])
        elif op == 'subsystems':
            subs = [hybrid.LtiSysDyn(A=np.eye(s.dim), B=np.eye(s.dim), domain=poly(h, S),
                                     Uset=pc.box2poly([[0, 1]] * s.dim)) for h in s.subs]
            # stand-in that has what is read, so that domains need not be checked
            class Pwa:
                list_subsys = subs
                domain = pc.Region([x.domain for x in subs])
            if s.partial:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    r = vp.guarded(p2p.pwa_partition, Pwa, ppp, seconds=60)
                d = s.base('refused', None, old)
                d.update(subs=s.subs, accepted=r[0] == 'ok')
                recs.append((d, str(r)[:300]))
                break
            r = attempt(op, lambda: p2p.pwa_partition(Pwa, ppp), old)
            if r is None:
                break
            new, active, parents = r
            d = s.base(op, new, old)
            d.update(parents=[int(k) + 1 for k in parents], active=[int(k) + 1 for k in active], subs=s.subs)
        else:
            if isinstance(op, str):
                sizes, kw = grid_args(rng, s)
            else:
                sizes, kw = op
            r = attempt('grid', lambda: p2p.add_grid(ppp, **kw), old)
            if r is None:
                break
            new = r
            d = s.base('grid', new, old)
            d.update(sizes=sizes, low=[x[0] for x in s.dom_box], high=[x[1] for x in s.dom_box])
        recs.append((d, str(op)))
        ppp = new
    # derived transition system

    def ts():
        fts, states = p2p.ppp2ts(ppp)
        names = list(states)
        return dict(
            states=[str(x) for x in names],
            labels=[sorted(fts.states[x]['ap']) for x in names] if set(fts.states) == set(names) else list(),
            edges=[[names.index(u) + 1, names.index(v) + 1] for u, v in fts.transitions()],
            ap=sorted(fts.atomic_propositions))
    r = attempt('ts', ts)
    if r is not None:
        d = s.base('ts', ppp)
        d.update(r)
        recs.append((d, ''))
    return recs


def grid_args(rng, s):
    S = s.S
    if s.boxes and rng.random() < .6:
        sizes = [2 * rng.randint(1, 2 * S) for _ in s.dom_box]
    elif s.boxes:
        # number of intervals, so that cells are unions of unit cells
        one = rng.random() < .5
        ok = [[n for n in range(1, 7) if (hi - lo) % (2 * n) == 0] for lo, hi in s.dom_box]
        if one:
            n = rng.choice(sorted(set.intersection(*map(set, ok))))
            num = [n] * s.dim
        else:
            num = [rng.choice(x) for x in ok]
        sizes = [(hi - lo) // n for n, (lo, hi) in zip(num, s.dom_box)]
        return sizes, dict(num_grid_pnts=num[0] if one else num)
    else:
        # no sample point is on a boundary of the grid
        for _ in range(100):
            sizes = [rng.randint(7, 30) for _ in s.dom_box]
            if not any((x - lo) % z == 0 for p in s.points for x, (lo, _), z in zip(p, s.dom_box, sizes)):
                break
        else:
            sizes = [hi - lo for lo, hi in s.dom_box]
    if rng.random() < .3:
        z = sizes[0]
        if s.boxes or not any((x - lo) % z == 0 for p in s.points for x, (lo, _) in zip(p, s.dom_box)):
            return [z] * s.dim, dict(grid_size=z / S)
    return sizes, dict(grid_size=[z / S for z in sizes])


# constructor, and preserves_predicates

def built(seed):
    rng = random.Random(seed)
    s = Scene(rng)
    S = s.S
    far = rng.random() < .3
    pts = [list(p) for p in itertools.product(*[range(lo + 1 - 2 * far, hi + 2 * far, 2) for lo, hi in s.dom_box])]
    names = [x for x, _ in s.props] + ['other'] * (rng.random() < .2)
    regs, old = list(), list()
    for _ in range(rng.randint(1, 3)):
        for _ in range(50):
            b = [sorted(2 * k for k in rng.sample(range(lo // 2 - far, hi // 2 + 1 + far), 2)) for lo, hi in s.dom_box]
            h = box(b)
            cell = [p for p in pts if inside(h, p)]
            holds = {frozenset(x for x, g in s.props if inside(g, p)) for p in cell}
            if len(holds) == 1:
                break
        lab = set(rng.choice(sorted(holds, key=sorted)))
        if rng.random() < .25:
            lab ^= set(rng.sample(names, 1)) if names else set()
        regs.append(pc.Region([poly(h, S)], lab))
        old.append([cell, sorted(lab)])
    n = len(regs)
    shape = rng.choice([(n, n)] * 8 + [(n + 1, n + 1), (n, n + 1)])

    def make():
        return p2p.PropPreservingPartition(
            domain=poly(s.domain, S), regions=regs, adj=sp.lil_array(shape, dtype=np.int8),
            prop_regions={x: poly(h, S) for x, h in s.props})
    s.points = pts
    d = s.base('built', None, old)
    r = vp.guarded(make, seconds=60)
    d.update(accepted=r[0] == 'ok', asize=list(shape), preserves=False, reg2props=list())
    if r[0] == 'ok':
        ppp = r[1]
        q = vp.guarded(lambda: (bool(ppp.preserves_predicates()), [sorted(ppp.reg2props(k)) for k in range(n)]), seconds=60)
        if q[0] == 'ok':
            d['preserves'], d['reg2props'] = q[1]
        else:
            d['fail'] = f'preserves_predicates raised {q[1]}'
    elif r[1] != 'ValueError':
        d['fail'] = f'constructor raised {r[1]}'
    return [(d, str(r)[:300])]


# behaviours of the specification

def replay(item):
    """Refinements that the specification generated; compare regions."""
    w, h, g = item
    s = Scene.__new__(Scene)
    s.boxes, s.dim, s.S = True, 2, 2
    s.dom_box = [[0, 2 * w], [0, 2 * h]]
    s.domain = box(s.dom_box)
    s.props = [[x, p] for x, p in g['props']]
    s.points = [list(p) for p in itertools.product(*[range(1, hi, 2) for _, hi in s.dom_box])]
    s.partial = False

    def run():
        ppp = p2p.prop2part(poly(s.domain, 2), {x: poly(p, 2) for x, p in s.props})
        for op, a, b in g['hist']:
            if op == 'grid':
                ppp = p2p.add_grid(ppp, grid_size=[float(a), float(b)])
            else:
                doms = [box([[0, 2 * a], [0, 2 * h]]), box([[2 * a, 2 * w], [0, 2 * h]])]

                class Pwa:
                    list_subsys = [hybrid.LtiSysDyn(A=np.eye(2), B=np.eye(2), domain=poly(q, 2), Uset=pc.box2poly([[0, 1]] * 2)) for q in doms]
                    domain = pc.Region([x.domain for x in list_subsys])
                ppp = p2p.pwa_partition(Pwa, ppp)[0]
        return s.regions(ppp)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = vp.guarded(run, seconds=120)
    want = sorted([sorted(map(list, c[0])), sorted(c[1])] for c in g['cells'])
    if r[0] != 'ok':
        return f'replay raised {r[1]}', r[2], want
    got = sorted([sorted(c[0]), c[1]] for c in r[1])
    return '' if got == want else 'regions differ from those of the specification', got, want


def job(item):
    kind, seed = item
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return built(seed) if kind == 'built' else chain(seed, kind == 'boxes')


def body(chk):
    logging.disable(logging.ERROR)
    rng = chk.rng
    cfg = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Partitions Labels IsQuotient Sofar Inherit\n'
    chk.model_check('PartitionMC', f'CONSTANTS W = {chk.pick(2, 3)} H = 2 Depth = {chk.pick(2, 2)} Emitting = FALSE\n' + cfg, workers=8, timeout=800)
    gen = chk.generate('PartitionMC', 'CONSTANTS W = 2 H = 2 Depth = 2 Emitting = TRUE\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\n', workers=1, timeout=800)
    gen = rng.sample(gen, min(len(gen), chk.pick(150, 2500)))
    for g, (bad, got, want) in zip(gen, vp.pmap(replay, [(2, 2, g) for g in gen])):
        if bad:
            chk.violation(f'replay {bad}', f'{bad}: {g} {got} {want}'[:3000], g)
        chk.bump('behaviours replayed')
    items = [(kind, rng.getrandbits(40)) for kind, q in (('boxes', 150), ('general', 60), ('built', 200)) for _ in range(chk.pick(q, q * 10))]
    recs, logs = list(), list()
    for out in vp.pmap(job, items):
        for r, log in out:
            recs.append(r)
            logs.append(log)
    for r, log, bad in zip(recs, logs, chk.validate('PartitionTrace', recs)):
        for clause in bad:
            chk.violation(f'{r["what"]} {clause}', f'{r["what"]} {clause}: {log} {r}'[:4000], r)
        chk.bump(r['what'])
    cor = list()
    for what in ('quotient', 'convex', 'subsystems', 'grid', 'ts'):
        done = 0
        for r in recs:
            if r['what'] != what or r['fail'] or not r['boxes'] or len(r['new']) < 2 or done == 12:
                continue
            s = copy.deepcopy(r)
            if what == 'ts':
                s['edges'].pop()
            elif done % 3 == 0:
                s['new'][1][0] = s['new'][1][0][1:]
            elif done % 3 == 1 and r['props']:
                s['new'][0][1] = sorted(set(s['new'][0][1]) ^ {r['props'][0][0]})
            else:
                s['adj'][0][1] = s['adj'][1][0] = 1 - s['adj'][0][1]
            done += 1
            cor.append(s)
    chk.binding('PartitionTrace', cor)
    chk.sample(recs[0])
    chk.sample(recs[-1])
    chk.assumptions += ['regions are compared on finitely many points, none on a boundary; for boxes these decide, because corners are on the lattice',
                        'adjacent means that closures intersect, as in package polytope; decided for boxes']


if __name__ == '__main__':
    vp.main('C19', body)
