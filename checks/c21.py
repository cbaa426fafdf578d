"""C21: continuous inputs realize the transitions of abstractions, at least cost."""
import copy
import json
import logging
import random
import warnings

import numpy as np
import polytope as pc

import vp
from c20 import Plant, Q, World, exact, has, poly, region, split
from tulip import hybrid
from tulip.abstract import discretization as disc, find_controller as fc, prop2partition as p2p

FINE = 1000 * Q


def fine(v):
    return [int(round(float(x) * FINE)) for x in np.asarray(v, dtype=float).flatten()]


def bounds(cells):
    return [[min(c[k] for c in cells) - 2, max(c[k] for c in cells) + 2] for k in range(len(cells[0]))]


def matrix(rng, n, how):
    match how:
        case 'zero':
            return np.zeros((n, n))
        case 'one':
            return np.eye(n)
    return np.array([[rng.choice([0, 0, 0, 1, 1, 2, -1]) for _ in range(n)] for _ in range(n)], dtype=float)


def costs(rng, N, n, m, signed=False):
    """Arguments for `get_input`, and what they mean."""
    some = lambda p: rng.random() < p
    R = matrix(rng, N * n, rng.choice(['zero', 'one', 'any'])) if some(.5) else None
    Qm = matrix(rng, N * m, rng.choice(['zero', 'one', 'any'])) if some(.5) else None
    r = np.array([[rng.choice([0, 0, 1, -1, 2])] for _ in range(N * n)], dtype=float) if some(.35) else None
    w = rng.choice([0, 0, 1, 2, 5])
    if signed:
        # costs that can be negative
        R = matrix(rng, N * n, 'zero') if some(.8) else R
        Qm = matrix(rng, N * m, 'zero') if some(.6) else Qm
        r = np.array([[rng.choice([-1, -2, -1, 1, 0])] for _ in range(N * n)], dtype=float)
        w = rng.choice([0, 0, 0, 1])
    o = rng.choice([1, 1, np.inf])
    kw = dict(R=R, Q=Qm, r=r, mid_weight=w, ord=o)
    default = R is None and Qm is None and r is None and w == 0
    tell = lambda x, y: [[int(v) for v in row] for row in (y if x is None else x)]
    cost = dict(R=tell(R, np.zeros((N * n, N * n))), Q=tell(Qm, np.eye(N * m)), weight=3 if default else w, max=o == np.inf,
                r=[row[0] for row in tell(r, np.zeros((N * n, 1)))])
    if not default and rng.random() < .3:
        kw = {k: v for k, v in kw.items() if v is not None and (k, v if isinstance(v, (int, float)) else None) not in (('mid_weight', 0), ('ord', 1))}
    return kw, cost


def starts(rng, cells, k):
    """Points inside of cells."""
    out = list()
    for c in (rng.choice(cells) for _ in range(k)):
        out.append([x / Q + (rng.choice([0, 0, .25, -.25]) if rng.random() < .5 else 0) for x in c])
    return out


def plans(item):
    rng = random.Random(item[0])
    parts = len(item) > 1
    long = parts or rng.random() < .35
    w = World(rng, long)
    while parts and len(w.props) > 1:
        w = World(rng, long)
    plants = w.plants(rng, split(rng, w.dom))
    for p in plants:
        if long and (parts or rng.random() < .6):
            p.widen(rng)
    pwa = len(plants) > 1 or rng.random() < .2
    kw = dict(N=rng.choice([1, 1, 2, 2, 3] if w.n == 1 else [1, 2, 2]), closed_loop=rng.random() < .5, conservative=rng.random() < .4,
              trans_length=rng.choice([1, 2]), min_cell_volume=rng.choice([.1, .5, 2.]), simu_type=rng.choice(['bi', 'bi', 'bi', 'dual']))
    if long and rng.random() < .5:
        # regions of several parts
        kw.update(conservative=True, min_cell_volume=rng.choice([.1, 100.]))
    if parts:
        kw.update(N=rng.choice([1, 1, 1, 2]), closed_loop=rng.random() < .2, conservative=True, min_cell_volume=100.)
    info = f'{kw} pwa={pwa}'
    base = dict(what='plan', fail='', N=kw['N'], closed=kw['closed_loop'], P=[], ends=[], centers=[], steps=[], found=True, must=False,
                refuses=False, changed=False, optimal=False, slack=200, cost=[], sys=plants[0].record())

    def make():
        ppp = w.partition()
        dyn = hybrid.PwaSysDyn([p.tulip(poly(p.domain)) for p in plants], poly(w.dom)) if pwa else plants[0].tulip(poly(w.dom))
        return disc.discretize(ppp, dyn, **kw)
    out = list()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        made = vp.guarded(make, seconds=100)
        if made[0] != 'ok':
            return []  # decided by C20
        ab = made[1]
        cells = [c for c, _ in w.regions(ab.ppp.regions)]
        if any(not c for c in cells):
            return []
        out += locate(rng, w, ab, cells)
        edges = list(ab.ts.transitions())
        missing = [(a, b) for a in ab.ts for b in ab.ts if (a, b) not in set(edges)]
        if parts:
            several = [e for e in edges if len(ab.ppp[list(ab.ppp2ts).index(e[1])]) > 1]
            edges = several and 4 * several
        jobs = [(e, True) for e in rng.sample(edges, min(len(edges), 4))] + [(e, False) for e in rng.sample(missing, min(1, len(missing)))]
        for (a, b), there in jobs:
            a, b = list(ab.ppp2ts).index(a), list(ab.ppp2ts).index(b)
            out += drive(rng, w, ab, a, b, there, cells, plants, base, info, parts)
    return out


def drive(rng, w, ab, a, b, there, cells, plants, base, info, signed):
    d = copy.deepcopy(base)
    k, ssys = ab.ppp2sys(a)
    plant = plants[k]
    d['sys'] = plant.record()
    N = d['N']
    pieces = lambda r: [has(x, w.cells) for x in (r if len(r) else [r])]
    ends = [c for c in pieces(ab.ppp[b]) if c]
    d['ends'] = [bounds(c) for c in ends]
    if ab.disc_params['conservative']:
        d['P'] = bounds(cells[a])
        single = len(pieces(ab.ppp[a])) == 1
    else:
        d['P'] = bounds(has(ab.ppp2pwa(a)[1], w.cells))
        single = True
    target = ab.ppp[b] if len(ab.ppp[b]) else [ab.ppp[b]]
    d['centers'] = [fine(pc.cheby_ball(x)[1]) for x, c in zip(target, pieces(ab.ppp[b])) if c]
    calm = not plant.W
    mild = calm or all(lo <= 0 <= hi for lo, hi in plant.W)
    one = len(ends) == 1 and len(pieces(ab.ppp[a])) == 1
    d['must'] = there and (not d['closed'] or N == 1 or one and (calm or mild and not plant.dep))
    kw, d['cost'] = costs(rng, N, plant.n, plant.m, signed)
    lattice = 1
    for lo, hi in plant.ubox:
        lattice *= (hi - lo) // 2 + 1
    d['optimal'] = there and single and (not d['closed'] or N == 1 or calm and one) and lattice ** N <= 800
    d['slack'] = 40 * (1 + sum(abs(x) for row in d['cost']['R'] for x in row) + sum(abs(x) for row in d['cost']['Q'] for x in row))
    x = np.array(starts(rng, cells[a], 1)[0])
    copies = {key: np.copy(v) for key, v in kw.items()}
    info = f'{info} {a}->{b} {x} { {key: str(v) for key, v in kw.items()} }'
    params = dict(ab.disc_params)
    try:
        while True:
            r = vp.guarded(lambda: fc.get_input(x, ssys, ab, a, b, **kw), seconds=60)
            if r[0] != 'ok':
                d['found'] = False
                if not there and 'no transition' not in r[2]:
                    d['fail'] = f'get_input without transition raised {r[1]}'
                elif r[1] != 'Exception':
                    d['fail'] = f'get_input raised {r[1]}'
                info += f' {r}'
                break
            if not there:
                d['refuses'] = True  # returned inputs
                break
            us = np.asarray(r[1], dtype=float)
            d['steps'].append(dict(x=fine(x), us=[fine(u) for u in us]))
            d['changed'] = d['changed'] or any(not np.array_equal(v, kw[key]) for key, v in copies.items())
            left = ab.disc_params['N'] - 1
            if not d['closed'] or not left or us.shape != (left + 1, plant.m):
                break
            # the environment moves, and inputs are computed again
            dist = [rng.choice([lo, hi, rng.uniform(lo, hi)]) / Q for lo, hi in plant.W] if plant.W else [0] * len(plant.E[0])
            x = (np.array(plant.A) @ x + np.array(plant.B) @ us[0] + np.array(plant.E) @ np.array(dist) + np.array(plant.K) / Q)
            ab.disc_params['N'] = left
            kw, _ = costs(rng, left, plant.n, plant.m)
            copies = {key: np.copy(v) for key, v in kw.items()}
    finally:
        ab.disc_params.clear()
        ab.disc_params.update(params)
    return [(d, info)]


def locate(rng, w, ab, cells):
    out = list()
    inner = [[k // 2 * 2 for k in c] for c in w.cells]
    for _ in range(3):
        if rng.random() < .6:
            p = [x + rng.choice([0, 2, -2, 1]) for x in rng.choice(w.cells)]
        else:
            p = [rng.randrange(lo - 6, hi + 7) for lo, hi in w.dom]
        x = np.array(p) / Q
        r = vp.guarded(lambda: fc.find_discrete_state(x, ab.ppp), seconds=30)
        d = dict(what='locate', fail='', x=[1000 * v for v in p], regions=cells, got=0)
        if r[0] != 'ok':
            d['fail'] = f'find_discrete_state raised {r[1]}'
        elif r[1] is not None:
            d['got'] = int(r[1]) + 1
        out.append((d, str(r)[:300]))
    return out


def inside(sy, x, us, P0, P1):
    arr = lambda x: np.array(x, dtype=float)
    dyn = hybrid.LtiSysDyn(A=arr(sy['A']), B=arr(sy['B']), E=arr(sy['E']), K=arr([[k / Q] for k in sy['K']]),
                           Uset=poly(sy['ubox']), Wset=poly(sy['W'] or [[0, Q]] * len(sy['E'][0])))
    return vp.guarded(lambda: bool(fc.is_seq_inside(arr(x) / FINE, arr(us) / FINE, dyn, region(P0), region(P1))), seconds=30)


def sequence(item):
    rng = random.Random(item[0])
    n = rng.choice([1, 2])
    plant = Plant(rng, n, shear=rng.random() < .3)
    N = rng.choice([1, 2, 2, 3])
    step = lambda lo, hi: rng.randint(lo, hi) * FINE // Q
    x = [step(-4, 12) for _ in range(n)]
    us = [[step(lo, hi) for lo, hi in plant.ubox] for _ in range(N)]
    rec = plant.record()
    # boxes around the trajectory, sometimes
    path = [[v // 1000 for v in x]]
    for u in us:
        path.append([sum(a * v for a, v in zip(plant.A[k], path[-1])) + sum(b * v // 1000 for b, v in zip(plant.B[k], u)) + plant.K[k] for k in range(n)])
    def around(pts):
        b = [[min(p[k] for p in pts) // Q * Q, -(-max(p[k] for p in pts) // Q) * Q] for k in range(n)]
        b = [[lo, hi + Q if lo == hi else hi] for lo, hi in b]
        if rng.random() < .4:
            k = rng.randrange(n)
            if b[k][1] - b[k][0] > Q:
                b[k][rng.randrange(2)] += rng.choice([Q, -Q])
                b[k].sort()
                if b[k][0] == b[k][1]:
                    b[k][1] += Q
        return b
    P0, P1 = [around(path[1:-1] or path[:1])], [around(path[-1:])]
    if rng.random() < .3:
        far = [[lo + 40, hi + 40] for lo, hi in P1[0]]
        rng.choice([P0, P1]).insert(rng.randrange(2), far)
    r = inside(rec, x, us, P0, P1)
    d = dict(what='sequence', fail='', sys=rec, x=x, us=us, P0=P0, P1=P1, got=r[0] == 'ok' and r[1])
    if r[0] != 'ok':
        d['fail'] = f'is_seq_inside raised {r[1]}'
    return [(d, str(r)[:300])]


def job(item):
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        if item[0] == 'exact':
            return exact(lambda: job(item[1]))
        if item[0] == 'replay':
            g = item[1]
            return inside(g['sys'], g['x'], g['us'], g['P0'], [g['P1']] if not isinstance(g['P1'][0][0], list) else g['P1'])
        return {'plans': plans, 'sequence': sequence}[item[0]](item[1:])


def body(chk):
    logging.disable(logging.CRITICAL)
    rng = chk.rng
    consts = f'CONSTANTS Emitting = {{}} Steps_ = 2 Side = {chk.pick(2, 3)}\n'
    chk.model_check('DriveMC', consts.format('FALSE') + 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS InTube Keeps OnlyRobust Reaches Plans_ Steps1 Nominals\n', workers=8, timeout=800)
    gen = chk.generate('DriveMC', 'CONSTANTS Emitting = TRUE Steps_ = 2 Side = 2\nINIT Init\nNEXT NoNext\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\n', workers=1, timeout=800)
    gen = rng.sample(gen, min(len(gen), chk.pick(1500, 15000)))
    for g, r in zip(gen, vp.pmap(job, [('replay', g) for g in gen])):
        if r[0] != 'ok' or r[1] != g['inside']:
            chk.violation('replay', f'is_seq_inside returns {r} for {g}'[:3000], g)
        chk.bump('sequences replayed')
    items = [('plans', rng.getrandbits(40)) for _ in range(chk.pick(500, 4000))]
    items += [('plans', rng.getrandbits(40), 'parts') for _ in range(chk.pick(150, 1200))]
    items += [('sequence', rng.getrandbits(40)) for _ in range(chk.pick(400, 4000))]
    recs, logs, source = list(), list(), list()
    for item, out in zip(items, vp.pmap(job, items)):
        for j, (r, log) in enumerate(out):
            recs.append(r)
            logs.append(log)
            source.append((item, j))
    verdicts = list(chk.validate('DriveTrace', recs))
    # projections are sometimes computed to be empty
    numeric = {'not found', 'cost'}
    again = [k for k, bad in enumerate(verdicts) if any(c in numeric for c in bad)]
    outs = vp.pmap(job, [('exact', source[k][0]) for k in again])
    same = list()
    for k, out in zip(again, outs):
        j = source[k][1]
        same.append(out[j][0] if j < len(out) else dict(recs[k], must=False, optimal=False))
    for k, bad in zip(again, chk.validate('DriveTrace', same) if again else ()):
        verdicts[k] = [c for c in verdicts[k] if c in bad or c not in numeric]
        chk.bump('projections repeated')
    for r, log, bad in zip(recs, logs, verdicts):
        for clause in bad:
            chk.violation(f'{r["what"]} {clause}', f'{r["what"]} {clause}: {log} {json.dumps(r)}'[:4000], r)
            chk.bump(f'{r["what"]}: {clause}')
        chk.bump(r['what'])
        if r['what'] == 'plan':
            for key in ('must', 'optimal', 'found', 'closed'):
                chk.bump(f'plan: {key}', int(bool(r[key])))
            if len(r['ends']) > 1 and r['optimal'] and r['found']:
                chk.bump('plan: optimal among parts')
    cor = list()
    done = 0
    for r, bad in zip(recs, verdicts):
        if r['fail'] or bad or done >= 40:
            continue
        c = copy.deepcopy(r)
        if r['what'] == 'plan':
            if not r['steps']:
                continue
            # an input beyond its bound
            hi = r['sys']['ubox'][0][1]
            c['steps'][0]['us'][0][0] = 1000 * hi + 400
        elif r['what'] == 'locate':
            c['got'] = (c['got'] + 1) % (len(c['regions']) + 1)
        else:
            c['got'] = not c['got']
        done += 1
        cor.append(c)
    chk.binding('DriveTrace', cor)
    for what in ('plan', 'locate', 'sequence'):
        chk.sample(next(r for r in recs if r['what'] == what))
    chk.assumptions += ['systems as for C20; numbers are rounded to 1/4000',
                        'optimality is decided against plans with inputs that are multiples of 1/2; norm 2 needs cvxopt, which is absent']


if __name__ == '__main__':
    vp.main('C21', body)
