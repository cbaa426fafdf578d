"""C24: models of hybrid systems are validated and preserved."""
import copy
import itertools
import warnings

import numpy as np
import polytope as pc

import vp
from tulip import hybrid

SEMS = ['none', 'none', 'sampled', 'sampled', 'discrete', 'other']


def timing(sem, step, rng=None):
    t = None if step == 0 else step
    return dict(time_semantics=None if sem == 'none' else sem, timestep=t)


def time_of(x):
    sem = 'none' if x.time_semantics is None else x.time_semantics
    step = 0 if x.timestep is None else x.timestep
    if sem not in ('sampled', 'discrete', 'none') or int(step) != step:
        return ['?', 0]
    return [sem, int(step)]


def attempt(fn):
    """Return model, or None if data were rejected."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = vp.guarded(fn, seconds=60)
    if r[0] == 'ok':
        return r[1], ''
    return None, f'{r[1]}: {r[2]}'


# time data

def history(ops):
    objs, obs, log = list(), list(), list()
    for n, op in enumerate(ops):
        t = timing(op['sem'], op['step'])
        if any(j > len(objs) for j in op['subs']):
            break  # the code rejected a part
        subs = [objs[j - 1] for j in op['subs']]

        def make():
            if op['kind'] == 'lti':
                return hybrid.LtiSysDyn(
                    A=np.eye(1), B=np.eye(1), domain=pc.box2poly([[n, n + 1]]),
                    Uset=pc.box2poly([[0, 1]]), **t)
            if op['kind'] == 'pwa':
                dom = pc.Region([s.domain for s in subs])
                return hybrid.PwaSysDyn(list(subs), dom, overwrite_time=op['overwrite'], **t)
            return hybrid.SwitchedSysDyn(
                (1, len(subs)), {(0, j): s for j, s in enumerate(subs)},
                pc.box2poly([[0, 9]]), overwrite_time=op['overwrite'], **t)
        m, err = attempt(make)
        if m is not None:
            objs.append(m)
        obs.append(dict(ok=m is not None, times=[time_of(x) for x in objs]))
        log.append(f'{op} -> {err or "ok"}')
        # stop where the lists of models differ
        if m is None and not err:
            break
    return dict(what='time', ops=ops, obs=obs), '\n'.join(log)


def random_history(rng):
    kinds, times, ops = list(), [('none', 0), ('sampled', 1), ('sampled', 2), ('discrete', 0), ('none', 2)], list()
    # the models that exist are computed from the operations that have valid data
    state = list()
    for _ in range(rng.randint(3, 9)):
        kind = rng.choice(['lti', 'lti', 'pwa', 'pwa', 'switched'])
        pool = [k for k, x in enumerate(state, 1) if x[0] == dict(pwa='lti', switched='pwa').get(kind)]
        if kind != 'lti' and not pool:
            kind = 'lti'
        sem, step = rng.choice(times)
        if rng.random() < .1:
            sem, step = rng.choice([('discrete', 1), ('other', 0), ('sampled', -1), ('none', -2), ('other', 1)])
        subs = rng.sample(pool, rng.randint(0 if rng.random() < .05 else 1, min(3, len(pool)))) if kind != 'lti' else []
        ow = kind == 'lti' or rng.random() < .6
        if not ow and subs and rng.random() < .7:
            sem, step = state[subs[0] - 1][1]
        ops.append(dict(kind=kind, subs=subs, sem=sem, step=step, overwrite=ow))
        ok = sem in ('none', 'sampled', 'discrete') and step >= 0 and not (sem == 'discrete' and step)
        ok = ok and (ow or all(state[j - 1][1] == (sem, step) for j in subs))
        if ok:
            if ow:
                todo = list(subs)
                while todo:
                    j = todo.pop()
                    state[j - 1] = (state[j - 1][0], (sem, step), state[j - 1][2])
                    todo += state[j - 1][2]
            state.append((kind, (sem, step), subs))
    return ops


# linear systems

def array(rng, shape):
    a = np.array([rng.randint(-3, 3) for _ in range(int(np.prod(shape)))], dtype=rng.choice([int, float])).reshape(shape)
    return a


def arr_rec(a):
    if a is None:
        return dict(given=False, shape=[], vals=[])
    a = np.asarray(a)
    if a.ndim != 2:
        return dict(given=True, shape=list(a.shape), vals=[])
    vals = [[int(x) if int(x) == x else 99 for x in row] for row in a.tolist()]
    return dict(given=True, shape=list(a.shape), vals=vals)


def box(rng, n, kind='polytope'):
    p = pc.box2poly([[a, a + rng.randint(1, 3)] for a in (rng.randint(-2, 2) for _ in range(n))])
    if kind == 'region':
        q = pc.box2poly([[10, 11]] * n)
        return pc.Region([p, q])
    if kind == 'other':
        return rng.choice(['box', 3, [p]])
    return p


def set_rec(x, n, kind):
    return dict(given=x is not None, dim=n, kind=kind)


def lti_data(rng, convert=False):
    n = rng.choice([1, 2, 2, 3])
    m, q = rng.choice([1, 2, 3]), rng.choice([1, 2])
    wrong = rng.random() < .5
    # at most one datum is inconsistent
    w = rng.choice(['A', 'Ar', 'B', 'Br', 'U', 'Uk', 'E', 'Er', 'W', 'K', 'Kr', 'Kc', 'D', 'Dk', 't']) if wrong else ''
    d = dict()
    # None: omitted; otherwise a shape
    d['A'] = dict(A=(n, n + 1), Ar=(n * n,)).get(w, (n, n))
    if w == 'A' and rng.random() < .5:
        d['A'] = (n + 1, n)
    d['B'] = (n, m) if w in ('U', 'B', 'Br') or rng.random() < .8 else None
    d['B'] = dict(B=(n + rng.choice([1, 2]), m), Br=(n,)).get(w, d['B'])
    d['E'] = (n, q) if w in ('W', 'E', 'Er') or rng.random() < .5 else None
    d['E'] = dict(E=(n + 1, q), Er=(n,)).get(w, d['E'])
    d['K'] = (n, 1) if rng.random() < .5 else None
    d['K'] = dict(K=(n + 1, 1), Kr=(n,), Kc=(n, 2)).get(w, d['K'])
    if w == 'Kc' and n > 1 and rng.random() < .5:
        d['K'] = (1, n)
    mats = {k: None if s is None else array(rng, s) for k, s in d.items()}
    du = rng.choice([m, m, m + n])
    if w == 'U':
        du = rng.choice([k for k in range(1, 8) if k not in (m, m + n)])
    ku = rng.choice(['region', 'other']) if w == 'Uk' else 'polytope'
    uset = box(rng, du, ku) if wrong or rng.random() < .8 else None
    dw = q if w != 'W' else q + rng.choice([1, 2])
    wset = box(rng, dw) if w == 'W' or rng.random() < .5 else None
    dd = n + rng.choice([1, 2]) if w == 'D' else n
    kd = 'other' if w == 'Dk' else rng.choice(['polytope', 'polytope', 'region'])
    if convert:
        kd = 'polytope' if kd != 'other' else kd
    dom = box(rng, dd, kd) if convert or w in ('D', 'Dk') or rng.random() < .8 else None
    sem, step = rng.choice([('none', 0), ('sampled', 1), ('discrete', 0), ('none', 3), ('sampled', 0)])
    if w == 't':
        sem, step = rng.choice([('discrete', 1), ('other', 0), ('sampled', -1)])
    if convert:
        sem, step = 'none', 0
    rec = {k: arr_rec(v) for k, v in mats.items()}
    rec.update(Uset=set_rec(uset, du, ku), Wset=set_rec(wset, dw, 'polytope'), domain=set_rec(dom, dd, kd), sem=sem, step=step)
    return mats, dict(Uset=uset, Wset=wset, domain=dom), rec, (sem, step)


def stored(m, sets):
    def state(x, given):
        if x is None:
            return 'none'
        if given is not None and x == given:
            return 'same'
        return 'empty' if isinstance(x, pc.Polytope) and x.A.size == 0 else 'other'
    got = {k: arr_rec(getattr(m, k)) for k in 'ABEK'}
    got.update(Uset=state(m.Uset, sets['Uset']), Wset=state(m.Wset, sets['Wset']), domain=state(m.domain, sets['domain']))
    t = time_of(m)
    got.update(ok=True, sem=t[0], step=t[1])
    return got


def linear(rng):
    mats, sets, rec, t = lti_data(rng)
    sets0 = copy.deepcopy(sets)
    m, err = attempt(lambda: hybrid.LtiSysDyn(**mats, **sets, **timing(*t)))
    return dict(rec, what='lti', got=dict(ok=False) if m is None else stored(m, sets0)), err


def converted(rng):
    mats, sets, rec, _ = lti_data(rng, True)
    how = rng.choice(['pwa', 'switched', 'from_pwa'])
    args = {k: v for k, v in dict(mats, **sets).items() if v is not None or rng.random() < .5}

    def make():
        if how == 'pwa':
            return hybrid.PwaSysDyn.from_lti(**args)
        if how == 'switched':
            return hybrid.SwitchedSysDyn.from_lti(**args)
        return hybrid.SwitchedSysDyn.from_pwa([hybrid.LtiSysDyn(**args)], sets['domain'])
    m, err = attempt(make)
    got = dict(ok=False)
    if m is not None:
        ok = True
        if how != 'pwa':
            ok = tuple(m.disc_domain_size) == (1, 1) and list(m.dynamics) == [(0, 0)] and m.cts_ss == sets['domain'] \
                and list(m.env_labels) == [0] and list(m.disc_sys_labels) == [0]
            m = m.dynamics[(0, 0)]
        ok = ok and isinstance(m, hybrid.PwaSysDyn) and len(m.list_subsys) == 1 and m.domain == sets['domain']
        got = dict(stored(m.list_subsys[0], sets), wrapped=ok)
    return dict(rec, what='converted', got=got), f'{how} {err}'


# piecewise-affine systems: boxes of unit cells of a grid

def cells(bx):
    return [list(c) for c in itertools.product(*(range(a, b) for a, b in bx))]


def poly(boxes, rng):
    ps = [pc.box2poly([list(map(float, ab)) for ab in b]) for b in boxes]
    return ps[0] if len(ps) == 1 and rng.random() < .8 else pc.Region(ps)


def random_tiling(rng, bx):
    """Split a box into boxes."""
    if rng.random() < .3:
        return [bx]
    d = rng.randrange(len(bx))
    a, b = bx[d]
    if b - a < 2:
        return [bx]
    c = rng.randint(a + 1, b - 1)
    lo, hi = list(bx), list(bx)
    lo[d], hi[d] = (a, c), (c, b)
    return random_tiling(rng, lo) + random_tiling(rng, hi)


def piecewise(rng):
    n = rng.choice([1, 2, 2])
    m, q = rng.choice([1, 2]), rng.choice([1, 2])
    size = [rng.randint(2, 4) for _ in range(n)]
    full = [(0, s) for s in size]
    tiles = random_tiling(rng, full)
    rng.shuffle(tiles)
    groups = [[t] for t in tiles]
    w = rng.choice(['none', 'none', 'gap', 'overlap', 'dimu', 'dimw', 'bigger', 'nodom', 'kind', 'empty', 'same'])
    # domains of several boxes, where the data are to be rejected: `polytope.mldivide`
    # errs for a difference from a region (a defect of that package)
    if len(groups) > 2 and w in ('overlap', 'same', 'dimu', 'dimw') and rng.random() < .5:
        groups[0] += groups.pop()
    dom = [full]
    if w == 'gap':
        if len(groups) > 1:
            groups.pop()
        else:
            dom = [[(0, size[0] + 1)] + full[1:]]
    if w == 'overlap':
        a = [rng.randint(0, s - 1) for s in size]
        groups.append([[(x, x + 1) for x in a]])
    if w == 'same':
        groups.append(groups[0])
    if w == 'bigger':  # parts outside the domain
        dom = [[(0, s - 1) for s in size]] if all(s > 1 for s in size) else dom
    if w == 'empty':
        groups = list()
    odd = rng.randrange(len(groups)) if groups else 0
    subs, objs = list(), list()
    noinput = w != 'dimu' and rng.random() < .15
    for k, g in enumerate(groups):
        mm = m + 1 if w == 'dimu' and k == odd else m
        qq = q + 1 if w == 'dimw' and k == odd else q
        objs.append(hybrid.LtiSysDyn(A=array(rng, (n, n)), B=None if noinput else array(rng, (n, mm)), E=array(rng, (n, qq)),
                                     K=array(rng, (n, 1)), domain=poly(g, rng),
                                     Uset=None if noinput else pc.box2poly([[0, 1]] * mm), Wset=pc.box2poly([[0, 1]] * qq)))
        subs.append(dict(cells=sum((cells(b) for b in g), []), dims=[n, 0 if noinput else mm, qq]))
    kind = 'polytope'
    d = poly(dom, rng)
    if w == 'kind':
        d, kind = 'box', 'other'
    if w == 'nodom':
        d = None
    rec = dict(what='pwa', subs=subs, domain=dict(given=d is not None, kind=kind, cells=sum((cells(b) for b in dom), [])))
    args = list(objs)
    before = [stored(x, dict(Uset=x.Uset, Wset=x.Wset, domain=x.domain)) for x in objs]
    saved = copy.deepcopy(d)
    x, err = attempt(lambda: hybrid.PwaSysDyn(args, d))
    got = dict(ok=x is not None)
    if x is not None:
        got['same'] = len(x.list_subsys) == len(objs) and all(a is b for a, b in zip(x.list_subsys, objs)) and \
            before == [stored(x, dict(Uset=x.Uset, Wset=x.Wset, domain=x.domain)) for x in objs] and \
            (d is None and x.domain is None or x.domain == saved)
    return dict(rec, got=got), f'{w} {err}'


def switched(rng):
    nenv, nsys = rng.randint(1, 3), rng.randint(1, 3)

    def labels(n, pool):
        if rng.random() < .4:
            return None
        k = n if rng.random() < .85 else rng.choice([x for x in range(5) if x != n])
        return rng.sample(pool, k)
    env, sys = labels(nenv, ['a', 'b', 'c', 'd', 'e']), labels(nsys, ['p', 'q', 'r', 's', 'a'])
    le = list(range(nenv)) if env is None else env
    ls = list(range(nsys)) if sys is None else sys
    keys = list(itertools.product(le, ls))
    if rng.random() < .4 and keys:
        keys = rng.sample(keys, rng.randint(0, len(keys)))
    if rng.random() < .3:
        keys += rng.sample([('z', 'p'), (5, 0), ('a', 'z'), (0, 7), ('p', 'a'), (0, 0), ('a', 'p')], 1)
    keys = list(dict.fromkeys(keys))
    dom = pc.box2poly([[0, 1]])
    lti = [hybrid.LtiSysDyn(A=np.eye(1) * k, B=np.eye(1), domain=dom) for k in range(3)]
    pwas = [hybrid.PwaSysDyn([x], dom) for x in lti]
    vals = [rng.choice(pwas) if rng.random() < .97 else rng.choice([lti[0], None, 'pwa']) for _ in keys]
    kinds = ['pwa' if isinstance(v, hybrid.PwaSysDyn) else 'other' for v in vals]
    space = rng.choice(['polytope', 'polytope', 'region', 'none', 'other'] if rng.random() < .4 else ['polytope'])
    ss = dict(polytope=dom, region=pc.Region([dom]), none=None, other=[dom])[space]
    dyn = dict(zip(keys, vals))
    rec = dict(what='switched', nenv=nenv, nsys=nsys, env=['default'] if env is None else env, sys=['default'] if sys is None else sys,
               keys=[[str(x) for x in k] for k in keys], kinds=kinds, space=space)
    # a number and its string are different labels
    if any(isinstance(x, str) and x.isdigit() for k in keys for x in k):
        return None
    kw = dict()
    if env is not None or rng.random() < .5:
        kw['env_labels'] = env
    if sys is not None or rng.random() < .5:
        kw['disc_sys_labels'] = sys
    m, err = attempt(lambda: hybrid.SwitchedSysDyn((nenv, nsys), dict(dyn), ss, **kw))
    got = dict(ok=m is not None)
    if m is not None:
        got.update(
            modes=[[str(x) for x in k] for k in m.modes], combs=[[str(x) for x in k] for k in m.all_mode_combs],
            env=[str(x) for x in m.env_labels], sys=[str(x) for x in m.disc_sys_labels],
            same=set(m.dynamics) == set(dyn) and all(m.dynamics[k] is dyn[k] for k in dyn) and tuple(m.disc_domain_size) == (nenv, nsys)
            and (m.cts_ss is None and ss is None or m.cts_ss == ss))
    return dict(rec, got=got), err


def body(chk):
    rng = chk.rng
    cfg = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
    chk.model_check('HybridMC', cfg + f'CONSTANTS Depth = {chk.pick(3, 4)} MaxSubs = 2\nINVARIANT Valid Agree\nPROPERTY Grows\n', workers=8, timeout=800)
    hists = chk.generate('HybridMC', cfg + 'CONSTANTS Depth = 3 MaxSubs = 2\nINVARIANT Emit\n', workers=1)
    if len(hists) > chk.pick(600, 6000):
        hists = rng.sample(hists, chk.pick(600, 6000))
    recs, logs = list(), list()

    def add(x):
        if x is not None:
            recs.append(x[0])
            logs.append(x[1])
    for h in hists:
        add(history(h))
    for _ in range(chk.pick(500, 5000)):
        add(history(random_history(rng)))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for _ in range(chk.pick(1500, 15000)):
            add(linear(rng))
        for _ in range(chk.pick(500, 5000)):
            add(converted(rng))
        for _ in range(chk.pick(700, 7000)):
            add(piecewise(rng))
        for _ in range(chk.pick(800, 8000)):
            add(switched(rng))
    for r, log, bad in zip(recs, logs, chk.validate('HybridTrace', recs)):
        for clause in bad:
            what = {k: v for k, v in r.items() if k != 'obs'}
            chk.violation(f'{r["what"]} {clause}', f'{r["what"]} {clause}: {log} {what}'[:5000], r)
        chk.bump(r['what'])
        if 'got' in r:
            chk.bump(r['what'] + ('_accepted' if r['got']['ok'] else '_rejected'))
    cor = list()
    for what in ('time', 'lti', 'pwa', 'switched', 'converted'):
        for r in [r for r in recs if r['what'] == what][:15]:
            s = copy.deepcopy(r)
            if what == 'time':
                s['obs'][-1]['times'] = [['sampled', 7]] + s['obs'][-1]['times'][1:]
            else:
                s['got'] = dict(s['got'], ok=not s['got']['ok'])
                if s['got']['ok']:
                    continue
            cor.append(s)
    chk.binding('HybridTrace', cor)
    chk.sample(recs[0])
    chk.sample(recs[-1])
    chk.assumptions += ['a part whose time data were overwritten through another owner is not judged when consistency is checked without overwriting',
                        'systems without the matrix A are not judged']


if __name__ == '__main__':
    vp.main('C24', body)
