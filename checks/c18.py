"""C18: gridworlds."""
import copy
import io
import json
import os
import random as _random

import numpy as np

import tulip.gridworld as gwm
from tulip.gridworld import GridWorld
import tulipparse as tp
import vp


def py(x):
    return int(x)


def cells(seq):
    return [[py(a) + 1, py(b) + 1] for a, b in seq]


def world_of(g):
    h, w = g.size()
    return dict(h=py(h), w=py(w),
                wall=[[i + 1, j + 1] for i in range(h) for j in range(w) if g.W[i][j] != 0],
                init=cells(g.init_list), goal=cells(g.goal_list))


def build(wd, rng=None):
    """Gridworld from the record, through the constructor or by marking cells."""
    if rng is not None and rng.random() < .5:
        g = gwm.unoccupied((wd['h'], wd['w']), prefix=rng.choice(['Y', 'Robot_1']))
    else:
        g = GridWorld(f"{wd['h']} {wd['w']}\n")
    for a, b in wd['wall']:
        g.mark_occupied((a - 1, b - 1))
    g.init_list = [(a - 1, b - 1) for a, b in wd['init']]
    g.goal_list = [(a - 1, b - 1) for a, b in wd['goal']]
    return g


def matrix_dump(text, prefix=''):
    lines = text.split('\n')
    assert lines[-1] == ''
    lines = lines[:-1]
    assert all(s.startswith(prefix) for s in lines)
    lines = [s[len(prefix):] for s in lines]
    h, w = map(int, lines[0].split())
    assert len(lines) == h + 1
    return [list(s) for s in lines[1:]]


def matrix_pretty(text, prefix=''):
    lines = text.split('\n')[:-1]
    assert all(s.startswith(prefix) for s in lines)
    lines = [s[len(prefix):] for s in lines]
    out = list()
    for s in lines[1:-1]:
        assert s[0] == '|' and s[-1] == '|', s
        out.append(list(s[1:-1]))
    assert lines[0] == lines[-1] == '-' * (len(out[0]) + 2)
    return out


def matrix_grid(text):
    lines = text.split('\n')[:-1]
    head = lines[0].split()
    out = list()
    for k, s in enumerate(lines[2::2]):
        assert int(s[:2]) == k
        out.append(s[3::2])
        assert all(c == '|' for c in s[2::2]), s
    assert head == [str(k) for k in range(len(out[0]))]
    return [list(s) for s in out]


def own_text(g, rng):
    """Text of a world, as documented, with comments, blanks, short rows, extra characters."""
    h, w = g.size()
    out = list()
    for _ in range(rng.randint(0, 2)):
        out.append(rng.choice(['# comment * I G', '   # indented', '', '   ']))
    out.append(f'{h} {w}' if rng.random() < .7 else f'  {h}\t{w}  ')
    rows = list()
    for i in range(h):
        s = ''
        for j in range(w):
            c = (i, j)
            s += '*' if g.W[i][j] else 'I' if c in g.init_list else 'G' if c in g.goal_list else ' '
        rows.append(s)
    full = all(len(r) == w for r in rows)
    k = len(rows)
    while k and not rows[k - 1].strip():
        k -= 1
    if rng.random() < .5:
        rows = rows[:k]      # missing rows are empty
    done = list()
    for r in rows:
        t = rng.random()
        if t < .3:
            r = r.rstrip(' ')   # missing cells are empty
        elif t < .5:
            r = r + rng.choice(['  ', ' xyz', '**', ' # c'])
        done.append(r)
    assert full
    if len(done) == h and rng.random() < .5:
        done += ['anything', '# 3']
    return rng.choice(['\n', '\n', '\r\n']).join(out + done) + rng.choice(['', '\n'])


def apply(g, o, rng, seed):
    t = o['op']
    if t == 'occupy':
        g.mark_occupied(tuple(o['c']))
    elif t == 'clear':
        g.mark_empty(tuple(o['c']))
    elif t == 'init':
        g.init_list = [(a - 1, b - 1) for a, b in o['cs']]
    elif t == 'goal':
        g.goal_list = [(a - 1, b - 1) for a, b in o['cs']]
    elif t == 'sub':
        n = g.dump_subworld(tuple(o['size']), offset=tuple(o['off']), prefix='Q', extend=o['extend'])
        assert n.prefix == 'Q'
        return n
    elif t == 'scale':
        n = g.scale(xf=o['xf'], yf=o['yf'])
        assert n.prefix == g.prefix
        return n
    elif t == 'copy':
        n = rng.choice([lambda: g.copy(), lambda: copy.copy(g)])()
        assert n.prefix == g.prefix
        scribble(g)
        return n
    return g


def scribble(g):
    """Change the original: a result must not share state with it."""
    h, w = g.size()
    g.W[:, :] = 1 - g.W
    g.init_list.append((0, 0))
    g.goal_list.append((h - 1, w - 1))


def views(g, rng):
    h, w = g.size()
    x = dict()
    x['world'] = world_of(g)
    pre = rng.choice(['', '', '# ', 'abc'])
    text = g.dumps(line_prefix=pre)
    x['dump'] = matrix_dump(text, pre)
    x['pretty'] = matrix_pretty(g.pretty(line_prefix=pre), pre)
    x['grid'] = matrix_grid(rng.choice([str, lambda g: g.pretty(show_grid=True)])(g))
    if pre:
        text = g.dumps()
    how = rng.randint(0, 2)
    if how == 0:
        back = GridWorld.loads(text)
    elif how == 1:
        back = GridWorld(text, prefix='Z')
        assert back.prefix == 'Z'
    else:
        path = os.path.join(os.environ['TMPDIR'], f'gw{os.getpid()}.txt')
        with open(path, 'w') as f:
            f.write(text)
        back = GridWorld.load(path)
    x['loaded'] = world_of(back)
    ordered = all(s == sorted(s) for s in (g.init_list, g.goal_list))
    x['equal'] = bool(back == g and g == back and not back != g) or not ordered
    x['loadtext'] = world_of(GridWorld(own_text(g, rng)))
    x['empty'] = [[i + 1, j + 1] for i in range(-1, h + 1) for j in range(-1, w + 1)
                  if g.is_empty((i, j), extend=True)]
    x['wrapped'] = [[h + i + 1, w + j + 1] for i in range(-h, 0) for j in range(-w, 0)
                    if g.is_empty((i, j))]
    x['reach'] = list()
    for _ in range(4):
        a, b = ((rng.randrange(h), rng.randrange(w)) for _ in range(2))
        aa, bb = ((i - rng.choice([0, h]), j - rng.choice([0, w])) for i, j in (a, b))
        x['reach'].append(dict(a=[a[0] + 1, a[1] + 1], b=[b[0] + 1, b[1] + 1],
                               r=bool(g.is_reachable(aa, bb))))
    x['eqs'] = list()
    for _ in range(2):
        n = g.copy()
        t = rng.randint(0, 4)
        c = (rng.randrange(h), rng.randrange(w))
        if t == 0:
            n.W[c] = 1 - n.W[c]
        elif t == 1 and c not in n.init_list:
            n.init_list.append(c)
        elif t == 2 and n.goal_list:
            n.goal_list.pop(rng.randrange(len(n.goal_list)))
        elif t == 3:
            n = n.scale(xf=rng.randint(1, 2), yf=rng.randint(1, 2))
            if n.size() == g.size():
                continue     # lists are reordered by scaling
        x['eqs'].append(dict(world=world_of(n), r=bool(g == n), n=bool(g != n)))
    assert world_of(g) == x['world'], 'a query changed the world'
    return x


def history(start, ops, seed, branch=()):
    rng = _random.Random(f'h{seed}')
    g = build(start, rng)
    first = world_of(g)
    hist = list()
    for o in ops:
        r = vp.guarded(apply, g, o, rng, seed)
        ok = r[0] == 'ok'
        if not ok and r[1] not in ('ValueError', 'IndexError'):
            return dict(kind='failed', what=f"{o['op']}-{r[1]}", r=repr(r), op=o, world=world_of(g))
        if ok:
            if r[1] is not g and o['op'] in ('sub', 'scale'):
                scribble(g)
            g = r[1]
        v = vp.guarded(views, g, rng)
        if v[0] != 'ok':
            return dict(kind='failed', what=f'views-{v[1]}', r=repr(v), op=o, world=world_of(g))
        hist.append(dict(v[1], op=o, ok=ok))
    return dict(kind='hist', start=first, hist=hist)


def rand_world(rng, lo=1, hi=5, dens=None, sparse=False):
    h, w = rng.randint(lo, hi), rng.randint(lo, hi)
    allc = [[i + 1, j + 1] for i in range(h) for j in range(w)]
    d = rng.choice([0, .2, .4, .7]) if dens is None else dens
    wall = [c for c in allc if rng.random() < d]
    free = [c for c in allc if c not in wall] if sparse or rng.random() < .8 else allc
    pick = lambda k: sorted(rng.sample(free, min(len(free), rng.randint(0, k))))
    init = pick(3)
    goal = pick(3)
    if rng.random() < .7:
        goal = [c for c in goal if c not in init]
    return dict(h=h, w=w, wall=wall, init=init, goal=goal)


def rand_op(rng, h, w):
    t = rng.choice(['occupy', 'occupy', 'clear', 'clear', 'init', 'goal', 'sub', 'sub', 'scale', 'copy', 'text'])
    o = dict(op=t)
    if t in ('occupy', 'clear'):
        o['c'] = [rng.randint(-h, h - 1), rng.randint(-w, w - 1)]
        if rng.random() < .1:
            o['c'][rng.randint(0, 1)] = rng.choice([h + w, -h - w - 1])
    elif t in ('init', 'goal'):
        allc = [[i + 1, j + 1] for i in range(h) for j in range(w)]
        o['cs'] = sorted(rng.sample(allc, min(len(allc), rng.randint(0, 3))))
    elif t == 'sub':
        o['extend'] = rng.random() < .6
        if o['extend']:
            o['size'] = [rng.randint(1, 5), rng.randint(1, 5)]
            o['off'] = [rng.randint(-4, h + 2), rng.randint(-4, w + 2)]
        else:
            o['size'] = [rng.randint(1, h), rng.randint(1, w)]
            o['off'] = [rng.randint(0, h - o['size'][0]), rng.randint(0, w - o['size'][1])]
            if rng.random() < .2:
                k = rng.randint(0, 1)
                o['off'][k] += rng.choice([-h - w, h + w, 1])
    elif t == 'scale':
        o['yf'], o['xf'] = rng.randint(1, 2), rng.randint(1, 2)
        if h * o['yf'] > 6:
            o['yf'] = 1
        if w * o['xf'] > 6:
            o['xf'] = 1
    return o


def random_history(seed):
    rng = _random.Random(f'r{seed}')
    start = rand_world(rng)
    h, w = start['h'], start['w']
    ops = list()
    for _ in range(rng.randint(2, 10)):
        o = rand_op(rng, h, w)
        ops.append(o)
        if o['op'] == 'sub':
            if o['extend'] or (o['off'][0] >= 0 and o['off'][1] >= 0 and
                               o['off'][0] + o['size'][0] <= h and o['off'][1] + o['size'][1] <= w):
                h, w = o['size']
        elif o['op'] == 'scale':
            h, w = h * o['yf'], w * o['xf']
    return history(start, ops, seed)


# ---- specifications

def code_of(prefix, h, w, nonbool, offset, decls, first):
    """Numbers of the variables that encode cells; extends `decls`."""
    if nonbool:
        decls[f'{prefix}_r'] = (first, 'int', None)
        decls[f'{prefix}_c'] = (first + 1, 'int', None)
        return dict(enc='int', vr=first, vc=first + 1, cell=[]), first + 2
    k = first
    rows = list()
    for i in range(h):
        row = list()
        for j in range(w):
            decls[f'{prefix}_{i + offset[0]}_{j + offset[1]}'] = (k, 'bool', None)
            row.append(k)
            k += 1
        rows.append(row)
    return dict(enc='bool', vr=0, vc=0, cell=rows), k


def dom_list(d, decls):
    """Declared domains ordered by variable number; every declared name is expected."""
    names = sorted(d, key=lambda n: decls.get(n, (10**6,))[0])
    out = list()
    for n in names:
        dom = d[n]
        assert n in decls, f'unexpected variable {n}'
        out.append([0, 1] if dom == 'boolean' else [int(dom[0]), int(dom[1])])
    return out


def readall(fs, decls):
    return [tp.read(f, decls) for f in fs if f.strip()]


def spec_record(wd, seed):
    rng = _random.Random(f's{seed}')
    g = build(wd)
    g.prefix = rng.choice(['Y', 'Y', 'Robot_2', 'x1'])
    nonbool = rng.random() < .5 or wd['h'] * wd['w'] > 9
    ctrl = rng.random() < .6
    off = (0, 0) if rng.random() < .5 else (rng.randint(0, 12), rng.randint(0, 3))
    before = world_of(g)
    r = vp.guarded(g.spec, offset=off, controlled_dyn=ctrl, nonbool=nonbool)
    if r[0] != 'ok':
        return dict(kind='failed', what='spec-' + r[1], r=repr(r), world=before)
    s = r[1]
    decls = dict()
    code, n = code_of(g.prefix, wd['h'], wd['w'], nonbool, off, decls, 1)
    mine, other = ('sys', 'env') if ctrl else ('env', 'sys')
    try:
        rec = dict(kind='spec', world=before, nv=n - 1, **code,
                   dom=dom_list(getattr(s, mine + '_vars'), decls),
                   others=sum(len([f for f in getattr(s, f'{other}_{p}') if f.strip()]) for p in ('init', 'safety'))
                   + len([f for f in getattr(s, f'{other}_prog') if f.strip() not in ('', 'True')])
                   + len(getattr(s, other + '_vars')),
                   sinit=readall(getattr(s, mine + '_init'), decls),
                   safety=readall(getattr(s, mine + '_safety'), decls),
                   prog=readall(getattr(s, mine + '_prog'), decls))
        assert world_of(g) == before and g.offset == (0, 0), 'spec() changed the world'
    except (AssertionError, tp.Malformed) as e:
        return dict(kind='failed', what='spec-text', r=repr(e), world=before)
    rec['how'] = dict(nonbool=nonbool, ctrl=ctrl, off=off, prefix=g.prefix)
    return rec


def names_record(wd, seed):
    rng = _random.Random(f'n{seed}')
    g = build(wd)
    g.prefix = rng.choice(['Y', 'Robot_2'])
    nonbool = rng.random() < .5
    h, w = wd['h'], wd['w']
    decls = dict()
    code, n = code_of(g.prefix, h, w, nonbool, (0, 0), decls, 1)
    out = list()
    cs = [[i, j] for i in range(-h - 1, h + 1) for j in range(-w - 1, w + 1)]
    for c in cs if len(cs) < 40 else rng.sample(cs, 40):
        e = dict(c=c, ok=True, f=dict(op='true'), t=dict(op='true'), st=[])
        k = tuple(c)
        calls = [lambda: g.__getitem__(k, nonbool=nonbool) if not nonbool else g[k],
                 lambda: g.__getitem__(k, use_next=True, nonbool=nonbool),
                 lambda: g.state(k, nonbool=nonbool)]
        rs = [vp.guarded(f) for f in calls]
        if any(r[0] != 'ok' for r in rs):
            if all(r[1] == 'ValueError' for r in rs):
                e['ok'] = False
            else:
                return dict(kind='failed', what='names', r=repr(rs), c=c, world=wd)
        else:
            try:
                e['f'], e['t'] = (tp.read(r[1], decls) for r in rs[:2])
            except tp.Malformed as err:
                return dict(kind='failed', what='names-text', r=repr((err, rs)), c=c, world=wd)
            v = [-1] * (n - 1)
            if sorted(rs[2][1]) != sorted(decls):
                return dict(kind='failed', what='state', r=repr(rs), c=c, world=wd)
            for name, val in rs[2][1].items():
                v[decls[name][0] - 1] = int(val)
            e['st'] = v
        out.append(e)
    return dict(kind='names', world=wd, nv=n - 1, cells=out, **code)


def troll_record(seed):
    rng = _random.Random(f't{seed}')
    while True:
        wd = rand_world(rng, 1, 4, rng.choice([0, .2, .4]), sparse=True)
        if len(wd['wall']) < wd['h'] * wd['w']:
            break
    h, w = wd['h'], wd['w']
    k = rng.choice([1, 1, 2]) if h * w <= 12 else 1
    tl = list()
    free = [c for c in ([i + 1, j + 1] for i in range(h) for j in range(w)) if c not in wd['wall']]
    anyc = [[i + 1, j + 1] for i in range(h) for j in range(w)]
    for _ in range(k):
        c = rng.choice(free if k > 1 or rng.random() < .9 else anyc)
        tl.append((c, rng.choice([0, 1, 1, 2]) if k == 1 else rng.choice([0, 1])))
    nonbool = rng.random() < .5
    anywhere = rng.random() < .5
    has_moves = rng.random() < .7
    g = build(wd)
    pre = rng.choice(['X', 'X', 'troll'])
    before = world_of(g)
    r = vp.guarded(gwm.add_trolls, g, [((c[0] - 1, c[1] - 1), rad) for c, rad in tl],
                   start_anywhere=anywhere, nonbool=nonbool, get_moves_lists=has_moves,
                   **({} if pre == 'X' else dict(prefix=pre)))
    if r[0] != 'ok':
        return dict(kind='failed', what='trolls-' + r[1], r=repr(r), world=wd, trolls=tl)
    s, moves = r[1] if has_moves else (r[1], [])
    decls = dict()
    y, n = code_of('Y', h, w, nonbool, (0, 0), decls, 1)
    trs = list()
    for m, (c, rad) in enumerate(tl):
        lo = [max(0, v - 1 - rad) for v in c]
        hi = [min(d, c[a] + rad) for a, d in enumerate((h, w))]
        code, n = code_of(f'{pre}_{m}', hi[0] - lo[0], hi[1] - lo[1], nonbool, lo, decls, n)
        trs.append(dict(center=c, r=rad, code=code))
    nv = n - 1
    for t in trs:
        t['code']['nv'] = nv
    y['nv'] = nv
    try:
        mv = list()
        for ml, t in zip(moves, trs):
            own = [t['code']['vr'], t['code']['vc']] if nonbool else sum(t['code']['cell'], [])
            row = list()
            for st in ml:
                v = [0] * nv
                assert sorted(decls[x][0] for x in st) == sorted(own), st
                for name, val in st.items():
                    v[decls[name][0] - 1] = int(val)
                row.append(v)
            mv.append(row)
        rec = dict(kind='trolls', world=before, nv=nv, y=y, tr=trs, anywhere=anywhere,
                   has_moves=has_moves, moves=mv,
                   sys_dom=dom_list(s.sys_vars, decls), env_dom=dom_list(s.env_vars, decls),
                   **{f'{p}_{q}': readall(getattr(s, f'{p}_{q}'), decls)
                      for p in ('env', 'sys') for q in ('init', 'safety', 'prog')})
        assert world_of(g) == before and len(moves) == (len(tl) if has_moves else 0)
    except (AssertionError, KeyError, tp.Malformed) as e:
        return dict(kind='failed', what='trolls-text', r=repr(e), world=wd, trolls=tl)
    rec['env_prog'] = [f for f in rec['env_prog'] if f['op'] != 'true']
    rec['sys_prog'] = [f for f in rec['sys_prog'] if f['op'] != 'true']
    return rec


def narrow_record(seed):
    rng = _random.Random(f'w{seed}')
    np.random.seed(rng.randrange(2**31))
    _random.seed(rng.randrange(2**31))
    h, w = rng.randint(3, 9), rng.randint(3, 12)
    pw = rng.randint(1, h - 1)
    len10 = rng.randint(0, 10)
    ni, ng = rng.randint(0, 3), rng.randint(0, 3)
    ptop = rng.choice([None, rng.randint(0, h - pw)])
    want = rng.choice(['Y', 'P_1'])
    kw = dict(passage_width=pw, num_init=ni, num_goals=ng, passage_length=len10 / 10, ptop=ptop)
    if want != 'Y':
        kw['prefix'] = want
    r = vp.guarded(gwm.narrow_passage, (h, w), **kw)
    if r[0] != 'ok':
        return dict(kind='failed', what='narrow-' + r[1], r=repr(r), size=[h, w], kw=kw)
    g = r[1]
    wd = world_of(g)
    if ptop is None:
        # the random choice: first row with an open middle column
        mid = w // 2
        rows = [i for i in range(h) if g.is_empty((i, mid))]
        ptop = rows[0] if rows else 0
        if len(rows) == h:
            ptop = 0
    return dict(kind='narrow', world=wd, h=h, w=w, ptop=ptop, pw=pw, len10=len10, ni=ni, ng=ng,
                prefix=g.prefix, want=want)


def random_record(seed):
    rng = _random.Random(f'q{seed}')
    np.random.seed(rng.randrange(2**31))
    h, w = rng.randint(2, 6), rng.randint(2, 6)
    dens = rng.choice([0, .1, .2, .35, .5])
    n = int(np.round(dens * h * w))
    ni, ng, nt = rng.randint(0, 2), rng.randint(0, 3), rng.randint(0, 2)
    feas = rng.random() < .5
    if feas and (dens > .35 or h < 3 or w < 3):
        dens = .2
        n = int(np.round(dens * h * w))
    if ni + ng + nt > h * w - n:
        ni, ng, nt = min(h * w - n, 1), 0, 0
    want = rng.choice(['Y', 'P_1'])
    kw = dict(wall_density=dens, num_init=ni, num_goals=ng, ensure_feasible=feas, num_trolls=nt,
              prefix=want)
    if feas:
        kw['timeout'] = 2
    r = vp.guarded(gwm.random_world, (h, w), **kw)
    if r[0] != 'ok':
        return dict(kind='failed', what='random-' + r[1], r=repr(r), size=[h, w], kw=kw)
    if r[1] is None:
        return None     # documented timeout
    g, tl = r[1] if nt else (r[1], [])
    return dict(kind='random', world=world_of(g), h=h, w=w, nwall=n, ni=ni, ng=ng, nt=nt,
                trolls=cells(c for c, _ in tl), radii=[int(x) for _, x in tl], feasible=feas, prefix=g.prefix, want=want)


def part_record(seed):
    rng = _random.Random(f'p{seed}')
    wd = rand_world(rng, 1, 3)
    g = build(wd)
    side = [rng.randint(1, 3), rng.randint(1, 3)]
    off = [rng.randint(-3, 3), rng.randint(-3, 3)]
    nonbool = rng.random() < .5
    r = vp.guarded(g.dump_ppartition, side_lengths=tuple(side), offset=tuple(off), nonbool=nonbool, seconds=60)
    if r[0] != 'ok':
        return dict(kind='failed', what='part-' + r[1], r=repr(r), world=wd)
    names = {(g[i, j] if nonbool else f'Y_{i}_{j}'): [i + 1, j + 1]
             for i in range(wd['h']) for j in range(wd['w'])}
    regions = list()
    for reg in r[1].regions:
        lo, hi = reg.bounding_box
        lo, hi = lo.flatten(), hi.flatten()
        box = [lo[0], hi[0], lo[1], hi[1]]
        if len(reg.props) != 1 or len(reg.list_poly) != 1:
            return dict(kind='failed', what='part-region', r=repr(reg.props), world=wd)
        b = [int(round(float(v))) for v in box]
        if any(abs(v - float(u)) > 1e-6 for v, u in zip(b, box)):
            return dict(kind='failed', what='part-box', r=repr(box), world=wd)
        regions.append(dict(cell=names[next(iter(reg.props))], box=b))
    return dict(kind='part', h=wd['h'], w=wd['w'], side=side, off=off, regions=regions)


def coord_records(rng, n):
    out = list()
    for _ in range(n):
        pre = rng.choice(['Y', 'Robot_1', 'a_b_2', 'X_0', 'n', 'n_n'])
        t = rng.random()
        if t < .6:
            i, j = rng.randint(0, 120), rng.randint(0, 30)
            name, want = f'{pre}_{i}_{j}', [pre, i, j]
        elif t < .8:
            name, want = f'{pre}_n_n', [pre, -1, -1]
        else:
            name, want = rng.choice(['Y', 'Y_1', 'Y_a_1', 'Y_1_b', 'Y_1_n', '', '_']), None
        r = vp.guarded(gwm.extract_coord, name)
        got = repr(list(r[1]) if r[1] is not None else None) if r[0] == 'ok' else repr(r)
        out.append(dict(kind='coord', r=got, want=repr(want), name=name))
    # names made by the gridworld itself
    g = gwm.unoccupied((4, 13), prefix='A_b')
    for i in (0, 3):
        for j in (0, 9, 10, 12):
            r = vp.guarded(gwm.extract_coord, g.__getitem__((i, j), nonbool=False))
            out.append(dict(kind='coord', r=repr(r[1:]), want=repr((('A_b', i, j),)), name='own'))
    return out


def body(c):
    worlds = c.generate('GridMC', '''
CONSTANT H = 2
CONSTANT W = 3
INIT Init
NEXT Next
INVARIANT ReachOk SymmetricOk ScaleOk SubOk Emit
CHECK_DEADLOCK FALSE
''', workers=8)
    c.model_check('GridMC', f'''
CONSTANT H = 3
CONSTANT W = {c.pick(2, 3)}
INIT Init
NEXT Next
INVARIANT {c.pick('ReachOk SymmetricOk ScaleOk SubOk', 'SymmetricOk ScaleOk SubOk')}
CHECK_DEADLOCK FALSE
''', workers=8)
    c.bump('generated_worlds', len(worlds))
    if not c.thorough:
        worlds = c.rng.sample(worlds, 600)
    jobs = list()
    for k, w in enumerate(worlds):
        w = dict(w, wall=sorted(w['wall']), init=sorted(w['init']), goal=sorted(w['goal']))
        jobs.append(('w', w, f'{c.seed}-w{k}'))
    for k in range(c.pick(500, 8000)):
        jobs.append(('h', None, f'{c.seed}-{k}'))
    for k in range(c.pick(200, 3000)):
        jobs.append(('s', None, f'{c.seed}-{k}'))
        jobs.append(('n', None, f'{c.seed}-{k}'))
        jobs.append(('t', None, f'{c.seed}-{k}'))
        jobs.append(('v', None, f'{c.seed}-{k}'))
        jobs.append(('q', None, f'{c.seed}-{k}'))
    for k in range(c.pick(24, 200)):
        jobs.append(('p', None, f'{c.seed}-{k}'))
    c.rng.shuffle(jobs)

    def run(job):
        t, w, seed = job
        rng = _random.Random(f'{t}{seed}')
        if t == 'w':
            ops = [dict(op='copy'), rand_op(rng, w['h'], w['w'])]
            return [history(w, ops, seed), spec_record(w, seed), names_record(w, seed)]
        if t == 'h':
            return [random_history(seed)]
        if t == 's':
            return [spec_record(rand_world(rng, 1, rng.choice([3, 5]), sparse=rng.random() < .5), seed)]
        if t == 'n':
            return [names_record(rand_world(rng, 1, 4), seed)]
        if t == 't':
            return [troll_record(seed)]
        if t == 'v':
            return [narrow_record(seed)]
        if t == 'q':
            return [random_record(seed)]
        return [part_record(seed)]

    def safe(job):
        try:
            return run(job)
        except Exception as e:
            import traceback
            return [dict(kind='failed', what=f'{job[0]}-{type(e).__name__}', r=traceback.format_exc()[-1500:])]

    recs = [r for rs in vp.pmap(safe, jobs) for r in rs if r is not None]
    recs += coord_records(c.rng, c.pick(100, 500))
    # vacuity: worlds where goals and trolls exist must be among the records
    bad = c.validate('GridTrace', recs)
    for r, b in zip(recs, bad):
        c.bump(r['kind'])
        for s in r.get('hist', []):
            c.bump('op_' + s['op']['op'] + ('' if s['ok'] else '_rejected'))
        for clause in b:
            c.violation(f"{r['kind']}-{clause}", 'observations disagree with the grid specification', r)
    c.sample(next(r for r in recs if r['kind'] == 'spec'))
    corrupted = list()
    for kind in ('hist', 'spec', 'names', 'trolls', 'random', 'part', 'narrow'):
        k = 0
        for r, b in zip(recs, bad):
            if r['kind'] != kind or b:
                continue
            r = copy.deepcopy(r)
            if kind == 'hist':
                r['hist'][-1]['empty'] = r['hist'][-1]['empty'][:-1] + [[0, 0]]
            elif kind == 'spec':
                r['dom'] = r['dom'][:-1] + [[0, 9]]
            elif kind == 'names':
                r['cells'] = [dict(e, ok=not e['ok']) for e in r['cells']]
            elif kind == 'trolls':
                r['env_dom'][0] = [0, 77]
            elif kind == 'random':
                r['nwall'] += 1
            elif kind == 'part':
                r['regions'][0]['box'][0] += 1
            else:
                r['pw'] += 1
                if r['pw'] >= r['h'] or r['len10'] > 8:
                    continue
            corrupted.append(r)
            k += 1
            if k == 6:
                break
    c.binding('GridTrace', corrupted)


vp.main('C18', body)
