"""C09: set containers behave as mathematical sets."""
import collections
import contextlib
import copy
import io
import json
import os
import warnings

import vp
from tulip.transys import mathset as ms

warnings.simplefilter('ignore')

# spellings of each element; equal spellings are the same element
SPELL = {
    1: [lambda: 1, lambda: 1.0, lambda: True],
    2: [lambda: 'a'],
    3: [lambda: [1, 2], lambda: [1.0, 2]],
    4: [lambda: (1, [2]), lambda: (1.0, [2])],
    5: [lambda: {'a', 'b'}, lambda: {'b', 'a'}],
    6: [lambda: {'k': 1}],
    7: [lambda: (3, 4)],
    8: [lambda: None],
    9: [lambda: 'ab'],
    10: [lambda: 0, lambda: False],
    11: [lambda: []],
    12: [lambda: ()],
    13: [lambda: ''],
    14: [lambda: ((1, [2]), 3)],
    15: [lambda: frozenset({5, 6})],
}
HASHABLE = {1, 2, 7, 8, 9, 10, 12, 13, 15}
KEYS = {1: 'day', 2: 'mode', 3: 'any', 4: 'free'}
NAMES = ['a', 'b', 'sub', 'p', 'q']


def dec(v):
    for k, fs in SPELL.items():
        w = fs[0]()
        try:
            if v == w and type(w) in (int, float, bool) or type(v) is type(w) and v == w:
                return k
        except TypeError:
            pass
    return 99


class World:

    def __init__(self, cfg, rng):
        self.rng = rng
        self.cfg = cfg
        self.sup = self.build(cfg['sup'], cfg['supkind'])
        self.o = dict(a=ms.MathSet(), b=ms.MathSet(), sub=ms.SubSet(self.sup))
        self.P = ms.PowerSet()
        self.Q = ms.PowerSet()
        self.d = ms.TypedDict()
        self.types = {
            KEYS[1]: self.build(cfg['typ1'], cfg['typkind']),
            KEYS[2]: self.build(cfg['typ2'], 'list'),
            KEYS[3]: None}
        self.d.set_types(self.types)

    def sp(self, e):
        return self.rng.choice(SPELL[e])()

    def build(self, es, kind):
        xs = [self.sp(e) for e in es]
        hashable = set(es) <= HASHABLE
        if kind in ('set', 'frozenset', 'keys') and not hashable:
            kind = 'list'
        return dict(
            list=lambda: xs, tuple=lambda: tuple(xs), gen=lambda: (x for x in xs),
            set=lambda: set(xs), frozenset=lambda: frozenset(xs),
            keys=lambda: dict.fromkeys(xs), MathSet=lambda: ms.MathSet(xs),
            SubSet=lambda: ms.SubSet(list(xs), xs),
            deque=lambda: collections.deque(xs))[kind]()

    def get(self, x):
        return self.P.math_set if x == 'p' else self.Q.math_set if x == 'q' else self.o[x]

    def put(self, x, v):
        if x == 'p':
            self.P = ms.PowerSet(v)
        elif x == 'q':
            self.Q.math_set = ms.MathSet(v)
        else:
            self.o[x] = v

    def apply(self, o):
        k, x = o['op'], o.get('x')
        es = o['es']
        kind = o.get('kind', 'list')
        if k == 'add':
            self.get(x).add(self.sp(es[0]))
        elif k == 'remove':
            self.get(x).remove(self.sp(es[0]))
        elif k == 'addfrom':
            self.get(x).add_from(self.build(es, kind))
        elif k == 'update':
            self.get(x).update(self.build(es, kind))
        elif k == 'ior':
            s = self.get(x)
            s |= self.build(es, kind)
            if s is not self.get(x):
                raise AssertionError('|= returned another object')
        elif k == 'isub':
            s = self.get(x)
            s -= self.build(es, kind)
            if s is not self.get(x):
                raise AssertionError('-= returned another object')
        elif k == 'iorset':
            s = self.get(x)
            s |= self.get(o['y'])
        elif k == 'isubset':
            s = self.get(x)
            s -= self.get(o['y'])
        elif k == 'union':
            self.put(x, self.get(o['y']) | self.get(o['z']))
        elif k == 'minus':
            self.put(x, self.get(o['y']) - self.get(o['z']))
        elif k == 'inter':
            self.put(x, self.get(o['y']).intersection(self.get(o['z'])))
        elif k == 'copy':
            self.put(x, ms.MathSet(self.get(o['y'])))
        elif k == 'padd':
            self.P = self.P + self.Q
        elif k == 'pop':
            v = self.get(x).pop()
            o['es'] = [dec(v)]
        elif k == 'mksub':
            self.o['sub'] = ms.SubSet(self.sup, self.build(es, kind))
        elif k == 'supadd':
            v = self.sp(es[0])
            if isinstance(self.sup, list):
                self.sup.append(v)
            elif isinstance(self.sup, dict):
                self.sup[v] = 1
            else:
                self.sup.add(v)
        elif k == 'dset':
            (a, v), = o['kvs']
            self.d[KEYS[a]] = self.sp(v)
        elif k == 'dupd':
            kvs = [(KEYS[a], self.sp(v)) for a, v in o['kvs']]
            m = len(kvs) // 2
            if kind == 'gen':
                self.d.update(pair for pair in kvs)
            elif kind == 'keys':
                self.d.update(dict(kvs))
            elif kind == 'tuple':
                self.d.update(dict(kvs[:m]), **dict(kvs[m:]))
            elif kind == 'set':
                self.d.update(**dict(kvs))
            elif kind == 'frozenset':
                self.d |= dict(kvs)
            else:
                self.d.update(kvs)
        elif k == 'dsetdefault':
            (a, v), = o['kvs']
            had = KEYS[a] in self.d
            old = self.d.get(KEYS[a])
            val = self.sp(v)
            r = self.d.setdefault(KEYS[a], val)
            if r != (old if had else val):
                raise AssertionError('setdefault returned another value')
        elif k == 'ddel':
            (a, _), = o['kvs']
            del self.d[KEYS[a]]
        elif k == 'dtype':
            self.types = {**self.types, KEYS[1]: self.build(es, kind)}
            self.d.set_types(self.types)
        else:
            raise ValueError(k)

    def query(self, q):
        k = q['q']
        if k == 'eq':
            return self.get(q['x']) == self.get(q['y'])
        if k == 'peq':
            return self.P == self.Q
        if k == 'intersects':
            return self.get(q['x']).intersects(self.build(q['es'], q['kind']))
        if k == 'product':
            r = self.get(q['x']) * self.get(q['y'])
            assert isinstance(r, ms.MathSet) and len(r) == len(list(r))
            return [[dec(u), dec(v)] for u, v in r]
        if k == 'pin':
            return self.build(q['es'], q['kind']) in self.P
        if k == 'psets':
            return [[dec(v) for v in t] for t in self.P]
        if k == 'plen':
            return len(self.P)
        if k == 'cart':
            c = ms.CartesianProduct()
            other = ms.MathSet(['noise'])
            for j, x in enumerate(q['xs']):
                if j == 1:
                    c.add(other)
                    c.remove(other)
                c.add(self.get(x)) if j % 2 else c.add_from([self.get(x)])
            return self.build(q['es'], 'tuple') in c
        if k == 'unique':
            return [dec(v) for v in ms.unique(self.build(q['es'], q['kind']))]
        if k == 'multiple':
            return ms.contains_multiple(self.build(q['es'], 'list'))
        if k == 'subseteq':
            return ms.is_subset(self.build(q['es'], q['kind']), self.build(q['fs'], q['fkind']))
        if k == 'sameelems':
            return ms.compare_lists(self.build(q['es'], 'list'), self.build(q['fs'], 'list'))
        if k == 'dtypes':
            return self.d.is_consistent()
        raise ValueError(k)

    def observe(self, queries):
        s = dict()
        for x in NAMES:
            v = self.get(x)
            mem = list()
            for e, fs in SPELL.items():
                ins = {(f() in v) for f in fs}
                if True in ins:
                    mem.append(e if ins == {True} else -e)
            if ('zz' in v) or ([7, 7] in v) or ((9, [9]) in v):
                mem.append(99)
            s[x] = dict(iter=[dec(y) for y in v], mem=mem, len=len(v))
        d = [dec(self.d[KEYS[k]]) if KEYS[k] in self.d else 0 for k in (1, 2, 3, 4)]
        if set(self.d) - set(KEYS.values()):
            d.append(99)
        qs = list()
        for q in queries:
            r = vp.guarded(lambda: self.query(q))
            q = {**dict(x='a', y='b', es=[], fs=[], xs=[], kind='list', fkind='list'), **q}
            if r[0] == 'ok' and isinstance(r[1], (bool, int, list)):
                qs.append(dict(q, ok=True, r=r[1]))
            else:
                qs.append(dict(q, ok=False, r=[], err=repr(r[1:])[:200]))
        return dict(s=s, d=d, qs=qs)

    def step(self, o, queries):
        o = {**dict(x='a', y='b', z='b', es=[], kvs=[], kind='list'), **copy.deepcopy(o)}
        r = vp.guarded(lambda: self.apply(o))
        ok = r[0] == 'ok'
        if not ok and r[1] == 'AssertionError':
            ok = 'broken'
        return dict(op=o, ok=ok, err='' if ok is True else repr(r[1:])[:200], **self.observe(queries))


KINDS = ['list', 'tuple', 'gen', 'set', 'frozenset', 'keys', 'MathSet', 'SubSet', 'deque']


def rand_op(rng, cfg, U):
    def es(lo=0, hi=4):
        return [rng.choice(U) for _ in range(rng.randint(lo, hi))]

    x = rng.choice(['a', 'a', 'b', 'sub', 'sub', 'p', 'q'])
    y, z = rng.choice(NAMES), rng.choice(NAMES)
    kind = rng.choice(KINDS)
    k = rng.random()
    if x == 'sub' and rng.random() < .7:
        pool = cfg['sup'] or U
        arg = [rng.choice(pool) for _ in range(rng.randint(0, 3))]
    else:
        arg = es()
    if k < .5:
        op = rng.choice(['add', 'add', 'addfrom', 'addfrom', 'update', 'ior', 'remove', 'remove', 'isub', 'pop'])
        if op in ('add', 'remove'):
            arg = (arg + [rng.choice(U)])[:1]
        if op == 'pop':
            arg = []
        return dict(op=op, x=x, es=arg, kind=kind)
    if k < .7:
        op = rng.choice(['iorset', 'isubset', 'union', 'minus', 'inter', 'copy', 'padd'])
        if op not in ('iorset', 'isubset') and x == 'sub':
            x = 'b'
        return dict(op=op, x=x, y=y, z=z)
    if k < .76:
        return dict(op='mksub', es=arg if x == 'sub' else es(0, 3), kind=kind)
    if k < .8:
        u = [e for e in U if cfg['supkind'] not in ('set', 'keys') or e in HASHABLE]
        return dict(op='supadd', es=[rng.choice(u)]) if u else dict(op='padd')
    typ = cfg['typ1'] + cfg['typ2']

    def kv():
        a = rng.choice([1, 1, 2, 3, 4])
        v = rng.choice(typ if typ and rng.random() < .7 else U)
        return [a, v]
    op = rng.choice(['dset', 'dupd', 'dupd', 'dsetdefault', 'ddel', 'dtype'])
    if op == 'dupd':
        kvs = [kv() for _ in range(rng.randint(1, 3))]
        keys = [a for a, _ in kvs]
        if len(set(keys)) < len(keys) and kind not in ('list', 'gen'):
            kind = 'list'
        return dict(op=op, kvs=kvs, kind=kind)
    if op == 'dtype':
        return dict(op=op, es=es(0, 3), kind=rng.choice(['list', 'set', 'MathSet', 'tuple']))
    return dict(op=op, kvs=[kv()])


def rand_query(rng, U):
    def es(lo=0, hi=4):
        return [rng.choice(U) for _ in range(rng.randint(lo, hi))]

    q = rng.choice(['eq', 'eq', 'peq', 'intersects', 'product', 'pin', 'psets', 'plen', 'cart',
                    'unique', 'multiple', 'subseteq', 'subseteq', 'sameelems', 'dtypes'])
    r = dict(q=q, x=rng.choice(NAMES), y=rng.choice(NAMES), es=es(), kind=rng.choice(KINDS))
    if q == 'cart':
        r['xs'] = [rng.choice(NAMES) for _ in range(rng.randint(0, 3))]
        if rng.random() < .8:
            r['es'] = [rng.choice(U) for _ in r['xs']]
    if q in ('subseteq', 'sameelems'):
        r['fs'] = es()
        if rng.random() < .6:
            r['fs'] = r['es'] + es(0, 2)
            rng.shuffle(r['fs'])
            if q == 'sameelems':
                r['fs'] = r['fs'][:len(r['es'])]
        r['fkind'] = rng.choice(['list', 'tuple', 'set', 'MathSet', 'keys'])
        if q == 'subseteq' and rng.random() < .3:
            r['fs'] = [e for e in r['fs'] if e in HASHABLE]
    return r


def rand_cfg(rng, U):
    supkind = rng.choice(['list', 'set', 'MathSet', 'keys', 'list'])
    sup = [e for e in U if rng.random() < .6 and (supkind not in ('set', 'keys') or e in HASHABLE)]
    return dict(sup=sup, supkind=supkind,
                typ1=[e for e in U if rng.random() < .4], typ2=[e for e in U if rng.random() < .5],
                typkind=rng.choice(['list', 'set', 'MathSet', 'tuple']))


def body(c):
    recs = list()
    # every state and operation of a small instance
    ops = list()
    U = [1, 2, 3]
    for x in ('a', 'sub'):
        for es in ([1], [3], [1, 2, 3], [3, 3, 2], [4], [1, 4]):
            if len(es) == 1:
                ops += [dict(op='add', x=x, es=es, kind='list'), dict(op='remove', x=x, es=es, kind='list')]
            ops += [dict(op='addfrom', x=x, es=es, kind='list'), dict(op='isub', x=x, es=es, kind='list')]
    ops += [dict(op='mksub', x='sub', es=es, kind='list') for es in ([1, 3], [4])]
    ops += [dict(op=op, x='b', y=y, z=z, es=[]) for op in ('union', 'minus', 'inter')
            for y, z in (('a', 'sub'), ('sub', 'a'))]
    ops += [dict(op='iorset', x='a', y='b', es=[]), dict(op='iorset', x='sub', y='a', es=[]),
            dict(op='isubset', x='a', y='a', es=[]), dict(op='supadd', x='sub', es=[4])]
    ops += [dict(op='dset', kvs=[[1, 1]], es=[]), dict(op='dset', kvs=[[1, 3]], es=[]),
            dict(op='dupd', kvs=[[1, 1], [2, 1]], es=[]), dict(op='dupd', kvs=[[4, 1], [1, 3]], es=[]),
            dict(op='dsetdefault', kvs=[[1, 2]], es=[]), dict(op='ddel', kvs=[[1, 1]], es=[])]
    cfg = dict(sup=U, supkind='list', typ1=[1, 2], typ2=[2, 3], typkind='set')
    conf = os.path.join(vp.SCRATCH, 'conf.json')
    json.dump(dict(cfg=cfg, alphabet=ops), open(conf, 'w'))
    gen = c.generate('MathSetMC', f'''
CONSTANT MaxLen = {c.pick(4, 6)}
INIT Init
NEXT Next
VIEW View
INVARIANT Guarded WellTyped RejectKeeps Algebra Emit
CHECK_DEADLOCK FALSE
''', env=dict(CONF=conf), timeout=800)
    c.bump('generated_histories', len(gen))
    gen = [g['h'] for g in gen]
    cap = c.pick(400, 4000)
    if len(gen) > cap:
        gen = c.rng.sample(gen, cap)

    def replay(item):
        h, seed = item
        rng = __import__('random').Random(seed)
        cfg_ = dict(cfg, supkind=rng.choice(['list', 'MathSet']), typkind=rng.choice(['list', 'set', 'MathSet']))
        def qs():
            return [rand_query(rng, [1, 2, 3, 4]) for _ in range(2)]
        with contextlib.redirect_stdout(io.StringIO()):
            w = World(cfg_, rng)
            hist = [w.step(o, []) for o in h]
            br = list()
            for o in ops:
                w = World(cfg_, rng)
                for p in h:
                    vp.guarded(lambda: w.apply(dict(dict(kvs=[], es=[]), **copy.deepcopy(p), )))
                br.append(w.step(dict(o, kind=rng.choice(KINDS) if 'kind' in o else rng.choice(KINDS[:6])), qs()))
        return dict(cfg=cfg_, hist=hist, branches=br)

    def random_history(seed):
        rng = __import__('random').Random(seed)
        u = rng.sample(sorted(SPELL), rng.randint(3, 8))
        cfg_ = rand_cfg(rng, u)
        with contextlib.redirect_stdout(io.StringIO()):
            w = World(cfg_, rng)
            hist = list()
            for _ in range(rng.randint(5, 30)):
                qs = [rand_query(rng, u) for _ in range(rng.randint(0, 3))]
                qs = [q for q in qs if q['q'] != 'psets' or len(w.P.math_set) <= 5]
                hist.append(w.step(rand_op(rng, cfg_, u), qs))
        return dict(cfg=cfg_, hist=hist, branches=[])

    recs = vp.pmap(replay, [(h, f'{c.seed}-{n}') for n, h in enumerate(gen)])
    recs += vp.pmap(random_history, [f'{c.seed}-r{n}' for n in range(c.pick(1500, 12000))])
    bad = c.validate('MathSetTrace', recs)
    for r, b in zip(recs, bad):
        for clause in b:
            c.violation(f'set-{clause}', 'observations disagree with mathematical sets', r)
    for r in recs:
        for s in r['hist']:
            c.bump('op_' + s['op']['op'])
            c.bump('rejected' if s['ok'] is not True else 'accepted')
    c.sample(dict(cfg=recs[-1]['cfg'], hist=[s['op'] for s in recs[-1]['hist']]))
    corrupted = list()
    for r in recs[-40:]:
        r = copy.deepcopy(r)
        r['hist'][-1]['s']['a']['len'] += 1
        corrupted.append(r)
    c.binding('MathSetTrace', corrupted)


vp.main('C09', body)
