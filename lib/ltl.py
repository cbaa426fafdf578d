"""Formulas as JSON records (see spec/Formula.tla): generation and rendering to TuLiP syntax."""

TRUE = dict(op='true')
FALSE = dict(op='false')


def N(op, *a):
    return dict(op=op, a=list(a))


def var(k):
    return dict(op='var', v=k)


def lit(n, v=0):
    """Literal; `v` is the variable whose enumerated values it indexes, or 0."""
    return dict(op='lit', n=n, v=v)


class Vars:
    """Declarations: list of dict(name, own, kind in bool/int/enum, lo, hi, vals)."""

    def __init__(self, decls):
        self.d = decls

    def __len__(self):
        return len(self.d)

    def tla(self):
        return [dict(own=d['own'], lo=d['lo'], hi=d['hi']) for d in self.d]

    def tulip(self, own):
        r = dict()
        for d in self.d:
            if d['own'] != own:
                continue
            if d['kind'] == 'bool':
                r[d['name']] = 'boolean'
            elif d['kind'] == 'int':
                r[d['name']] = (d['lo'], d['hi'])
            else:
                r[d['name']] = list(d['vals'])
        return r

    def decode(self, k, value):
        """Value from a controller to its int code, or 99."""
        d = self.d[k]
        if d['kind'] == 'bool':
            return int(value) if value in (0, 1, True, False) else 99
        if d['kind'] == 'enum':
            return d['vals'].index(value) if value in d['vals'] else 99
        try:
            return int(value)
        except (TypeError, ValueError):
            return 99


def decl(name, own, dom):
    if dom == 'bool':
        return dict(name=name, own=own, kind='bool', lo=0, hi=1)
    if isinstance(dom, tuple):
        return dict(name=name, own=own, kind='int', lo=dom[0], hi=dom[1])
    return dict(name=name, own=own, kind='enum', lo=0, hi=len(dom) - 1, vals=list(dom))


SYM = {'and': '&', 'or': '|', 'xor': '^', 'imp': '->', 'iff': '<->', 'eq': '=', 'neq': '!=',
       'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'add': '+', 'sub': '-'}


def render(f, vs, quote='"'):
    op = f['op']
    if op == 'true':
        return 'True'
    if op == 'false':
        return 'False'
    if op == 'var':
        return vs.d[f['v'] - 1]['name']
    if op == 'lit':
        if f.get('v'):
            return quote + vs.d[f['v'] - 1]['vals'][f['n']] + quote
        return str(f['n'])
    a = [render(x, vs, quote) for x in f['a']]
    if op == 'not':
        return f'!({a[0]})'
    if op == 'next':
        return f'X({a[0]})'
    return f'({a[0]} {SYM[op]} {a[1]})'


class Gen:
    """Random formulas. `cur` and `nxt` are the lists of variable numbers usable unprimed and primed."""

    def __init__(self, rng, vs, arith=True, xor=False):
        self.rng, self.vs, self.arith, self.xor = rng, vs, arith, xor

    def atom(self, cur, nxt):
        r = self.rng
        pool = [(k, False) for k in cur] + [(k, True) for k in nxt]
        if not pool:
            return r.choice([TRUE, FALSE])
        if nxt and r.random() < .5:
            pool = [p for p in pool if p[1]]
        k, p = r.choice(pool)
        d = self.vs.d[k - 1]
        t = N('next', var(k)) if p else var(k)
        if d['kind'] == 'bool':
            return t
        if d['kind'] == 'enum':
            return N(r.choice(['eq', 'eq', 'neq']), t, lit(r.randint(0, d['hi']), k))
        rhs = lit(r.randint(d['lo'], d['hi']))
        if self.arith and r.random() < .3:
            others = [(j, q) for j, q in pool if self.vs.d[j - 1]['kind'] == 'int' and j != k]
            if others:
                j, q = r.choice(others)
                rhs = N('next', var(j)) if q else var(j)
            if r.random() < .5:
                rhs = N(r.choice(['add', 'sub']), rhs, lit(1))
        return N(r.choice(['eq', 'eq', 'neq', 'lt', 'le', 'gt', 'ge']), t, rhs)

    def formula(self, cur, nxt, depth):
        r = self.rng
        if depth == 0 or r.random() < .15:
            f = self.atom(cur, nxt)
            return N('not', f) if r.random() < .3 else f
        op = r.choice(['and', 'or', 'or', 'imp', 'imp', 'iff', 'not'] + (['xor'] if self.xor else []))
        if op == 'not':
            return N('not', self.formula(cur, nxt, depth - 1))
        return N(op, self.formula(cur, nxt, depth - 1), self.formula(cur, nxt, depth - 1))


def ops_used(f, acc=None):
    acc = set() if acc is None else acc
    acc.add(f['op'])
    for x in f.get('a', ()):
        ops_used(x, acc)
    return acc


def compares_variables(f):
    if f['op'] in ('eq', 'neq', 'lt', 'le', 'gt', 'ge'):
        return all(x['op'] in ('var', 'next') for x in f['a'])
    return any(compares_variables(x) for x in f.get('a', ()))
