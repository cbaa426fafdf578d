"""C08: specification objects under editing."""
import os
import random
import re
import warnings

import c07
import ltl
import tulip.spec as tspec
import tulip.spec.form as form
import tulip.spec.translation as trl
import tulipparse
import vp

PARTS = ['env_init', 'env_safety', 'env_prog', 'sys_init', 'sys_safety', 'sys_prog']
OPTS = ['true-true-AA', 'false-true-AE', 'true-false-AE', 'false-false-EE']
QINIT = dict(AA=r'\A \A', AE=r'\A \E', EE=r'\E \E', EA=r'\E \A')
BOOL = dict(kind='bool', lo=0, hi=1, vals=[])


def to_dom(d, flavor=0):
    if d['kind'] == 'bool':
        return 'boolean'
    if d['kind'] == 'int':
        return (d['lo'], d['hi'])
    return list(d['vals'])


def from_dom(d):
    if d == 'boolean':
        return dict(BOOL)
    if isinstance(d, tuple):
        return dict(kind='int', lo=d[0], hi=d[1], vals=[])
    vals = list(d) if isinstance(d, list) else sorted(d)
    return dict(kind='enum', lo=0, hi=len(vals) - 1, vals=vals)


def opts_of(s):
    q = {v: k for k, v in QINIT.items()}.get(s.qinit, '?')
    return f'{str(s.moore).lower()}-{str(s.plus_one).lower()}-{q}'


def set_opts(s, o):
    m, p, q = o.split('-')
    s.moore, s.plus_one, s.qinit = m == 'true', p == 'true', QINIT[q]


def snap(s):
    return dict(env=[[n, from_dom(d)] for n, d in s.env_vars.items()], sys=[[n, from_dom(d)] for n, d in s.sys_vars.items()],
                opts=opts_of(s), parts={p: list(getattr(s, p)) for p in PARTS})


def read_pretty(text):
    parts = {p: [] for p in PARTS}
    _, rest = text.split('ASSUMPTION:\n')
    a, g = rest.split('GUARANTEE:\n')
    for side, t in (('env', a), ('sys', g)):
        chunks = re.split(r'^    (INITIAL|SAFETY|LIVENESS)\n', t, flags=re.M)
        if chunks[0].strip():
            raise tulipparse.Malformed(chunks[0])
        for head, body in zip(chunks[1::2], chunks[2::2]):
            name, ops = dict(INITIAL=('init', []), SAFETY=('safety', ['always']), LIVENESS=('prog', ['always', 'eventually']))[head]
            # one clause per line, so the conjuncts are those of the printed lines
            for j, line in enumerate(re.split(r'\n\t& ', body.strip())):
                t = tulipparse.parse(line)
                for op in ops:
                    if t['op'] != op:
                        raise tulipparse.Malformed(line)
                    t = t['a'][0]
                parts[f'{side}_{name}'].append(t)
    return parts


VALS = {'u', 'v', 'home', 'z1', 'z2', 'z3', 'z4', 'z5', 'z6', 'z7', 'z8', 'z9'}


def requote(t):
    """Strings are printed without quotes (finding `print-string-unquoted`)."""
    if t['op'] == 'name' and t['s'] in VALS:
        return dict(t, op='str')
    return dict(t, a=[requote(u) for u in t['a']]) if 'a' in t else t


def loaded(d):
    """Strings are loaded with a space in front (finding `load-strings`)."""
    return {v.strip() if isinstance(v, str) else v for v in d} if isinstance(d, set) else d


def has_finding(op, objs, x):
    """Do known findings affect this operation?"""
    s = objs[op['o'] - 1] if 'o' in op else None
    if op['op'] == 'query' and op['q'] == 'check':
        return any("'" in c or 'X' in c for c in s.sys_prog)
    if op['op'] == 'or':
        t = objs[op['p'] - 1]
        return bool((set(s.env_vars) | set(t.env_vars)) & (set(s.sys_vars) | set(t.sys_vars)))
    if op['op'] == 'setdom':
        return any(o.get('q') == 'ints' for o in x['ops'])
    return False


def probes():
    """Inputs of the known findings."""
    E = dict(kind='enum', lo=0, hi=1, vals=['u', 'v'])
    R = dict(kind='enum', lo=0, hi=1, vals=['v', 'u'])

    def new(env, sys_, **parts):
        return dict(op='new', env=env, sys=sys_, opts=OPTS[0], parts={p: parts.get(p, []) for p in PARTS})

    def query(q):
        return dict(op='query', o=1, q=q)

    x = new([], [['x', E]], sys_init=['x = "v"'])
    return [
        ('check-liveness-guarantee', [new([], [['a', BOOL]], sys_prog=["a'"]), query('check')]),
        ('union-of-owners', [new([['a', BOOL]], []), new([], [['a', BOOL]]), dict(op='or', o=1, p=2)]),
        ('load-by-name', [new([['a', BOOL]], []), query('dump')]),
        ('load-strings', [x, query('dump')]),
        ('stale-integers', [x, query('ints'), dict(op='setdom', o=1, n='x', d=R), query('ints')]),
        ('print-string-unquoted', [x, query('ast')])]


def replay(item):
    ops, seed, texts, *probe = item
    probe = probe and probe[0]
    rng = random.Random(seed)
    x = dict(ops=list(), outs=list(), trees=dict(), log=list())
    objs = list()

    def text(c):
        return texts.get(c, c) if texts else c

    def tree(c):
        if c not in x['trees']:
            x['trees'][c] = tulipparse.parse(c)
        return x['trees'][c]

    for op in ops:
        op = dict(op)
        if op['op'] == 'random':
            if op['arg'] is None:
                continue
            op = op['arg'](rng, objs, list(x['trees']))
        if not probe and has_finding(op, objs, x):
            op = dict(op='query', o=op['o'], q='repr')
        for f in ('c',):
            if f in op:
                op[f] = text(op[f])
                tree(op[f])
        if 'cs' in op:
            op['cs'] = [text(c) for c in op['cs']]
            for c in op['cs']:
                tree(c)
        out = dict(ok=True)
        s = objs[op['o'] - 1] if 'o' in op else None
        kind = op['op']
        r = ('ok', None)
        if kind == 'new':
            op['parts'] = {p: [text(c) for c in op['parts'][p]] for p in PARTS}
            for p in PARTS:
                for c in op['parts'][p]:
                    tree(c)
            env = {n: to_dom(d) for n, d in op['env']}
            sys_ = {n: to_dom(d) for n, d in op['sys']}
            parts = {p: list(cs) for p, cs in op['parts'].items()}
            args = dict(parts)
            for p, cs in parts.items():
                if len(cs) == 1 and rng.random() < .5:
                    args[p] = cs[0]
                elif not cs and rng.random() < .5:
                    args[p] = ''
                elif rng.random() < .3:
                    args[p] = tuple(cs)
            m, p1, q = op['opts'].split('-')
            kw = dict(moore=m == 'true', plus_one=p1 == 'true', qinit=QINIT[q])
            a_env = list(env) if rng.random() < .3 and all(d == 'boolean' for d in env.values()) else env
            r = vp.guarded(tspec.GRSpec, env_vars=a_env, sys_vars=sys_, **args, **kw)
            if r[0] == 'ok':
                objs.append(r[1])
                # the arguments stay independent
                env.clear()
                for d in sys_.values():
                    if isinstance(d, list):
                        d.append('junk')
                for cs in parts.values():
                    cs.append('junk')
        elif kind == 'declare':
            names = [n for n, d in op['vs'] if d['kind'] == 'bool']
            kw = {n: (to_dom(d) if rng.random() < .7 or d['kind'] != 'int' else [d['lo'], d['hi']])
                  for n, d in op['vs'] if d['kind'] != 'bool'}
            if op['own'] == 'env':
                kw['env'] = True
            elif rng.random() < .3:
                kw['env'] = False
            r = vp.guarded(s.declare, *names, **kw)
        elif kind == 'append':
            cs = getattr(s, op['part'])
            t = rng.random()
            if t < .5:
                cs.append(op['c'])
            elif t < .8:
                cs += [op['c']]
            else:
                setattr(s, op['part'], cs + [op['c']])
        elif kind == 'extend':
            getattr(s, op['part']).extend(op['cs'])
        elif kind == 'assign':
            setattr(s, op['part'], list(op['cs']))
        elif kind == 'set':
            getattr(s, op['part'])[op['k'] - 1] = op['c']
        elif kind == 'delete':
            del getattr(s, op['part'])[op['k'] - 1]
        elif kind == 'copy':
            r = vp.guarded(s.copy)
            if r[0] == 'ok':
                objs.append(r[1])
        elif kind == 'or':
            r = vp.guarded(lambda: s | objs[op['p'] - 1])
            if r[0] == 'ok':
                objs.append(r[1])
        elif kind == 'options':
            op['opts'] = dict(o1=OPTS[0], o2=OPTS[1]).get(op['opts'], op['opts'])
            set_opts(s, op['opts'])
        elif kind == 'setdom':
            for d in (s.env_vars, s.sys_vars):
                if op['n'] in d:
                    d[op['n']] = to_dom(op['d'])
        elif kind == 'query':
            q = op['q']

            def run():
                if q == 'check':
                    s.check_syntax()
                elif q == 'dump':
                    t = s.dumps(timestamp=rng.random() < .3)
                    if rng.random() < .5 or probe == 'load-by-name':
                        path = os.path.join(vp.SCRATCH, 'tmp', f'spec{os.getpid()}')
                        with open(path, 'w') as f:
                            f.write(t)
                        if probe == 'load-by-name':
                            new = form.LTL.load(path)
                        else:
                            with open(path) as f:
                                new = form.LTL.load(f)
                        os.remove(path)
                    else:
                        new = form.LTL.loads(t)
                    out['env'] = [[n, from_dom(d if probe else loaded(d))] for n, d in new.input_variables.items()]
                    out['sys'] = [[n, from_dom(d if probe else loaded(d))] for n, d in new.output_variables.items()]
                    out['f'] = tulipparse.parse(new.formula)
                    out['g'] = tulipparse.parse(s.to_canon())
                elif q == 'repr':
                    t = eval(repr(s), dict(GRSpec=tspec.GRSpec))
                    out['obj'] = snap(t)
                elif q == 'pretty':
                    out['parts'] = read_pretty(s.pretty())
                elif q == 'ast':
                    s.parse() if rng.random() < .3 else None
                    out['parts'] = {p: [(dict if probe else requote)(tulipparse.parse(s.ast(c).flatten())) for c in getattr(s, p)] for p in PARTS}
                elif q == 'ints':
                    if rng.random() < .5 and not vp_misplaced(s):
                        trl.translate(s, 'gr1c')
                    s.str_to_int()
                    names = list(s.env_vars.items()) + list(s.sys_vars.items())
                    ds = [(n, from_dom(d)) for n, d in names]
                    dq = {n: (k + 1, d['kind'], d['vals']) for k, (n, d) in enumerate(ds)}
                    di = {n: (k + 1, 'int' if d['kind'] == 'enum' else d['kind'], None) for k, (n, d) in enumerate(ds)}
                    out['vars'] = [dict(lo=d['lo'], hi=d['hi']) for _, d in ds]
                    out['pairs'] = {p: [[tulipparse.read(c, dq), tulipparse.read(s.ast(s._bool_int[c]).flatten(), di)]
                                        for c in getattr(s, p)] for p in PARTS}
            r = vp.guarded(run)
        out['ok'] = r[0] == 'ok'
        out['objs'] = [snap(o) for o in objs]
        x['ops'].append(op)
        x['outs'].append(out)
        x['log'].append(f'{op}' + ('' if out['ok'] else f' -> {r[1:]}'))
    return x


def vp_misplaced(s):
    """Contains a clause that has no form in gr1c's language."""
    cs = [c for p in PARTS for c in getattr(s, p)]
    return any(t in c for c in cs for t in ("'", 'X', '+', '-', 'ite'))


NAMES = ['a', 'b', 'c', 'x', 'loc', 'm1']
DOMS = [BOOL, BOOL, BOOL, dict(kind='int', lo=0, hi=2, vals=[]), dict(kind='int', lo=0, hi=1, vals=[]),
        dict(kind='enum', lo=0, hi=1, vals=['u', 'v']), dict(kind='enum', lo=0, hi=2, vals=['v', 'home', 'u']),
        dict(kind='enum', lo=0, hi=0, vals=['home'])]


def random_clause(rng, objs, o, part, seen):
    """Clause over the current declarations of an object, often one used before."""
    s = objs[o - 1]
    ds = [dict(from_dom(d), name=n, own='env') for n, d in s.env_vars.items()]
    ds += [dict(from_dom(d), name=n, own='sys') for n, d in s.sys_vars.items()]
    vs = ltl.Vars(ds)
    if seen and rng.random() < .4:
        c = rng.choice(seen)
        try:
            tulipparse.read(c, {d['name']: (k, d['kind'], d['vals']) for k, d in enumerate(ds, 1)})
            return c
        except tulipparse.Malformed:
            pass
    every = list(range(1, len(ds) + 1))
    env = [k for k in every if ds[k - 1]['own'] == 'env']
    nxt = [] if not part.endswith('safety') else env if part.startswith('env') else every
    if rng.random() < .05:
        nxt = every
    g = c07.Gen(rng, vs, arith=False)
    while True:
        # comparing variables is defined only when they have the same domain, and domains change here
        f = g.formula(every, nxt, rng.choice([0, 1, 1, 2]))
        if not ltl.compares_variables(f):
            return c07.render(f, vs)


def random_op(rng, objs, seen):
    if not objs or rng.random() < .05 and len(objs) < 4:
        names = rng.sample(NAMES, rng.choice([0, 1, 2, 3]))
        k = rng.randint(0, len(names))
        env, sys_ = names[:k], names[k:]
        if objs and rng.random() < .1 and env:
            sys_ = sys_ + env[:1]
        return dict(op='new', env=[[n, rng.choice(DOMS)] for n in env], sys=[[n, rng.choice(DOMS)] for n in sys_],
                    opts=rng.choice(OPTS), parts={p: [] for p in PARTS})
    o = rng.randint(1, len(objs))
    s = objs[o - 1]
    t = rng.random()
    part = rng.choice(PARTS)
    n = len(getattr(s, part))
    if t < .18:
        names = rng.sample(NAMES, rng.choice([1, 1, 2, 3]))
        known = dict(s.env_vars, **s.sys_vars)
        vs = [[v, from_dom(known[v]) if v in known and rng.random() < .5 else rng.choice(DOMS)] for v in names]
        own = rng.choice(['env', 'sys'])
        if rng.random() < .4:
            own = 'env' if all(v in s.env_vars for v in names) else 'sys'
        return dict(op='declare', o=o, own=own, vs=vs)
    if t < .38:
        return dict(op='append', o=o, part=part, c=random_clause(rng, objs, o, part, seen))
    if t < .42:
        return dict(op='extend', o=o, part=part, cs=[random_clause(rng, objs, o, part, seen) for _ in range(rng.choice([0, 2]))])
    if t < .46:
        return dict(op='assign', o=o, part=part, cs=[random_clause(rng, objs, o, part, seen) for _ in range(rng.choice([0, 1, 2]))])
    if t < .51 and n:
        return dict(op='set', o=o, part=part, k=rng.randint(1, n), c=random_clause(rng, objs, o, part, seen))
    if t < .55 and n:
        return dict(op='delete', o=o, part=part, k=rng.randint(1, n))
    if t < .60 and len(objs) < 5:
        return dict(op='copy', o=o)
    if t < .68 and len(objs) < 5:
        return dict(op='or', o=o, p=rng.randint(1, len(objs)))
    if t < .71:
        return dict(op='options', o=o, opts=rng.choice(OPTS[:2]))
    if t < .75:
        known = [(v, d) for v, d in list(s.env_vars.items()) + list(s.sys_vars.items()) if isinstance(d, list)]
        if known:
            v, d = rng.choice(known)
            d = list(d)
            rng.shuffle(d)
            if rng.random() < .3:
                d.insert(rng.randint(0, len(d)), 'z' + str(len(d)))
            return dict(op='setdom', o=o, n=v, d=from_dom(d))
    return dict(op='query', o=o, q=rng.choice(['ast', 'ints', 'dump', 'repr', 'pretty', 'check']))


def focused_op(rng, objs, seen):
    """Few clauses that come and go, between conversions of them."""
    if not objs:
        return random_op(rng, objs, seen)
    if not seen or len(seen) < 5 and rng.random() < .3:
        part = rng.choice(PARTS)
        return dict(op='append', o=1, part=part, c=random_clause(rng, objs, 1, part, []))
    part = rng.choice([p for p in PARTS if getattr(objs[0], p)] or PARTS)
    n = len(getattr(objs[0], part))
    t = rng.random()
    if t < .35 and n:
        return dict(op='delete', o=1, part=part, k=rng.randint(1, n))
    if t < .7:
        return dict(op='append', o=1, part=part, c=random_clause(rng, objs, 1, part, seen))
    return dict(op='query', o=1, q=rng.choice(['ast', 'ints', 'ints']))


def body(chk):
    warnings.simplefilter('ignore')
    rng = chk.rng
    cfg = 'INIT Init\nNEXT Next\nINVARIANT Inv\nPROPERTY Local\nPROPERTY Refused\nCHECK_DEADLOCK FALSE\n'
    chk.model_check('GRObjMC', f'CONSTANT Depth = {chk.pick(3, 3)}\n' + cfg, workers=8)
    depth = chk.pick(2, 3)
    hists = chk.generate('GRObjMC', f'CONSTANT Depth = {depth}\nINIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n')
    E = dict(kind='enum', lo=0, hi=1, vals=['u', 'v'])
    start = dict(op='new', env=[['e', BOOL]], sys=[['x', E]], opts=OPTS[0], parts={p: ['c1'] if p == 'sys_init' else [] for p in PARTS})
    texts = dict(c1='x = "v"', c2='e & (x != "v")')
    limit = chk.pick(700, 8000)
    # each history ends with queries on all objects
    tail = [dict(op='query', o=1, q=q) for q in ('ints', 'ast', 'dump')]
    items = list()
    for h in (hists if len(hists) <= limit else rng.sample(hists, limit)):
        n = 1 + sum(o['op'] in ('copy', 'or') for o in h)
        items.append(([start] + h + tail, rng.random(), texts))
    for _ in range(chk.pick(500, 6000)):
        n = rng.choice([5, 10, 20, 30])
        f = rng.choice([random_op, random_op, focused_op])
        items.append(([dict(op='random', arg=f) for _ in range(n)], rng.random(), None))
    items += [(ops, 1, None, key) for key, ops in probes()]
    recs = vp.pmap(replay, items)
    for r, item in zip(recs, items):
        r['probe'] = item[3] if len(item) > 3 else ''
    strip = [{k: v for k, v in r.items() if k not in ('log', 'probe')} for r in recs]
    for r, bad in zip(recs, chk.validate('GRObjTrace', strip)):
        for clause in bad:
            chk.violation(r['probe'] or f"{clause}:{r['log'][0][:60]}", f'{clause}: ' + ' ; '.join(r['log'])[-1400:], r['log'])
        for op, out in zip(r['ops'], r['outs']):
            chk.bump(f'{op["op"]}{"_" + op["q"] if "q" in op else ""}_{"ok" if out["ok"] else "refused"}')
    cor = list()
    for r in strip[:60]:
        outs = [dict(o) for o in r['outs']]
        k = len(cor) % len(outs)
        outs[k]['objs'] = [dict(o, parts=dict(o['parts'], sys_prog=o['parts']['sys_prog'] + ['x'])) for o in outs[k]['objs']]
        cor.append(dict(r, outs=outs))
    chk.binding('GRObjTrace', cor)
    chk.sample(recs[0]['log'])
    chk.sample(recs[-1]['log'])
    chk.assumptions += ['domains are lists of names, ranges, or boolean; loading gives a set for a list',
                        'clause lists and declarations are also edited directly, as documented']


if __name__ == '__main__':
    vp.main('C08', body)
