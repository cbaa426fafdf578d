"""C07: rewriting passes over specifications."""
import copy
import re
import warnings

import ltl
import tulip.spec as tspec
import tulip.spec.form as form
import tulip.spec.parser as parser
import tulip.spec.transformation as tx
import tulipparse
import vp

PARTS = ['env_init', 'env_safety', 'env_prog', 'sys_init', 'sys_safety', 'sys_prog']
NAMES = ['a', 'b', 'loc', 'x1', 'p_q', 'home', 'Xa', 'mode', 'y', 'GO']
VALUES = ['home', 'lot', 'go', 'v0', 'Z', 'left', 'a', 'loc', 'True1']


class Gen(ltl.Gen):

    def atom(self, cur, nxt):
        r = self.rng
        if r.random() < .25:
            enums = [(k, p) for p, ks in ((False, cur), (True, nxt)) for k in ks if self.vs.d[k - 1]['kind'] == 'enum']
            pairs = [(u, v) for u in enums for v in enums if u != v and self.vs.d[u[0] - 1]['vals'] == self.vs.d[v[0] - 1]['vals']]
            if pairs:
                return ltl.N(r.choice(['eq', 'neq']), *(ltl.N('next', ltl.var(k)) if p else ltl.var(k) for k, p in r.choice(pairs)))
        f = super().atom(cur, nxt)
        if f['op'] in ('eq', 'neq') and r.random() < .25:
            f = ltl.N(f['op'], f['a'][1], f['a'][0])
        return f

    def formula(self, cur, nxt, depth):
        r = self.rng
        if depth and nxt and r.random() < .1:
            return ltl.N('next', self.formula(nxt, [], depth - 1))
        if depth and r.random() < .07:
            return ltl.N('ite', *(self.formula(cur, nxt, depth - 1) for _ in range(3)))
        return super().formula(cur, nxt, depth)


def render(f, vs, quote='"'):
    if f['op'] == 'ite':
        return '(ite {}, {}, {})'.format(*(render(x, vs, quote) for x in f['a']))
    if f['op'] == 'not':
        return f'!({render(f["a"][0], vs, quote)})'
    if f['op'] == 'next':
        s = render(f['a'][0], vs, quote)
        return f"{s}'" if f['a'][0]['op'] == 'var' and len(s) % 2 else f'X ({s})'
    if 'a' in f:
        return f'({render(f["a"][0], vs, quote)} {ltl.SYM[f["op"]]} {render(f["a"][1], vs, quote)})'
    return ltl.render(f, vs, quote)


def random_vars(rng, values=VALUES):
    names = rng.sample(NAMES, 5)
    doms, size, shared = list(), 1, None
    for _ in range(rng.choice([2, 3, 3, 4])):
        t = rng.random()
        if t < .45:
            d = 'bool'
        elif t < .6:
            lo = rng.choice([0, 1, -1])
            d = (lo, lo + rng.choice([1, 2]))
        else:
            d = rng.sample(values, rng.choice([1, 2, 2, 3]))
            if shared and rng.random() < .5:
                d = list(shared)
            shared = d
        n = 2 if d == 'bool' else d[1] - d[0] + 1 if isinstance(d, tuple) else len(d)
        if size * n <= 12:
            size *= n
            doms.append(d)
    return ltl.Vars([ltl.decl(names[k], rng.choice(['env', 'sys']), d) for k, d in enumerate(doms)])


def decls_of(vs, ints=False):
    return {d['name']: (k + 1, 'int' if ints and d['kind'] == 'enum' else d['kind'], d.get('vals'))
            for k, d in enumerate(vs.d)}


def states(vs):
    out = [()]
    for d in vs.d:
        out = [s + (v,) for s in out for v in range(d['lo'], d['hi'] + 1)]
    return out


def value(d, v, ints=False):
    return bool(v) if d['kind'] == 'bool' else d['vals'][v] if d['kind'] == 'enum' and not ints else v


def names_of(t):
    return ({t['s']} if t['op'] == 'name' else set()).union(*(names_of(x) for x in t.get('a', ())))


def history(item):
    import random
    vs, parts, seed, nops = item
    rng = random.Random(seed)
    dq, di = decls_of(vs), decls_of(vs, True)
    texts = {p: [render(f, vs) for f in parts[p]] for p in PARTS}
    x = dict(vars=[dict(lo=d['lo'], hi=d['hi']) for d in vs.d], obs=list(), log=[repr(texts)],
             decls={d['name']: value(d, d['lo']) for d in vs.d})
    obs = x['obs']
    spec = tspec.GRSpec(env_vars=vs.tulip('env'), sys_vars=vs.tulip('sys'), **texts)
    every = list(range(1, len(vs) + 1))
    env = [k for k in every if vs.d[k - 1]['own'] == 'env']
    gen = Gen(rng, vs, arith=True, xor=True)

    def judge(kind, ps, text, decls, **kw):
        try:
            obs.append(dict(kind=kind, **{'pass': ps}, g=tulipparse.read(text, decls), **kw))
        except tulipparse.Malformed as e:
            x['log'].append(f'{ps}: {text} [{e!r}]')
            obs.append(dict(kind='flag', v=False, **{'pass': 'malformed-' + ps}))

    def flag(name, v):
        obs.append(dict(kind='flag', v=bool(v), **{'pass': name}))

    def call(ps, fn, *a, **kw):
        r = vp.guarded(fn, *a, **kw)
        if r[0] == 'exc':
            x['log'].append(f'{ps}: {r}')
            obs.append(dict(kind='raised', **{'pass': ps}))
            return False, None
        return True, r[1]

    for _ in range(nops):
        op = rng.choice(['str_to_int', 'str_to_int', 'compile_init', 'sub_values', 'replace', 'replace', 'edit', 'ast', 'check_syntax'])
        now = {p: list(getattr(spec, p)) for p in PARTS}
        trees = {p: [tulipparse.read(c, dq) for c in now[p]] for p in PARTS}
        x['log'].append(op)
        same = True
        if op == 'str_to_int':
            ok, _ = call(op, spec.str_to_int)
            if ok:
                for p in PARTS:
                    for c, f in zip(now[p], trees[p]):
                        judge('same', op, spec._bool_int[c], di, f=f)
                        judge('same', 'ast-int', spec.ast(spec._bool_int[c]).flatten(), di, f=f)
        elif op == 'ast':
            for p in PARTS:
                for c, f in zip(now[p], trees[p]):
                    ok, t = call(op, spec.ast, c)
                    if ok and '"' not in c:
                        judge('same', op, t.flatten(), dq, f=f)
        elif op == 'check_syntax':
            # definitions of environment variables may depend on the system
            if x.get('replaced'):
                continue
            call(op, spec.check_syntax)
        elif op == 'compile_init':
            no_str = rng.random() < .5
            ops = set().union(*(ltl.ops_used(f) for p in ('env_init', 'sys_init') for f in map(tulipparse.parse, now[p])))
            if 'ite' in ops or 'mul' in ops:
                continue
            # finding `print-string-unquoted`
            no_str = no_str or any('"' in c for p in ('env_init', 'sys_init') for c in now[p])
            ok, code = call(op, spec.compile_init, no_str)
            if ok:
                table = list()
                for s in states(vs):
                    v = vp.guarded(eval, code, {d['name']: value(d, n, no_str) for d, n in zip(vs.d, s)})
                    if v[0] == 'exc':
                        flag(f'raised-eval', False)
                        break
                    table.append(dict(s=list(s), v=bool(v[1])))
                obs.append(dict(kind='init', env=trees['env_init'], sys=trees['sys_init'], table=table, **{'pass': op}))
        elif op == 'sub_values':
            # finding `sub-values`
            values = {v for d in vs.d for v in d.get('vals', [])}
            if not all(d['kind'] == 'enum' for d in vs.d) or values & {d['name'] for d in vs.d} or \
                    any(f['op'] == 'var' for p in PARTS for f in trees[p]):
                continue
            if not call('parse', spec.parse)[0]:
                continue
            s = rng.choice(states(vs))
            vals = {d['name']: value(d, n) for d, n in zip(vs.d, s)}
            x['log'].append(repr(vals))
            ok, r = call(op, spec.sub_values, vals)
            if ok:
                for p in PARTS:
                    for c, f in zip(now[p], trees[p]):
                        if c not in r:
                            flag('missing-sub_values', False)
                        else:
                            text = re.sub(r'\b(' + '|'.join(values) + r')\b', r'"\1"', r[c].flatten())
                            judge('values', op, text, {}, f=f, s=list(s))
        elif op == 'replace':
            bools = [k for k in every if vs.d[k - 1]['kind'] == 'bool']
            if not bools:
                continue
            ks = rng.sample(bools, min(len(bools), rng.choice([1, 1, 2, 3])))
            g2 = Gen(rng, vs, arith=True, xor=True)
            dep, m = list(), dict()
            for k in ks:
                g = g2.formula(every if rng.random() < .4 else [j for j in every if j not in ks] or every, [], rng.choice([0, 1, 2]))
                dep.append(dict(v=k, g=g))
                m[vs.d[k - 1]['name']] = render(g, vs)
            # finding `print-string-unquoted`
            if '"' in repr(m) or any('"' in c for p in PARTS for c in now[p]):
                continue
            x['log'].append(repr(m))
            before = repr(m)
            ok, _ = call(op, form.replace_dependent_vars, spec, m)
            same = False
            if ok:
                flag('argument-replace', repr(m) == before)
                for p in PARTS:
                    new = getattr(spec, p)
                    flag('count-replace', len(new) == len(now[p]))
                    for c, f, n in zip(now[p], trees[p], new):
                        judge('subst', op, n, dq, f=f, dep=dep)
                x['replaced'] = True
                if any(len(c) > 400 for p in PARTS for c in getattr(spec, p)):
                    break
            else:
                break
        elif op == 'edit':
            p = rng.choice(PARTS)
            cs = getattr(spec, p)
            nxt = [] if not p.endswith('safety') else env if p.startswith('env') else every
            c = render(gen.formula(every, nxt, rng.choice([0, 1, 2])), vs)
            t = rng.random()
            if t < .4 or not cs:
                cs.append(c)
            elif t < .6:
                setattr(spec, p, cs + [c])
            elif t < .8:
                cs[rng.randrange(len(cs))] = c
            else:
                del cs[rng.randrange(len(cs))]
            x['log'].append(f'{p}: {cs}')
            same = False
        if same:
            flag('clauses-' + op, all(list(getattr(spec, p)) == now[p] for p in PARTS))
        flag('variables-' + op, spec.env_vars == vs.tulip('env') and spec.sys_vars == vs.tulip('sys'))
    return x


def mutate_tree(rng, t, names, doms):
    """Name-level tree with some names and strings replaced."""
    if t['op'] == 'name' and rng.random() < .12:
        return dict(t, s=rng.choice(names))
    if 'a' in t:
        return dict(t, a=[mutate_tree(rng, y, names, doms) for y in t['a']])
    return t


SYM = dict(ltl.SYM)


def show(t):
    """Text of a name-level tree."""
    op = t['op']
    if op in ('name',):
        return t['s']
    if op == 'str':
        return f'"{t["s"]}"'
    if op == 'lit':
        return str(t['n'])
    if op in ('true', 'false'):
        return op
    a = [show(y) for y in t['a']]
    if op == 'ite':
        return '(ite {}, {}, {})'.format(*a)
    if len(a) == 1:
        return f'{"!" if op == "not" else "X"}({a[0]})'
    return f'({a[0]} {SYM[op]} {a[1]})'


def single(item):
    """Functions of a formula, outside a specification."""
    import random
    vs, f, seed = item
    rng = random.Random(seed)
    dq = decls_of(vs)
    text = render(f, vs)
    x = dict(vars=[dict(lo=d['lo'], hi=d['hi']) for d in vs.d], obs=list(), log=[text])
    obs = x['obs']
    names = [d['name'] for d in vs.d]
    doms = [dict(name=d['name'], vals=d.get('vals', [])) for d in vs.d]
    t = parser.parse(text)
    r = vp.guarded(tx.collect_primed_vars, t)
    if r[0] == 'ok':
        obs.append(dict(kind='primed', f=f, got=[dq[n][0] for n in r[1]], **{'pass': 'primed'}))
    else:
        obs.append(dict(kind='raised', **{'pass': 'collect_primed_vars'}))
    # graph and back
    g = tx.Tree.from_recursive_ast(t)
    back = vp.guarded(lambda: g.to_recursive_ast().flatten())
    obs.append(dict(kind='flag', v=back == ('ok', t.flatten()), **{'pass': 'tree-round-trip'}))
    obs.append(dict(kind='flag', v={str(u) for u in g.variables} == names_of(tulipparse.parse(text)), **{'pass': 'tree-variables'}))
    name = rng.choice(names + ['other', 'a', 'loc'])
    r = vp.guarded(tx.check_var_name_conflict, text, name)
    tree = tulipparse.parse(text)
    obs.append(dict(kind='vars', t=tree, name=name, raised=r[0] == 'exc', got=sorted(r[1]) if r[0] == 'ok' else sorted(names_of(tree)),
                    **{'pass': 'names'}))
    # quotes around values
    bare = render(f, vs, quote='')
    values = {v for d in vs.d for v in d.get('vals', [])}
    if not values & set(names):
        x['log'].append(bare)
        dom = dict(vs.tulip('env'), **vs.tulip('sys'))
        arg = dom if rng.random() < .8 else rng.choice([list(dom), set(dom)])
        r = vp.guarded(tx.infer_constants, bare, copy.deepcopy(arg))
        if r[0] == 'exc':
            x['log'].append(repr(r))
            obs.append(dict(kind='raised', **{'pass': 'infer_constants'}))
        else:
            x['log'].append(r[1])
            try:
                obs.append(dict(kind='same', f=f, g=tulipparse.read(r[1], dq), **{'pass': 'infer_constants'}))
                ok = vp.guarded(lambda: tspec.GRSpec(env_vars=vs.tulip('env'), sys_vars=vs.tulip('sys'), sys_safety=[r[1]]).parse())
                obs.append(dict(kind='flag', v=ok[0] == 'ok', **{'pass': 'parse-inferred'}))
            except tulipparse.Malformed:
                obs.append(dict(kind='flag', v=False, **{'pass': 'malformed-infer_constants'}))
    # undeclared names and values
    # (finding `undeclared-string` about values)
    m = mutate_tree(rng, tree, ['other', 'zz', 'go'], doms)
    m = m if rng.random() < .8 else tree
    p = rng.choice(PARTS)
    r = vp.guarded(lambda: tspec.GRSpec(env_vars=vs.tulip('env'), sys_vars=vs.tulip('sys'), **{p: [show(m)]}).parse())
    x['log'].append(show(m) + repr(r))
    if r[0] == 'ok' or r[1] in ('ValueError', 'Exception', 'AssertionError'):
        obs.append(dict(kind='ident', t=m, doms=doms, raised=r[0] != 'ok', **{'pass': 'undeclared'}))
    else:
        obs.append(dict(kind='flag', v=False, **{'pass': 'undeclared-' + r[1]}))
    # different lists of values
    return x


def mixed(item):
    """Comparison of variables over different lists: refused, or right."""
    vs, f = item
    x = dict(vars=[dict(lo=d['lo'], hi=d['hi']) for d in vs.d], obs=list(), log=[f])
    spec = tspec.GRSpec(env_vars=vs.tulip('env'), sys_vars=vs.tulip('sys'), sys_safety=[f])
    r = vp.guarded(spec.str_to_int)
    if r[0] == 'ok':
        x['obs'].append(dict(kind='flag', v=False, **{'pass': 'comparison-of-different-lists'}))
    x['probe'] = 'comparison-of-different-lists'
    return x


def probes():
    """Inputs of the known findings."""
    b = ltl.Vars([ltl.decl('p', 'env', 'bool'), ltl.decl('n', 'sys', (0, 2)), ltl.decl('loc', 'sys', ['home', 'n'])])
    dom = [dict(lo=d['lo'], hi=d['hi']) for d in b.d]

    def spec(c):
        return tspec.GRSpec(env_vars=b.tulip('env'), sys_vars=b.tulip('sys'), sys_init=[c])

    def rec(probe, c, o):
        return dict(vars=dom, obs=[o], log=[c], probe=probe)

    for c in ('p & (n = 1)', 'p', '!(n = 1)'):
        s = spec(c)
        r = vp.guarded(s.sub_values, dict(p=True, n=1, loc='home'))
        f = tulipparse.read(c, decls_of(b))
        if r[0] == 'ok' and vp.guarded(lambda: r[1][c].flatten())[0] == 'ok':
            yield rec('sub-values', c, dict(kind='values', f=f, g=tulipparse.read(r[1][c].flatten(), {}), s=[1, 1, 0], **{'pass': 'sub_values'}))
        else:
            yield rec('sub-values', c, dict(kind='raised', **{'pass': 'sub_values'}))
    c = 'loc = "n"'
    r = vp.guarded(lambda: tulipparse.read(spec(c).ast(c).flatten(), decls_of(b)))
    yield rec('print-string-unquoted', c, dict(kind='flag', v=r == ('ok', tulipparse.read(c, decls_of(b))), **{'pass': 'ast'}))
    c = 'loc = "zzz"'
    r = vp.guarded(lambda: spec(c).parse())
    yield rec('undeclared-string', c, dict(kind='flag', v=r[0] != 'ok', **{'pass': 'undeclared'}))


def body(chk):
    warnings.simplefilter('ignore')
    rng = chk.rng
    chk.model_check('RewriteMC', 'INIT Init\nNEXT Next\nINVARIANT Agree\nINVARIANT Supports\nCHECK_DEADLOCK FALSE\n', workers=8)
    hist, singles = list(), list()
    for _ in range(chk.pick(500, 4000)):
        vs = random_vars(rng, VALUES if rng.random() < .5 else [v + '_' for v in VALUES])
        if rng.random() < .3:
            vs = ltl.Vars([d for d in vs.d if d['kind'] == 'enum'] or vs.d)
        elif rng.random() < .4:
            vs = ltl.Vars([d for d in vs.d if d['kind'] != 'enum'] or vs.d)
        gen = Gen(rng, vs, arith=rng.random() < .5, xor=rng.random() < .3)
        every = list(range(1, len(vs) + 1))
        env = [k for k in every if vs.d[k - 1]['own'] == 'env']
        parts = {p: [gen.formula(every, [] if not p.endswith('safety') else env if p.startswith('env') else every,
                                 rng.choice([0, 0, 1, 2])) for _ in range(rng.choice([0, 1, 1, 2]))] for p in PARTS}
        hist.append((vs, parts, rng.random(), rng.choice([2, 3, 5, 7])))
    for _ in range(chk.pick(1200, 10000)):
        vs = random_vars(rng, VALUES if rng.random() < .4 else [v + '_' for v in VALUES])
        gen = Gen(rng, vs, arith=rng.random() < .5, xor=rng.random() < .3)
        every = list(range(1, len(vs) + 1))
        singles.append((vs, gen.formula(every, rng.choice([[], every, every]), rng.choice([0, 1, 2, 3])), rng.random()))
    mix = list()
    for d, e, f in ((['a', 'b'], ['b', 'a'], 'u = v'), (['a', 'b'], ['a', 'b', 'c'], "c & (u != v')"), (['a'], ['b'], 'X (v = u)')):
        mix.append((ltl.Vars([ltl.decl('u', 'env', d), ltl.decl('v', 'sys', e), ltl.decl('c', 'sys', 'bool')]), f))
    recs = vp.pmap(history, hist) + vp.pmap(single, singles) + [mixed(m) for m in mix] + list(probes())
    strip = [dict(vars=r['vars'], obs=r['obs']) for r in recs]
    for r, bad in zip(recs, chk.validate('RewriteTrace', strip)):
        for clause in bad:
            chk.violation(r.get('probe') or f'{clause}:{r["log"][0]}', f'{clause}: ' + ' ; '.join(r['log']), r)
        for o in r['obs']:
            chk.bump(f'{o["kind"]}_{o["pass"]}')
    cor = list()
    for r in strip[:-8]:
        good = [o for o in r['obs'] if o['kind'] in ('same', 'subst', 'values', 'primed', 'ident')]
        if good and len(cor) < 60:
            o = dict(good[len(cor) % len(good)])
            if 'g' in o:
                o['g'] = ltl.N('not', o['g'])
            elif 'got' in o:
                o['got'] = o['got'] + [99]
            else:
                o['raised'] = not o['raised']
            cor.append(dict(r, obs=[o]))
    chk.binding('RewriteTrace', cor)
    chk.sample(recs[0]['log'])
    chk.sample(recs[len(hist)]['log'])
    chk.assumptions += ['substitution of values for some of the variables only is refused by the code and not judged']


if __name__ == '__main__':
    vp.main('C07', body)
