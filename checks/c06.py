"""C06: the GR(1) fragment of linear temporal logic."""
import logging
import os
import random
import warnings

import c05
import c07
import ltl
import tulip.spec.gr1_fragment as frag
import tulip.spec.parser as parser
import tulipparse
import vp

N = ltl.N
PRE = dict(always=['[]', '[] ', 'G '], eventually=['<>', '<> ', 'F '], next=['X '])
TEMP = dict(until='U', weak='W', release='V')
KINDS = ['stability', 'response', 'eventually', 'until']


def render(rng, f, vs):
    op = f['op']
    if op in PRE:
        s = render(rng, f['a'][0], vs)
        return f'({rng.choice(PRE[op])}{s})' if f['a'][0]['op'] in PRE and rng.random() < .7 else f'({rng.choice(PRE[op])}({s}))'
    if op in TEMP:
        return f'({render(rng, f["a"][0], vs)} {TEMP[op]} {render(rng, f["a"][1], vs)})'
    if op == 'not':
        return f'!({render(rng, f["a"][0], vs)})'
    if op == 'and':
        a, b = (render(rng, x, vs) for x in f['a'])
        sym = rng.choice(['&', '&&', '/\\'])
        return f'({a} {sym} {b})'
    if op in ('or', 'xor', 'imp', 'iff'):
        a, b = (render(rng, x, vs) for x in f['a'])
        return f'({a} {ltl.SYM[op]} {b})'
    return c07.render(f, vs)


def strip(rng, s):
    """Possibly without the outer parentheses."""
    if not s.startswith('(') or s.startswith('(ite'):
        return s
    depth = 0
    for k, c in enumerate(s):
        depth += (c == '(') - (c == ')')
        if depth == 0 and k < len(s) - 1:
            return s
    return s[1:-1] if rng.random() < .7 else s


def flat(rng, f, vs):
    """Text of a conjunction, with few parentheses."""
    if f['op'] == 'and' and f['a'][1]['op'] != 'and' and rng.random() < .6:
        b = render(rng, f['a'][1], vs)
        return f'{flat(rng, f["a"][0], vs)} & {b}'
    return strip(rng, render(rng, f, vs)) if f['op'] in PRE else render(rng, f, vs)


def read_all(texts, decls):
    """Formulas read from the texts; empty text stands for no condition."""
    return [tulipparse.read(t, decls) for t in texts if t.strip()]


def split_record(item):
    f, vs, seed, *probe = item
    rng = random.Random(seed)
    # (`~` is not printed, finding `alternative-not`)
    text = probe[1] if probe else strip(rng, flat(rng, f, vs))
    decls = c07.decls_of(vs)
    x = dict(kind='split', f=f, vars=vs.tla(), ok=False, read=True, parts=dict(init=[], G=[], GF=[]), log=text, probe=probe)
    arg = text
    if rng.random() < .4:
        arg = parser.parse(text)
    r = vp.guarded(frag.split_gr1, arg)
    x['ok'] = r[0] == 'ok'
    x['log'] += f' -> {r[1:]}'
    if x['ok']:
        try:
            x['parts'] = {p: read_all(r[1][p], decls) for p in ('init', 'G', 'GF')}
        except tulipparse.Malformed:
            x['read'] = False
    return x


def spec_record(item):
    f, vs, seed, *probe = item
    rng = random.Random(seed)
    if f['op'] == 'imp':
        text = f'({flat(rng, f["a"][0], vs)}) -> ({flat(rng, f["a"][1], vs)})'
    else:
        text = render(rng, f, vs)
    decls = c07.decls_of(vs)
    empty = dict(init=[], G=[], GF=[])
    x = dict(kind='spec', f=f, vars=vs.tla(), ok=False, read=True, env=empty, sys=empty, log=text, probe=probe)
    r = vp.guarded(frag.str_to_grspec, text)
    x['ok'] = r[0] == 'ok'
    x['log'] += f' -> {r[1:] if r[0] != "ok" else r[1].to_canon()}'
    if x['ok']:
        s = r[1]
        # finding `empty-clauses`
        blank = any(t == '' for p in s._parts for t in getattr(s, p))
        if blank and not probe:
            for p in s._parts:
                setattr(s, p, [t for t in getattr(s, p) if t != ''])
        try:
            for side in ('env', 'sys'):
                x[side] = {p: [tulipparse.read(t, decls) for t in getattr(s, f'{side}_{q}')]
                           for p, q in (('init', 'init'), ('G', 'safety'), ('GF', 'prog'))}
            tulipparse.read(s.to_canon(), decls)
            for d in vs.d:
                s.declare(*([d['name']] if d['kind'] == 'bool' else []),
                          **({d['name']: (d['lo'], d['hi'])} if d['kind'] == 'int' else {}),
                          **({d['name']: d['vals']} if d['kind'] == 'enum' else {}))
            if vp.guarded(s.parse)[0] != 'ok':
                x['read'] = False
        except tulipparse.Malformed:
            x['read'] = False
    return x


AUX = ['aux', 'aux', 'z', 'aux_1', 'a1', 'trueaux', 'q']


def conv_record(item):
    convs, seed = item
    rng = random.Random(seed)
    names = rng.sample(['a', 'b', 'q0', 'p', 'auxb', 'x1'], 2)
    vs = ltl.Vars([ltl.decl(n, 'sys', 'bool') for n in names])
    x = dict(kind='conv', conv=convs, vars=vs.tla(), m=len(convs), ok=True, read=True, declared=True, noenv=True,
             conflict=False, spec=dict(init=[], safety=[], prog=[]), log='', n=2 if len(convs) > 1 else 3)
    aux = rng.sample(sorted(set(AUX)), len(convs))
    specs = list()
    used = set()
    for c, a in zip(convs, aux):
        mine = {names[v - 1] for f in ([c['p']] if c['kind'] in ('stability', 'eventually') else [c['p'], c['q']]) for v in c07_names(f)}
        used |= mine
        if len(convs) == 1 and rng.random() < .08:
            a = aux[0] = rng.choice(names)
            x['conflict'] = a in mine
            if not x['conflict']:
                a = aux[0] = 'aux'
        args = [strip(rng, render(rng, c['p'], vs))]
        if c['kind'] in ('response', 'until'):
            args.append(strip(rng, render(rng, c['q'], vs)))
        if rng.random() < .5:
            args = [t if 'X' in t or '^' in t else t.replace(' ', '') for t in args]
        f = getattr(frag, f'{c["kind"]}_to_gr1')
        kw = dict() if a == 'aux' and rng.random() < .5 else dict(aux=a)
        x['log'] += f'{c["kind"]} {args} {a}; '
        r = vp.guarded(f, *args, **kw)
        if r[0] != 'ok':
            x['ok'] = False
            x['log'] += str(r[1:])
            return x
        specs.append(r[1])
    s = specs[0]
    for t in specs[1:]:
        s = s | t
    decls = {n: (k, 'bool', None) for k, n in enumerate(names + aux, 1)}
    x['noenv'] = not (s.env_vars or s.env_init or s.env_safety or s.env_prog)
    x['declared'] = dict(s.sys_vars) == {n: 'boolean' for n in used | set(aux)}
    x['log'] += repr(s.to_canon())
    try:
        x['spec'] = {p: [tulipparse.read(t, decls) for t in getattr(s, f'sys_{p if p != "safety" else "safety"}')] for p in ('init', 'safety', 'prog')}
        if vp.guarded(s.parse)[0] != 'ok' or vp.guarded(s.check_syntax)[0] != 'ok':
            x['read'] = False
    except tulipparse.Malformed:
        x['read'] = False
    return x


def c07_names(f):
    if f['op'] == 'var':
        return {f['v']}
    return {v for g in f.get('a', ()) for v in c07_names(g)}


def check_record(item):
    """`check` of a formula in the fragment."""
    os.chdir(os.path.join(vp.SCRATCH, 'tmp'))
    r = vp.guarded(frag.check, item)
    return dict(kind='check', ok=r[0] == 'ok', vars=[], log=f'check({item}) -> {r[1:]}')


def record(item):
    kind, item = item
    logging.disable(logging.WARNING)
    return dict(split=split_record, spec=spec_record, conv=conv_record, check=check_record)[kind](item)


def random_conjunct(rng, g, vs, p):
    every = list(range(1, len(vs) + 1))
    f = g.formula(every, [], rng.choice([0, 1, 2]))
    t = rng.random()
    if t < .3:
        r = f
    elif t < .65:
        r = N('always', g.formula(every, every, rng.choice([0, 1, 2])))
    else:
        r = N('always', N('eventually', f))
    if rng.random() < p:
        r = c05.add_temporal(rng, r, .25)
    return r


def nests_next(f, inside=False):
    if f['op'] == 'next' and inside:
        return True
    return any(nests_next(x, inside or f['op'] == 'next') for x in f.get('a', ()))


def random_conjunction(rng, g, vs, p):
    while True:
        fs = [random_conjunct(rng, g, vs, p) for _ in range(rng.choice([1, 2, 3, 5]))]
        while len(fs) > 1:
            k = rng.randrange(len(fs) - 1)
            fs[k:k + 2] = [N('and', fs[k], fs[k + 1])]
        if not nests_next(fs[0]):
            return fs[0]


def body(chk):
    warnings.simplefilter('ignore')
    logging.disable(logging.WARNING)
    rng = chk.rng
    cfg = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
    chk.model_check('FragmentMC', f'CONSTANTS\nN = {chk.pick(3, 4)}\nWide = {chk.pick("FALSE", "TRUE")}\n' + cfg + 'INVARIANT Inv\n', workers=8)
    cases = chk.generate('FragmentMC', 'CONSTANTS\nN = 1\nWide = TRUE\n' + cfg + 'INVARIANT Emit\n')
    pq = ltl.Vars([ltl.decl('p', 'sys', 'bool'), ltl.decl('q', 'sys', 'bool')])
    items = list()
    splits = [c['f'] for c in cases if c['kind'] == 'split']
    limit = chk.pick(1500, 12000)
    for f in (splits if len(splits) <= limit else rng.sample(splits, limit)):
        items.append(('split', (f, pq, rng.random())))
        if f['op'] == 'imp':
            items.append(('spec', (f, pq, rng.random())))
    convs = [c for c in cases if c['kind'] != 'split']
    items += [('conv', ([c], rng.random())) for c in convs]
    for _ in range(chk.pick(60, 400)):
        items.append(('conv', (rng.sample(convs, 2), rng.random())))
    for _ in range(chk.pick(700, 6000)):
        vs = c07.random_vars(rng)
        vs = ltl.Vars([d for d in vs.d if d['kind'] != 'enum'] or pq.d)
        g = c07.Gen(rng, vs)
        p = rng.choice([0, 0, .2])
        f = random_conjunction(rng, g, vs, p)
        if rng.random() < .4:
            f = N(rng.choice(['imp'] * 9 + ['iff']), f, random_conjunction(rng, g, vs, p))
            items.append(('spec', (f, vs, rng.random())))
        else:
            items.append(('split', (f, vs, rng.random())))
    small = ltl.Vars([ltl.decl(n, 'sys', 'bool') for n in 'ab'])
    g = ltl.Gen(rng, small)
    for _ in range(chk.pick(150, 1500)):
        nxt = [1, 2] if rng.random() < .2 else []
        kind = rng.choice(KINDS if not nxt else KINDS[:1])
        items.append(('conv', ([dict(kind=kind, p=g.formula([1, 2], nxt, 2), q=g.formula([1, 2], [], 2))], rng.random())))
    # inputs of known findings, left out elsewhere
    items = [(k, x) for k, x in items if k == 'conv' or 'weak' not in ltl.ops_used(x[0])]
    p, q = ltl.var(1), ltl.var(2)
    items.append(('split', (N('weak', p, q), pq, 1, 'weak-until-accepted', 'p W q')))
    items.append(('split', (N('always', N('not', p)), pq, 1, 'alternative-not', '[](~ p)')))
    loc = ltl.Vars([ltl.decl('loc', 'sys', ['home', 'p']), ltl.decl('p', 'sys', (0, 0))])
    items.append(('split', (N('always', N('eq', p, ltl.lit(1, 1))), loc, 1, 'print-string-unquoted', '[](loc = "p")')))
    items.append(('spec', (N('imp', p, q), pq, 1, 'empty-clauses')))
    items.append(('check', '[]<>a'))
    recs = vp.pmap(record, items)
    bare = [{k: v for k, v in r.items() if k not in ('log', 'probe')} for r in recs]
    for r, bad in zip(recs, chk.validate('FragmentTrace', bare)):
        for clause in bad:
            chk.violation('check-raises' if clause == 'check-raises' else r['probe'][0] if r.get('probe') else f'{clause}:{r["log"][:60]}', f'{clause}: {r["log"][:900]}', r)
        chk.bump(f'{r["kind"]}_{"accepted" if r["ok"] else "refused"}')
    cor = [dict(r, parts=dict(r['parts'], init=r['parts']['init'] + [dict(op='false')])) for r in bare if r['kind'] == 'split' and r['ok']][:20]
    cor += [dict(r, ok=not r['ok']) for r in bare if r['kind'] == 'split'][:20]
    cor += [dict(r, spec=dict(r['spec'], prog=r['spec']['prog'] + [dict(op='false')])) for r in bare if r['kind'] == 'conv' and r['ok'] and not r['conflict']
            and r['conv'][0]['p']['op'] == 'var' and r['conv'][0]['q']['op'] == 'var'][:20]
    chk.binding('FragmentTrace', cor)
    for k in ('split', 'spec', 'conv'):
        chk.sample(next(r['log'] for r in recs if r['kind'] == k))
    chk.assumptions += ['nested next in safety is not judged', 'arguments of conversions are Boolean formulas of Boolean variables']


if __name__ == '__main__':
    vp.main('C06', body)
