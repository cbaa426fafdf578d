"""C05: translation to other languages."""
import warnings

import langs
import ltl
import tulip.spec as tspec
import tulip.spec.parser as parser
import tulip.spec.translation as trl
import tulipparse
import vp

FORM_LANGS = ['gr1c', 'slugs', 'jtlv', 'promela', 'smv', 'wring', 'python']
SPEC_LANGS = ['gr1c', 'slugs', 'jtlv', 'wring', 'tulip']
PARTS = ['env_init', 'env_safety', 'env_prog', 'sys_init', 'sys_safety', 'sys_prog']
NAMES = ['a', 'b', 'x1', 'next_p', 'xnext', 'p_next', 'e', 's', 'Gx', 'trueA', 'loc', 'env_y', 'sys1', 'UU', 'V2', '_q',
         'FALSE_', 'not1', 'XX', 'fa', 'env', 'input']
TEMP1 = ['always', 'eventually', 'next']
TEMP2 = ['until', 'release', 'weak']
SYM = dict(ltl.SYM, until='U', release='V', weak='W', mul='*')
PRE = dict(always='[]', eventually='<>', next='X')


def render(f, vs):
    """TuLiP text of formula `f`."""
    op = f['op']
    if op in PRE:
        return f'({PRE[op]}({render(f["a"][0], vs)}))'
    if op == 'not':
        return f'!({render(f["a"][0], vs)})'
    if 'a' in f:
        return f'({render(f["a"][0], vs)} {SYM[op]} {render(f["a"][1], vs)})'
    return ltl.render(f, vs)


def decls_of(vs):
    return {d['name']: (k + 1, d['kind'], d.get('vals')) for k, d in enumerate(vs.d)}


def random_vars(rng, small, enums):
    names = rng.sample(NAMES, 4)
    doms = list()
    for _ in range(rng.choice([1, 2, 2, 3]) if not small else rng.choice([1, 2, 2])):
        t = rng.random()
        if t < .45:
            doms.append('bool')
        elif t < .8 or not enums:
            lo = rng.choice([0, 0, 1] + ([] if enums else [-1]))
            doms.append((lo, lo + rng.choice([1, 2] if small else [1, 2, 3])))
        else:
            vals = ['home', 'lot', 'go', 'v0', 'Z', 'left', 'xnext_']
            doms.append(rng.sample(vals, rng.choice([1, 2, 2, 3])))
    size = 1
    keep = list()
    for d in doms:
        n = 2 if d == 'bool' else d[1] - d[0] + 1 if isinstance(d, tuple) else len(d)
        if size * n <= (6 if small else 16):
            size *= n
            keep.append(d)
    return ltl.Vars([ltl.decl(names[k], rng.choice(['env', 'sys']), d) for k, d in enumerate(keep)])


def add_temporal(rng, f, p):
    """Insert temporal operators at random into the Boolean structure."""
    if 'a' in f and f['op'] in ('and', 'or', 'xor', 'imp', 'iff', 'not', 'next'):
        f = dict(op=f['op'], a=[add_temporal(rng, x, p) for x in f['a']])
        if len(f['a']) == 2 and rng.random() < p:
            f['op'] = rng.choice(TEMP2)
    if f['op'] in ('lit', 'add', 'sub', 'mul'):
        return f
    if rng.random() < p:
        return ltl.N(rng.choice(TEMP1), f)
    return f


def add_mul(rng, f):
    if f['op'] in ('add', 'sub') and rng.random() < .3:
        return dict(f, op='mul')
    if 'a' in f:
        return dict(f, a=[add_mul(rng, x) for x in f['a']])
    return f


def states(vs):
    out = [()]
    for d in vs.d:
        out = [s + (v,) for s in out for v in range(d['lo'], d['hi'] + 1)]
    return out


def bitwise(f, term=False):
    """Does Promela text of `f` contain bitwise operators, or "next" in terms?"""
    if f['op'] in ('and', 'or', 'xor') or f['op'] == 'next' and term:
        return True
    term = f['op'] in ('eq', 'neq', 'lt', 'le', 'gt', 'ge')
    return any(bitwise(x, term) for x in f.get('a', ()))


V0 = ltl.Vars([ltl.decl('p', 'env', 'bool'), ltl.decl('q', 'sys', 'bool'), ltl.decl('x', 'sys', (0, 2))])
P, Q, X = map(ltl.var, (1, 2, 3))
# inputs of the known findings
PROBES = [
    ('promela-bitwise', 'promela', ltl.N('and', P, Q)),
    ('promela-bitwise', 'promela', ltl.N('always', ltl.N('or', P, Q))),
    ('promela-bitwise', 'promela', ltl.N('eq', ltl.N('next', X), ltl.lit(1))),
    ('smv-propositional', 'smv', ltl.N('and', P, Q)),
    ('smv-propositional', 'smv', ltl.N('eq', X, ltl.lit(1))),
    ('smv-propositional', 'smv', ltl.N('release', P, Q)),
    ('wring-xor', 'wring', ltl.N('xor', P, Q)),
    ('python-multiplication', 'python', ltl.N('eq', ltl.N('mul', X, X), ltl.lit(1)))]


def affected(lang, ok, f):
    """Do known findings change this translation?"""
    ops = ltl.ops_used(f)
    if ok:
        return False
    return lang == 'smv' and bool(ops - {'var', 'always', 'eventually', 'next', 'until', 'lit'}) or \
        lang == 'wring' and 'xor' in ops or lang == 'python' and 'mul' in ops


def formula_record(item):
    vs, f, temporal, probe = item
    text = render(f, vs)
    decls = decls_of(vs)
    owners = {d['name']: d['own'][0] for d in vs.d}
    x = dict(kind='formula', vars=[dict(lo=d['lo'], hi=d['hi']) for d in vs.d], f=f, temporal=temporal, out=list(),
             src=text, texts=dict())
    x['probe'] = probe and probe[0]
    for lang in [probe[1]] if probe else FORM_LANGS if not any(d['kind'] == 'enum' for d in vs.d) else ['python']:
        o = dict(lang=lang, ok=False, read=False, g=ltl.TRUE, table=[])

        def run():
            t = trl.translate_ast(parser.parse(text), lang)
            return t.flatten(env_vars=vs.tulip('env'), sys_vars=vs.tulip('sys'))
        r = vp.guarded(run)
        x['texts'][lang] = r[1] if r[0] == 'ok' else repr(r)
        if r[0] == 'ok':
            o['ok'] = True
            try:
                if lang == 'python':
                    o['read'] = True
                    code = compile(r[1], '<s>', 'eval')
                    for s in states(vs):
                        # string constants have no quotes (finding `python-string-unquoted`)
                        env = dict() if probe else {v: v for d in vs.d for v in d.get('vals') or ()}
                        for d, v in zip(vs.d, s):
                            env[d['name']] = bool(v) if d['kind'] == 'bool' else d['vals'][v] if d['kind'] == 'enum' else v
                        o['table'].append(dict(s=list(s), v=bool(eval(code, dict(env)))))
                else:
                    intended = lang == 'promela' and not probe and bitwise(f)
                    o['g'] = langs.read('promela_intended' if intended else lang, r[1], decls, owners)
                    # bitwise operators are not operators of formulas
                    o['read'] = not {'bitand', 'bitor'} & ltl.ops_used(o['g'])
            except (tulipparse.Malformed, SyntaxError, TypeError, NameError) as e:
                x['texts'][lang] += f'   [{e!r}]'
                if lang == 'python':
                    o['ok'] = False
        if probe or not affected(lang, o['ok'], f):
            x['out'].append(o)
    return x


def spec_record(item):
    vs, parts, texts, probe = item
    quoted = decls_of(vs)
    # in the other languages values are numbered
    decls = {n: (k, 'int' if kind == 'enum' else kind, None) for n, (k, kind, _) in quoted.items()}
    owners = {d['name']: d['own'][0] for d in vs.d}
    kinds = [dict(own=d['own'], bool=d['kind'] == 'bool', lo=d['lo'], hi=d['hi']) for d in vs.d]
    x = dict(kind='spec', probe=probe, vars=kinds, parts=parts, out=list(), src=texts, texts=dict())
    made = tspec.GRSpec(env_vars=vs.tulip('env'), sys_vars=vs.tulip('sys'), **texts)
    before = repr(made)
    for lang in SPEC_LANGS:
        o = dict(lang=lang, ok=False, read=False, g=[], decl=[], parts={p: [] for p in PARTS})

        def run():
            if lang == 'tulip':
                return made.to_canon()
            return trl.translate(made, lang)
        r = vp.guarded(run)
        x['texts'][lang] = r[1] if r[0] == 'ok' else repr(r)
        if r[0] == 'ok':
            o['ok'] = True
            try:
                if lang in ('gr1c', 'slugs'):
                    dec, o['parts'] = dict(gr1c=langs.read_gr1c, slugs=langs.read_slugs)[lang](r[1], decls, owners)
                    for n, own, dom in dec:
                        if n not in decls:
                            raise tulipparse.Malformed(n)
                        o['decl'].append(dict(v=decls[n][0], own=own, bool=dom is None,
                                              lo=0 if dom is None else dom[0], hi=1 if dom is None else dom[1]))
                elif lang == 'jtlv':
                    o['g'] = [langs.read_jtlv(t, decls, owners) for t in r[1]]
                elif lang == 'wring':
                    o['g'] = [langs.read('wring', r[1], decls, owners)]
                else:
                    o['g'] = [tulipparse.read(r[1], quoted)]
                o['read'] = True
            except tulipparse.Malformed as e:
                x['texts'][lang] = f'{r[1]}   [{e!r}]'
        # a known finding
        strings = lang == 'slugs' and not o['ok'] and any(d['kind'] == 'enum' for d in vs.d)
        if lang == 'slugs' if probe else not strings:
            x['out'].append(o)
    x['changed'] = repr(made) != before
    return x


def random_spec(rng):
    vs = random_vars(rng, True, rng.random() < .6)
    if rng.random() < .3:
        vs = ltl.Vars([dict(d, kind='bool', lo=0, hi=1) for d in vs.d])
    env = [k + 1 for k, d in enumerate(vs.d) if d['own'] == 'env']
    every = list(range(1, len(vs) + 1))
    gen = ltl.Gen(rng, vs, arith=rng.random() < .15)
    parts, texts = dict(), dict()
    for p in PARTS:
        n = rng.choice([0, 1, 1, 2, 3])
        nxt = [] if not p.endswith('safety') else env if p.startswith('env') else every
        cur = env if p == 'env_init' and rng.random() < .5 else every
        parts[p] = [gen.formula(cur, nxt, rng.choice([0, 1, 2, 2])) for _ in range(n)]
        texts[p] = [render(f, vs) for f in parts[p]]
        if n == 1 and rng.random() < .3:
            texts[p] = texts[p][0]
        elif rng.random() < .2:
            texts[p] = tuple(texts[p])
        if texts[p] and rng.random() < .2 and isinstance(texts[p], list):
            texts[p][0] = '  ' + texts[p][0] + ' \n'
    return vs, parts, texts, ''


def body(chk):
    warnings.simplefilter('ignore')
    rng = chk.rng
    chk.model_check('LTLSemMC', f'CONSTANT N = {chk.pick(2, 3)}\nINIT Init\nNEXT Next\nINVARIANT Definition\nCHECK_DEADLOCK FALSE\n',
                    workers=8)
    small = chk.generate('TranslateMC', 'INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n')
    vs0 = ltl.Vars([ltl.decl('p', 'env', 'bool'), ltl.decl('q', 'sys', 'bool'), ltl.decl('x', 'sys', (0, 1))])
    T = {'always', 'eventually', 'until', 'release', 'weak'}
    items = list()
    for f in (small if chk.thorough else rng.sample(small, 500)):
        items.append((vs0, f, bool(T & ltl.ops_used(f)), None))
    for _ in range(chk.pick(600, 6000)):
        temporal = rng.random() < .4
        vs = random_vars(rng, temporal, False)
        if temporal and rng.random() < .4:
            vs = ltl.Vars([dict(d, kind='bool', lo=0, hi=1) for d in vs.d])
        every = list(range(1, len(vs) + 1))
        gen = ltl.Gen(rng, vs, arith=rng.random() < .6, xor=rng.random() < .4)
        f = gen.formula(every, rng.choice([[], every]), rng.choice([1, 2, 3, 4]))
        if rng.random() < .4:
            f = add_mul(rng, f)
        if temporal:
            f = add_temporal(rng, f, .3)
        items.append((vs, f, bool(T & ltl.ops_used(f)), None))
    # enumerated values in Python
    for _ in range(chk.pick(100, 600)):
        vs = random_vars(rng, False, True)
        every = list(range(1, len(vs) + 1))
        gen = ltl.Gen(rng, vs, arith=rng.random() < .6, xor=rng.random() < .4)
        items.append((vs, gen.formula(every, [], rng.choice([1, 2, 3, 4])), False, None))
    specs = [random_spec(rng) for _ in range(chk.pick(300, 3000))]
    items += [(V0, f, bool(T & ltl.ops_used(f)), (key, lang)) for key, lang, f in PROBES]
    strings = ltl.Vars([ltl.decl('loc', 'sys', ['home', 'lot'])])
    items.append((strings, ltl.N('eq', ltl.var(1), ltl.lit(1, 1)), False, ('python-string-unquoted', 'python')))
    strings = ltl.Vars([ltl.decl('loc', 'sys', ['home', 'lot'])])
    parts = {p: [] for p in PARTS} | dict(sys_init=[ltl.N('eq', ltl.var(1), ltl.lit(1, 1))])
    specs.append((strings, parts, {p: [render(f, strings) for f in parts[p]] for p in PARTS}, 'slugs-strings'))
    recs = vp.pmap(formula_record, items) + vp.pmap(spec_record, specs)
    strip = [{k: v for k, v in r.items() if k not in ('src', 'texts', 'changed', 'probe')} for r in recs]
    for r, bad in zip(recs, chk.validate('TranslateTrace', strip)):
        for clause in bad:
            lang = clause.split('-')[0]
            chk.violation(r['probe'] or f'{clause}:{r["src"]}', f'{clause}: {r["src"]} translated to {r["texts"].get(lang)}', r)
        if r.get('changed'):
            chk.violation(f'changed:{r["src"]}', 'translation changes the specification', r)
        for o in r['out']:
            chk.bump(f'{r["kind"]}_{o["lang"]}_{"text" if o["ok"] else "rejected"}')
    # corrupted observations
    cor = list()
    for r in strip[:40] + strip[-40:]:
        c = dict(r, out=[dict(o, g=[ltl.N('not', g) for g in o['g']] if isinstance(o['g'], list) else ltl.N('not', o['g']),
                              decl=o.get('decl', [])[:-1]) for o in r['out'] if o['lang'] != 'python' and o['ok']])
        cor.append(c)
    chk.binding('TranslateTrace', cor)
    chk.sample(dict(src=recs[0]['src'], texts=recs[0]['texts']))
    chk.sample(dict(src=recs[-1]['src'], texts=recs[-1]['texts']))
    chk.assumptions += ['each reader follows the documentation of its language; the tools gr1c, slugs, JTLV, NuSMV, Wring are not installed',
                        'a translation that raises an error is judged only if the language can express the formula',
                        'integer arithmetic of slugs is unbounded in the specification']


if __name__ == '__main__':
    vp.main('C05', body)
