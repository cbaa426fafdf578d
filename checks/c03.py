"""C03: transition systems as models in specifications."""
import copy
import logging
import random
import warnings

import ltl
import synthlib as sl
import tulipparse
import vp
from tulip import synth
from tulip import transys as trs


def random_system(rng, owner, big=True):
    """An abstract description; states, actions and propositions are numbered from 1."""
    n = rng.choice([1, 2, 2, 3, 3, 4]) if big else rng.choice([1, 2, 2, 2, 3])
    kind = rng.choice(['str', 'str', 'str', 'int', 'gap'])
    acts = list()
    for own in ('env', 'sys'):
        k = rng.choice([0, 0, 1, 2, 2, 3] if big else [0, 0, 1, 2])
        if k:
            acts.append(dict(own=own, n=k, must=rng.choice(['xor', 'xor', 'mutex', None]),
                             kind=rng.choice(['str', 'str', 'str', 'int', 'gap'])))
    if big and rng.random() < .12 and acts and len(acts) < 2:
        acts.append(dict(own=acts[0]['own'], n=1, must=acts[0]['must'], kind='str'))
    edges = list()
    for _ in range(rng.randint(max(0, n - 1), 2 * n + 1)):
        dens = rng.choice([.3, .7, 1])
        e = dict(a=rng.randint(1, n), b=rng.randint(1, n),
                 act=[rng.randint(1, a['n']) if rng.random() < dens else 0 for a in acts])
        # unlabeled edges are not mixed with labeled ones
        same = [x for x in edges if (x['a'], x['b']) == (e['a'], e['b'])]
        if e in edges or same and (not any(e['act']) or any(not any(x['act']) for x in same)):
            continue
        edges.append(e)
    naps = rng.choice([0, 1, 1, 2] if big else [0, 0, 1])
    return dict(owner=owner, n=n, kind=kind, acts=acts, edges=edges, naps=naps,
                lab=[[j for j in range(1, naps + 1) if rng.random() < .5] for _ in range(n)],
                init=sorted(rng.sample(range(1, n + 1), rng.choice([1, 1, min(2, n)]))))


def from_tlc(m):
    return dict(owner=m['owner'], n=2, kind='str', acts=[dict(own=m['aown'], n=2, must=m['must'], kind='str')],
                edges=m['edges'], naps=1, lab=[[1] if x else [] for x in m['lab']], init=m['init'])


class Game:
    """Systems of the library, their variables, and their records for TSGame."""

    def __init__(self, rng, uvars=()):
        self.rng = rng
        self.decls = list(uvars)
        self.todo = list()
        self.base = 10

    def values(self, n, kind, prefix, none=False):
        rng = self.rng
        if kind == 'str':
            pool = [f'{prefix}{k}' for k in (0, 1, 10, 2, 12)] + [f'{prefix}', f'{prefix}_a']
            return rng.sample(pool, n)
        if kind == 'int':
            lo = rng.choice([0, 0, 1])
            r = list(range(lo, lo + n))
        else:
            lo = rng.choice([0, 1, 2])
            r = [lo + 2 * k - (k == 2) for k in range(n)]
        rng.shuffle(r)
        return r

    def declare(self, name, own, dom):
        for d in self.decls:
            if d['name'] == name:
                return
        self.decls.append(ltl.decl(name, own, dom))

    def add(self, x, statevar, prefix='', bool_states=False, bool_actions=False, ignore=False, actions=None):
        """Build the system; `actions` are values that are shared with another system."""
        rng, owner = self.rng, x['owner']
        if bool_states:
            x = dict(x, kind='str')
        other = 'env' if owner == 'sys' else 'sys'
        states = self.values(x['n'], x['kind'], prefix + 's')
        if not prefix and x['kind'] == 'str':
            self.base = 0
        aps = [f'{prefix}p{j}' for j in range(1, x['naps'] + 1)]
        types = list()
        for t, a in enumerate(x['acts']):
            count = sum(b['own'] == a['own'] for b in x['acts'])
            name = f'{a["own"]}_actions' if count == 1 else f'my_{a["own"]}{t}'
            boolean = bool_actions or a['must'] is None
            kind = 'str' if boolean else a['kind']
            vals = (actions or dict()).get(name)
            if not vals:
                vals = self.values(a['n'], kind, f'{a["own"]}a{t if count > 1 else ""}')
                if kind != 'str':  # actions are not states
                    vals = [v + self.base for v in vals]
            types.append(dict(a, name=name, boolean=boolean, values=vals))
        custom = any(t['name'].startswith('my_') for t in types)
        if custom:
            def lst(own):
                from tulip.transys.mathset import MathSet
                return [dict(name=t['name'], values=MathSet(t['values']), setter=True)
                        for t in types if t['own'] == own]
            ts = trs.FTS(env_actions=lst('env'), sys_actions=lst('sys'))
        else:
            ts = trs.FTS()
            for t in types:
                getattr(ts, t['name']).add_from(t['values'])
        ts.owner = owner
        for t in types:
            if t['must'] != 'xor' or rng.random() < .5:
                setattr(ts, f'{t["own"]}_actions_must', t['must'])
        ts.atomic_propositions.add_from(aps)
        for k in rng.sample(range(x['n']), x['n']):
            lab = {aps[j - 1] for j in x['lab'][k]}
            if lab or rng.random() < .5:
                ts.states.add(states[k], ap=lab)
            else:
                ts.states.add(states[k])
        ts.states.initial.add_from([states[k - 1] for k in x['init']])
        for e in rng.sample(x['edges'], len(x['edges'])):
            lab = {t['name']: t['values'][c - 1] for t, c in zip(types, e['act']) if c}
            ts.transitions.add(states[e['a'] - 1], states[e['b'] - 1], lab or None) if lab else \
                ts.transitions.add(states[e['a'] - 1], states[e['b'] - 1])
        # variables
        if bool_states:
            for s in states:
                self.declare(s, owner, 'bool')
        elif x['kind'] == 'str':
            self.declare(statevar, owner, states)
        else:
            self.declare(statevar, owner, (min(states), max(states)))
        for p in aps:
            self.declare(p, owner, 'bool')
        for t in types:
            if t['boolean']:
                for v in t['values']:
                    self.declare(v, t['own'], 'bool')
            elif isinstance(t['values'][0], str):
                self.declare(t['name'], t['own'], t['values'] + ([f'{t["name"]}none'] if t['must'] == 'mutex' else []))
            else:
                self.declare(t['name'], t['own'], (min(t['values']), max(t['values']) + (t['must'] == 'mutex')))
        self.todo.append(dict(x=x, states=states, statevar=statevar, aps=aps, types=types, bs=bool_states, ignore=ignore))
        return ts, {t['name']: t['values'] for t in types}

    def finish(self):
        self.decls.sort(key=lambda d: d['own'] != 'env')
        self.vs = ltl.Vars(self.decls)
        ix = {d['name']: k for k, d in enumerate(self.decls, 1)}

        def code(name, value):
            return self.vs.decode(ix[name] - 1, value)

        out = list()
        for r in self.todo:
            x = r['x']
            loc = 0 if r['bs'] else ix[r['statevar']]
            out.append(dict(
                owner=x['owner'], loc=loc,
                sv=[0] * x['n'] if r['bs'] else [code(r['statevar'], s) for s in r['states']],
                bl=[ix[s] for s in r['states']] if r['bs'] else [],
                aps=[ix[p] for p in r['aps']],
                lab=[[ix[r['aps'][j - 1]] for j in lab] for lab in x['lab']],
                init=x['init'], ignore=r['ignore'], edges=x['edges'],
                acts=[dict(own=t['own'], must=str(t['must']), var=0 if t['boolean'] else ix[t['name']],
                           vals=[] if t['boolean'] else [code(t['name'], v) for v in t['values']],
                           bl=[ix[v] for v in t['values']] if t['boolean'] else []) for t in r['types']]))
        return out

    def size(self):
        n = 1
        for d in self.decls:
            n *= d['hi'] - d['lo'] + 1
        return n

    def names(self):
        r = dict()
        for k, d in enumerate(self.decls, 1):
            r[d['name']] = (k, d['kind'], d.get('vals'))
        return r


def normal(dom):
    if dom == 'boolean':
        return 'bool'
    if isinstance(dom, tuple):
        return dom
    return sorted(map(str, dom))


def same_vars(s, vs):
    for own, got in (('env', s.env_vars), ('sys', s.sys_vars)):
        want = vs.tulip(own)
        if {k: normal(v) for k, v in got.items()} != {k: normal(v) for k, v in want.items()}:
            return False
    return True


def encoding(x):
    rng = random.Random(x['seed'])
    g = Game(rng)
    bs, ba, ignore = x['bs'], x['ba'], x['ignore']
    ts, _ = g.add(x['system'], 'loc', bool_states=bs, bool_actions=ba, ignore=ignore)
    systems = g.finish()
    if g.size() > 160:
        return None
    fn = synth.sys_to_spec if ts.owner == 'sys' else synth.env_to_spec
    kw = dict()
    if bs:
        kw['bool_states'] = True
    if ba:
        kw['bool_actions'] = True
    r = vp.guarded(fn, ts, ignore, 'loc', **kw)
    log = f'{fn.__name__} {kw} ignore={ignore} must={ts.env_actions_must} {ts.sys_actions_must}\n{ts}'
    spec = dict(vars=g.vs.tla(), ei=[], si=[], es=[], ss=[], ep=[], sp=[], moore=False, plus_one=False, qinit='AE')
    rec = dict(what='encoding', systems=systems, exc='', sameVars=False, spec=spec)
    if r[0] == 'exc':
        rec['exc'] = f'{r[1]}: {r[2]}'
    else:
        s = r[1]
        rec['sameVars'] = same_vars(s, g.vs)
        log += f'\nvars {s.env_vars} {s.sys_vars}\nexpected {g.vs.tulip("env")} {g.vs.tulip("sys")}'
        if rec['sameVars']:
            names = g.names()
            try:
                for k, fs in dict(ei=s.env_init, si=s.sys_init, es=s.env_safety, ss=s.sys_safety,
                                  ep=s.env_prog, sp=s.sys_prog).items():
                    spec[k] = [tulipparse.read(str(f), names) for f in fs]
            except tulipparse.Malformed as e:
                rec['exc'] = f'malformed formula {e}'
        log += f'\n{s.pretty()}'
    return dict(rec, log=log + '\n' + rec['exc'])


def synthesis(x):
    warnings.simplefilter('ignore')
    rng = random.Random(x['seed'])
    q = x['qinit']
    uvars = list()
    if rng.random() < .35:
        uvars.append(ltl.decl('u', 'env', 'bool'))
    if rng.random() < .25:
        uvars.append(ltl.decl('w', 'sys', 'bool'))
    g = Game(rng, uvars)
    models, acts = dict(), dict()
    for x0 in x['systems']:
        own = x0['owner']
        name = x['names'][len(models)]
        ign = x['ignore'][len(models)]
        if len(x['systems']) > 1:
            # types with the same name have the same values
            for a in x0['acts']:
                prev = [b for y in x['systems'] for b in y['acts'] if b['own'] == a['own']][0]
                a.update(must=prev['must'], kind=prev['kind'])
                if f'{a["own"]}_actions' in acts:
                    a['n'] = len(acts[f'{a["own"]}_actions'])
            for e in x0['edges']:
                e['act'] = [min(c, a['n']) for c, a in zip(e['act'], x0['acts'])]
            seen = list()
            for e in x0['edges']:
                if e not in seen:
                    seen.append(e)
            x0 = dict(x0, edges=seen)
        prefix = chr(ord('a') + len(models)) if len(x['systems']) > 1 else ''
        ts, new = g.add(x0, name, prefix=prefix, ignore=ign, actions=acts)
        acts.update(new)
        models[name] = ts
    systems = g.finish()
    if g.size() > 50:
        return None
    if q == 'EE' and any(s['owner'] == 'env' or any(a['own'] == 'env' for a in s['acts']) for s in systems):
        q = 'AE'
    vs = g.vs
    gen = ltl.Gen(rng, vs)
    E = [k for k, d in enumerate(vs.d, 1) if d['own'] == 'env']
    S = [k for k, d in enumerate(vs.d, 1) if d['own'] == 'sys']
    if not S:
        return None
    A = E + S

    def some(n, cur, nxt, depth):
        return [gen.formula(cur, nxt, rng.randint(1, depth)) for _ in range(rng.choice(n))]
    spec = dict(
        vars=vs.tla(), es=some([0, 0, 0, 1], A, E, 1) if E else [], ss=some([0, 0, 1], A, A, 2),
        ep=some([0, 0, 1], A, [], 1), sp=some([0, 1, 1, 2], A, [], 1),
        moore=rng.random() < .5, plus_one=rng.random() < .5, qinit=q,
        ei=dict(AE=lambda: some([0, 0, 1], E, [], 1) if E else [], EA=lambda: some([0, 0, 1], E, [], 1) if E else [],
                AA=lambda: some([0, 1], A, [], 1), EE=lambda: [])[q](),
        si=[] if q == 'AA' else some([0, 0, 1], A, [], 1))
    # variables of the models are not declared by the user
    own = {d['name'] for d in uvars}

    def fresh():
        s = sl.grspec(spec, vs)
        s.env_vars = {k: v for k, v in s.env_vars.items() if k in own}
        s.sys_vars = {k: v for k, v in s.sys_vars.items() if k in own}
        return s
    runs = list()
    solver = 'omega'
    if x['many']:
        ign = {n for n, f in zip(x['names'], x['ignore']) if f}
        kw = dict(ignore_init=ign) if ign or rng.random() < .5 else dict()
        calls = [('synth', True, lambda s: synth.synthesize_many(s, models, solver=solver, **kw))]
    else:
        kw = dict()
        for own0 in ('env', 'sys'):
            for n, s in zip(x['names'], systems):
                if s['owner'] == own0:
                    kw[own0] = models[n]
                    if s['ignore']:
                        kw[f'ignore_{own0}_init'] = True
                    if n != dict(env='eloc', sys='loc')[own0] or rng.random() < .3:
                        models[n].state_varname = n
        rm = rng.random() < .3
        calls = [('real', False, lambda s: synth.is_realizable(s, solver=solver, **kw)),
                 ('synth', rm, lambda s: synth.synthesize(s, solver=solver, rm_deadends=rm, **kw))]
    s0 = fresh()
    log = f'{[k for k, _, _ in calls]} many={x["many"]} ignore={x["ignore"]} names={x["names"]}\n{s0.pretty()}\n'
    log += f'moore={s0.moore} plus_one={s0.plus_one} qinit={s0.qinit}\n' + '\n'.join(map(str, models.values()))
    for kind, rm, call in calls:
        s = fresh()
        before = repr(vars(s))
        r = sl.quiet(call, s)
        if r[0] == 'exc':
            runs.append(dict(kind=f'exc_{kind}', solver=solver, rmdead=rm, msg=f'{r[1]}: {r[2]}'[:300]))
            log += f'\n{kind}: {r[1]}: {r[2]}'
        elif kind == 'real':
            runs.append(dict(kind='real', ans=bool(r[1]), solver=solver, rmdead=rm))
            log += f'\nrealizable: {r[1]}'
        elif r[1] is None:
            runs.append(dict(kind='none', solver=solver, rmdead=rm))
            log += '\nno controller'
        else:
            runs.append(dict(kind='synth', solver=solver, rmdead=rm, mach=sl.machine(r[1], vs)))
            log += f'\n{r[1]}'
        if kind != 'synth' or not x['many']:
            if repr(vars(s)) != before:
                log += '\nthe given specification changed'
                runs.append(dict(kind='exc_real', solver=solver, rmdead=rm))
    return dict(what='synthesis', spec=spec, systems=systems, runs=runs, log=log)


def dependent(x):
    rng = random.Random(x['seed'])
    g = Game(rng)
    ts, _ = g.add(dict(x['system'], acts=[], edges=[]), 'loc')
    systems = g.finish()
    r = vp.guarded(synth.build_dependent_var_table, ts, 'loc')
    rec = dict(what='dependent', systems=systems, spec=dict(vars=g.vs.tla()), exc='', sameVars=False, table=[])
    aps = g.todo[0]['aps']
    if r[0] == 'exc':
        rec['exc'] = f'{r[1]}: {r[2]}'
    elif set(r[1]) == set(aps):
        rec['sameVars'] = True
        try:
            # a proposition of no state has no formula
            rec['table'] = [tulipparse.read(r[1][p], g.names()) if r[1][p] else dict(op='false') for p in aps]
        except tulipparse.Malformed as e:
            rec['exc'] = f'malformed formula {e}'
    return dict(rec, log=f'build_dependent_var_table\n{ts}\n{r}')


def run(x):
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    return dict(encoding=encoding, synthesis=synthesis, dependent=dependent)[x['what']](copy.deepcopy(x))


def body(chk):
    rng = chk.rng
    cfg = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
    chk.model_check('TSMC', f'CONSTANTS Length = {chk.pick(2, 3)} Emitting = FALSE\n' + cfg + 'INVARIANT RunsArePaths\n', workers=8, timeout=600)
    small = chk.generate('TSMC', 'CONSTANTS Length = 1 Emitting = TRUE\n' + cfg + 'INVARIANT Emit\n', workers=1)
    items = list()
    for m in rng.sample(small, chk.pick(700, len(small))):
        items.append(dict(what='encoding', system=from_tlc(m), bs=rng.random() < .1, ba=rng.random() < .15, ignore=rng.random() < .1))
    for _ in range(chk.pick(1500, 15000)):
        items.append(dict(what='encoding', system=random_system(rng, rng.choice(['sys', 'env'])),
                          bs=rng.random() < .2, ba=rng.random() < .2, ignore=rng.random() < .2))
    for _ in range(chk.pick(1300, 15000)):
        owners = rng.choice([['sys'], ['sys'], ['env'], ['sys', 'env'], ['env', 'sys'], ['sys', 'sys'], ['env', 'env']])
        many = owners[0] == owners[-1] and len(owners) > 1 or rng.random() < .3
        names = [dict(sys='loc', env='eloc')[o] for o in owners] if not many and rng.random() < .7 else rng.sample(['door', 'x', 'robot'], len(owners))
        items.append(dict(what='synthesis', systems=[random_system(rng, o, False) for o in owners], many=many, names=names,
                          ignore=[rng.random() < .2 for _ in owners], qinit=rng.choice(['AE', 'AE', 'AE', 'EA', 'AA', 'EE'])))
    for _ in range(chk.pick(150, 1000)):
        items.append(dict(what='dependent', system=random_system(rng, 'sys')))
    for x in items:
        x['seed'] = rng.random()
    recs = [r for r in vp.pmap(run, items, chunk=8) if r]
    bare = [{k: v for k, v in r.items() if k != 'log'} for r in recs]
    for r, bad in zip(recs, chk.validate('TSTrace', bare, min_chunk=10)):
        for clause in bad:
            chk.violation(f'{r["what"]} {clause}', f'{r["what"]} {clause}: {r["log"]}'[:6000], r)
        chk.bump(r['what'])
        for y in r.get('runs', []):
            chk.bump('run_' + y['kind'])
    cor = list()
    for r in [r for r in bare if r['what'] == 'encoding' and r['systems'][0]['edges'] and r['systems'][0]['loc']][:30]:
        s = copy.deepcopy(r)
        s['systems'][0]['edges'] = []
        cor.append(s)
        s = copy.deepcopy(r)
        s['spec']['ss' if r['systems'][0]['owner'] == 'sys' else 'es'] = []
        cor.append(s)
    for r in [r for r in bare if r['what'] == 'synthesis' and r['runs'][0]['kind'] == 'real'][:30]:
        cor.append(dict(r, runs=[dict(r['runs'][0], ans=not r['runs'][0]['ans'])]))
    chk.binding('TSTrace', cor, min_chunk=10)
    chk.sample(recs[0]['log'])
    chk.sample(next(r['log'] for r in recs if r['what'] == 'synthesis'))
    chk.assumptions += ['types of actions that two models share have the same values and exclusion option',
                        'an environment model whose transitions all wait for a system action is free when no action is taken '
                        '(documented in the code, to keep the system from blocking its environment)']


if __name__ == '__main__':
    vp.main('C03', body)
