"""C16: programs written for machines."""
import contextlib
import io
import logging
import os
import random
import warnings

import networkx as nx

import c12
import c15
import machlib as ml
from tulip import dumpsmach
import vp

QUOTES = [["it's", 'say "x"', 'a\\b'], ['', "'", '{x}'], [None, True, 'None'], [-1, 2.5, 'a']]
INPUTS = [*ml.INPUTS, 'output', 'move', 'output_', 'env_x', 'next']


def plain(g, rng):
    """The machine as a graph of `networkx`, if it has no parallel edges."""
    h = nx.DiGraph()
    h.inputs = dict(g.inputs)
    h.outputs = dict(g.outputs)
    for s in g:
        h.add_node(s)
    for u, v, d in g.edges(data=True):
        if h.has_edge(u, v):
            return g
        h.add_edge(u, v, **d)
    return h


def record(x):
    warnings.simplefilter('ignore')
    logging.disable(logging.WARNING)
    x = dict(x)
    rng = random.Random(x['seed'])
    m = x['machine']
    names = c12.names(rng, m['n'], rng.choice(['str', 'int', 'mixed']))
    sinit = rng.random() < .5
    if sinit:
        names[0] = 'Sinit'
    g, names = ml.build(m, rng, names=names)

    def num(s):
        return names.index(s) + 1
    log = [f'machine names={names} {m}']
    before = c15.snap(g)
    start = 'Sinit' if sinit and rng.random() < .6 else rng.choice(names)
    kw = dict(start=start)
    if start == 'Sinit' and rng.random() < .7:
        kw = dict()
    name = 'TulipStrategy'
    if rng.random() < .3:
        kw['classname'] = name = 'Ctrl_1'
    det = len({(u, repr(sorted(((k, ml.val(v)) for k, v in i.items())))) for u, i, o, v in m['edges']}) == len(m['edges'])
    x.update(what='program', m=ml.mealy(g, num), compiled=False, start=num(start), first=0, moves=list(), inputvars=list(), deterministic=det, kept=True)
    h = plain(g, rng) if rng.random() < .25 else g
    if rng.random() < .3:
        path = os.path.join(vp.SCRATCH, f'ctrl_{os.getpid()}.py')
        r = vp.guarded(dumpsmach.write_python_case, path, h, **kw)
        if r[0] == 'ok':
            with open(path) as f:
                r = ('ok', f.read())
            os.remove(path)
    else:
        r = vp.guarded(dumpsmach.python_case, h, **kw)
    x['kept'] = before == c15.snap(g)
    x['log'] = log
    if r[0] != 'ok':
        log.append(f'python_case({kw}): {r[1:]}')
        return x
    env = dict()
    code = r[1]
    with contextlib.redirect_stdout(io.StringIO()):
        r = vp.guarded(lambda: exec(compile(code, 'ctrl', 'exec'), env))
        if r[0] == 'ok':
            r = vp.guarded(lambda: env[name]())
    if r[0] != 'ok':
        log.append(f'program: {r[1:]}')
        return x
    ctrl = r[1]
    x.update(compiled=True, first=ctrl.state, inputvars=list(ctrl.input_vars))
    u = start
    doms = m['ins']
    for _ in range(rng.choice([1, 3, 6, 10])):
        es = [d for a, b, d in g.edges(data=True) if a == u]
        if es and rng.random() < .85:
            d = rng.choice(es)
            w = {k: d[k] for k in doms}
        else:
            w = {k: rng.choice(v) for k, v in doms.items()}
            if doms and rng.random() < .2:
                w[rng.choice(list(w))] = 'never'
        st = ctrl.state
        if rng.random() < .3:
            r = vp.guarded(ctrl.move, *[w[k] for k in ctrl.input_vars if k in w])
        else:
            r = vp.guarded(ctrl.move, **w)
        mv = dict(before=st, st=ctrl.state, got=dict(ok=False, o=[]))
        mv['in'] = ml.pairs(w)
        if r[0] == 'ok':
            mv['got'] = dict(ok=True, o=ml.pairs(r[1]))
            # follow the machine, to choose inputs that it accepts
            nxt = [b for a, b, d in g.edges(data=True) if a == u and all(d[k] == v for k, v in w.items()) and mv['got']['o'] == ml.pairs(d, m['outs'])]
            u = nxt[0] if nxt else u
        elif es and r[1] != 'ValueError':
            # inputs are rejected with ValueError
            mv['st'] = -1
        log.append(f'move({w}) = {r[1:]}, state {ctrl.state}')
        x['moves'].append(mv)
    return x


def body(chk):
    rng = chk.rng
    cfg = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
    chk.model_check('MachineMC', f'CONSTANT Deterministic = {chk.pick("TRUE", "FALSE")}\n' + cfg + 'INVARIANT RunsArePaths\n', workers=8, timeout=850)
    small = chk.generate('MachineMC', 'CONSTANT Deterministic = TRUE\n' + cfg + 'INVARIANT Emit\n', workers=1)
    doms = ml.DOMAINS + QUOTES
    items = [dict(machine=ml.from_tlc(m, rng, doms)) for m in rng.sample(small, min(len(small), chk.pick(900, 1800)))]
    for _ in range(chk.pick(2000, 16000)):
        items.append(dict(machine=ml.random_machine(rng, domains=rng.choice([ml.DOMAINS, doms]), inputs=INPUTS, max_n=6)))
    for x in items:
        x['seed'] = rng.random()
    recs = vp.pmap(record, items)
    fields = ('what', 'm', 'compiled', 'start', 'first', 'moves', 'inputvars', 'deterministic', 'kept')
    bare = [{k: r[k] for k in fields} for r in recs]
    for r, bad in zip(recs, chk.validate('MachineTrace', bare)):
        for clause in bad:
            chk.violation(f'{clause}:{r["log"][0][:60]}', f'{clause}: {" ".join(r["log"])[:1200]}', {k: r[k] for k in (*fields, 'log')})
        chk.bump('deterministic', r['deterministic'])
        for mv in r['moves']:
            chk.bump('moves' if mv['got']['ok'] else 'rejected_inputs')
    cor = list()
    for r in [r for r in bare if r['moves'] and r['moves'][0]['got']['ok'] and r['deterministic']][:25]:
        mv = r['moves'][0]
        cor.append(dict(r, moves=[dict(mv, got=dict(mv['got'], ok=False))]))
        cor.append(dict(r, moves=[dict(mv, got=dict(mv['got'], o=[['none', 'x']]))]))
        cor.append(dict(r, inputvars=['none']))
    chk.binding('MachineTrace', cor)
    chk.sample(recs[0]['log'])
    chk.sample(recs[-1]['log'])
    chk.assumptions += ['names of inputs are identifiers of Python other than self',
                        'values of inputs and outputs are literals of Python']


if __name__ == '__main__':
    vp.main('C16', body)
