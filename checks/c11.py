"""C11: dead-end removal keeps exactly the states with infinite runs."""
import copy
import random

import c10
import graphlib as gl
import vp

CFG = 'INIT Init\nNEXT Next\nINVARIANT Definition Emit\nCHECK_DEADLOCK FALSE\n'
QS = [dict(q='deadends'), dict(q='terminal'), dict(q='counts'), dict(q='consistent')]


def one(item):
    kname, names, edges, init, acc, seed = item
    kd = next(k for k in c10.KINDS if k.name == kname)
    rng = random.Random(seed)
    g = kd.make()
    doms = [t.dom for t in kd.nt]
    edoms = [t.dom for t in kd.et]
    ops = list()
    for s in names:
        ops.append(dict(op='node', s=s, l=[[k, c10.rnd_value(t, rng, 0)] for k, t in enumerate(kd.nt, 1)]))
    for u, v in edges:
        ops.append(dict(op='edge', a=u, b=v, l=[[k, c10.rnd_value(t, rng, 0)] for k, t in enumerate(kd.et, 1)]))
    if init:
        ops.append(dict(op='init+', ss=sorted(init)))
    if acc and kd.acc:
        ops.append(dict(op='acc+', ss=sorted(acc)))
    oks = [gl.do(kd, g, o, rng.randrange(1000)) for o in ops]
    setup = gl.observe(kd, g, True, dict(op='bulk', ops=ops), [], 0)
    o = dict(op='deadends')
    ok = gl.do(kd, g, o, 0)
    hist = [setup, gl.observe(kd, g, ok, o, QS, 0)]
    if ok:
        ok = gl.do(kd, g, o, 0)
        hist.append(gl.observe(kd, g, ok, o, QS, 0))
    return dict(cfg=kd.cfg(), kind=kname, hist=hist, branches=[])


def body(c):
    graphs = c.generate('DeadEndMC', CFG)
    items = list()
    for n, x in enumerate(graphs):
        if not c.thorough and n % 4 != c.seed % 4:
            continue
        kd = c10.KINDS[n % len(c10.KINDS)]
        items.append((kd.name, ['a', 'b', 'c'], [tuple(e) for e in x['e']], x['i'],
                      [s for s in 'abc' if c.rng.random() < .5], c.rng.randrange(10**9)))
    for _ in range(c.pick(900, 20000)):
        kd = c.rng.choice(c10.KINDS)
        names = [s for s in gl.NAMES if s[0] not in 'zs'][:c.rng.choice([0, 1, 2, 4, 5, 6, 6, 8, 10, 12])]
        c.rng.shuffle(names)
        m = int(len(names) * c.rng.choice([.5, .8, 1, 1, 1.3, 1.7]))
        edges = [(c.rng.choice(names), c.rng.choice(names)) for _ in range(m)] if names else []
        if not kd.et:
            edges = sorted(set(edges))
        if c.rng.random() < .3 and len(names) > 2:
            # a long chain, perhaps from or to a cycle
            edges = list(zip(names, names[1:]))
            if c.rng.random() < .7:
                k = c.rng.randrange(len(names))
                edges.append((names[k], names[c.rng.randrange(k + 1)]))
        items.append((kd.name, names, edges, [s for s in names if c.rng.random() < .5],
                      [s for s in names if c.rng.random() < .5], c.rng.randrange(10**9)))
    recs = vp.pmap(one, items)
    for r in recs:
        c.bump('emptied' if not r['hist'][1]['ok'] else 'nonempty')
    bad = c.validate('LGraphTrace', recs)
    for r, b in zip(recs, bad):
        for cl in b:
            c.violation(f'{r["kind"]}:{cl}', f'{cl} in {r["kind"]}', r)
    c.sample(recs[-1])
    cor = list()
    for r in recs:
        if r['hist'][1]['ok'] and r['hist'][1]['V'] and len(cor) < 60:
            y = copy.deepcopy(r)
            y['hist'][1]['V'].pop()
            y['hist'][1]['L'].pop()
            cor.append(y)
    c.binding('LGraphTrace', cor)


vp.main('C11', body)
