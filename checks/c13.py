"""C13: bisimulation quotients and dual-simulation abstractions."""
import random
import warnings

import c12
import tulip.transys as trs
import tulip.transys.transys as transys
import vp

# hashes of these collide, so the order of insertion decides how sets are printed
APS = {'p': 0, 'q': 8, 'r': 16, 'u': 24}
BACK = {v: k for k, v in APS.items()}
FAIL = dict(ok=False, cells=[], edges=[], ap=[], init=[], map=[])


def observe(r, S):
    if r[0] != 'ok':
        return FAIL
    g, maps = r[1]
    K = sorted(g.states())
    if K != list(range(len(K))) or sorted(maps['simu2ts']) != K:
        return FAIL
    return dict(ok=True, cells=[[S.index(s) + 1 for s in maps['simu2ts'][k]] for k in K],
                edges=[[u + 1, v + 1] for u, v in g.transitions()],
                ap=[[BACK.get(p, p) for p in g.nodes[k]['ap']] for k in K],
                init=[k + 1 for k in g.states.initial],
                map=[[k + 1 for k in maps['ts2simu'].get(s, [])] for s in S])


def record(x):
    warnings.simplefilter('ignore')
    x = dict(x)
    rng = random.Random(x['seed'])
    S = c12.names(rng, x['n'], x['names']) if x['n'] <= 7 and x['names'] != 'plain' else [f's{k}' for k in range(x['n'])]
    ts = trs.FTS()
    ts.atomic_propositions.update(APS.values())
    order = list(enumerate(S))
    rng.shuffle(order)
    for k, s in order:
        ap = [APS[p] for p in x['ap'][k]]
        rng.shuffle(ap)
        label = set()
        for p in ap:
            label.add(p)
        if ap or rng.random() < .5:
            ts.states.add(s, ap=label)
        else:
            ts.states.add(s)
    ts.states.initial.add_from([S[k - 1] for k in x['init']])
    ts.sys_actions.update(['a', 'b'])
    for u, v in x['edges']:
        if x['labels']:
            for a in rng.sample(['a', 'b'], rng.choice([1, 2])):
                ts.transitions.add(S[u - 1], S[v - 1], sys_actions=a)
        else:
            ts.transitions.add(S[u - 1], S[v - 1])
    before = c12.snap(ts)
    rb = vp.guarded(transys.simu_abstract, ts, 'bi', seconds=60)
    x['bi'] = observe(rb, S)
    rd = vp.guarded(transys.simu_abstract, ts, 'dual', seconds=60) if x['usedual'] else ('exc', 'not run', '')
    x['dual'] = observe(rd, S)
    x['kept'] = before == c12.snap(ts)
    x['log'] = [f'states {S}', {k: x[k] for k in ('n', 'ap', 'init', 'edges')}, [r[1:] for r in (rb, rd) if r[0] != 'ok'],
                'bi', x['bi'], 'dual', x['dual']]
    return x


def random_system(rng, thorough):
    usedual = rng.random() < .6
    n = rng.randint(1, 6) if usedual else rng.randint(3, 14 if thorough else 9)
    aps = ['p', 'q', 'r', 'u'][:rng.choice([1, 2, 2, 4])]
    pool = [[a for a in aps if rng.random() < .5] for _ in range(rng.choice([1, 2, 3]))] + [list(aps)]
    p = rng.choice([.1, .2, .35])
    edges = [[u, v] for u in range(1, n + 1) for v in range(1, n + 1) if rng.random() < p]
    if rng.random() < .5:
        # two copies of one structure, and a change
        k = n // 2
        edges = [[u, v] for u, v in edges if u <= k and v <= k]
        edges += [[u + k, v + k] for u, v in edges] + [[u, v + k] for u, v in edges if rng.random() < .3]
        if rng.random() < .6:
            edges.append([rng.randint(1, n), rng.randint(1, n)])
        edges = [list(e) for e in sorted({tuple(e) for e in edges})]
        half = [rng.choice(pool) for _ in range(k)]
        ap = half + half + [rng.choice(pool) for _ in range(n - 2 * k)]
    else:
        ap = [rng.choice(pool) for _ in range(n)]
    return dict(n=n, ap=ap, init=rng.sample(range(1, n + 1), rng.choice([0, 1, min(2, n)])), edges=edges, usedual=usedual,
                names=rng.choice(['str', 'int', 'tuple', 'mixed', 'plain', 'plain']) if n <= 6 else 'plain', labels=rng.random() < .2)


def body(chk):
    rng = chk.rng
    for kind in ('bi', 'dual'):
        for n in (1, 2, 3) if chk.thorough else (1, 2):
            chk.model_check('SimuMC', f'CONSTANTS\nN = {n}\nType = "{kind}"\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
                            + ''.join(f'INVARIANT {p}\n' for p in ('Sound', 'Cover', 'Done', 'Greatest')), workers=8, timeout=850)
    items = list()
    for n in (1, 2, 3):
        found = chk.generate('SimuMC', f'CONSTANTS\nN = {n}\nType = "bi"\nINIT Init\nNEXT Stop\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n')
        limit = chk.pick(700, 5000)
        for t in (found if len(found) <= limit else rng.sample(found, limit)):
            items.append(dict(t, usedual=True, names=rng.choice(['str', 'mixed', 'plain']), labels=rng.random() < .1))
    items += [random_system(rng, chk.thorough) for _ in range(chk.pick(600, 6000))]
    for x in items:
        x['seed'] = rng.random()
    recs = vp.pmap(record, items)
    keys = ('n', 'ap', 'init', 'edges', 'usedual', 'bi', 'dual', 'kept')
    bare = [{k: r[k] for k in keys} for r in recs]
    for r, bad in zip(recs, chk.validate('SimuTrace', bare)):
        for clause in bad:
            chk.violation(f'{clause}:{str(r["log"][1])[:80]}', f'{clause}: {str(r["log"])[:800]}', r)
        chk.bump('reduced' if len(r['bi']['cells']) < r['n'] else 'not_reduced')
        chk.bump('dual_overlapping', len(r['dual']['cells']) > len(r['bi']['cells']))
    cor = list()
    for r in [r for r in bare if r['bi']['ok'] and r['bi']['edges'] and r['usedual'] and r['dual']['ok']][:20]:
        cor.append(dict(r, bi=dict(r['bi'], edges=r['bi']['edges'][1:])))
        cor.append(dict(r, dual=dict(r['dual'], cells=r['dual']['cells'][1:] + [[1, 99]])))
    chk.binding('SimuTrace', cor)
    chk.sample(recs[0]['log'])
    chk.sample(recs[-1]['log'])
    chk.assumptions += ['dual abstractions of up to six states']


if __name__ == '__main__':
    vp.main('C13', body)
