"""C12: products of transition systems and Buchi automata."""
import logging
import random
import warnings

import tulip.transys as trs
import tulip.transys.products as products
import vp


def names(rng, n, kind):
    if kind == 'str':
        return rng.sample(['s1', 's10', 's', '1', 's1_0', 'as1', 'q', 'q1'], n)
    if kind == 'int':
        return rng.sample(range(12), n)
    if kind == 'tuple':
        return rng.sample([('s', k) for k in range(4)] + [('s',), (('s', 1), 2), ((0, 1), 's')], n)
    pool = ['s', ('s',), "('s',)", ('s', 's'), 0, '0', 1, '1', 'init',
            frozenset(['s']), 1.5, '1.5']
    return rng.sample(pool, n)


def build(x, rng):
    """The two operands, and the names of their states."""
    S = names(rng, x['t']['n'], x['kind_s'])
    Q = names(rng, x['b']['m'], x['kind_q'])
    aps = ['p', 'q', 'p2']
    ts = trs.FTS()
    ts.atomic_propositions.update(aps[:x['naps']])
    for k, s in enumerate(S):
        ap = set(x['t']['ap'][k])
        if not ap and rng.random() < .4:
            ts.states.add(s)
        elif rng.random() < .5:
            ts.states.add(s, ap=ap)
        else:
            ts.states.add(s)
            ts.states[s]['ap'] = ap
    ts.states.initial.add_from([S[k - 1] for k in x['t']['init']])
    ts.sys_actions.add_from(['go', 'stop'])
    ts.env_actions.add_from(['wind'])
    for u, v, lab in x['t']['edges']:
        ts.transitions.add(S[u - 1], S[v - 1], **LABELS[lab])
    ba = trs.BA()
    ba.atomic_propositions |= set(aps[:x['naps'] if x['exact'] else 3])
    if any(d[1] == ['*'] for d in x['b']['delta']):
        ba.atomic_propositions.add(True)
    ba.states.add_from(Q)
    ba.states.initial.add_from([Q[k - 1] for k in x['b']['init']])
    ba.accepting.add_from([Q[k - 1] for k in x['b']['acc']])
    for u, L, v in x['b']['delta']:
        ba.transitions.add(Q[u - 1], Q[v - 1], letter={True} if L == ['*'] else set(L))
    return ts, ba, S, Q


LABELS = {'-': {}, 'g': dict(sys_actions='go'), 's': dict(sys_actions='stop'), 'w': dict(env_actions='wind'),
          'gw': dict(sys_actions='go', env_actions='wind')}
BACK = {tuple(sorted(v.items())): k for k, v in LABELS.items()}


def snap(g):
    r = [sorted(map(repr, g.nodes(data=True))), sorted(map(repr, g.edges(data=True))), sorted(map(repr, g.states.initial))]
    if hasattr(g, 'accepting'):
        r.append(sorted(map(repr, g.accepting)))
    r.append(sorted(map(repr, getattr(g, 'atomic_propositions', []))))
    return r


def observe(g, S, Q, kind, acc=None):
    def num(p):
        s, q = p
        return [S.index(s) + 1, Q.index(q) + 1]
    out = dict(ok=True, states=[num(p) for p in g.states()], init=[num(p) for p in g.states.initial],
               acc=[num(p) for p in (g.accepting if acc is None else acc)], edges=list(), ap=list(), new=list())
    for u, v, d in g.transitions(data=True):
        if kind == 'ts':
            out['edges'].append([num(u), num(v), BACK.get(tuple(sorted(d.items())), repr(dict(d)))])
        else:
            out['edges'].append([num(u), num(v), sorted(map(str, d['letter']))])
    if kind == 'ts':
        out['ap'] = [[Q.index(a) + 1 for a in g.states[p]['ap']] for p in g.states()]
    return out


FAIL = dict(ok=False, states=[], init=[], acc=[], edges=[], ap=[], new=[])


def record(x):
    warnings.simplefilter('ignore')
    logging.disable(logging.WARNING)
    x = dict(x)
    rng = random.Random(x['seed'])
    ts, ba, S, Q = build(x, rng)
    log = [f'states {S} automaton states {Q} t={x["t"]} b={x["b"]}']
    before = snap(ts), snap(ba)
    r = vp.guarded(products.ts_ba_sync_prod, ts, ba)
    x['ts'] = observe(r[1][0], S, Q, 'ts', r[1][1]) if r[0] == 'ok' else FAIL
    if r[0] != 'ok':
        log.append(f'ts_ba {r[1:]}')
    r = vp.guarded(products.ba_ts_sync_prod, ba, ts)
    x['ba'] = observe(r[1], S, Q, 'ba') if r[0] == 'ok' else FAIL
    if r[0] != 'ok':
        log.append(f'ba_ts {r[1:]}')
    r = vp.guarded(trs.OnTheFlyProductAutomaton, ba, ts)
    fly = dict(start=FAIL, ops=list(), outs=list())
    x['fly'] = fly
    if r[0] == 'ok':
        g = r[1]
        fly['start'] = observe(g, S, Q, 'ba')
        for _ in range(rng.choice([0, 1, 2, 4])):
            at = sorted(g.states(), key=repr)
            if not at:
                break
            s, q = rng.choice(at)
            r = vp.guarded(g.add_successors, s, q)
            fly['ops'].append([S.index(s) + 1, Q.index(q) + 1])
            if r[0] != 'ok':
                fly['outs'].append(FAIL)
                log.append(f'add_successors({s}, {q}) {r[1:]}')
                break
            o = observe(g, S, Q, 'ba')
            o['new'] = [[S.index(a) + 1, Q.index(b) + 1] for a, b in r[1]]
            fly['outs'].append(o)
        else:
            r = vp.guarded(g.add_all_states)
            fly['ops'].append([])
            fly['outs'].append(observe(g, S, Q, 'ba') if r[0] == 'ok' else FAIL)
            if r[0] != 'ok':
                log.append(f'add_all_states {r[1:]}')
    else:
        log.append(f'on-the-fly {r[1:]}')
    x['kept'] = before == (snap(ts), snap(ba))
    x['log'] = log
    return x


def random_pair(rng):
    n, m = rng.randint(1, 5), rng.randint(1, 4)
    naps = rng.choice([1, 2, 2, 3])
    aps = ['p', 'q', 'p2'][:naps]

    def letter():
        return [a for a in aps if rng.random() < .5]
    labels = rng.choice([['-'], ['g', 's'], ['g', 's', 'w', 'gw']])
    pairs = [(u, v) for u in range(1, n + 1) for v in range(1, n + 1) if rng.random() < rng.choice([.3, .6])]
    edges = [[u, v, lab] for u, v in pairs for lab in (rng.sample(labels, rng.randint(1, len(labels))))]
    ap = [letter() for _ in range(n)]
    delta = set()
    for _ in range(rng.choice([2, 5, 9])):
        L = rng.choice(ap) if rng.random() < .7 else letter()
        delta.add((rng.randint(1, m), tuple(L), rng.randint(1, m)))
    if rng.random() < .25:
        delta.add((rng.randint(1, m), ('*',), rng.randint(1, m)))
    if rng.random() < .3:
        # possible from every automaton state
        delta |= {(u, tuple(L), rng.randint(1, m)) for u in range(1, m + 1) for L in ap}
    return dict(t=dict(n=n, init=rng.sample(range(1, n + 1), rng.choice([0, 1, 1, n])), ap=ap, edges=edges),
                b=dict(m=m, init=rng.sample(range(1, m + 1), rng.choice([1, 1, m])), acc=rng.sample(range(1, m + 1), rng.randint(0, m)),
                       delta=[[u, list(L), v] for u, L, v in sorted(delta)]),
                naps=naps, exact=rng.random() < .7)


def body(chk):
    rng = chk.rng
    cfg = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
    chk.model_check('ProductMC', f'CONSTANTS\nRun = {chk.pick(2, 3)}\nSome = {chk.pick("TRUE", "FALSE")}\n' + cfg + 'INVARIANT Right\n', workers=8, timeout=850)
    pairs = chk.generate('ProductMC', f'CONSTANTS\nRun = 1\nSome = TRUE\n' + cfg + 'INVARIANT Emit\n', workers=1)
    kinds = ['str', 'str', 'int', 'tuple', 'mixed']
    items = list()
    for c in rng.sample(pairs, min(len(pairs), chk.pick(1200, 9000))):
        items.append(dict(t=c['t'], b=c['b'], naps=1, exact=True))
    items += [random_pair(rng) for _ in range(chk.pick(800, 8000))]
    for x in items:
        x.update(kind_s=rng.choice(kinds), kind_q=rng.choice(kinds), seed=rng.random())
    recs = vp.pmap(record, items)
    bare = [{k: v for k, v in r.items() if k in ('t', 'b', 'ts', 'ba', 'fly', 'kept')} for r in recs]
    for r, bad in zip(recs, chk.validate('ProductTrace', bare)):
        for clause in bad:
            chk.violation(f'{clause}:{r["log"][0][:60]}', f'{clause}: {" ".join(r["log"])[:700]}', r)
        chk.bump('empty' if not r['ts']['states'] else 'nonempty')
        chk.bump('accepting_reachable', bool(r['ts']['acc']))
        chk.bump('expansions', len(r['fly']['ops']))
    cor = list()
    for r in [r for r in bare if r['ts']['edges'] and r['ts']['ok'] and r['ba']['ok']][:20]:
        cor.append(dict(r, ts=dict(r['ts'], edges=r['ts']['edges'][1:])))
        cor.append(dict(r, ba=dict(r['ba'], init=[])))
        cor.append(dict(r, fly=dict(r['fly'], start=dict(r['fly']['start'], states=r['fly']['start']['states'] + [[1, 99]]))))
    chk.binding('ProductTrace', cor)
    chk.sample(recs[0]['log'])
    chk.sample(recs[-1]['log'])
    chk.assumptions += ['every automaton transition has a letter that is a set of propositions, or {True}',
                        'propositions of the transition system are propositions of the automaton']


if __name__ == '__main__':
    vp.main('C12', body)
