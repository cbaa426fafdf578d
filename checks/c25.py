"""C25: FunctionOnLabeledState is a finite map."""
import contextlib
import copy
import io
import json
import os

import vp
from tulip.transys import transys as trs
from tulip.transys.mathfunc import FunctionOnLabeledState

STATES = ['s0', 's1', 's2', 's3']
POOLS = [['m0', 'm1', 'm2'], [0, 1, 2], [None, 'x', 3.5]]
TSL = [[], ['p'], ['q'], ['p', 'q']]


def make_ts():
    ts = trs.FTS()
    ts.atomic_propositions.add_from({'p', 'q'})
    for s, lab in zip(STATES, TSL):
        ts.states.add(s, ap=set(lab))
    return ts


def run(cfg, ops):
    """Execute `ops`; return observations with values mapped back to ints."""
    inkeys, outkeys, sidx = cfg['in'], cfg['out'], cfg['sidx']
    f = FunctionOnLabeledState(
        inkeys[0] if cfg['bare_in'] else list(inkeys),
        outkeys[0] if cfg['bare_out'] else list(outkeys))
    ins = [STATES if j == sidx else POOLS[j % 3] for j in range(len(inkeys))]
    outs = [POOLS[(j + 1) % 3] for j in range(len(outkeys))]

    def enc(pools, idx):
        t = tuple(p[k] for p, k in zip(pools, idx))
        return t[0] if len(pools) == 1 else t

    def dec(pools, val):
        if len(pools) == 1:
            val = (val,)
        if not isinstance(val, tuple) or len(val) != len(pools):
            return [99]
        return [p.index(v) if v in p else 99 for p, v in zip(pools, val)]

    def saved(path):
        pairs = list()
        for d in json.load(open(path)):
            want = {'state', 'labels'} | set(inkeys) | set(outkeys)
            if set(d) != want:
                pairs.append(dict(key=[99], out=[99], lab=sorted(map(str, d))))
                continue
            pairs.append(dict(
                key=dec(ins, tuple(d[k] for k in inkeys) if len(inkeys) > 1 else d[inkeys[0]]),
                out=dec(outs, tuple(d[k] for k in outkeys) if len(outkeys) > 1 else d[outkeys[0]]),
                lab=sorted(d['labels'])))
        return pairs

    obs = list()
    for o in ops:
        def do():
            if o['op'] == 'add':
                if o['lab']:
                    f.add(enc(ins, o['key']), enc(outs, o['out']), list(o['lab']))
                else:
                    f.add(enc(ins, o['key']), enc(outs, o['out']))
                return dict(t='ok')
            if o['op'] == 'get':
                try:
                    v = f[enc(ins, o['key'])]
                except KeyError:
                    return dict(t='absent')
                return dict(t='val', out=dec(outs, v))
            if o['op'] == 'len':
                return dict(t='n', n=len(f))
            path = os.path.join(vp.SCRATCH, 'f.json')
            if o['op'] == 'save':
                f.save(path)
            else:
                f.save(path, make_ts())
            return dict(t='pairs', pairs=saved(path))
        with contextlib.redirect_stdout(io.StringIO()):
            r = vp.guarded(do)
        obs.append(r[1] if r[0] == 'ok' else dict(t='exc', err=r[1] + ': ' + r[2]))
    return obs


CFGS = [
    {'in': ['state'], 'out': ['action'], 'sidx': 0, 'bare_in': True, 'bare_out': True},
    {'in': ['state'], 'out': ['action'], 'sidx': 0, 'bare_in': False, 'bare_out': False},
    {'in': ['state', 'mode'], 'out': ['action'], 'sidx': 0, 'bare_in': False, 'bare_out': True},
    {'in': ['mode', 'state'], 'out': ['action', 'cost'], 'sidx': 1, 'bare_in': False, 'bare_out': False},
    {'in': ['mode', 'k', 'state'], 'out': ['a', 'b', 'c'], 'sidx': 2, 'bare_in': False, 'bare_out': False},
    {'in': ['state'], 'out': ['a', 'b'], 'sidx': 0, 'bare_in': True, 'bare_out': False},
]


def body(c):
    depth = c.pick(4, 5)
    hists = c.generate('FuncTableMC', f'''
CONSTANTS NK=2 NO=2 Depth={depth}
INIT Init
NEXT Next
INVARIANT Agree Unique LastWins Emit
CHECK_DEADLOCK FALSE
''', timeout=800)
    recs = list()
    tail = [dict(op='len'), dict(op='save'), dict(op='save_ts')]

    def record(cfg, ops):
        ops = [dict(key=[], out=[], lab=[]) | o for o in ops]
        recs.append(dict(ops=ops, obs=run(cfg, ops), tsl=TSL, sidx=cfg['sidx'] + 1,
                         cfg=cfg))

    for h in hists:
        ops = [dict(o, lab=[]) for o in h]
        record(CFGS[len(recs) % 2], ops + tail)
    c.bump('generated_histories', len(hists))
    # longer histories over larger shapes
    for n in range(c.pick(600, 6000)):
        cfg = c.rng.choice(CFGS)
        ops = list()
        for _ in range(c.rng.randint(3, 25)):
            key = [c.rng.randrange(4 if j == cfg['sidx'] else 3) for j in range(len(cfg['in']))]
            if ops and c.rng.random() < .4:
                prev = [o['key'] for o in ops if o.get('key')]
                key = c.rng.choice(prev) if prev else key
            out = [c.rng.randrange(3) for _ in cfg['out']]
            lab = c.rng.choice([[], ['p'], ['p', 'q']])
            k = c.rng.random()
            if k < .45:
                ops.append(dict(op='add', key=key, out=out, lab=lab))
            elif k < .85:
                ops.append(dict(op='get', key=key))
            else:
                ops.append(dict(op=c.rng.choice(['len', 'save', 'save_ts'])))
        record(cfg, ops + tail)
    bad = c.validate('FuncTableTrace', recs)
    for r, b in zip(recs, bad):
        for clause in b:
            c.violation(f'table-{clause}', 'observations disagree with the finite map', r)
    c.sample(recs[-1])
    corrupted = list()
    for r in recs[-40:]:
        r = copy.deepcopy(r)
        k = len(r['obs']) - 3
        r['obs'][k] = dict(t='n', n=r['obs'][k].get('n', 0) + 1)
        corrupted.append(r)
    c.binding('FuncTableTrace', corrupted)


vp.main('C25', body)
