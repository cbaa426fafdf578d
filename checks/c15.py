"""C15: reactions and runs of machines, conversions between machines."""
import contextlib
import io
import logging
import random
import re
import sys
import warnings

import c12
import machlib as ml
from tulip import synth
from tulip.transys import machines
import vp


def snap(g):
    return [sorted(map(repr, g.nodes(data=True))), sorted(map(repr, g.edges(data=True))), sorted(map(repr, g.states.initial)),
            sorted(map(repr, g.inputs.items())), sorted(map(repr, g.outputs.items()))]


class Limited(io.StringIO):
    """Standard output that ends programs which never stop printing."""

    def write(self, text):
        if self.tell() > 100_000:
            raise RuntimeError('prints without end')
        return super().write(text)


def quiet(fn, *a, stdin='', **kw):
    out = Limited()
    keep = sys.stdin
    sys.stdin = io.StringIO(stdin)
    try:
        with contextlib.redirect_stdout(out):
            r = vp.guarded(fn, *a, **kw)
    finally:
        sys.stdin = keep
    return r, out.getvalue()


def a_word(g, u, m, rng):
    """Inputs, likely to be accepted."""
    es = list(g.edges([u], data=True))
    if es and rng.random() < .8:
        d = rng.choice(es)[2]
        return {k: d[k] for k in g.inputs if k in d}
    return {k: rng.choice(v) for k, v in m['ins'].items()}


def history(g, m, names, num, rng, log):
    """Operations on one machine and what they return."""
    ops = list()
    det = len({(u, repr(sorted(i.items(), key=repr))) for u, i, o, v in m['edges']}) == len(m['edges'])
    for _ in range(rng.choice([2, 4])):
        u = rng.choice(names)
        w = a_word(g, u, m, rng)
        lazy = rng.random() < .4
        if lazy or rng.random() < .1:
            w = {k: v for k, v in w.items() if rng.random() < .7}
        if rng.random() < .05:
            w['other'] = 0
        if lazy and rng.random() < .3:
            r = vp.guarded(g.reactionpart, u, w)
        else:
            r = vp.guarded(g.reaction, u, w, lazy) if lazy else vp.guarded(g.reaction, u, dict(w))
        op = dict(t='react', u=num(u), lazy=lazy, ports=list(w), got=dict(ok=False, v=0, o=[]))
        op['in'] = ml.pairs(w)
        if r[0] == 'ok':
            op['got'] = dict(ok=True, v=num(r[1][0]), o=ml.pairs(r[1][1]))
        elif r[1] != 'ValueError':
            op['got'] = dict(ok=True, v=0, o=[])
        log.append(f'reaction({u}, {w}, lazy={lazy}) = {r[1:]}')
        ops.append(op)
    if m['ins']:
        for _ in range(2):
            u0 = u = rng.choice(names)
            words = list()
            for _ in range(rng.choice([0, 1, 2, 4, 6])):
                words.append(a_word(g, u, m, rng))
                r = vp.guarded(g.reaction, u, words[-1])
                if r[0] != 'ok':
                    break
                u = r[1][0]
            seqs = {k: [w[k] for w in words] for k in m['ins']}
            kw = dict(from_state=u0)
            malformed = False
            x = rng.random()
            if x < .06:
                k = rng.choice(list(seqs))
                seqs[k] = seqs[k] + [m['ins'][k][0]]
                malformed = len(seqs) > 1
                if not malformed:
                    words = words + [{k: m['ins'][k][0]}]
            elif x < .1 and len(seqs) > 1:
                seqs.pop(rng.choice(list(seqs)))
                malformed = True
            elif x < .14:
                k = rng.choice(list(seqs))
                seqs[k] = tuple(seqs[k])
                malformed = True
            if u0 in g.states.initial and len(g.states.initial) == 1 and rng.random() < .7:
                kw = dict()
            fn = machines.guided_run if rng.random() < .5 else type(g).run
            r = vp.guarded(fn, g, input_sequences=seqs, **kw)
            op = dict(t='run', u=num(u0), ins=[ml.pairs(w) for w in words], malformed=malformed, got=dict(ok=False, vs=[], os=[]))
            if r[0] == 'ok':
                vs, os = r[1]
                good = set(os) == set(m['outs']) and all(len(v) == len(vs) for v in os.values())
                op['got'] = dict(ok=True, vs=[num(v) for v in vs], os=[ml.pairs({k: os[k][j] for k in os}) for j in range(len(vs))] if good else [])
            elif r[1] not in ('ValueError', 'TypeError'):
                op['got'] = dict(ok=True, vs=[0], os=[])
            log.append(f'guided_run({kw}, {seqs}) = {r[1:]}')
            ops.append(op)
    u = rng.choice(names)
    n = rng.choice([0, 1, 3, 8])
    kw = dict(from_state=u)
    if u in g.states.initial and len(g.states.initial) == 1 and rng.random() < .7:
        kw = dict()
    random.seed(rng.random())
    r, _ = quiet(machines.random_run, g, N=n, **kw)
    op = dict(t='random', u=num(u), n=n, got=dict(ok=False, vs=[], os=[]))
    if r[0] == 'ok':
        vs, os = r[1]
        op['got'] = dict(ok=True, vs=[num(v) for v in vs], os=[ml.pairs({k: os[k][j] for k in os}) for j in range(len(vs))])
    log.append(f'random_run({u}, N={n}) = {r[1:]}')
    ops.append(op)
    return ops


def convert(x, g, m, names, num, rng, log):
    """One conversion."""
    conv = dict(t='none', ok=False)
    t = x['convert']
    back = list(names)

    def num2(s):
        if s not in back:
            back.append(s)
        return back.index(s) + 1
    if t == 'mealy2moore':
        if any(not v for v in g.outputs.values()):
            return conv
        r = vp.guarded(machines.mealy2moore, g)
        x['domains'] = [[k, [ml.val(v) for v in d]] for k, d in m['outs'].items()]
        conv = dict(t=t, ok=r[0] == 'ok')
        if r[0] == 'ok':
            conv['m'] = ml.moore(r[1], num2)
    elif t == 'strip':
        ports = [*m['ins'], *m['outs']]
        drop = rng.sample(ports, rng.randint(0, max(0, len(ports) - 1)))
        if not m['edges'] or not ports:
            return conv
        if rng.random() < .2:
            drop.append('another')
        x['names'] = drop
        r = vp.guarded(machines.strip_ports, g, rng.choice([list, set, tuple, lambda t: dict.fromkeys(t)])(drop))
        conv = dict(t=t, ok=r[0] == 'ok')
        if r[0] == 'ok':
            conv['m'] = ml.mealy(r[1], num2)
    elif t == 'mask':
        h, names2 = ml.build(m, random.Random(x['seed']), names=names)
        r = vp.guarded(synth.mask_outputs, h)
        conv = dict(t=t, ok=r[0] == 'ok')
        if r[0] == 'ok':
            conv['m'] = ml.mealy(h, num)
    elif t == 'det':
        given = {k: rng.choice(v) for k, v in m['outs'].items() if rng.random() < .5}
        x['given'] = ml.pairs(given)
        x['sinit'] = num('Sinit')
        arg = dict(given)
        if rng.random() < .2:
            arg['unknown'] = 0
        r = vp.guarded(synth.determinize_machine_init, g, arg) if arg or rng.random() < .5 else vp.guarded(synth.determinize_machine_init, g)
        conv = dict(t=t, ok=r[0] == 'ok')
        if r[0] == 'ok':
            conv['m'] = ml.mealy(r[1], num2)
            if r[1] is g:
                conv['ok'] = False
    if not conv['ok']:
        log.append(f'{t}: {r[1:]}')
    else:
        log.append(f'{t} {x.get("names", "")} {x.get("given", "")}: {conv["m"]}')
    return conv


MOVE = re.compile(r'Moving from state: (.*), to state: (.*)\s*given inputs: (.*)\s*reacting with outputs: (.*)')


def interactive(g, names, num, rng, log):
    u = rng.choice(names)
    n = rng.choice([0, 1, 2, 4])
    text = ''.join(rng.choice(['', '', 'x\n']) + '0\n' for _ in range(n)) + '\n\n'
    r, out = quiet(machines.interactive_run, g, from_state=u, stdin=text, seconds=3)
    log.append(f'interactive_run({u}) with {text!r}: {r[1:]}')
    op = dict(t='interactive', u=num(u), n=n, got=dict(ok=False, moves=[]))
    text = {str(s): s for s in names}
    if r[0] == 'ok' and len(text) == len(names):
        moves = list()
        for a, b, i, o in MOVE.findall(out):
            env = dict()
            moves.append(dict(u=num(text[a.strip()]), v=num(text[b.strip()]), i=ml.pairs(eval(i, env)), o=ml.pairs(eval(o, env))))
        op['got'] = dict(ok=True, moves=moves)
    elif r[0] == 'ok':
        return list()
    return [op]


EMPTY = dict(states=[], init=[], ins=[], outs=[], edges=[], out=[])


def record(x):
    warnings.simplefilter('ignore')
    logging.disable(logging.WARNING)
    x = dict(x)
    rng = random.Random(x['seed'])
    m = x['machine']
    is_moore = x['convert'] == 'moore2mealy'
    names = None
    if x['convert'] == 'det':
        names = c12.names(rng, m['n'], rng.choice(['str', 'int', 'mixed']))
        names[0] = 'Sinit'
    g, names = ml.build(m, rng, is_moore, names)

    def num(s):
        return names.index(s) + 1
    log = [f'machine names={names} {m}']
    before = snap(g)
    x.update(what='machine', m=EMPTY, moore=EMPTY, ops=list(), conv=dict(t='none', ok=False), names=[], given=[], sinit=1, domains=[])
    if is_moore:
        x['moore'] = ml.moore(g, num)
        back = list(names)
        r = vp.guarded(machines.moore2mealy, g)
        x['conv'] = dict(t='moore2mealy', ok=r[0] == 'ok', m=ml.mealy(r[1], lambda s: back.index(s) + 1) if r[0] == 'ok' else EMPTY)
        log.append(f'moore2mealy {r[1:]}')
    else:
        x['m'] = ml.mealy(g, num)
        x['ops'] = history(g, m, names, num, rng, log)
        if rng.random() < .3:
            x['ops'] += interactive(g, names, num, rng, log)
        x['conv'] = convert(x, g, m, names, num, rng, log)
    x['kept'] = before == snap(g)
    x['log'] = log
    return x


def body(chk):
    rng = chk.rng
    cfg = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
    chk.model_check('MachineMC', f'CONSTANT Deterministic = {chk.pick("TRUE", "FALSE")}\n' + cfg + 'INVARIANTS RunsArePaths Converted\n', workers=8, timeout=850)
    small = chk.generate('MachineMC', 'CONSTANT Deterministic = TRUE\n' + cfg + 'INVARIANT Emit\n', workers=1)
    kinds = ['mealy2moore', 'strip', 'mask', 'det']
    items = [dict(machine=ml.from_tlc(m, rng), convert=rng.choice(kinds)) for m in rng.sample(small, min(len(small), chk.pick(700, 1800)))]
    for _ in range(chk.pick(1500, 12000)):
        c = rng.choice(['moore2mealy', *kinds])
        items.append(dict(machine=ml.random_machine(rng, det=False if c == 'det' and rng.random() < .7 else None), convert=c))
    for x in items:
        x['seed'] = rng.random()
    recs = vp.pmap(record, items)
    fields = ('what', 'm', 'moore', 'ops', 'conv', 'names', 'given', 'sinit', 'domains', 'kept')
    bare = [{k: r[k] for k in fields} for r in recs]
    for r, bad in zip(recs, chk.validate('MachineTrace', bare)):
        for clause in bad:
            chk.violation(f'{clause}:{r["log"][0][:60]}', f'{clause}: {" ".join(r["log"])[:1200]}', {k: r[k] for k in (*fields, 'log')})
        chk.bump('conversion_' + r['conv']['t'])
        for op in r['ops']:
            chk.bump(f'{op["t"]}_{"accepted" if op["got"]["ok"] else "rejected"}')
    cor = list()
    for r in [r for r in bare if r['ops'] and r['ops'][0]['got']['ok']][:25]:
        op = r['ops'][0]
        cor.append(dict(r, ops=[dict(op, got=dict(op['got'], v=99))]))
        cor.append(dict(r, ops=[dict(op, got=dict(op['got'], ok=False))]))
    for r in [r for r in bare if r['conv']['ok'] and r['conv']['t'] != 'mealy2moore' and r['conv']['m']['edges']][:25]:
        c = r['conv']
        cor.append(dict(r, conv=dict(c, m=dict(c['m'], ins=c['m']['ins'] + ['more'], edges=c['m']['edges'][1:]))))
    chk.binding('MachineTrace', cor)
    chk.sample(recs[0]['log'])
    chk.sample(recs[-1]['log'])
    chk.assumptions += ['each transition of a machine has values for all inputs and outputs',
                        'at least one port remains when ports are removed']


if __name__ == '__main__':
    vp.main('C15', body)
