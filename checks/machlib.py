"""Machines: random ones, how they are built, and how they are observed."""
import c12
import tulip.transys as trs
from tulip.transys import machines

DOMAINS = [[0, 1], [False, True], ['a', 'b'], [0, 1, 2], ['on', 'off', 'it'], [1.5, 'x', 0], [(0, 1), (1, 0), 0]]
INPUTS = ['p', 'q', 'in_1', 'state', 'node', 'x']
OUTPUTS = ['y', 'z', 'out_1', 'loc', 'w']


def val(v):
    """Canonical text of a value, the same for equal values."""
    if isinstance(v, (bool, int)):
        return f'i{int(v)}'
    return f'{type(v).__name__}{v!r}'


def pairs(d, ports=None):
    return sorted([k, val(v)] for k, v in d.items() if ports is None or k in ports)


def expand(m, rng, states=('str', 'int', 'mixed'), ins=None, outs=None, domains=DOMAINS):
    """Names and values for a machine of MachineMC (ports p and y)."""


def random_machine(rng, moore=False, domains=DOMAINS, inputs=INPUTS, max_n=4, det=None):
    n = rng.randint(1, max_n)
    ni = rng.choice([0, 1, 1, 1, 2, 2])
    no = rng.choice([0, 1, 1, 2]) if ni else rng.choice([1, 1, 2])
    ins = {k: rng.choice(domains) for k in rng.sample(inputs, ni)}
    outs = {k: rng.choice(domains) for k in rng.sample(OUTPUTS, no)}
    if rng.random() < .15 and ins:
        # a port whose values are not all used
        ins = {k: list(v) for k, v in ins.items()}
    det = rng.random() < .75 if det is None else det
    words = [dict()]
    for k, dom in ins.items():
        words = [dict(w, **{k: v}) for w in words for v in dom]

    def out():
        return {k: rng.choice(v) for k, v in outs.items()}
    label = [out() for _ in range(n)]
    edges = list()
    dens = rng.choice([.4, .8, 1])
    for u in range(n):
        if rng.random() < .1:
            continue
        for w in words:
            if rng.random() > dens:
                continue
            for _ in range(1 if det else rng.choice([1, 1, 2, 3])):
                edges.append((u, dict(w), out(), rng.randrange(n)))
    m = dict(n=n, init=sorted(rng.sample(range(n), rng.choice([1, 1, 1, n]))), ins=ins, outs=outs, edges=edges, label=label)
    return m


def from_tlc(m, rng, domains=DOMAINS):
    """A machine of MachineMC with random values."""
    d1, d2 = (rng.sample(rng.choice(domains), 2) for _ in range(2))
    at = dict(i0=0, i1=1)
    return dict(n=2, init=[k - 1 for k in m['init']], ins=dict(p=d1), outs=dict(y=d2), label=[{}, {}],
                edges=[(e['u'] - 1, dict(p=d1[at[e['i']['p']]]), dict(y=d2[at[e['o']['y']]]), e['v'] - 1) for e in m['edges']])


def build(m, rng, moore=False, names=None):
    g = machines.MooreMachine() if moore else machines.MealyMachine()
    kind = rng.choice(['str', 'int', 'tuple', 'mixed'])
    names = names or c12.names(rng, m['n'], kind)

    def ports(d):
        d = list(d.items())
        rng.shuffle(d)
        return {k: rng.choice([set, list, tuple])(v) for k, v in d}
    g.add_inputs(ports(m['ins']))
    g.add_outputs(ports(m['outs']))
    order = list(range(m['n']))
    rng.shuffle(order)
    for k in order:
        if moore:
            g.states.add(names[k], **m['label'][k])
        else:
            g.states.add(names[k])
    g.states.initial.add_from([names[k] for k in m['init']])
    edges = list(m['edges'])
    rng.shuffle(edges)
    seen = set()
    for u, i, o, v in edges:
        d = dict(i) if moore else dict(i, **o)
        if not d and (u, v) in seen:
            # one transition without label
            continue
        seen.add((u, v))
        g.transitions.add(names[u], names[v], d)
    return g, names


def mealy(g, num, ports_from=None):
    ins, outs = list(g.inputs), list(g.outputs)
    return dict(states=[num(s) for s in g.states()], init=[num(s) for s in g.states.initial], ins=ins, outs=outs,
                edges=[dict(u=num(u), i=pairs(d, g.inputs), o=[[k, val(d[k]) if k in d else ''] for k in outs] + [[k, 'extra'] for k in d if k not in ins and k not in outs],
                            v=num(v)) for u, v, d in g.transitions(data=True)])


def moore(g, num):
    ins, outs = list(g.inputs), list(g.outputs)
    return dict(states=[num(s) for s in g.states()], init=[num(s) for s in g.states.initial], ins=ins, outs=outs,
                out=[pairs(g.states[s], g.outputs) for s in g.states()],
                edges=[dict(u=num(u), i=pairs(d), v=num(v)) for u, v, d in g.transitions(data=True)])
