"""Drive the labeled graph classes and record observations for LGraph.tla."""
import contextlib
import io
import logging
import warnings

import vp
import tulip.transys as trs
from tulip.transys import automata, machines, transys as ts_mod
from tulip.transys.labeled_graphs import LabeledDiGraph

logging.disable(logging.CRITICAL)
warnings.simplefilter('ignore')

# abstract state names -> objects of various types
NAMES = {'a': 'a', 'b': 2, 'c': ('t', 1), 'd': frozenset({'x'}), 'e': 'ab', 'f': 0, 'z': 'zz'}
NAMES.update({f'n{k}': f'n{k}' for k in range(6)})
NAMES.update({f's{k}': f's{k}' for k in range(6)} | {f'sn{k}': f'sn{k}' for k in range(6)})
BACK = {v: k for k, v in NAMES.items()}
ATOMS = {'0': 0, '1': 1, '2': 2, '7': 7, '2.5': 2.5, '0.25': .25, '0.5': .5, '1.0': 1.0, '-1': -1}


def atom(x):
    return ATOMS.get(x, x)


def unatom(x):
    if isinstance(x, bool):
        return str(int(x))
    return str(x)


class Type:
    def __init__(self, name, dom, power=False, any=False, default=None, bad=('bad',), grow=None, guard=False):
        self.name, self.dom, self.power, self.any = name, list(dom), power, any
        self.default, self.bad, self.grow = default, list(bad), grow
        # `guard`: a label matches each set of values within it
        self.guard = guard
        # `any`: every value of `dom` is valid, and each of `bad` is not generated

    def tla(self):
        return dict(power=self.power, any=self.any, guard=self.guard, hasdef=self.default is not None,
                    dom=self.dom, order=sorted(['p', 'q', 'w']) if self.power else [], **{'def': self.default or []})

    def py(self, v):
        if self.power:
            return {atom(x) for x in v}
        return atom(v[0])

    def enc(self, x):
        if self.power:
            return sorted(map(unatom, x))
        return [unatom(x)]


class Guards:
    """Type of labels that are guards: sets of values."""
    def __init__(self, values):
        self.values = set(values)

    def add(self, value):
        self.values.add(value)

    def __contains__(self, x):
        return set(x) <= self.values

    def __call__(self, guard, value):
        return set(value) <= set(guard)


class Kind:
    """One graph class: label types and how values are added to their domains."""

    def __init__(self, name, make, nt, et, acc=None, growers=None, player=None):
        self.name, self.make, self.nt, self.et = name, make, nt, et
        self.acc, self.growers, self.player = acc, growers or {}, player

    def cfg(self):
        return dict(nt=[t.tla() for t in self.nt], et=[t.tla() for t in self.et], acc=self.acc is not None)

    def attrs(self, types, l):
        return {('untyped' if k == 0 else types[k - 1].name): (v[0] if k == 0 else types[k - 1].py(v))
                for k, v in l}

    def enc(self, types, d):
        out = list()
        names = [t.name for t in types]
        for k, t in enumerate(types, 1):
            if t.name in d:
                out.append([k, t.enc(d[t.name])])
        for n in d:
            if n not in names:
                out.append([99, [str(n)]])
        return out


def apply(kd, g, o, style):
    """Apply one operation; `style` varies among equivalent API entry points."""
    op = o['op']
    n = NAMES
    if op == 'node':
        a = kd.attrs(kd.nt, o['l'])
        if style % 3 == 0:
            g.states.add(n[o['s']], **a)
        elif style % 3 == 1:
            g.add_node(n[o['s']], attr_dict=a)
        elif a or style % 2:
            g.states.add_from([(n[o['s']], a)])
        else:
            g.states.add_from([n[o['s']]])
    elif op == 'edge':
        a = kd.attrs(kd.et, o['l'])
        u, v = n[o['a']], n[o['b']]
        if style % 4 == 0:
            g.transitions.add(u, v, **a)
        elif style % 4 == 1:
            g.add_edge(u, v, attr_dict=a)
        elif style % 4 == 2:
            g.transitions.add_from([(u, v, a)])
        else:
            g.transitions.add(u, v, a)
    elif op == 'rmnode':
        if style % 2:
            g.states.remove_from([n[o['s']]])
        else:
            g.states.remove(n[o['s']])
    elif op == 'rmedge':
        a = kd.attrs(kd.et, o['l'])
        if style % 3 == 0:
            g.transitions.remove(n[o['a']], n[o['b']], **a)
        elif style % 3 == 1:
            g.transitions.remove_from([(n[o['a']], n[o['b']], a)])
        else:
            g.remove_labeled_edge(n[o['a']], n[o['b']], a)
    elif op == 'rmedges':
        if style % 2:
            g.transitions.remove(n[o['a']], n[o['b']])
        else:
            g.transitions.remove_from([(n[o['a']], n[o['b']])])
    elif op == 'init+':
        ss = [n[s] for s in o['ss']]
        if len(ss) == 1 and style % 3 == 0:
            g.states.initial.add(ss[0])
        elif style % 3 == 1:
            g.states.initial.add_from(ss)
        else:
            g.states.initial |= ss
    elif op == 'init-':
        g.states.initial.remove(n[o['s']])
    elif op == 'acc+':
        s = kd.acc(g)
        ss = [n[x] for x in o['ss']]
        if len(ss) == 1 and style % 2 == 0:
            s.add(ss[0])
        else:
            s.add_from(ss)
    elif op == 'acc-':
        kd.acc(g).remove(n[o['s']])
    elif op == 'relabel':
        t = kd.nt[o['k'] - 1]
        g.states[n[o['s']]][t.name] = t.py(o['v'])
    elif op == 'mut':
        g.states[n[o['s']]][kd.nt[o['k'] - 1].name].add(atom(o['v']))
    elif op in ('nval', 'eval'):
        kd.growers[op, o['k']](g, atom(o['v']))
    elif op == 'deadends':
        with contextlib.redirect_stdout(io.StringIO()):
            g.remove_deadends()
    elif op == 'bulk':
        ops = o['ops']
        how = o['how']
        if how == 'nodes':
            com = kd.attrs(kd.nt, o['common'])
            g.states.add_from([(n[x['s']], kd.attrs(kd.nt, x['own'])) for x in ops], **com)
        elif how == 'edges':
            com = kd.attrs(kd.et, o['common'])
            es = [(n[x['a']], n[x['b']], kd.attrs(kd.et, x['own'])) for x in ops]
            if style % 2:
                g.transitions.add_from(es, **com)
            else:
                g.add_edges_from(es, com)
        elif how == 'comb':
            g.transitions.add_comb(
                [n[x] for x in o['us']], [n[x] for x in o['vs']],
                **kd.attrs(kd.et, o['l']))
        elif how == 'adj':
            import scipy.sparse as sp
            m = sp.lil_array((len(o['us']), len(o['us'])))
            for p, q in o['pairs']:
                m[p, q] = 1
            g.transitions.add_adj(m, [n[x] for x in o['us']], **kd.attrs(kd.et, o['l']))
        elif how == 'rmnodes':
            g.states.remove_from([n[x['s']] for x in ops])
        elif how == 'rmedges':
            g.transitions.remove_from([
                (n[x['a']], n[x['b']], kd.attrs(kd.et, x['l'])) if x['op'] == 'rmedge' else
                (n[x['a']], n[x['b']]) for x in ops])


def name(x):
    return BACK.get(x, repr(x))


def query(kd, g, q, style):
    n = NAMES
    w = q['q']
    frm = [n[s] for s in q['from']] if 'from' in q else None
    to = [n[s] for s in q['to']] if 'to' in q else None
    if w == 'states':
        a = None if q['anylab'] else kd.attrs(kd.nt, q['l'])
        kw = dict()
        if a and style % 2:
            kw, a = a, None
        r = g.states.find(None if q['anyfrom'] else frm, a, **kw)
        return [[name(s), kd.enc(kd.nt, d)] for s, d in r]
    if w == 'edges':
        a = None if q['anylab'] else kd.attrs(kd.et, q['l'])
        kw = dict()
        if a and style % 2:
            kw, a = a, None
        r = g.transitions.find(None if q['anyfrom'] else frm, None if q['anyto'] else to, a, **kw)
        return [[name(u), name(v), kd.enc(kd.et, d)] for u, v, d in r]
    if w == 'post':
        return sorted(map(name, g.states.post(frm)))
    if w == 'pre':
        return sorted(map(name, g.states.pre(frm)))
    if w == 'post0':
        return sorted(map(name, g.states.post()))
    if w == 'fwd':
        return sorted(map(name, g.states.forward_reachable(n[q['s']])))
    if w == 'bwd':
        return sorted(map(name, g.states.backward_reachable(n[q['s']])))
    if w == 'terminal':
        return [name(s) for s in g.states if g.states.is_terminal(s)]
    if w == 'counts':
        return [['states', len(g.states)], ['edges', len(g.transitions)]]
    if w == 'deadends':
        return ['yes' if g.has_deadends() else 'no']
    if w == 'consistent':
        return ['yes' if g.is_consistent() else 'no']
    if w == 'player':
        return [name(s) for s in g.player_states(atom(q['v'][0]))]
    raise vp.MachineryError(w)


def observe(kd, g, ok, o, queries, style):
    V = [name(s) for s in g.states]
    L = [kd.enc(kd.nt, g.states[s]) for s in g.states]
    E = [[name(u), name(v), kd.enc(kd.et, d)] for u, v, d in g.transitions(data=True)]
    qs = list()
    for k, q in enumerate(queries):
        r = vp.guarded(query, kd, g, q, style + k)
        qs.append(dict(q, r=r[1] if r[0] == 'ok' else [f'exception {r[1]} {r[2]}'[:80]]))
    return dict(op=o, ok=ok, V=V, L=L, E=E,
                I=[name(s) for s in g.states.initial],
                A=[name(s) for s in kd.acc(g)] if kd.acc else [], qs=qs)


def do(kd, g, o, style):
    r = vp.guarded(apply, kd, g, o, style)
    return r[0] == 'ok'


def _rabin():
    g = automata.RabinAutomaton()
    g.accepting.add([], [])
    return g


def _moore():
    g = machines.MooreMachine()
    g.add_inputs({'in': {0, 1}})
    g.add_outputs({'out': {0, 1}})
    return g


def _mealy():
    g = machines.MealyMachine()
    g.add_inputs({'in': {0, 1}})
    g.add_outputs({'out': {'x', 'y'}})
    return g


def _grow(path):
    def f(g, v):
        x = g
        for p in path.split('.'):
            x = getattr(x, p)
        x.add(v)
    return f


def kinds():
    ap = lambda: Type('ap', ['p'], power=True, default=[], bad=['w'], grow='q')
    r = list()

    def labeled():
        # the instance documented in LabeledDiGraph
        return LabeledDiGraph(
            [dict(name='color', values={'r', 'g'}, setter=True, default='r'),
             dict(name='size', values={1, 2})],
            [dict(name='day', values={'Mon', 'Tue'}, setter=True, default='Mon'),
             dict(name='w', values=[0, 1])])
    r.append(Kind('LabeledDiGraph', labeled,
                  [Type('color', ['r', 'g'], default=['r'], grow='h'), Type('size', ['1', '2'])],
                  [Type('day', ['Mon', 'Tue'], default=['Mon'], grow='Wed'), Type('w', ['0', '1'])],
                  growers={('nval', 1): lambda g, v: g.color.add(v), ('eval', 1): lambda g, v: g.day.add(v)}))
    r.append(Kind('plain', lambda: LabeledDiGraph(), [], []))

    def guarded():
        g = LabeledDiGraph(
            [dict(name='room', values=Guards(['p'])), dict(name='size', values={1, 2})],
            [dict(name='day', values={'Mon', 'Tue'}), dict(name='when', values=Guards(['p'])), dict(name='where', values=Guards(['p', 'q']))])
        return g
    r.append(Kind('guarded', guarded,
                  [Type('room', ['p'], power=True, bad=['w'], grow='q', guard=True), Type('size', ['1', '2'])],
                  [Type('day', ['Mon', 'Tue']), Type('when', ['p'], power=True, bad=['w'], grow='q', guard=True),
                   Type('where', ['p', 'q'], power=True, bad=['w'], guard=True)],
                  growers={('nval', 1): lambda g, v: g._node_label_types['room'].add(v), ('eval', 2): lambda g, v: g._edge_label_types['when'].add(v)}))

    def fts():
        g = trs.FTS()
        g.atomic_propositions.add('p')
        g.sys_actions.add('s')
        g.env_actions.update({'u'})
        return g
    r.append(Kind('FTS', fts, [ap()],
                  [Type('env_actions', ['u'], grow='u2'), Type('sys_actions', ['s'], grow='s2')],
                  growers={('nval', 1): lambda g, v: g.atomic_propositions.add(v),
                           ('eval', 1): lambda g, v: g.env_actions.add(v),
                           ('eval', 2): lambda g, v: g.sys_actions.add(v)}))

    def kripke():
        g = ts_mod.KripkeStructure()
        g.atomic_propositions.add('p')
        return g
    r.append(Kind('KripkeStructure', kripke, [ap()], [],
                  growers={('nval', 1): lambda g, v: g.atomic_propositions.add(v)}))

    def wks():
        g = ts_mod.WeightedKripkeStructure()
        g.atomic_propositions.add('p')
        return g
    r.append(Kind('WeightedKripkeStructure', wks, [ap()],
                  [Type('cost', ['0', '7', '2.5'], bad=['bad', '-1'])],
                  growers={('nval', 1): lambda g, v: g.ap.add(v)}))

    def mdp():
        g = ts_mod.MarkovDecisionProcess()
        g.atomic_propositions.add('p')
        g.actions.add('m')
        return g
    r.append(Kind('MarkovDecisionProcess', mdp, [ap()],
                  [Type('probability', ['0.25', '0.5', '1.0'], bad=['7', '-1', 'bad']),
                   Type('action', ['m'], grow='m2')],
                  growers={('nval', 1): lambda g, v: g.ap.add(v),
                           ('eval', 2): lambda g, v: g.actions.add(v)}))

    def mc():
        g = ts_mod.MarkovChain()
        g.atomic_propositions.add('p')
        return g
    r.append(Kind('MarkovChain', mc, [ap()], [Type('probability', ['0.25', '0.5', '1.0'], bad=['7', '-1'])],
                  growers={('nval', 1): lambda g, v: g.ap.add(v)}))

    def ba():
        g = automata.BuchiAutomaton()
        g.atomic_propositions.add('p')
        return g
    letter = lambda: Type('letter', ['p'], power=True, bad=['w'], grow='q')
    r.append(Kind('BuchiAutomaton', ba, [], [letter()], acc=lambda g: g.accepting,
                  growers={('eval', 1): lambda g, v: g.atomic_propositions.add(v)}))

    def fsa():
        g = automata.FiniteStateAutomaton(atomic_proposition_based=False)
        g.alphabet.add('l')
        return g
    r.append(Kind('FiniteStateAutomaton', fsa, [], [Type('letter', ['l'], grow='l2')], acc=lambda g: g.accepting,
                  growers={('eval', 1): lambda g, v: g.alphabet.add(v)}))

    def wfsa():
        g = automata.WeightedFiniteStateAutomaton()
        g.atomic_propositions.add('p')
        return g
    r.append(Kind('WeightedFiniteStateAutomaton', wfsa, [], [letter(), Type('cost', ['0', '7'], bad=['-1'])],
                  acc=lambda g: g.accepting,
                  growers={('eval', 1): lambda g, v: g.atomic_propositions.add(v)}))

    def rabin():
        g = automata.RabinAutomaton()
        g.alphabet.add('l')
        g.accepting.add([], [])
        return g
    r.append(Kind('RabinAutomaton-good', rabin, [], [Type('letter', ['l'], grow='l2')],
                  acc=lambda g: g.accepting.good(0),
                  growers={('eval', 1): lambda g, v: g.alphabet.add(v)}))
    r.append(Kind('RabinAutomaton-bad', rabin, [], [Type('letter', ['l'], grow='l2')],
                  acc=lambda g: g.accepting.bad(0),
                  growers={('eval', 1): lambda g, v: g.alphabet.add(v)}))
    r.append(Kind('MealyMachine', _mealy, [], [Type('in', ['0', '1'], bad=['7']), Type('out', ['x', 'y'])]))
    r.append(Kind('MooreMachine', _moore, [Type('out', ['0', '1'], bad=['7'])], [Type('in', ['0', '1'], bad=['7'])]))

    def lgg():
        g = ts_mod.LabeledGameGraph()
        g.atomic_propositions.add('p')
        return g
    r.append(Kind('LabeledGameGraph', lgg, [ap(), Type('player', ['0', '1'], default=['0'], bad=['2'])], [],
                  growers={('nval', 1): lambda g, v: g.ap.add(v)}, player=2))
    r.append(Kind('ParityGame', lambda: automata.ParityGame(3),
                  [Type('color', ['0', '1', '2'], default=['0'], bad=['7']),
                   Type('player', ['0', '1'], default=['0'], bad=['2'])], [], player=2))
    return r
