"""C23: exports describe exactly the given graph."""
import ast
import copy
import fractions
import itertools
import json
import logging
import os
import re
import shutil
import subprocess
import sys
import tempfile
import types
import warnings
import xml.etree.ElementTree as ET

import vp
import tulip.transys as trs
from tulip.transys.export import graph2promela, machine2scxml, save_d3

NAMES = ['s0', 's1', 's2', 's3', 's4', 'a b', 'a_b', 'a-b', 0, 1, 2, 7, ('x', 1), ('x', 2), ('u', ('v', 0)), 'init', 'end', 'Accept', 'p', 'if', 'goto', -1, 'S', 's_0', 'do']


def stub_stormpy():
    """Module in place of `stormpy`, which is not installed."""
    m = types.ModuleType('stormpy')
    m.storage = types.SimpleNamespace(ModelType=types.SimpleNamespace(DTMC='dtmc', MDP='mdp'))
    m.parse_prism_program = lambda path: parse_prism(open(path).read())
    m.build_model = StormModel
    m.parse_properties = lambda f, program: [f]
    m.model_checking = lambda model, prop, extract_scheduler=False: Result(model, extract_scheduler)
    return m


class StormModel:
    def __init__(self, doc):
        self.model_type = doc['kind']
        self.states = [StormState(k, doc) for k in range(doc['n'])]
        self.initial_states = list(doc['init'])
        self.nr_states = doc['n']


class StormState:
    def __init__(self, k, doc):
        self.id = k
        self.labels = set(doc['lab'][k]) | ({'init'} if k in doc['init'] else set())
        self.actions = [StormAction(a, t) for u, a, t in doc['commands'] if u == k]
        if not self.actions:
            self.labels.add('deadlock')

    def __int__(self):
        return self.id

    def __str__(self):
        return str(self.id)

    __repr__ = __str__


class StormAction:
    def __init__(self, name, trans):
        self.name = name
        self.transitions = [types.SimpleNamespace(column=v, value=lambda p=p: float(p)) for p, v in trans]

    def __str__(self):
        return self.name


class Result:
    """Values that depend on the state; a scheduler that picks the last action."""
    def __init__(self, model, sched):
        self.has_scheduler = sched
        self.scheduler = self

    def at(self, state):
        return 1 / (2 + state.id)

    def get_choice(self, state):
        return types.SimpleNamespace(get_deterministic_choice=lambda: state.actions[-1])


sys.modules.setdefault('stormpy', stub_stormpy())
from tulip.interfaces import stormpy as storm  # noqa: E402


# graphs

def word(x):
    """Canonical text of a value of a label."""
    if isinstance(x, (set, frozenset)) or type(x).__name__ in ('SubSet', 'MathSet'):
        return '{' + ', '.join(sorted(map(str, x))) + '}'
    if isinstance(x, str):
        y = x.strip()
        if re.fullmatch(r'\\?\{.*\\?\}|set\(\)', y) and y not in ('set()', '{}'):
            inner = y.strip('\\{}')
            try:
                return word(set(map(str, ast.literal_eval('{' + inner + '}')))) if inner else '{}'
            except (ValueError, SyntaxError):
                return '{' + ', '.join(sorted(w.strip() for w in inner.split(',') if w.strip())) + '}'
        if y in ('set()', '{}'):
            return '{}'
        return x
    if isinstance(x, list):
        return str(tuple(ast.literal_eval(word(y)) if isinstance(y, list) else y for y in x))
    return str(x)


def ident(x):
    if isinstance(x, list):
        return str(detuple(x))
    return str(x)


def detuple(x):
    return tuple(map(detuple, x)) if isinstance(x, list) else x


def label(d):
    return '; '.join(sorted(f'{k}={word(v)}' for k, v in d.items()))


def graph(g, statelab, edgelab, act=None, acc=None):
    """Record of the graph `g` of the code."""
    order = list(g.states())
    num = {s: k for k, s in enumerate(order, 1)}
    edges = list()
    for u, v, d in g.transitions(data=True):
        d = dict(d)
        a = '' if act is None else str(d.pop(act))
        edges.append(dict(u=num[u], v=num[v], act=a, lbl=edgelab(d)))
    return dict(
        n=len(order), names=[str(s) for s in order],
        lab=[sorted(statelab(dict(g.nodes[s]))) for s in order],
        init=[num[s] for s in g.states.initial],
        acc=[num[s] for s in (acc or [])],
        props=sorted(getattr(g, 'atomic_propositions', [])), edges=edges)


EMPTY = dict(n=0, names=[], lab=[], init=[], acc=[], props=[], edges=[])


def choose_names(rng, n):
    out = list()
    pool = rng.sample(NAMES, len(NAMES)) if rng.random() < .6 else [f's{k}' for k in range(n)]
    for x in pool:
        if str(x) not in map(str, out) and len(out) < n:
            out.append(x)
    return out


def any_model(rng, kind, shape=None):
    """Model of the given kind; `shape` is a graph that TLC generated, or `None`."""
    n = shape['n'] if shape else rng.choice([1, 2, 2, 3, 3, 4])
    names = choose_names(rng, n)
    aps = ['p'] if shape else rng.sample(['p', 'q', 'r1', 'busy'], rng.choice([0, 1, 2, 3]))
    labs = shape['lab'] if shape else [[a for a in aps if rng.random() < .5] for _ in range(n)]
    init = [k - 1 for k in shape['init']] if shape else rng.sample(range(n), rng.randint(1, n))
    if kind in ('mealy', 'moore', 'mc', 'mdp'):
        init = init[:1] if kind != 'moore' else init
    pairs = [(e['u'] - 1, e['v'] - 1, e['lbl']) for e in shape['edges']] if shape else [
        (rng.randrange(n), rng.randrange(n), None) for _ in range(rng.randint(0, 2 * n + 1))]
    mk = dict(fts=trs.FTS, openfts=trs.FTS, ks=trs.KripkeStructure, mealy=trs.MealyMachine, moore=trs.MooreMachine,
              ba=trs.BA, mc=trs.MarkovChain, mdp=trs.MarkovDecisionProcess, wks=trs.WeightedKripkeStructure)[kind]
    g = mk()
    acc = None
    if kind in ('fts', 'openfts', 'ks', 'wks', 'mc', 'mdp', 'ba'):
        g.atomic_propositions.add_from(aps)
    ports = dict()
    if kind in ('mealy', 'moore'):
        ports = rng.choice([dict(c=[0, 1]), dict(c=[0, 1], w=['a', 'b<1', 'd']), dict(w=['a', 'b', 'd&'])])
        if shape:
            ports = dict(c=['a', 'b'])
        outs = rng.choice([dict(), dict(y=[0, 1, 2]), dict(y=[0, 1], z=['on', 'off'])])
        g.add_inputs({k: set(v) for k, v in ports.items()})
        masks = dict()
        if rng.random() < .6 and 'y' in outs and kind == 'mealy':
            shown = rng.choice([[0, 2], [1], [2], []])
            masks = dict(y=lambda v: v in shown)
        g.add_outputs({k: set(v) for k, v in outs.items()}, masks)
    for k in range(n):
        d = dict()
        if kind in ('fts', 'openfts', 'ks', 'wks', 'mc', 'mdp'):
            d = dict(ap=set(labs[k]))
            if not labs[k] and rng.random() < .5:
                d = dict()
        elif kind == 'moore':
            d = {p: rng.choice(v) for p, v in outs.items()}
        g.states.add(names[k], **d)
    g.states.initial.add_from([names[k] for k in init])
    if kind == 'ba':
        acc = rng.sample(names, rng.randint(0, n))
        g.accepting.add_from(acc)
    seen = set()
    acts = ['a', 'b', 'go left']
    if kind in ('fts', 'openfts'):
        g.sys_actions.add_from(acts)
    if kind == 'openfts':
        g.env_actions.add_from(['e0', 'e1'])
    if kind == 'mdp':
        g.actions.add_from(rng.sample([0, 1, 'a', 'go left', ('a', 'b')], 3) if not shape else ['a', 'b'])
    if kind in ('mc', 'mdp'):
        for u in range(n):
            alist = [None] if kind == 'mc' else rng.sample(list(g.actions), rng.choice([0, 1, 2, 3])) if not shape else ['a', 'b']
            for a in alist:
                tgt = rng.sample(range(n), rng.randint(1, n)) if not shape else [v for x, v, b in pairs if x == u and (a is None or a == b)]
                tgt = sorted(set(tgt))
                w = [rng.choice([1, 1, 2, 3, 7, 40000]) for _ in tgt]
                for v, x in zip(tgt, w):
                    p = x / sum(w)
                    if rng.random() < .3:
                        p = fractions.Fraction(x, sum(w))
                    d = dict(probability=p)
                    if a is not None:
                        d['action'] = a
                    g.transitions.add(names[u], names[v], d)
        return g, acc, None
    for u, v, lbl in pairs:
        if kind == 'ks':
            d = dict()
        elif kind == 'wks':
            d = dict(cost=rng.choice([0, 1, 2, 5]))
        elif kind == 'fts':
            d = dict(sys_actions=lbl or rng.choice(acts)) if shape or rng.random() < .8 else dict()
        elif kind == 'openfts':
            d = dict(sys_actions=lbl or rng.choice(acts), env_actions=rng.choice(['e0', 'e1']))
        elif kind == 'ba':
            d = dict(letter=set(a for a in aps if rng.random() < .5))
        else:
            d = {p: rng.choice(vals) for p, vals in ports.items()}
            if lbl:
                d['c'] = lbl
            if kind == 'mealy':
                d |= {p: rng.choice(vals) for p, vals in outs.items()}
        # the code documents what happens when unlabeled, equal edges are added
        key = (u, v, label(d))
        if key in seen or (not d and any(x[:2] == (u, v) for x in seen)) or (u, v, '') in seen:
            continue
        seen.add(key)
        g.transitions.add(names[u], names[v], **d)
        if kind == 'mealy' and outs and rng.random() < .4:
            # differs only in outputs
            e = d | {p: rng.choice(vals) for p, vals in outs.items()}
            key = (u, v, label(e))
            if key not in seen:
                seen.add(key)
                g.transitions.add(names[u], names[v], **e)
    return g, acc, (masks if kind == 'mealy' else None)


# parsers of documents

def parse_promela(s):
    s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
    tok = re.findall(r'"(?:\\.|[^"\\])*"|[A-Za-z_]\w*|\d+|::|->|[(){};:=]|\S', s)
    pos = 0

    def need(x):
        nonlocal pos
        if tok[pos] != x:
            raise ValueError(f'expected {x}, found {tok[pos:pos + 6]}')
        pos += 1

    def skip():
        nonlocal pos
        while pos < len(tok) and tok[pos] == ';':
            pos += 1
    vars_ = list()
    while tok[pos] in ('bool', 'bit'):
        vars_.append(tok[pos + 1])
        pos += 2
        skip()
    need('active'); need('proctype'); pos += 1; need('('); need(')'); need('{')

    def option():
        nonlocal pos
        need('::')
        atomic = tok[pos] == 'atomic'
        if atomic:
            pos += 1
            need('{')
        do = list()
        while True:
            skip()
            if tok[pos] == 'goto':
                goto = tok[pos + 1]
                pos += 2
                skip()
                if atomic:
                    need('}')
                skip()
                return dict(do=do, goto=goto)
            if tok[pos] == 'printf':
                text = tok[pos + 2]
                pos += 4
                text = ast.literal_eval(text) if '\\n' in text else text[1:-1]
                text = text[:-1] if text.endswith('\n') else text
                if text.startswith('State: '):
                    do.append(['state', text[len('State: '):]])
                else:
                    do.append(['edge', label(ast.literal_eval(text))])
            elif tok[pos + 1] == '=':
                val = dict(true='1', false='0').get(tok[pos + 2], tok[pos + 2])
                do.append(['set', tok[pos], val])
                pos += 3
            elif tok[pos] in ('skip', 'true', '1'):
                pos += 1
            else:
                raise ValueError(tok[pos:pos + 6])

    def body():
        nonlocal pos
        opts = list()
        while True:
            skip()
            if tok[pos] == '}' or tok[pos + 1] == ':':
                return opts
            if tok[pos] in ('false', '0'):
                pos += 1
                continue
            need('if')
            while tok[pos] != 'fi':
                opts.append(option())
            need('fi')
            if not opts:
                raise ValueError('if without options')
    start = body()
    blocks = list()
    while tok[pos] != '}':
        name = tok[pos]
        pos += 1
        need(':')
        blocks.append(dict(name=name, opts=body()))
    return dict(vars=vars_, start=start, blocks=blocks)


def spin_accepts(s):
    exe = shutil.which('spin')
    if exe is None:
        return True
    d = tempfile.mkdtemp(dir=vp.SCRATCH)
    try:
        with open(f'{d}/m.pml', 'w') as f:
            f.write(s)
        r = subprocess.run([exe, '-a', 'm.pml'], cwd=d, capture_output=True, text=True, timeout=60)
        return r.returncode == 0 and 'syntax error' not in r.stdout + r.stderr
    finally:
        shutil.rmtree(d)


def parse_scxml(s):
    root = ET.fromstring(s.encode())

    def tag(x):
        return x.tag.rsplit('}', 1)[-1]
    if tag(root) != 'scxml':
        raise ValueError(root.tag)
    ids, edges = list(), list()
    for st in root:
        if tag(st) != 'state':
            raise ValueError(st.tag)
        ids.append(st.get('id'))
    for k, st in enumerate(root, 1):
        for t in st:
            if tag(t) != 'transition' or len(t):
                raise ValueError(t.tag)
            edges.append(dict(u=k, v=ids.index(t.get('target')) + 1, act='', lbl=label(ast.literal_eval(t.get('cond')))))
    return dict(EMPTY, n=len(ids), names=ids, lab=[[] for _ in ids], init=[ids.index(root.get('initial')) + 1], edges=edges)


def parse_d3(s):
    data, = re.findall(r'var graph = (.*);\n\s*function draw', s)
    data = json.loads(data)
    ids, labs = list(), list()
    for d in data['nodes']:
        d = dict(d)
        ids.append(ident(d.pop('id')))
        labs.append(sorted(f'{k}={word(v)}' for k, v in d.items() if word(v) != '{}'))
    edges = list()
    for d in data['links']:
        d = dict(d)
        u, v = d.pop('source'), d.pop('target')
        d.pop('key', None)
        # d3 v3: indices of the array of nodes
        if not (isinstance(u, int) and isinstance(v, int) and 0 <= u < len(ids) and 0 <= v < len(ids)):
            raise ValueError(f'link between {u} and {v}')
        edges.append(dict(u=u + 1, v=v + 1, act='', lbl=label(d)))
    return dict(EMPTY, n=len(ids), names=ids, lab=labs, edges=edges)


DOT_TOKEN = re.compile(r'\s+|("(?:\\.|[^"\\])*"|->|[\[\]={};]|[^\s\[\]={};"]+)', re.S)


def unquote(t):
    return t[1:-1].replace('\\"', '"') if t.startswith('"') else t


def parse_dot(s, tikz):
    toks = [t for t in (m.group(1) for m in DOT_TOKEN.finditer(s)) if t]
    nodes, edges, k, depth = dict(), list(), 0, 0

    def attrs():
        nonlocal k
        d = dict()
        if k < len(toks) and toks[k] == '[':
            k += 1
            while toks[k] != ']':
                d[unquote(toks[k])] = unquote(toks[k + 2])
                k += 3
            k += 1
        return d
    assert toks[0] == 'digraph'
    k = 1 if toks[1] == '{' else 2
    while k < len(toks):
        t = toks[k]
        if t == '{':
            depth += 1
            k += 1
        elif t == '}':
            depth -= 1
            k += 1
        elif t in ('subgraph', ';'):
            k += 1
        elif k + 1 < len(toks) and toks[k + 1] == '=':
            k += 3
        elif t in ('graph', 'node', 'edge'):
            k += 1
            attrs()
        elif k + 1 < len(toks) and toks[k + 1] == '->':
            u, v = unquote(t), unquote(toks[k + 2])
            k += 3
            edges.append((u, v, attrs()))
        else:
            k += 1
            nodes.setdefault(unquote(t), dict()).update(attrs())
    phantom = {u for u, d in nodes.items() if d.get('shape') == 'none' and not d.get('label', 'x').strip('"')}
    for u, v, _ in edges:
        nodes.setdefault(u, dict())
        nodes.setdefault(v, dict())
    ids = [u for u in nodes if u not in phantom]

    def words(x):
        x = x.strip('"')
        for a in (r'\\begin{matrix}', r'\\end{matrix}', r'\begin{matrix}', r'\end{matrix}', '$'):
            x = x.replace(a, '')
        x = re.sub(r'\\?\\mathrm\{([^}]*)\}', r'\1', x)
        x = x.replace('\\\\{', '{').replace('\\\\}', '}').replace('\\{', '{').replace('\\}', '}')
        x = re.sub(r'\s*\n\s*', ' ', x)
        out = list()
        for w in re.split(r'\\\\\\\\ |\\\\\\\\|\\\\n|\\n|\\\\ ', x):
            w = w.strip()
            if w not in ('', ':,', ','):
                m = re.fullmatch(r'([^{]*)(\{.*\})', w)
                w = m.group(1) + word(m.group(2)) if m else w
                out.append(w)
        return out
    init, acc, labs = list(), list(), list()
    out = list()
    for u, v, d in edges:
        if u in phantom:
            init.append(ids.index(v) + 1)
        else:
            out.append(dict(u=ids.index(u) + 1, v=ids.index(v) + 1, act='', lbl=' | '.join(sorted(words(d.get('label', ''))))))
    for j, u in enumerate(ids, 1):
        d = nodes[u]
        if 'initial by arrow' in d.get('style', ''):
            init.append(j)
        if d.get('shape') == 'doublecircle' or re.search(r'\baccepting\b', d.get('style', '')):
            acc.append(j)
        w = words(d.get('texlbl' if tikz else 'label', ''))
        labs.append(sorted(x for x in w[1:] if x != '{}'))
    # one arrow for each initial state
    if len(set(init)) != len(init):
        raise ValueError('initial state marked twice')
    return dict(EMPTY, n=len(ids), names=ids, lab=labs, init=init, acc=acc, edges=out)


def parse_prism(s):
    lines = [x.strip() for x in s.splitlines() if x.strip()]
    kind = lines.pop(0)
    assert kind in ('mdp', 'dtmc')
    assert lines.pop(0).startswith('module ')
    var, hi, init = re.fullmatch(r'(\w+)\s*:\s*\[0\.\.(\d+)\]\s*init\s+(\d+)\s*;', lines.pop(0)).groups()
    n = int(hi) + 1
    commands, lab = list(), [set() for _ in range(n)]
    props = list()
    while lines[0] != 'endmodule':
        act, u, rhs = re.fullmatch(r'\[(\w*)\]\s*' + var + r'\s*=\s*(\d+)\s*->\s*(.*);', lines.pop(0)).groups()
        trans = list()
        for part in rhs.split(' + '):
            p, v = re.fullmatch(r"(\S+)\s*:\s*\(" + var + r"'\s*=\s*(\d+)\)", part.strip()).groups()
            trans.append((p, int(v)))
        if kind == 'mdp' and not act:
            raise ValueError('command without action')
        commands.append((int(u), act, trans))
    lines.pop(0)
    for x in lines:
        name, rhs = re.fullmatch(r'label\s+"([^"]*)"\s*=\s*(\S.*);', x).groups()
        props.append(name)
        if rhs.strip() == 'false':
            continue
        for part in rhs.split('|'):
            u, = re.fullmatch(r'\(?' + var + r'\s*=\s*(\d+)\)?', part.strip()).groups()
            lab[int(u)].add(name)
    # a command for each state and action
    if len({c[:2] for c in commands}) != len(commands):
        raise ValueError('two commands for a state and an action')
    return dict(kind=kind, n=n, init={int(init)}, lab=lab, props=props, commands=commands)


def prism_graph(d):
    return dict(
        EMPTY, n=d['n'], lab=[sorted(x) for x in d['lab']], init=[k + 1 for k in d['init']], props=sorted(d['props']),
        edges=[dict(u=u + 1, v=v + 1, act=a, lbl=repr(float(p))) for u, a, t in d['commands'] for p, v in t])


# records

def nolab(d):
    return []


def all_labels(d):
    return [f'{k}={word(v)}' for k, v in d.items() if word(v) != '{}']


def ap_labels(d):
    return list(d.get('ap', []))


def record(what, g, shows, make, **kw):
    """`make` returns the text and its parser."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = vp.guarded(make, seconds=60)
    if r[0] != 'ok':
        return dict(what=what, g=g, d=EMPTY, shows=sorted(shows), fail=f'export raised {r[1]}', **kw), f'{r[1]} {r[2]}'
    text, parse = r[1]
    try:
        d = parse(text)
    except Exception as e:  # malformed text
        return dict(what=what, g=g, d=EMPTY, shows=sorted(shows), fail='malformed', **kw), f'{type(e).__name__} {e}\n{str(text)[-1500:]}'
    return dict(what=what, g=g, d=d, shows=sorted(shows), fail="", **kw), str(text)[-1500:]


def saved(g, ext):
    d = tempfile.mkdtemp(dir=vp.SCRATCH)
    try:
        path = f'{d}/out.{ext}'
        g.save(path)
        with open(path) as f:
            return f.read()
    finally:
        shutil.rmtree(d)


def promela(rng, shape=None):
    kind = rng.choice(['fts', 'fts', 'fts', 'ks', 'openfts'])
    g, _, _ = any_model(rng, kind, shape)
    rec = graph(g, ap_labels, label)
    if kind == 'fts' and rng.random() < .3:
        g.name = rng.choice(['', 'plant', 'my plant'][:2])

    def make():
        if kind == 'fts' and rng.random() < .6:
            return saved(g, rng.choice(['pml', 'promela', 'Promela'])), parse_promela
        return graph2promela.fts2promela(g, rng.choice([None, 'proc'])), parse_promela
    text = list()

    def both():
        t, p = make()
        text.append(t)
        return t, p
    r = record('promela', rec, [], both, syntax=True)
    if text and (rng.random() < .2 or vp_thorough[0]):
        r[0]['syntax'] = spin_accepts(text[0])
    return r


vp_thorough = [False]


def scxml(rng, shape=None):
    g, _, _ = any_model(rng, 'mealy', shape)
    rec = graph(g, nolab, label)

    def make():
        if rng.random() < .5:
            return saved(g, 'scxml'), parse_scxml
        return machine2scxml.mealy2scxml(g), parse_scxml
    return record('scxml', rec, ['names', 'init'], make)


KINDS = ['fts', 'openfts', 'ks', 'wks', 'mealy', 'moore', 'ba', 'mc', 'mdp']


def d3(rng, shape=None):
    g, acc, _ = any_model(rng, rng.choice(KINDS), shape)
    rec = graph(g, all_labels, label)
    rec['props'] = []

    def make():
        if rng.random() < .5:
            return saved(g, 'html'), parse_d3
        d = tempfile.mkdtemp(dir=vp.SCRATCH)
        try:
            save_d3.labeled_digraph2d3(g, f'{d}/x.html')
            with open(f'{d}/x.html') as f:
                return f.read(), parse_d3
        finally:
            shutil.rmtree(d)
    return record('d3', rec, ['names', 'acts'], make)


def dot(rng, shape=None):
    kind = rng.choice(KINDS + ['mealy'])
    g, acc, masks = any_model(rng, kind, shape)
    tikz = rng.random() < .25

    def edge(d):
        pre = dict(sys_actions='sys:', env_actions='env:', letter='', probability='', action='', cost='')
        out = list()
        for k, v in d.items():
            if masks and k in masks and not masks[k](v):
                continue
            if isinstance(v, tuple):
                v = set(v)
            if k in pre:
                x = pre[k]
            elif kind in ('mealy', 'moore') and k in g.outputs:
                x = f'/{k}:'
            else:
                x = f'{k}:'
            out.append(x + word(v))
        return ' | '.join(sorted(out))

    def state(d):
        if kind == 'moore':
            return [f'/{k}:{v}' for k, v in d.items()]
        return [x for x in [word(v) for k, v in d.items() if k == 'ap'] if x != '{}']
    if kind == 'ks':
        def edge(d):
            return ''
    rec = graph(g, state, edge, acc=acc)
    rec['props'] = []

    def make():
        return g.dot_str(tikz=tikz) if tikz else g.dot_str(), lambda s: parse_dot(s, tikz)
    return record('tikz' if tikz else 'dot', rec, ['names', 'init', 'acc', 'acts'], make)


def prob(d):
    return repr(float(d['probability']))


def prism(rng, shape=None):
    """Export, import of the export, and results for the exported model."""
    kind = rng.choice(['mc', 'mdp', 'mdp'])
    g, _, _ = any_model(rng, kind, shape)
    act = 'action' if kind == 'mdp' else None
    rec = graph(g, ap_labels, prob, act=act)
    if kind == 'mdp':
        for e in rec['edges']:
            e['act'] = 'a:' + e['act']
    d = tempfile.mkdtemp(dir=vp.SCRATCH)
    out = list()
    try:
        path = f'{d}/m.nm'

        def make():
            storm.to_prism_file(g, path)
            with open(path) as f:
                return f.read(), lambda s: prism_graph(parse_prism(s))
        r = record('prism', rec, ['init', 'props'] + (['acts'] if kind == 'mc' else []), make)
        out.append(r)
        if r[0]['fail']:
            return out
        doc = parse_prism(open(path).read())
        # import
        def back():
            h = storm.to_tulip_transys(path)
            if type(h).__name__ != type(g).__name__:
                raise ValueError(type(h))
            return h, lambda h: graph(h, ap_labels, prob, act=act)
        r = record('import', rec, ['init'] + (['acts'] if kind == 'mc' else []), back)
        # propositions that hold nowhere are not in the built model
        out.append(r)
        labs = [tuple(x) for x in rec['lab']]
        if len(set(labs)) != len(labs) or (kind == 'mdp' and any(not [c for c in doc['commands'] if c[0] == k] for k in range(doc['n']))):
            return out
        # results
        where = {tuple(sorted(x)): k for k, x in enumerate(doc['lab'])}
        sched = kind == 'mdp'

        def check():
            res = storm.model_checking(g, 'P=? [F "p"]', path, extract_policy=sched)
            p, pol = res if sched else (res, None)
            return p, pol
        res = vp.guarded(check, seconds=60)
        x = dict(what='results', g=rec, d=EMPTY, shows=[], fail='', values=[], got=[], chosen=[], policy=[])
        log = ''
        if res[0] != 'ok':
            x['fail'] = f'model checking raised {res[1]}'
            log = f"{res[2]}"
        else:
            p, pol = res[1]
            try:
                states = list(g.states())
                # state of the model for each number in the document
                order = [labs.index(tuple(sorted(y))) + 1 for y in doc['lab']]
                for k, s in enumerate(states):
                    j = where[labs[k]]
                    x['values'].append(repr(1 / (2 + j)))
                    x['got'].append(repr(p[s]))
                    if sched:
                        a, t = [c for c in doc['commands'] if c[0] == j][-1][1:]
                        x['chosen'].append([[order[v], repr(float(q))] for q, v in t])
                        x['policy'].append('a:' + str(pol[s]))
            except Exception as e:
                x['fail'] = 'results are not for the states'
                log = repr(e)
        out.append((x, log))
        return out
    finally:
        shutil.rmtree(d)


def body(chk):
    logging.disable(logging.WARNING)
    rng = chk.rng
    vp_thorough[0] = chk.thorough
    cfg = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
    chk.model_check('ExportMC', f'CONSTANTS N = 2 Labels = {{"a", "b"}}\n' + cfg + 'INVARIANT IsProgram AtState Distinct\nPROPERTY Refines\n', workers=8, timeout=800)
    shapes = chk.generate('ExportMC', 'CONSTANTS N = 2 Labels = {"a"}\nINIT Init\nNEXT Never\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\n', workers=1)
    seen, small = set(), list()
    for s in shapes:
        key = json.dumps(s, sort_keys=True)
        if key not in seen:
            seen.add(key)
            small.append(s)
    recs, logs = list(), list()

    def add(x):
        for r in x if isinstance(x, list) else [x]:
            recs.append(r[0])
            logs.append(r[1])
    fns = dict(promela=promela, scxml=scxml, d3=d3, dot=dot, prism=prism)
    for s in small if chk.thorough else rng.sample(small, min(len(small), 120)):
        for fn in fns.values():
            add(fn(rng, s))
    for fn in fns.values():
        for _ in range(chk.pick(250, 3000)):
            add(fn(rng))
    for r, log, bad in zip(recs, logs, chk.validate('ExportTrace', recs)):
        for clause in bad:
            chk.violation(f'{r["what"]} {clause}', f'{r["what"]} {clause}: {r["g"]} {log}'[:5000], r)
        chk.bump(r['what'])
        if r['g']['edges']:
            chk.bump(r['what'] + '_with_transitions')
    cor = list()
    for what in ('promela', 'scxml', 'd3', 'dot', 'tikz', 'prism', 'import', 'results'):
        for r in [r for r in recs if r['what'] == what and len(r['g']['edges']) > 1 and not r['fail']][:10]:
            s = copy.deepcopy(r)
            if what == 'results':
                s['got'][0] = '9'
            elif what == 'promela':
                s['d']['blocks'][s['g']['edges'][0]['u'] - 1]['opts'] = []
            elif rng.random() < .5:
                s['d']['edges'].pop()
            else:
                s['d']['edges'][0]['lbl'] += '?'
            cor.append(s)
    chk.binding('ExportTrace', cor)
    chk.sample(recs[0])
    chk.sample(recs[-1])
    chk.assumptions += ['the names of states have different texts',
                        'stormpy is not installed: a stand-in reads the PRISM file, and names actions as in the file',
                        'the HTML export does not show which states are initial or accepting']


if __name__ == '__main__':
    vp.main('C23', body)
