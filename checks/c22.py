"""C22: strategies and automata of external tools load faithfully."""
import copy
import itertools
import json
import logging
import os
import random
import re
import shutil
import stat
import sys
import tempfile
import warnings
from xml.sax.saxutils import quoteattr, escape

import vp
from tulip.interfaces import gr1c, lily, ltl2ba, slugs
from tulip.spec import GRSpec

SH = {
    # gr1c: version, strategies, and sessions
    'gr1c': '#!/bin/sh\ncase "$1" in\n-V) echo "gr1c 0.13.0";;\n-i) exec "$FAKE_PYTHON" "$FAKE_DIR/server.py";;\n'
            '*) cat > /dev/null; cat "$FAKE_DIR/out"; exit $(cat "$FAKE_DIR/rc");;\nesac\n',
    'slugs': '#!/bin/sh\ncat "$FAKE_DIR/err" >&2\ncat "$FAKE_DIR/out"\nexit $(cat "$FAKE_DIR/rc")\n',
    'ltl2ba': '#!/bin/sh\nif [ "$1" = "-h" ]; then echo usage; exit 1; fi\ncat "$FAKE_DIR/out"\n',
    'lily.pl': '#!/bin/sh\ncp "$FAKE_DIR/out" ltl2vl-synthesis.dot\n'}
SERVER = '''
import json, os, sys
d = os.environ['FAKE_DIR']
replies = json.load(open(d + '/replies'))
log = open(d + '/log', 'w')
goals = replies.pop(0)
while True:
    sys.stdout.write('>>> '); sys.stdout.flush()
    line = sys.stdin.readline()
    if not line:
        break
    line = line.strip()
    if line == 'quit':
        break
    log.write(line + '\\n'); log.flush()
    if line == 'numgoals':
        sys.stdout.write(f'{goals}\\n')
    else:
        sys.stdout.write(replies.pop(0))
    sys.stdout.flush()
'''


class Tools:
    """Directory with stand-ins for the external tools, first in PATH."""
    def __enter__(self):
        self.dir = tempfile.mkdtemp(dir=vp.SCRATCH)
        os.makedirs(f'{self.dir}/bin')
        os.makedirs(f'{self.dir}/tools/StructuredSlugsParser')
        for k, v in SH.items():
            self.write(f'bin/{k}', v)
            os.chmod(f'{self.dir}/bin/{k}', stat.S_IRWXU)
        os.symlink(sys.executable, f'{self.dir}/bin/python')
        self.write('tools/StructuredSlugsParser/compiler.py', 'print("[INPUT]")\n')
        self.write('server.py', SERVER)
        self.env = dict(os.environ)
        self.cwd = os.getcwd()
        os.environ.update(PATH=f'{self.dir}/bin:' + os.environ.get('PATH', ''), FAKE_DIR=self.dir, FAKE_PYTHON=sys.executable,
                          TMPDIR=self.dir)
        tempfile.tempdir = self.dir
        os.chdir(self.dir)
        return self

    def write(self, name, text):
        with open(f'{self.dir}/{name}', 'w') as f:
            f.write(text)

    def __exit__(self, *a):
        os.chdir(self.cwd)
        os.environ.clear()
        os.environ.update(self.env)
        tempfile.tempdir = None
        shutil.rmtree(self.dir)


NONE = dict(fail='', shows_init=True)


def observed(what, doc, fn, text, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = vp.guarded(fn, seconds=60)
    rec = dict(NONE, what=what, d=doc, **kw)
    if r[0] == 'ok':
        rec['got'] = r[1]
        return rec, str(text)[-2500:]
    rec.update(got=0, fail=f'load raised {r[1]}')
    return rec, f'{r[1]} {r[2]}\n{text}'[:2500]


# gr1c

def strategy_doc(rng, xml):
    names = rng.sample(['x', 'y', 'z', 'loc', 'a0', 'b_1'], rng.randint(1, 5))
    ne = rng.randint(0, len(names))
    types = [rng.choice(['boolean', [0, 1], [0, 3], [1, 5]]) for _ in names]
    n = rng.choice([0, 1, 1, 2, 3, 5, 8]) if not xml else rng.choice([1, 2, 3, 5, 8])
    ids = [str(k) for k in rng.sample(range(12), n)] if xml else [f'0x1E8F{k:03X}' for k in rng.sample(range(4000), n)]
    nodes = list()
    for u in ids:
        vals = [rng.randint(*((0, 1) if t == 'boolean' else t)) for t in types]
        note = rng.choice([[], [rng.randint(0, 3), rng.randint(1, 4)]]) if xml else [rng.randint(0, 3), rng.randint(1, 4)]
        nodes.append(dict(id=u, vals=vals, note=[str(x) for x in note or [-1, -1]], given=bool(note), init=rng.random() < .4,
                          next=sorted(rng.sample(ids, rng.randint(0, n)))))
    return dict(vars=[[v, typ(t)] for v, t in zip(names, types)], nodes=nodes), names, types, ne


def typ(t):
    return t if isinstance(t, str) else f'[{t[0]},{t[1]}]'


def strategy_seen(g, names):
    return dict(
        nodes=[dict(id=str(u), vals=[[k, int(v)] for k, v in d['state'].items()], note=[str(d['mode']), str(d['rgrad'])]) for u, d in g.nodes(data=True)],
        edges=[[str(u), str(v)] for u, v in g.edges()],
        init=[str(u) for u in getattr(g, 'initial_nodes', [])],
        vars=[[k, typ(list(t) if not isinstance(t, str) else t)] for k, t in itertools.chain(g.env_vars.items(), g.sys_vars.items())])


def gr1c_json(rng, tools):
    d, names, types, ne = strategy_doc(rng, False)
    nodes = {x['id']: dict(state=x['vals'], mode=int(x['note'][0]), rgrad=int(x['note'][1]), initial=x['init'], trans=x['next']) for x in d['nodes']}
    js = dict(version=1, gr1c='0.13.0', date='2015-10-10 16:56:17', extra='')
    js['ENV'] = [{v: t} for v, t in zip(names[:ne], types)]
    js['SYS'] = [{v: t} for v, t in zip(names[ne:], types[ne:])]
    js['nodes'] = nodes
    text = json.dumps(js, indent=rng.choice([None, 1]))
    how = rng.choice(['str', 'file', 'mealy', 'synth', 'synth'])
    tools.write('out', text)
    tools.write('rc', '0')

    def load():
        if how == 'str':
            g = gr1c.load_aut_json(text)
        elif how == 'file':
            with open(f'{tools.dir}/out') as f:
                g = gr1c.load_aut_json(f)
        elif how == 'mealy':
            g = gr1c.load_mealy(f'{tools.dir}/out', 'json')
        else:
            dom = [t if isinstance(t, str) else tuple(t) for t in types]
            g = gr1c.synthesize(GRSpec(dict(zip(names[:ne], dom)), dict(zip(names[ne:], dom[ne:])), moore=False, plus_one=False, qinit=r'\A \E'))
        return strategy_seen(g, names)
    return observed('json', d, load, text)


def gr1c_xml(rng, tools):
    d, names, types, ne = strategy_doc(rng, True)
    ns = rng.choice([gr1c.DEFAULT_NAMESPACE] * 3 + ['', 'urn:other'])

    def items(tag, a):
        return f'<{tag}>' + ''.join(f'<item key={quoteattr(str(k))} value={quoteattr(str(v))} />' for k, v in a) + f'</{tag}>'
    spec_given = rng.random() < .5
    clauses = {k: rng.sample(['(x) & (y)', "a -> X b", 'True'], rng.randint(0, 2)) if spec_given else []
               for k in ('env_init', 'env_safety', 'env_prog', 'sys_init', 'sys_safety', 'sys_prog')}
    s = '<?xml version="1.0" encoding="UTF-8"?>\n' if rng.random() < .7 else ''
    s += '<tulipcon' + (f' xmlns="{ns}"' if ns else '') + ' version="1">\n'
    s += items('env_vars', zip(names[:ne], map(typ, types))) + '\n' + items('sys_vars', zip(names[ne:], map(typ, types[ne:]))) + '\n<spec>'
    for k, v in clauses.items():
        s += f'<{k}>' + ''.join(f'<litem value={quoteattr(x)} />' for x in v) + f'</{k}>'
    s += '</spec>\n<aut type="basic">\n'
    compact = rng.random() < .4
    body = list()
    for x in d['nodes']:
        note = ' '.join(x['note']) if x['given'] else ''
        body.append(f'<node>\n<id>{x["id"]}</id><anno>{note}</anno><child_list> {" ".join(x["next"])}</child_list>\n' +
                    items('state', zip(names, x['vals'])) + '</node>')
    s += '\n'.join(body) + '\n</aut>\n<extra></extra>\n</tulipcon>\n'
    if compact:
        s = re.sub(r'>\s+<', '><', s)
    tools.write('out', s)

    def load():
        if ns == gr1c.DEFAULT_NAMESPACE and rng.random() < .5:
            g = gr1c.load_mealy(f'{tools.dir}/out') if rng.random() < .5 else gr1c.load_mealy(f'{tools.dir}/out', 'tulipxml')
        elif ns == gr1c.DEFAULT_NAMESPACE:
            g = gr1c.load_aut_xml(s)
        else:
            g = gr1c.load_aut_xml(s, namespace=ns)
        return strategy_seen(g, names)
    return observed('xml', d, load, s, shows_init=False)


# slugs

def slugs_strategy(rng, tools):
    names = rng.sample(['x', 'y', 'z', 'loc', 'a0', 'b'], rng.randint(1, 4))
    doms = [rng.choice(['boolean', (0, 1), (0, 2), (0, 3), (0, 7), (0, 8), (0, 30), (0, 1023), (0, 1500), (0, 5000)]) for _ in names]
    bits = list()
    for v, dom in zip(names, doms):
        w = 1 if dom == 'boolean' else dom[1].bit_length()
        bits += [(v, k, v if dom == 'boolean' else f'{v}@{k}' + (f'.{dom[0]}.{dom[1]}' if k == 0 else '')) for k in range(w)]
    if rng.random() < .7:
        rng.shuffle(bits)
    n = rng.choice([1, 2, 4, 6])
    nodes = list()
    for u in range(n):
        value = {v: rng.randint(0, 1 if dom == 'boolean' else dom[1]) for v, dom in zip(names, doms)}
        nodes.append(dict(id=str(u), bits=[value[v] >> k & 1 for v, k, _ in bits], next=[str(v) for v in sorted(rng.sample(range(n), rng.randint(0, n)))]))
    d = dict(ints=names, bits=[[v, k] for v, k, _ in bits], nodes=nodes)
    js = dict(version=0, slugs='0.0.1', variables=[b for _, _, b in bits],
              nodes={x['id']: dict(rank=0, state=x['bits'], trans=[int(v) for v in x['next']]) for x in nodes})
    text = json.dumps(js)
    real = rng.random() < .9
    tools.write('rc', '0')
    tools.write('err', 'SLUGS: ...\nRESULT: Specification is ' + ('realizable.\n' if real else 'unrealizable.\n'))
    tools.write('out', text if real else '')
    ne = rng.randint(0, len(names))
    spec = GRSpec(dict(zip(names[:ne], doms)), dict(zip(names[ne:], doms[ne:])), moore=False, plus_one=False, qinit=r'\A \E')
    if not real or rng.random() < .1:
        def decide():
            return [slugs.check_realizable(spec), slugs.synthesize(spec) is not None]
        return observed('verdict', [real, real], decide, text)

    def load():
        g = slugs.synthesize(spec)
        return dict(nodes=[dict(id=str(u), vals=[[k, int(v)] for k, v in a['state'].items()]) for u, a in g.nodes(data=True)],
                    edges=[[str(u), str(v)] for u, v in g.edges()])
    return observed('slugs', d, load, f'{doms} {text}')


# ltl2ba

def never_claim(rng, tools):
    """Claim as `ltl2ba` (Oddoux, Gastin) prints it."""
    props = rng.sample(['p', 'q', 'r', 'home', 'init_x', 'acceptp', 'falsex', 'ifa'], rng.randint(1, 3))
    n = rng.choice([1, 1, 2, 3, 4])
    kind = rng.choice(['all', 'none', 'usual', 'usual', 'usual', 'usual'])
    states = list()
    for k in range(n):
        acc = rng.random() < .4
        pre = 'accept' if acc else f'T{rng.randint(0, 2)}'
        states.append(dict(name=f'{pre}_init' if k == 0 else f'{pre}_S{k + 1}', init=k == 0, acc=acc, kind='if', opts=[]))
    if kind == 'none':
        states = [dict(name='T0_init', init=True, acc=False, kind='false', opts=[])]
    elif kind == 'all':
        states = [dict(name='accept_init', init=True, acc=True, kind='if', opts=[[[[]], 'accept_init']])]
    else:
        if rng.random() < .5:
            states.append(dict(name='accept_all', init=False, acc=True, kind='skip', opts=[]))
        for s in states:
            if s['kind'] == 'skip':
                continue
            targets = rng.sample([t['name'] for t in states], rng.randint(0, len(states)))
            for t in targets:
                guard = list()
                for _ in range(rng.choice([1, 1, 2, 3])):
                    c = [[p, rng.randint(0, 1)] for p in props if rng.random() < .5]
                    guard.append(c)
                s['opts'].append([guard, t])
            if not s['opts']:
                s['kind'] = 'false'

    def conj(c):
        return '1' if not c else ' && '.join(p if b else f'!{p}' for p, b in c)
    s = 'never { /* ' + rng.choice(['[]<>p', '!(a U b)', 'X p -> q', '(p && q) || !r', '[](p -> <>q)']) + ' */\n'
    if rng.random() < .3:
        s = s.replace('{ /*', '{    /*')
    for x in states:
        s += x['name'] + ':\n'
        if x['kind'] == 'skip':
            s += '\tskip\n'
        elif x['kind'] == 'false':
            s += '\tfalse;\n'
        else:
            s += '\tif\n'
            for g, t in x['opts']:
                s += '\t:: ' + ' || '.join(f'({conj(c)})' for c in g) + f' -> goto {t}\n'
            s += '\tfi;\n'
    s += '}\n'
    d = dict(states=states)
    mentioned = sorted({p for x in states for g, _ in x['opts'] for c in g for p, _ in c})

    def sats(guard):
        code = compile(str(guard), 'guard', 'eval')
        return [[p for p, b in zip(mentioned, v) if b] for v in itertools.product([0, 1], repeat=len(mentioned))
                if eval(code, dict(zip(mentioned, v)))]

    def load():
        if how == 'parser':
            symbols, g, init, acc = parser.parse(s)
            assert all(v == 'boolean' for v in symbols.values())
            edges = [[u, sats(x['guard']), v] for u, v, x in g.edges(data=True)]
            return dict(nodes=list(g), init=list(init), acc=list(acc), props=list(symbols), edges=edges)
        tools.write('out', s)
        ba = ltl2ba.ltl2ba('[]<>p')
        edges = [[u, sats(x.get('letter', x.get('guard'))), v] for u, v, x in ba.edges(data=True)]
        return dict(nodes=list(ba), init=list(ba.states.initial), acc=list(ba.accepting), props=list(ba.atomic_propositions), edges=edges)
    how = rng.choice(['parser', 'parser', 'call'])
    parser = PARSERS[rng.randrange(2)]
    return observed('ltl2ba', d, load, s)


PARSERS = list()


# Lily

def lily_game(rng, tools):
    ins = rng.sample(['a', 'b', 'req'], rng.randint(1, 2))
    outs = rng.sample(['g', 'ack', 'c1'], rng.randint(1, 2))
    n = rng.choice([1, 2, 3, 4])
    sysn = [f'n{k}' for k in range(n)]
    envs, env = list(), list()
    nodes = list()
    for k, u in enumerate(sysn):
        o = [[p, rng.randint(0, 1)] for p in outs]
        if rng.random() < .2:
            e = rng.choice(sysn)
        elif envs and rng.random() < .2:
            e = rng.choice(envs)
        else:
            e = f'm{k}'
            envs.append(e)
            # total: each valuation of inputs leads to a node
            seen = set()
            for v in itertools.product([0, 1], repeat=len(ins)):
                if rng.random() < .3 and seen:
                    continue
                seen.add(v)
                env.append([e, [[p, x] for p, x in zip(ins, v)], rng.choice(sysn)])
        nodes.append(dict(name=u, init=k == 0 or rng.random() < .3, outs=o, env=e))
    # inputs that do not matter
    cubes = list()
    for e, q, w in env:
        q = [x for x in q if rng.random() < .8] or q[:1]
        if [e, q, w] not in cubes:
            cubes.append([e, q, w])
    env = cubes
    d = dict(sys=nodes, env=env)

    def lab(q):
        return ' '.join(f'{p}={x}' for p, x in q)
    body = [f'"{x["name"]}" [shape=box];' for x in nodes] + [f'"{e}" [label="{e}"];' for e in envs]
    body += [f'"init-{x["name"]}" [style=invis,shape=none];' for x in nodes if x['init']]
    body += [f'"init-{x["name"]}" -> "{x["name"]}" [label=""];' for x in nodes if x['init']]
    body += [f'"{x["name"]}" -> "{x["env"]}" [label="{lab(x["outs"])}"];' for x in nodes]
    body += [f'"{e}" -> "{w}" [label="{lab(q)}"];' for e, q, w in env]
    rng.shuffle(body)
    s = 'digraph "synthesis" {\nsize = "7.5,10"\n"title" [label="game",shape=plaintext];\n' + '\n'.join(body) + '\n}\n'
    real = rng.random() < .9
    tools.write('out', s if real else 'Formula is not realizable\n')
    call = rng.random() < .4 or not real

    def load():
        if call:
            m = lily.synthesize(f'[]({outs[0]} || !{outs[0]}) && []({ins[0]} || !{ins[0]})', {v: 'boolean' for v in ins}, {v: 'boolean' for v in outs})
        else:
            m = lily._lily_strategy2moore(s, ins, outs)
        if not real:
            return m is not None
        num = {u: k for k, u in enumerate(m, 1)}
        return dict(nodes=[[[p, int(x)] for p, x in a.items()] for _, a in m.nodes(data=True)],
                    init=[num[u] for u in m.states.initial],
                    edges=[[num[u], [[p, int(x)] for p, x in a.items()], num[v]] for u, v, a in m.edges(data=True)])
    if not real:
        return observed('verdict', False, load, s)
    return observed('lily', d, load, s)


# sessions

def session(rng, tools):
    env = rng.sample(['x', 'ze', 'w'], rng.randint(1, 3))
    sys_ = rng.sample(['y', 'zs', 'v'], rng.randint(1, 3))
    goals = rng.randint(1, 4)
    cmds, replies, texts = list(), list(), [goals]
    for _ in range(rng.randint(1, 7)):
        op = rng.choice(['winning', 'getindex', 'envnext', 'sysnext', 'sysnexta', 'numgoals', 'var'])
        c = dict(op=op, state={v: str(rng.randint(0, 3)) for v in env + sys_}, move={v: str(rng.randint(0, 3)) for v in env}, goal=str(rng.randrange(goals)))
        if op in ('winning',):
            r = rng.choice(['True', 'False'])
            texts.append(r + '\n')
        elif op == 'getindex':
            r = str(rng.randint(-1, 12))
            texts.append(r + '\n')
        elif op == 'numgoals':
            r = str(goals)
        elif op == 'var':
            r = ', '.join(f'{v} ({k})' for k, v in enumerate(env + sys_))
            texts.append(r + '\n')
        else:
            w = len(env if op == 'envnext' else sys_)
            r = [[str(rng.randint(0, 12)) for _ in range(w)] for _ in range(rng.choice([0, 1, 2, 3]))]
            texts.append(''.join(' '.join(x) + '\n' for x in r) + '---\n')
        cmds.append(c)
        replies.append(r)
    tools.write('replies', json.dumps(texts))

    def run():
        s = gr1c.GR1CSession('spec.spc', sys_, env)
        out = list()
        for c in cmds:
            st = {k: int(v) for k, v in c['state'].items()}
            # order of keys does not matter
            st = dict(rng.sample(list(st.items()), len(st)))
            mv = {k: int(v) for k, v in c['move'].items()}
            mv = dict(rng.sample(list(mv.items()), len(mv)))
            g = int(c['goal'])
            a = dict(winning=lambda: str(s.iswinning(st)), getindex=lambda: str(s.getindex(st, g)),
                     envnext=lambda: s.env_next(st), sysnext=lambda: s.sys_nextfeas(st, mv, g),
                     sysnexta=lambda: s.sys_nexta(st, mv), numgoals=lambda: str(s.numgoals()), var=s.getvars)[c['op']]()
            if isinstance(a, list):
                a = [[[k, str(v)] for k, v in x.items()] for x in a]
            out.append(a)
        assert s.close()
        with open(f'{tools.dir}/log') as f:
            lines = [x.split() for x in f.read().splitlines()]
        return dict(answers=out, lines=lines)
    return observed('session', 0, run, texts, env=env, sys=sys_, cmds=cmds, replies=replies)


def body(chk):
    logging.disable(logging.ERROR)
    rng = chk.rng
    cfg = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
    chk.model_check('LoaderMC', f'CONSTANTS Depth = {chk.pick(4, 6)} MaxLines = {chk.pick(2, 3)}\n' + cfg + 'INVARIANTS InStep NotStuck Bits\n', workers=8, timeout=800)
    recs, logs = list(), list()
    with Tools() as tools:
        PARSERS.extend([ltl2ba.Parser(), ltl2ba.Parser()])
        for fn, q in ((gr1c_json, 200), (gr1c_xml, 300), (slugs_strategy, 150), (never_claim, 400), (lily_game, 250), (session, 80)):
            for _ in range(chk.pick(q, q * 10)):
                r, log = fn(rng, tools)
                recs.append(r)
                logs.append(log)
    for r, log, bad in zip(recs, logs, chk.validate('LoaderTrace', recs)):
        for clause in bad:
            chk.violation(f'{r["what"]} {clause}', f'{r["what"]} {clause}: {log} {r["got"]}'[:5000], r)
        chk.bump(r['what'])
    cor = list()
    for what in ('json', 'xml', 'slugs', 'ltl2ba', 'lily', 'session'):
        done = 0
        for r in recs:
            if r['what'] != what or r['fail'] or done == 10:
                continue
            s = copy.deepcopy(r)
            if what == 'session':
                s['got']['lines'].pop()
            elif s['got']['edges']:
                s['got']['edges'].pop()
                if what in ('ltl2ba',) and s['got']['edges'] and r['got']['edges'][-1] in s['got']['edges']:
                    continue
            else:
                continue
            done += 1
            cor.append(s)
    chk.binding('LoaderTrace', cor)
    chk.sample(recs[0])
    chk.sample(recs[-1])
    chk.assumptions += ['the tools are not installed: scripts that print generated texts stand in for them',
                        'never claims are as printed by ltl2ba of Oddoux and Gastin', 'the syntax of Lily games is the one that the loader expects',
                        'integers in strategies of slugs have minimum 0']


if __name__ == '__main__':
    vp.main('C22', body)
