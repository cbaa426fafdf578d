"""Independent reader of TuLiP LTL syntax (doc/specifications.rst), for oracles.

Returns trees as JSON records: dict(op=..., a=[...]) with ops of spec/Formula.tla, plus
always, eventually, until, weak, release, ite, mul, div, trunc; leaves are
dict(op='name', s=...), dict(op='lit', n=..), dict(op='str', s=..), true, false.
"""
import re

TOKENS = [
    ('trunc', r'<<>>'),
    ('iff', r'<->|<=>'), ('imp', r'->|=>'),
    ('always', r'\[\]'), ('eventually', r'<>'),
    ('and', r'&&|&|/\\'), ('or', r'\|\||\||\\/'),
    ('neq', r'!=|/='), ('le', r'<=|=<'), ('ge', r'>='),
    ('eq', r'='), ('lt', r'<'), ('gt', r'>'), ('xor', r'\^'),
    ('not', r'!|~'), ('(', r'\('), (')', r'\)'), (',', r','), ('"', r'"'), ("'", r"'"),
    ('add', r'\+'), ('sub', r'-'), ('mul', r'\*'), ('div', r'/'),
    ('num', r'\d+'), ('name', r'[A-Za-z_][A-Za-z0-9_.:]*'),
    ('skip', r'[ \t\r\n]+|#[^\n]*'),
]
RE = re.compile('|'.join(f'(?P<t{k}>{r})' for k, (_, r) in enumerate(TOKENS)))
WORDS = {'X': 'next', 'next': 'next', 'G': 'always', 'F': 'eventually', 'U': 'until',
         'W': 'weak', 'V': 'release', 'ite': 'ite'}
PREC = {'iff': 1, 'imp': 2, 'xor': 3, 'or': 4, 'and': 5, 'until': 7, 'weak': 7, 'release': 7,
        'eq': 8, 'neq': 8, 'lt': 9, 'le': 9, 'gt': 9, 'ge': 9, 'add': 10, 'sub': 10,
        'mul': 11, 'div': 11}
PREFIX = {'always': 6, 'eventually': 6, 'not': 12, 'next': 13}


class Malformed(Exception):
    pass


def tokens(text):
    out, k = list(), 0
    while k < len(text):
        m = RE.match(text, k)
        if not m:
            raise Malformed(text[k:])
        k = m.end()
        kind = TOKENS[int(m.lastgroup[1:])][0]
        if kind == 'skip':
            continue
        v = m.group()
        if kind == 'name':
            if v in WORDS:
                kind = WORDS[v]
            elif v.lower() in ('true', 'false'):
                kind = v.lower()
        out.append((kind, v))
    return out


def parse(text):
    ts = tokens(text) if isinstance(text, str) else list(text)
    pos = 0

    def peek():
        return ts[pos][0] if pos < len(ts) else None

    def take(kind=None):
        nonlocal pos
        if pos >= len(ts) or kind is not None and ts[pos][0] != kind:
            raise Malformed(ts[pos:])
        pos += 1
        return ts[pos - 1][1]

    def expr(least):
        k = peek()
        if k in PREFIX:
            take()
            left = dict(op=k, a=[expr(PREFIX[k])])
        elif k == '(':
            take()
            if peek() == 'ite':
                take()
                a = expr(0)
                take(',')
                b = expr(0)
                take(',')
                left = dict(op='ite', a=[a, b, expr(0)])
            else:
                left = expr(0)
            take(')')
        elif k == 'num':
            left = dict(op='lit', n=int(take()))
        elif k == 'sub':
            take()
            left = dict(op='lit', n=-int(take('num')))
        elif k == '"':
            take()
            left = dict(op='str', s=take('name'))
            take('"')
        elif k in ('true', 'false'):
            take()
            left = dict(op=k)
        elif k == 'name':
            left = dict(op='name', s=take())
        else:
            raise Malformed(ts[pos:])
        while True:
            k = peek()
            if k == "'":
                take()
                left = dict(op='next', a=[left])
            elif k == 'trunc':
                take()
                left = dict(op='trunc', a=[left, dict(op='lit', n=int(take('num')))])
            elif k in PREC and PREC[k] >= least:
                take()
                left = dict(op=k, a=[left, expr(PREC[k] + 1)])
            else:
                return left

    r = expr(0)
    if pos != len(ts):
        raise Malformed(ts[pos:])
    return r


def bind(tree, decls):
    """Replace names and strings by numbered variables and literals.

    `decls` maps each name to (number, kind, values) with kind bool/int/enum.
    An unquoted name that is not a variable is the value of the other operand's variable.
    """
    op = tree['op']
    if op in ('true', 'false', 'lit'):
        return tree if op != 'lit' else dict(op='lit', n=tree['n'])
    if op == 'name':
        if tree['s'] not in decls:
            raise Malformed(f'undeclared {tree["s"]}')
        return dict(op='var', v=decls[tree['s']][0])
    if op == 'ite':
        c, a, b = (bind(x, decls) for x in tree['a'])
        n = dict(op='not', a=[c])
        return dict(op='and', a=[dict(op='imp', a=[c, a]), dict(op='imp', a=[n, b])])
    if op == 'str':
        raise Malformed('string outside comparison')
    a = tree['a']
    if op in ('eq', 'neq'):
        c = [x['a'][0] if x['op'] == 'next' else x for x in a]
        if all(x['op'] == 'str' for x in c):
            return dict(op=op, a=[dict(op='lit', n=0), dict(op='lit', n=int(c[0]['s'] != c[1]['s']))])
    if op in ('eq', 'neq'):
        vals = [_enum_of(x, decls) for x in a]
        for j in (0, 1):
            if vals[j] is not None and a[1 - j]['op'] in ('str', 'name', 'lit'):
                s = a[1 - j].get('s', a[1 - j].get('n'))
                if a[1 - j]['op'] != 'name' or s not in decls:
                    vv = [str(v) for v in vals[j]]
                    if str(s) not in vv:
                        raise Malformed(f'{s} not in {vv}')
                    lit = dict(op='lit', n=vv.index(str(s)))
                    other = bind(a[j], decls)
                    return dict(op=op, a=[other, lit] if j == 0 else [lit, other])
        # comparison with Boolean constants or between Boolean variables
        if any(x['op'] in ('true', 'false') for x in a):
            return dict(op='iff' if op == 'eq' else 'xor', a=[bind(x, decls) for x in a])
    return dict(op=op, a=[bind(x, decls) for x in a])


def _enum_of(t, decls):
    while t['op'] == 'next':
        t = t['a'][0]
    if t['op'] == 'name' and t['s'] in decls:
        _, kind, vals = decls[t['s']]
        return vals if kind == 'enum' else None
    return None


def read(text, decls):
    return bind(parse(text), decls)
