"""Independent readers of the languages that TuLiP translates formulas and specifications to.

Each reader follows the documentation of the language and returns trees as in tulipparse.
"""
import re

from tulipparse import Malformed, bind

TEMPORAL = {'always', 'eventually', 'until', 'weak', 'release', 'next'}


class Lang:

    def __init__(self, tokens, prec, prefix, words=(), name=r'[A-Za-z_][A-Za-z0-9_]*', prime=False,
                 right=(), propositional=()):
        toks = list(tokens) + [('(', r'\('), (')', r'\)'), ('num', r'\d+'), ('name', name), ('skip', r'[ \t\n]+')]
        if prime:
            toks.insert(0, ("'", r"'"))
        self.kinds = [k for k, _ in toks]
        self.re = re.compile('|'.join(f'(?P<t{k}>{r})' for k, (_, r) in enumerate(toks)))
        self.prec, self.prefix, self.words = prec, prefix, dict(words)
        self.right, self.propositional = set(right), set(propositional)

    def tokens(self, text):
        out, k = list(), 0
        while k < len(text):
            m = self.re.match(text, k)
            if not m:
                raise Malformed(text[k:])
            k = m.end()
            kind = self.kinds[int(m.lastgroup[1:])]
            if kind == 'skip':
                continue
            if kind == 'name' and m.group() in self.words:
                kind = self.words[m.group()]
            out.append((kind, m.group()))
        return out

    def parse(self, text):
        ts = self.tokens(text)
        pos = 0

        def peek():
            return ts[pos][0] if pos < len(ts) else None

        def take(kind=None):
            nonlocal pos
            if pos >= len(ts) or kind is not None and ts[pos][0] != kind:
                raise Malformed(ts[pos:])
            pos += 1
            return ts[pos - 1][1]

        def expr(least):
            k = peek()
            if k in self.prefix:
                take()
                left = dict(op=k, a=[expr(self.prefix[k])])
            elif k == '(':
                take()
                left = expr(0)
                take(')')
            elif k == 'num':
                left = dict(op='lit', n=int(take()))
            elif k == 'sub':
                take()
                left = dict(op='lit', n=-int(take('num')))
            elif k in ('true', 'false'):
                take()
                left = dict(op=k)
            elif k == 'name':
                left = dict(op='name', s=take())
                if peek() == "'":
                    take()
                    left = dict(op='next', a=[left])
            else:
                raise Malformed(ts[pos:])
            while peek() in self.prec and self.prec[peek()] >= least:
                k = peek()
                take()
                left = dict(op=k, a=[left, expr(self.prec[k] + (k not in self.right))])
                if k in self.propositional and any(map(temporal, left['a'])):
                    raise Malformed(f'temporal operand of {k}')
            return left

        r = expr(0)
        if pos != len(ts):
            raise Malformed(ts[pos:])
        return r


def temporal(t):
    return t['op'] in TEMPORAL or any(map(temporal, t.get('a', ())))


CMP = [('neq', '!='), ('le', '<='), ('ge', '>='), ('eq', '='), ('lt', '<'), ('gt', '>')]
PCMP = {'eq': 8, 'neq': 8, 'lt': 8, 'le': 8, 'gt': 8, 'ge': 8}
PBOOL = {'iff': 1, 'imp': 2, 'or': 3, 'and': 4}
ARITH = {'add': 9, 'sub': 9, 'mul': 10}
LANGS = dict(
    gr1c=Lang(
        [('iff', '<->'), ('imp', '->'), ('always', r'\[\]'), ('eventually', '<>'), ('and', '&&?'), ('or', r'\|\|?'),
         *CMP, ('not', '!'), ('sub', '-')],
        {**PBOOL, **PCMP}, {'not': 11, 'always': 5, 'eventually': 5},
        {'True': 'true', 'False': 'false', 'TRUE': 'true', 'FALSE': 'false'}, prime=True),
    slugs=Lang(
        [('iff', '<->'), ('imp', '->'), ('and', r'&&?|/\\'), ('or', r'\|\|?|\\/'), *CMP, ('not', '!'),
         ('add', r'\+'), ('sub', '-')],
        {**PBOOL, **PCMP, 'add': 9, 'sub': 9}, {'not': 11},
        {'TRUE': 'true', 'FALSE': 'false'}, prime=True),
    jtlv=Lang(
        [('iff', '<->'), ('imp', '->'), ('always', r'\[\]'), ('eventually', '<>'), ('and', '&'), ('or', r'\|'),
         *CMP, ('not', '!'), ('sub', '-')],
        {**PBOOL, **PCMP, 'until': 6}, {'not': 11, 'always': 5, 'eventually': 5, 'next': 12},
        {'TRUE': 'true', 'FALSE': 'false', 'next': 'next', 'U': 'until'}, name=r'[A-Za-z_][A-Za-z0-9_.]*'),
    # `&`, `|`, `^` are bitwise
    promela=Lang(
        [('iff', '<->'), ('imp', '->'), ('always', r'\[\]'), ('eventually', '<>'), ('and', '&&'), ('or', r'\|\|'),
         ('bitand', '&'), ('bitor', r'\|'), ('eq', '=='), ('neq', '!='), ('le', '<='), ('ge', '>='), ('lt', '<'),
         ('gt', '>'), ('not', '!'), ('add', r'\+'), ('sub', '-'), ('mul', r'\*')],
        {'iff': 1, 'imp': 2, 'or': 3, 'and': 4, 'until': 2, 'weak': 2, 'release': 2,
         'bitor': 5, 'bitand': 6, 'eq': 7, 'neq': 7, 'le': 8, 'lt': 8, 'gt': 8, 'ge': 8, **ARITH},
        {'not': 11, 'always': 11, 'eventually': 11, 'next': 11},
        {'true': 'true', 'false': 'false', 'X': 'next', 'U': 'until', 'V': 'release', 'W': 'weak'},
        propositional=['bitand', 'bitor', 'eq', 'neq', 'le', 'lt', 'gt', 'ge', 'add', 'sub', 'mul']),
    # as `promela`, but bitwise operators and "next" are read as intended (finding `promela-bitwise`)
    promela_intended=Lang(
        [('iff', '<->'), ('imp', '->'), ('always', r'\[\]'), ('eventually', '<>'), ('and', '&&?'), ('or', r'\|\|?'),
         ('xor', r'\^'), ('eq', '=='), ('neq', '!='), ('le', '<='), ('ge', '>='), ('lt', '<'),
         ('gt', '>'), ('not', '!'), ('add', r'\+'), ('sub', '-'), ('mul', r'\*')],
        {'iff': 1, 'imp': 2, 'or': 3, 'xor': 3, 'and': 4, 'until': 2, 'weak': 2, 'release': 2,
         'eq': 7, 'neq': 7, 'le': 8, 'lt': 8, 'gt': 8, 'ge': 8, **ARITH},
        {'not': 11, 'always': 11, 'eventually': 11, 'next': 11},
        {'true': 'true', 'false': 'false', 'X': 'next', 'U': 'until', 'V': 'release', 'W': 'weak'}),
    # operators X, F, G apply to formulas, not to terms
    smv=Lang(
        [('iff', '<->'), ('imp', '->'), ('and', '&'), ('or', r'\|'), *CMP, ('not', '!'),
         ('add', r'\+'), ('sub', '-'), ('mul', r'\*')],
        {'iff': 2, 'imp': 1, 'or': 3, 'xor': 3, 'and': 4, 'until': 5, 'release': 5, **PCMP, **ARITH},
        {'not': 12, 'always': 6, 'eventually': 6, 'next': 6},
        {'TRUE': 'true', 'FALSE': 'false', 'X': 'next', 'G': 'always', 'F': 'eventually', 'U': 'until',
         'V': 'release', 'xor': 'xor'}, right=['imp'],
        propositional=['eq', 'neq', 'le', 'lt', 'gt', 'ge', 'add', 'sub', 'mul']),
    wring=Lang(
        [('iff', '<->'), ('imp', '->'), ('and', r'\*'), ('or', r'\+'), ('xor', r'\^'), ('eq', '='), ('not', '!')],
        {'iff': 1, 'imp': 2, 'or': 3, 'and': 5, 'xor': 4, 'until': 6, 'release': 6, 'eq': 9},
        {'not': 11, 'always': 11, 'eventually': 11, 'next': 11},
        {'X': 'next', 'G': 'always', 'F': 'eventually', 'U': 'until', 'R': 'release', 'V': 'release'}))


def wring_atoms(t):
    """Atoms are name=0 and name=1; bare 0 and 1 are constants."""
    if t['op'] == 'eq':
        n, v = t['a']
        if n['op'] != 'name' or v['op'] != 'lit' or v['n'] not in (0, 1):
            raise Malformed(t)
        return n if v['n'] else dict(op='not', a=[n])
    if t['op'] == 'lit':
        if t['n'] not in (0, 1):
            raise Malformed(t)
        return dict(op='true' if t['n'] else 'false')
    if t['op'] == 'name':
        raise Malformed(f'bare name {t["s"]} in Wring')
    if 'a' in t:
        return dict(t, a=[wring_atoms(x) for x in t['a']])
    return t


def jtlv_names(t, owners):
    if t['op'] == 'name':
        player, _, n = t['s'].partition('.')
        if owners.get(n) != player:
            raise Malformed(f'owner of {t["s"]}')
        return dict(t, s=n)
    if 'a' in t:
        return dict(t, a=[jtlv_names(x, owners) for x in t['a']])
    return t


def read(lang, text, decls, owners):
    """Formula in `lang`, with numbered variables."""
    t = LANGS[lang].parse(text)
    if lang == 'wring':
        t = wring_atoms(t)
    if lang == 'jtlv':
        t = jtlv_names(t, owners)
    return bind(t, decls)


def split_top(t, op='and'):
    if t['op'] == op:
        return split_top(t['a'][0], op) + split_top(t['a'][1], op)
    return [t]


def strip(t, ops):
    for op in ops:
        if t['op'] != op:
            raise Malformed(f'{op} expected')
        t = t['a'][0]
    return t


def read_gr1c(text, decls, owners):
    """Declarations and clauses of a gr1c specification."""
    out, decl = dict(), list()
    parts = dict(ENVINIT=('env_init', ()), ENVTRANS=('env_safety', ['always']),
                 ENVGOAL=('env_prog', ['always', 'eventually']),
                 SYSINIT=('sys_init', ()), SYSTRANS=('sys_safety', ['always']),
                 SYSGOAL=('sys_prog', ['always', 'eventually']))
    secs = text.split(';')
    if secs[-1].strip():
        raise Malformed('missing ;')
    for s in secs[:-1]:
        head, sep, body = s.partition(':')
        head = head.strip()
        if not sep:
            raise Malformed(s)
        if head in ('ENV', 'SYS'):
            rest = body
            while rest.strip():
                m = re.match(r'\s*([A-Za-z_]\w*)(?:\s*\[\s*(-?\d+)\s*,\s*(-?\d+)\s*\])?(?=\s|$)', rest)
                if not m:
                    raise Malformed(rest)
                decl.append((m.group(1), head.lower(), m.group(2) and (int(m.group(2)), int(m.group(3)))))
                rest = rest[m.end():]
        elif head in parts:
            name, ops = parts[head]
            if name in out:
                raise Malformed('section twice')
            out[name] = list()
            if body.strip():
                t = LANGS['gr1c'].parse(body)
                # initial conditions contain no temporal operators, and conjunctions of them may be split freely
                for c in split_top(t):
                    c = strip(c, ops)
                    out[name].append(bind(c, decls))
        else:
            raise Malformed(head)
    return decl, {p: out.get(p, list()) for p, _ in parts.values()}


def read_slugs(text, decls, owners):
    decl = list()
    parts = dict(ENV_INIT='env_init', ENV_TRANS='env_safety', ENV_LIVENESS='env_prog',
                 SYS_INIT='sys_init', SYS_TRANS='sys_safety', SYS_LIVENESS='sys_prog')
    out = {p: list() for p in parts.values()}
    head = None
    for line in text.split('\n'):
        line = line.strip()
        if not line or line.startswith('#'):
            continue
        if line.startswith('['):
            head = line[1:-1]
            if head not in parts and head not in ('INPUT', 'OUTPUT'):
                raise Malformed(head)
        elif head in ('INPUT', 'OUTPUT'):
            m = re.fullmatch(r'([A-Za-z_]\w*)(?:\s*:\s*(-?\d+)\.\.\.(-?\d+))?', line)
            if not m:
                raise Malformed(line)
            decl.append((m.group(1), dict(INPUT='env', OUTPUT='sys')[head],
                         m.group(2) and (int(m.group(2)), int(m.group(3)))))
        elif head in parts:
            out[parts[head]].append(read('slugs', line, decls, owners))
        else:
            raise Malformed(line)
    return decl, out


def read_jtlv(text, decls, owners):
    body = '\n'.join(line.split('--')[0] for line in text.split('\n'))
    if not body.strip():
        return dict(op='true')
    return read('jtlv', body, decls, owners)
