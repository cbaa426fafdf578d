"""C04: parsing and printing of formulas."""
import re
import string
import warnings

import tulip.spec.lexyacc as lexyacc
import tulip.spec.parser as parser
import vp

SPELL = {
    '<->': ['<->', '<=>'], '->': ['->', '=>'], '^': ['^'], '|': ['|', '||', '\\/'],
    '&': ['&', '&&', '/\\'], 'G': ['[]', 'G'], 'F': ['<>', 'F'], 'U': ['U'], 'W': ['W'], 'V': ['V'],
    '=': ['='], '!=': ['!=', '/='], '<': ['<'], '<=': ['<=', '=<'], '>': ['>'], '>=': ['>='],
    '+': ['+'], '-': ['-'], '*': ['*'], '/': ['/'], '!': ['!', '~'], 'X': ['X', 'next'], "'": ["'"],
    '(': ['('], ')': [')'], ',': [','], 'ite': ['ite'], '"': ['"'],
    'True': ['True', 'TRUE', 'true', 'tRUE'], 'False': ['False', 'FALSE', 'false'], 'trunc': ['<<>>'],
}
WORDS = {
    'X': ['next'], 'G': ['always'], 'F': ['eventually'], 'U': ['until', 'stronguntil'],
    'W': ['weakuntil', 'unless'], 'V': ['release'], '->': ['implies'], '<->': ['equivalent'],
    '!': ['not'], '&': ['and'], '|': ['or']}
ALIKE = [['U', 'W', 'V'], ['=', '!='], ['<', '<=', '>', '>='], ['+', '-'], ['*', '/'], ['G', 'F'], ['name', 'num']]
ALIKE = {k: g for g in ALIKE for k in g}
NAMES = ['a', 'b', 'c1', 'Xa', 'loc', 'x_1', '_p', 'Gx', 'nextp', 'true1', 'a.b', 'p:q', 'ite2', 'andy', 'UU',
         'T', 'Z9', 'fALSEx', 'z']
BLANK = [' ', ' ', '  ', '\t', '\n', ' \r\n ', ' # note & comment (\n', '\n\n', '# | b\n', '\n#\n', '#"\n']
BIN = ['<->', '->', '^', '|', '&', 'U', 'W', 'V', '=', '!=', '<', '<=', '>', '>=', '+', '-', '*', '/']
PREC = {'<->': 1, '->': 2, '^': 3, '|': 4, '&': 5, 'U': 7, 'W': 7, 'V': 7, '=': 8, '!=': 8, '<': 9,
        '<=': 9, '>': 9, '>=': 9, '+': 10, '-': 10, '*': 11, '/': 11}
# spellings of operators that the printer does not know (finding `print-alternative-spelling`)
ALTERNATIVE = {'~': '!', '/=': '!=', '=<': '<=', '=>': '->', '<=>': '<->'}
# inputs of the known findings
PROBES = {
    'name-swallows-symbols': [('a^b', False), ('p[]q', False), ('a\\/b', False)],
    'unknown-character-dropped': [('a $ & b', False), ('a ? b', False), ('{a} | b', False)],
    'print-alternative-spelling': [('~ a', False), ('a => b', False), ('a /= 1', False), ('a =< 1', False), ('a <=> b', False)],
    'print-string-unquoted': [('a = "u"', False)],
    'full-operator-adjacent': [('a=eventually b', True), ('a weakuntil!next b', True)],
}


def affected(text, full):
    """Do known findings change how this text is read, how its tree is printed?"""
    t = re.sub('#[^\n]*', '', text)
    # the name swallows the character
    reads = re.search(r'[A-Za-z_][\w.:]*[\^\[\]\\`]', t) is not None
    # characters that are in no token are dropped
    rest = re.sub(r'\[\]|\\/|/\\|[A-Za-z_][A-Za-z0-9_.:]*|[0-9]+|[- \t\r\n&|^<>=!~()+*/\'",]', '', t)
    reads = reads or rest != ''
    if full:
        words = '|'.join(w for ws in WORDS.values() for w in ws)
        reads = reads or re.search(rf'(?i)([^\s(]\b({words})\b|\b({words})\b[^\s)])', t) is not None
    return reads, '"' in t


def tree(u):
    """Syntax tree as the code represents it."""
    c = type(u).__name__
    if hasattr(u, 'operands'):
        v = str(u.operator)
        v = 'trunc' if v == '<<>>' else ALTERNATIVE.get(v, v)
        return dict(c=c, v=v, a=[tree(x) for x in u.operands])
    return dict(c=c, v=str(u.value), a=[])


def spellings(u):
    if not hasattr(u, 'operands'):
        return set()
    return {str(u.operator)}.union(*map(spellings, u.operands))


def spell(kinds, rng, full=False, tight=False, vary=True):
    """Text of a sequence of token kinds."""
    out = ''
    k = 0
    names = rng.sample(NAMES, len(NAMES))
    for kind in kinds:
        if vary and kind in ALIKE and rng.random() < .8:
            kind = rng.choice(ALIKE[kind])
        if kind == 'name':
            w = names[k % len(names)]
            k += 1
            if full:
                w = w.replace('.', '').replace(':', '')
        elif kind == 'num':
            w = rng.choice(['0', '1', '7', '10', '007', '123'])
        elif full and kind in WORDS and rng.random() < .6:
            w = rng.choice(WORDS[kind])
            w = rng.choice([w, w.upper(), w.title(), ''.join(rng.choice([c, c.upper()]) for c in w)])
        else:
            w = rng.choice(SPELL[kind])
        word = w[0].isalnum() or w[0] == '_'
        sep = ''
        if out and w[0] in '^[\\' and (out[-1].isalnum() or out[-1] in '_.:'):
            sep = ' '
        if out and word and (out[-1].isalnum() or out[-1] in '_.:'):
            sep = ' '
        if not tight or out and not word and out[-1] in '<>=!-|&/\\[]' and rng.random() < .9:
            sep = ''.join(rng.choice(BLANK) for _ in range(rng.choice([1, 1, 1, 2, 3])))
        elif rng.random() < .1:
            sep = ' '
        out += sep + w
    if not tight and rng.random() < .2:
        out += rng.choice([' ', '\n', ' # end', '\n# a & b\n'])
    return out


def rand_tree(rng, n):
    if n <= 0:
        t = rng.random()
        if t < .55:
            return ('name',)
        if t < .75:
            return ('num',)
        if t < .8:
            return ('neg',)
        if t < .9:
            return ('str',)
        return (rng.choice(['True', 'False']),)
    t = rng.random()
    if t < .25:
        return ('pre', rng.choice(['G', 'F', '!', 'X', "'"]), rand_tree(rng, n - 1))
    if t < .33 and n >= 2:
        k = rng.randint(0, n - 1)
        return ('ite', rand_tree(rng, k // 2), rand_tree(rng, k - k // 2), rand_tree(rng, n - 1 - k))
    if t < .37:
        return ('trunc', rand_tree(rng, n - 1))
    k = rng.randint(0, n - 1)
    return ('bin', rng.choice(BIN), rand_tree(rng, k), rand_tree(rng, n - 1 - k))


def kinds_of(t, rng, parens):
    """Tokens of a tree, each operator in parentheses with some probability."""
    tag = t[0]
    if tag in ('name', 'num', 'True', 'False'):
        r = [tag]
    elif tag == 'neg':
        r = ['-', 'num']
    elif tag == 'str':
        r = ['"', 'name', '"']
    elif tag == 'ite':
        a = [kinds_of(x, rng, parens) for x in t[1:]]
        r = ['(', 'ite', *a[0], ',', *a[1], ',', *a[2], ')']
    elif tag == 'trunc':
        a = kinds_of(t[1], rng, parens)
        # precedence of truncation is not documented
        if t[1][0] not in ('name', 'num'):
            a = ['(', *a, ')']
        return ['(', *a, 'trunc', 'num', ')']
    elif tag == 'pre':
        a = kinds_of(t[2], rng, parens)
        r = a + ["'"] if t[1] == "'" else [t[1]] + a
    else:
        r = kinds_of(t[2], rng, parens) + [t[1]] + kinds_of(t[3], rng, parens)
    while rng.random() < parens:
        r = ['(', *r, ')']
        if len(r) > 60:
            break
    return r


def mutate(text, rng):
    """Text with a few characters or words changed."""
    cs = list(text)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randrange(len(cs) + 1)
        t = rng.randint(0, 3)
        if t == 0 and k < len(cs):
            del cs[k]
        elif t == 1:
            cs.insert(k, rng.choice(string.printable[:95] + '@$%;{}?`^[]\\' + '\x0b\x00\xa0é'))
        elif t == 2 and k < len(cs):
            cs[k] = rng.choice('@$%;{}?`^[]\\&|<>=!-()+*/\'",#aX1 ')
        else:
            cs = cs[:k] if rng.random() < .5 else cs[k:]
    return ''.join(cs)


def observe(item):
    text, full, how, probe = item
    x = dict(text=list(text), full=full, print=True, probe=probe, ok=False, tree=dict(c='', v='', a=[]), size=0,
             flat=[], reok=False, retree=dict(c='', v='', a=[]), src=text)

    def read(s, fl):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if how == 'fresh' and not fl:
                return lexyacc.parse(s)
            return parser.parse(s, full_operators=fl) if fl or how == 'kw' else parser.parse(s)

    r = vp.guarded(read, text, full)
    if r[0] != 'ok':
        x['error'] = r[1:]
        return x
    u = r[1]
    x['ok'] = True
    if not probe:
        x['print'] = not (affected(text, full)[1] or spellings(u) & set(ALTERNATIVE))
    x['tree'] = tree(u)
    x['size'] = len(u)
    r = vp.guarded(lambda: u.flatten())
    if r[0] == 'ok':
        x['flat'] = list(r[1])
        r = vp.guarded(read, r[1], False)
        if r[0] == 'ok':
            x['reok'] = True
            x['retree'] = tree(r[1])
    x['reerror'] = r[1:] if r[0] != 'ok' else ''
    return x


def body(c):
    gen = c.generate('LTLSyntaxMC', f'''
CONSTANT N = {c.pick(2, 3)}
CONSTANT L = {c.pick(3, 4)}
CONSTANT EmitSize = 3
INIT Init
NEXT Next
INVARIANT TreesOk ToksOk Emit
CHECK_DEADLOCK FALSE
''', workers=8, timeout=800)
    trees = [g['ts'] for g in gen if g['n'] >= 0]
    toks = [g['ts'] for g in gen if g['n'] < 0]
    c.bump('generated_trees', len(trees))
    c.bump('generated_token_sequences', len(toks))
    rng = c.rng
    if c.thorough:
        toks = rng.sample(toks, min(len(toks), 20000))
        trees = rng.sample(trees, min(len(trees), 12000))
    else:
        toks = rng.sample(toks, min(len(toks), 2500))
    texts = list()
    for k in trees:
        texts.append((spell(k, rng, tight=rng.random() < .3), False, 'p'))
        if rng.random() < .3:
            texts.append((spell(k, rng, full=True), True, 'p'))
    for k in toks:
        texts.append((spell(k, rng, tight=rng.random() < .3, vary=False), False, 'p'))
    for n in range(c.pick(3000, 20000)):
        t = rand_tree(rng, rng.randint(0, rng.choice([4, 8, 12])))
        k = kinds_of(t, rng, rng.choice([0, .1, .3, .5]))
        full = rng.random() < .2
        s = spell(k, rng, full=full, tight=not full and rng.random() < .4, vary=False)
        texts.append((s, full, rng.choice(['p', 'p', 'kw']) if n % 40 else 'fresh'))
        if not full and rng.random() < .6:
            s = mutate(s, rng)
            if '<<>>' not in s:
                texts.append((s, False, 'p'))
    texts += [(s, False, 'p') for s in ('', ' ', '# only', '\n', '()', 'a b', '(a', 'a)', "'", '"', '"a', '-', '- a', 'ite', 'X')]
    c.bump('texts_left_out', sum(affected(*t[:2])[0] for t in texts))
    texts = [(*t, '') for t in texts if not affected(*t[:2])[0]]
    for key, ts in PROBES.items():
        texts += [(s, full, 'p', key) for s, full in ts]
    # in any order, as failed parses must not disturb later ones
    rng.shuffle(texts)
    recs = vp.pmap(observe, texts, chunk=60)
    bad = c.validate('LTLSyntaxTrace', recs)
    for r, b in zip(recs, bad):
        c.bump('accepted' if r['ok'] else 'rejected')
        for clause in b:
            c.violation(r['probe'] or f'parse-{clause}', f"{r['src']!r}: {clause}", r)
    c.sample(next(r for r in recs if r['ok'] and r['size'] > 4))
    corrupted = list()
    for r, b in zip(recs, bad):
        if b or len(corrupted) > 30 or r['probe'] or not r['ok'] or not r['tree']['a']:
            continue
        t = r['tree']
        if len(corrupted) % 2:
            corrupted.append(dict(r, ok=False))
        else:
            corrupted.append(dict(r, tree=dict(t, a=[t] + t['a'][1:])))
    c.binding('LTLSyntaxTrace', corrupted)


vp.main('C04', body)
