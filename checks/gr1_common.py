"""Shared by C01 and C02: build the records and report the clauses of one property."""
import copy

import ltl
import synthlib as sl
import vp

MC = '''
CONSTANTS Stride={stride} Offset={offset} Brute={brute}
INIT Init
NEXT Next
INVARIANT {inv}
CHECK_DEADLOCK FALSE
'''


def make_records(c, want_synth):
    stride = c.pick(5, 1)
    games = c.generate('GR1MC', MC.format(
        stride=stride, offset=c.seed % stride, brute='FALSE', inv='Emit'))
    c.bump('games_generated_by_tlc', len(games))
    items = [(g, sl.BOOL2) for g in games]
    for _ in range(c.pick(1500, 12000)):
        items.append(sl.random_spec(c.rng))
    recs = vp.pmap(one_record, [
        (n, g, vs, want_synth, c.thorough) for n, (g, vs) in enumerate(items)])
    for r in recs:
        for x in r['runs']:
            c.bump(f'{x["kind"]}_{x["solver"]}')
    return recs


def one_record(item):
    n, g, vs, want_synth, thorough = item
    rm = ((False,) if n % 3 else (False, True)) if want_synth else (False,)
    runs = sl.runs(g, vs, 'omega', rm)
    if sl.gr1py_supports(g, vs) and (n % 2 or thorough):
        runs += sl.runs(g, vs, 'gr1py', rm)
    if want_synth and g['qinit'] == 'AE':
        runs += sl.loaded(g, vs)
    return dict(spec=g, runs=runs, text=sl.grspec(g, vs).pretty())


def key_of(r, clause):
    return clause


def report(c, recs, pid):
    bad = c.validate('GR1Trace', recs, min_chunk=10)
    for r, b in zip(recs, bad):
        for clause in b:
            if clause.startswith(pid):
                exc = [x['what'] for x in r['runs'] if x['kind'].startswith('exc')]
                c.violation(clause[4:], (exc or ['verdict'])[0] + '\n' + r['text'], r)
    c.sample(recs[-1])
