"""C02: realizability verdicts are exact."""
import copy

import gr1_common as gc
import vp


def body(c):
    c.model_check('GR1MC', gc.MC.format(
        stride=c.pick(60, 6), offset=c.seed % 5, brute='TRUE', inv='Fixpoint Monotone Definition'),
        workers=8, timeout=800)
    recs = gc.make_records(c, True)
    gc.report(c, recs, 'C02')
    cor = list()
    for r in recs[:80]:
        x = copy.deepcopy(r['runs'][0])
        if x['kind'] == 'real':
            x['ans'] = not x['ans']
            cor.append(dict(spec=r['spec'], runs=[x]))
    c.binding('GR1Trace', cor, min_chunk=10)


vp.main('C02', body)
