"""C01: controllers satisfy the GR(1) specification."""
import copy

import gr1_common as gc
import vp


def body(c):
    c.model_check('GR1MC', gc.MC.format(
        stride=c.pick(60, 6), offset=c.seed % 5, brute='TRUE', inv='Fixpoint Monotone Definition'),
        workers=8, timeout=800)
    recs = gc.make_records(c, True)
    gc.report(c, recs, 'C01')
    # binding: one corrupted edge label or one removed edge must not go unnoticed everywhere
    cor = list()
    for r in recs:
        for x in r['runs']:
            if x['kind'] == 'synth' and len(x['mach']['edges']) > 2 and len(cor) < 60:
                y = copy.deepcopy(x)
                del y['mach']['edges'][0]
                cor.append(dict(spec=r['spec'], runs=[y]))
                y = copy.deepcopy(x)
                e = y['mach']['edges'][-1]
                e['val'][-1] = r['spec']['vars'][-1]['lo'] + r['spec']['vars'][-1]['hi'] - e['val'][-1]
                cor.append(dict(spec=r['spec'], runs=[y]))
    c.binding('GR1Trace', cor, min_chunk=10)


vp.main('C01', body)
