"""Homomorphic operations may be used in place: the summary of op(x, .., x, ..) equals that of op(x, .., copy of x, ..)."""
import copy
import c01
import c02
import c07
import c09
import runner

# operation -> the inputs that may be the output object
AL = {}
for g in c01.GATES:
    AL['Hom' + g] = ['a', 'b', 'a_and_b']
AL['HomNOT'] = AL['HomCOPY'] = ['a']
AL['GateBootstrapping'] = AL['GateBootstrappingNTT'] = ['x']
MUX = ['s', 'c1', 'c0', 's_and_c1', 's_and_c0', 'c1_and_c0', 's_and_c1_and_c0']
for m in ('HomMUX', 'HomNMUX'):
    AL[m] = MUX
AL['ExtractSwitchAndHomMUX'] = MUX
for m in ('trgswfftExternalProduct', 'trgswnttExternalProduct', 'trgswrainttExternalProduct'):
    AL[m] = ['x']
AL['CMUXFFT'] = ['c1']


def entries(tier):
    out = []
    for mod in (c01, c02, c07, c09):
        for e in mod.entries(tier):
            al = AL.get(e.fn)
            ty = dict((n, t) for t, n in e.params)
            if not al or '_boot_' in e.id and False:
                continue
            o = e.outs[0]
            al = [a for a in al if all(x in ty for x in a.split('_and_'))]
            if not al:
                continue
            e = copy.copy(e)
            e.id, e.prop, e.alias, e.ref, e.alts = 'c03_' + e.id, 'C03', al, None, []
            out.append(e)
    return out


def check(tier):
    es = entries(tier)
    res = runner.run_entries(es, tier, what=runner.w_alias)
    # a callee that is given overlapping arguments must itself be safe to use in place
    ok = {'TFHEpp::' + r['fn'] for r in res if r['status'] in ('proved', 'agree')}
    ok -= {'TFHEpp::' + r['fn'] for r in res if r['status'] not in ('proved', 'agree')}
    for r in res:
        rest = sorted({b for b, i in r.get('overlaps', ()) if b not in ok})
        if rest and r['status'] in ('proved', 'agree'):
            r['status'], r['why'] = 'unknown', 'relies on the in-place use of ' + ', '.join(rest)
    rep = runner.report('C03', es, res, what='in-place uses compared with out-of-place uses')
    rep['assumptions'] = ['callee primitives are used according to their own summaries']
    return rep
