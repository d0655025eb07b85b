"""No array access leaves its array: every subscript assertion of the instantiated code is impossible."""
import copy
import re
import c12
import runner

FLAGS = ['-D_GLIBCXX_ASSERTIONS']
WHAT = 'functions whose subscript assertions were examined'
EXPL = ('The instantiated code is compiled with the standard library\'s subscript assertions; after inlining every assertion is a branch '
        'to an aborting block.  Branches removed by constant folding and scalar-evolution ranges are impossible; for each remaining '
        'one the failing condition is computed by the array-dataflow analysis and refuted by interval reasoning over loop indices, '
        'argument ranges and guards (by cases).  A failing condition that depends on arguments, input cells and loop indices only and '
        'is satisfiable is reported with the indices.')


def entries_for(flags, tier):
    out = []
    for e in c12.entries(tier):
        e = copy.copy(e)
        e.flags, e.ref, e.alts, e.alias = flags, None, [], []
        out.append(e)
    return out


def entries(tier):
    return entries_for(FLAGS, tier) + inout(FLAGS, tier)


def inout(flags, tier):
    """the operations that update their output in place, not part of C12"""
    import c09
    out = []
    for e in c09.entries(tier):
        if re.search(c12.INOUT, e.fn):
            e = copy.copy(e)
            e.flags, e.ref, e.alts, e.alias = flags, None, [], []
            out.append(e)
    return out


def run(prop, es, tier, what, expl):
    res = runner.run_entries(es, tier, what=runner.w_asserts)
    rep = runner.report(prop, es, res, what=what)
    for f in rep['findings']:
        f['text'] = f['text'].replace('does not compute what is specified', 'can fail an assertion (%s)' % what)
    n = {}
    for r in res:
        for k, v in r.get('counts', {}).items():
            n[k] = n.get(k, 0) + v
    c = rep['coverage']
    c['explanation'] = expl
    c['assertion_sites'] = sum(r.get('sites', 0) for r in res)
    c['left_after_constant_folding'] = n
    c['undecided_assertions'] = [{'id': r['id'], 'at': k, 'condition': d['got'][:200]} for r in res for k, d in r['outs'].items()
                                 if d['status'] in ('agree', 'unknown')]
    rep['summary'] += '; %d assertion sites, %d left after folding: %s' % (c['assertion_sites'], sum(n.values()), n)
    return rep


def check(tier):
    return run('C13', entries(tier), tier, WHAT, EXPL)
