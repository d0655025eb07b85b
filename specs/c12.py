"""Results are fully determined by the inputs: no output element keeps earlier content or depends on unassigned memory."""
import re
import importlib
import runner

MODS = ['c01', 'c02', 'c04', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c27']
INOUT = r'withPolynomialMulByXaiMinusOne|^FMAInFD|^AddInFD'


def entries(tier):
    out = []
    for m in MODS:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError:
            continue
        for e in mod.entries(tier):
            if e.mode != 'ref' or re.search(INOUT, e.fn) or getattr(e, 'inout', False):
                continue
            # key bundle keys have storage that no function reads (4th row set, upper half of the array)
            if e.cfg == 'keybundle' and re.match(r'bk(fft)?gen', e.fn):
                continue
            out.append(e)
    return out


def check(tier):
    es = entries(tier)
    res = runner.run_entries(es, tier, what=runner.w_init)
    rep = runner.report('C12', es, res, what='outputs examined for unassigned elements and uses of unassigned memory')
    for f in rep['findings']:
        f['text'] = f['text'].replace('does not compute what is specified', 'leaves an output element unassigned or depends on unassigned memory')
    rep['coverage']['explanation'] = (
        'The array-dataflow summary of every output (every index) is searched for cells of the output\'s previous content, of locals '
        'and of fresh allocations that were never assigned; a summary without them proves the instance, otherwise the summary is '
        'evaluated under random interpretations that differ in nothing but the content of that memory.')
    return rep
