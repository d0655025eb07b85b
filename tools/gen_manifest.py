#!/usr/bin/env python3
"""Writes MANIFEST.json: claimed checks are those with a specs/<id>.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ADF = 'array-dataflow analysis with global value numbering of LLVM IR, summaries compared with a specification'
NOTE = ('Summaries are computed from the source for every shipped parameter set; equality in canonical form is a proof for that '
        'instance, otherwise the two summaries are separated by random interpretation of the uninterpreted primitives '
        '(Gulwani-Necula), which has one-sided error: a reported difference is real, an unreported one has small probability.')
TECH = {
    'C03': ('array-dataflow analysis: summary with aliased arguments compared with the summary without', NOTE),
    'C05': ('array-dataflow analysis of draws: masks, noise and freshness of every sampling site', NOTE),
    'C12': ('array-dataflow analysis: definite assignment of every output cell and use of uninitialised cells', NOTE),
    'C13': ('array-dataflow analysis: every bounds assertion discharged from index ranges and guards', NOTE),
    'C14': ('array-dataflow analysis: shift and conversion obligations discharged from value ranges and guards', NOTE),
    'C15': (ADF, NOTE),
    'C18': ('array-dataflow analysis of the serialisers: sequence of archived fields against the record layout', NOTE),
    'C19': (ADF, NOTE),
    'C20': (ADF, NOTE),
}
AST = ('rules over the type-checked program (clang AST facts)', 'Every construct of the named kinds in the library is enumerated from the type-checked AST and classified by the rule; the evidence lists the counts.')
for i in (16,17,21,22,23,24,25,26):
    TECH.setdefault('C%d' % i, AST)
TECH['C17'] = ('secret-taint analysis of array-dataflow summaries, plus rules over the type-checked program', AST[1] + ' ' + NOTE)
TECH['C21'] = TECH['C23'] = ('effect analysis: written memory roots of every public operation from array-dataflow summaries, plus rules over the type-checked program', AST[1] + ' ' + NOTE)
TECH['C16'] = ('rules over the type-checked program (clang AST facts) and array-dataflow analysis of the generator', AST[1] + ' ' + NOTE)
TECH['C26'] = ('allocation/release pairing rules over the type-checked program and array-dataflow alignment and extent obligations', AST[1] + ' ' + NOTE)
TECH['C22'] = ('array-dataflow analysis: write and read sets of one symbolic iteration of every outlined parallel loop, compared across iterations', 'Write offsets are polynomials in the iteration number; they are evaluated for every iteration number (up to 70000, otherwise representative blocks) and must not meet.')
TECH['C24'] = ('type-level witnesses: instantiation matrix compiled against the current headers', 'Each instantiation is a program that must type-check; failing ones are reported with the compiler diagnostic.')
TECH['C25'] = ('type-level witnesses: static assertions over every parameter set', 'Each relation is a static_assert compiled against the current headers for every parameter set.')
TECH['C29'] = ('abstract interpretation of LLVM IR over linear forms modulo the transform prime with integer ranges', 'A proof that every pointwise product multiplies values at one root of X^N+1 and that the outputs interpolate them, with every intermediate value inside its type; the ring primitives below it are interpreted at boundary values.')
NA = {
    'C50': 'quantifies over the probability distribution of accumulated noise; no static argument over the source bounds it without a probabilistic noise model of the FFT',
    'C51': 'a floating-point error bound of a hand-written assembly FFT kernel over all operands; out of reach of the dataflow domain (floating point is treated as exact) and of any installed sound FP analyser (kernels are assembly)',
    'C53': 'an estimate of lattice attack cost, not a property of the source code',
    'C54': 'timing behaviour of compiled code is not promised by the library and rejection sampling/branches are by design data dependent',
    'C55': 'holds only under a bound on runtime noise, which is not statically available',
    'C56': 'depends on FFT precision and noise growth, quantities of the run',
    'C57': 'the slot arithmetic is an inductive argument over automorphisms composed log n times together with noise bounds; only the single steps are decidable and those are covered by C06, C08 and C28',
    'C58': 'concerns other machines and the third-party archive library, not the code of this repository',
    'C59': 'only one FFT back end builds in this sandbox; equality across back ends is numerical',
    'C60': 'correct digit extraction depends on noise staying below half a digit, a runtime quantity; the single steps are covered by C28',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'specs', i.lower() + '.py')):
        t, n = TECH.get(i, (ADF, NOTE))
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'technique': t, 'level': 'other', 'level_note': n})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not claimed yet: the machinery for it is not finished')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. No hooks in /repo are needed: the checks read the unmodified sources.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks', len(na), 'not applicable')
