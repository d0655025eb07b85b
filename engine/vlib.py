"""Driver shared by all checks: builds analysis units from /repo's current headers, summarises the
functions with the array-dataflow engine and compares summaries."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)

CONFIGS = {
    'default': [],
    'compress': ['-DUSE_COMPRESS'],
    'concrete': ['-DUSE_CONCRETE'],
    'tfhers': ['-DUSE_TFHE_RS'],
    'ternary': ['-DUSE_TERNARY'],
    'keybundle': ['-DUSE_KEY_BUNDLE'],
    'ternarycmux': ['-DUSE_TERNARY', '-DUSE_TERNARY_CMUX'],
}


class CheckError(Exception):
    """the check cannot decide (tool failure): exit code 2"""


def tool(name, src, flags):
    """path of a helper binary, built when missing or older than its source"""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, name)
    srcs = src if isinstance(src, list) else [src]
    if os.path.exists(out) and all(os.path.getmtime(out) >= os.path.getmtime(s) for s in srcs):
        return out
    tmp = out + '.%d' % os.getpid()
    cmd = 'clang++-18 -std=c++17 -O1 -fno-rtti -w $(llvm-config-18 --cppflags) %s -o %s %s' % (' '.join(srcs), tmp, flags)
    r = subprocess.run(cmd, shell=True, capture_output=True, text=True)
    if r.returncode:
        raise CheckError('cannot build %s: %s' % (name, r.stderr[-2000:]))
    os.replace(tmp, out)
    return out


def irdump():
    return tool('irdump', os.path.join(HERE, 'irdump.cpp'), '$(llvm-config-18 --ldflags) -lLLVM-18')


def lib_includes(extra=()):
    """the library's umbrella header without the extern template declarations (they hide bodies)"""
    inc = []
    with open(os.path.join(REPO, 'include', 'tfhe++.hpp')) as f:
        for l in f:
            m = re.match(r'\s*#\s*include\s*"([^"]+)"', l)
            if m and not m.group(1).startswith('externs/'):
                inc.append(m.group(1))
    for e in extra:
        if e not in inc:
            inc.append(e)
    return ''.join('#include "%s"\n' % i for i in inc)


BASEFLAGS = ['-std=gnu++20', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-fno-access-control', '-w', '-DUSE_RANDEN',
             '-march=x86-64-v3', '-maes', '-emit-llvm', '-c', '-g', '-fopenmp=libomp']
BASEFLAGS = [f for f in BASEFLAGS if not f.startswith('-fopenmp')]


def incflags():
    return ['-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(REPO, 'include'),
            '-I' + os.path.join(REPO, 'thirdparties', 'spqlios'), '-I' + os.path.join(REPO, 'thirdparties', 'randen'),
            '-I' + os.path.join(REPO, 'thirdparties', 'cereal', 'include')]


class Work:
    """scratch directory, removed at exit"""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vf_')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def run(cmd, timeout=600):
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout, r.stderr


def modarith():
    return tool('modarith', os.path.join(HERE, 'modarith.cpp'), '-O2 -fexceptions $(llvm-config-18 --ldflags) -lLLVM-18')


def compile_unit(d, name, src, flags):
    cpp, bc = os.path.join(d, name + '.cpp'), os.path.join(d, name + '.bc')
    with open(cpp, 'w') as f:
        f.write(src)
    rc, so, se = run(['clang++-18'] + BASEFLAGS + incflags() + flags + [cpp, '-o', bc])
    return (bc if rc == 0 else None), se


def dump_unit(d, name, bc, spec):
    sp, js = os.path.join(d, name + '.spec'), os.path.join(d, name + '.json')
    with open(sp, 'w') as f:
        f.write(spec)
    rc, so, se = run([irdump(), bc, sp, js], 400)
    if rc:
        raise CheckError('irdump failed on %s: %s' % (name, se[-2000:]))
    with open(js) as f:
        return json.load(f)


# ------------------------------------------------------------------ entries
# primitives that stay calls when a function built on top of them is summarised
# (full qualified names without template arguments: a helper added by a later change is inlined, not cut)
PRIMITIVES = """
AnnihilateKeySwitching AnnihilatePrivateKeySwitching ApplyFFT2halftrgsw ApplyFFT2trgsw ApplyNTT2trgsw ApplyRAINTT2trgsw Automorphism BlindRotate CMUXFFT
CMUXNTT CMUXFFTwithPolynomialMulByXaiMinusOne CMUXNTTwithPolynomialMulByXaiMinusOne CMUXRAINTTwithPolynomialMulByXaiMinusOne CatIdentityKeySwitch CenteredBinomial CircuitBootstrapping CircuitBootstrappingFFT CircuitBootstrappingFFTInv
CircuitBootstrappingFFTwithInv CircuitBootstrappingSub CircuitBootstrappingSubFFT Decomposition DecompositionNTT DecompositionRAINTT EvalAuto ExtractSwitchAndHomMUX FMAInFD
GateBootstrapping GateBootstrappingManyLUT GateBootstrappingNTT GateBootstrappingTLWE2TLWEFFT GateBootstrappingTLWE2TLWENTT GateBootstrappingTLWE2TLWERAINTT HomAND HomANDNY HomANDYN
HomCONSTANTONE HomCONSTANTZERO HomCOPY HomDecomp HomMUX HomMUXwoIKSandSE HomMUXwoSE HomNAND HomNMUX
HomNOR HomNOT HomOR HomORNY HomORYN HomXNOR HomXOR IdentityKeySwitch InvSampleExtractIndex
KeyBundleFFT LROMUX ModularGaussian MulInFD PackLWEs PackLWEsLSB PolyMul PolyMulNaieveRescaleUnsigned PolyMulNaive
PolyMulRescaleUnsigned PolyMullvl1 PolynomialMulByXai PolynomialMulByXaiMinusOne PolynomialMulByXaiMinusOneInFD PrivKeySwitch RAMUX Relinearization SampleExtractIndex
SubsetIdentityKeySwitch SubsetPrivKeySwitch TLWE2TRLWEChengsPacking TLWE2TRLWEIKS TLWE2TRLWEPacking TLWEMult LWEMult TRGSW2NTT TRGSWFFTOneGen
TRLWEMult TRLWEMultWithoutRelinerization TwistFFT TwistFFTrescale TwistIFFT TwistIFFTUInt TwistINTT TwistNTT UROMUX
annihilatekeygen bkfftgen bkgen bknttgen bkrainttgen evalautokeygen halftrgswSymEncrypt halftrgswfftExternalProduct halftrgswfftSymEncrypt
ikskgen oneTRGSWFFTgen privkskgen relinKeyFFTgen relinKeySwitch relinKeygen subikskgen subprivkskgen tlwe2trlweikskgen
tlweSymDecrypt tlweSymEncrypt tlweSymIntDecrypt tlweSymIntEncrypt tlweSymPhase trgswSymEncrypt trgswfftExternalProduct trgswfftSymEncrypt trgswnttExternalProduct
trgswnttSymEncrypt trgswrainttExternalProduct trgswrainttSymEncrypt trlwePhase trlweSymDecrypt trlweSymEncrypt trlweSymEncryptZero trlweSymIntDecrypt trlweSymIntEncrypt
trlwerainttSymEncrypt trlwerainttSymEncryptZero""".split()
EVALKEY = 'emplacebk emplacebkfft emplacebkntt emplacebk2bkfft emplacebk2bkntt emplaceiksk emplacesubiksk emplaceprivksk emplacesubprivksk ' \
          'emplaceprivksk4cb emplacesubprivksk4cb getbk getbkfft getbkntt getiksk getsubiksk getprivksk getsubprivksk'
CUTS = [
    r'^TFHEpp::(%s)$' % '|'.join(PRIMITIVES),
    r'^TFHEpp::EvalKey::(%s)$' % EVALKEY.replace(' ', '|'),
    r'^TFHEpp::lweKey::get$',
    r'^(cuHEpp|raintt|nussbaumer|SEAL|FFT_Processor\w*)::',
    r'^std::__shared_count::', r'^std::unordered_map::(operator\[\]|at|~?unordered_map)$',
    r'^std::uniform_int_distribution::operator\(\)$', r'^std::seed_seq::', r'^std::random_device::operator\(\)$', r'^randen::Internal::',
    r'^std::(__cxx11::)?to_string$', r'^std::operator\+$', r'^std::(__cxx11::)?basic_string::~?basic_string$',
]


class Entry:
    def __init__(self, id, prop, fn, using, params, call, ref=None, outs=None, pre='', nocut=(), deep=(), ranges=None,
                 alias=(), cfg='default', erase=False, unit='', split=None, mode='ref', nonoise=False, unroll=0, alts=()):
        self.unroll, self.alts = unroll, list(alts)   # alts: further references, any of which is acceptable
        self.mode, self.nonoise = mode, nonoise
        self.id, self.prop, self.fn, self.using, self.params = id, prop, fn, using, params
        self.call, self.ref, self.pre = call, ref, pre
        self.nocut, self.deep, self.ranges, self.alias = list(nocut), list(deep), ranges or {}, list(alias)
        self.cfg, self.erase, self.unit, self.split = cfg, erase, unit, split or {}
        self.outs = outs if outs is not None else [n for t, n in params if t.endswith('&') and not t.startswith('const')]

    def variants(self):
        """(suffix, body, uses alias)"""
        v = [('c', self.call)]
        if self.ref is not None:
            v.append(('r', self.ref))
        v += [('r%d' % (i + 1), x) for i, x in enumerate(self.alts)]
        return v


def gen_unit(entries, extra=''):
    s = '#include "pre.hpp"\n' + lib_includes() + '#include "layout.hpp"\n' + extra
    spec = []
    for u in sorted({e.unit for e in entries if e.unit.startswith('src/')}):
        s += '#include "%s"\n' % os.path.join(REPO, u)
    if any(e.unit.startswith('synth') for e in entries):
        s += '#include "synth.hpp"\n'
    s += ''.join(sorted({getattr(e, 'extra', '') for e in entries}))
    for e in entries:
        ns = 'e_' + e.id
        s += 'namespace %s {\nusing namespace TFHEpp;\n' % ns
        for k, t in e.using.items():
            s += 'using %s = %s;\n' % (k, t)
        s += e.pre + '\n'
        plist = ', '.join('%s %s' % (t, n) for t, n in e.params)
        for suf, body in e.variants():
            s += 'void vf_%s(%s)\n{\n%s\n}\n' % (suf, plist, body)
        for a in e.alias:
            al = a.split('_and_')
            pl = ', '.join('%s %s' % (t, n) for t, n in e.params if n not in al)
            ty = dict((n, t) for t, n in e.params)[al[0]]
            o = e.outs[0]
            s += 'void vf_a_%s(%s)\n{\n%s\n%s\n}\n' % (a, pl, ''.join('%s %s = %s; ' % (ty, x, o) for x in al), e.call)
            s += 'void vf_b_%s(%s)\n{\n%s\n%s\n}\n' % (a, pl, ''.join('const std::remove_cvref_t<%s> %s = %s; ' % (ty, x, o) for x in al), e.call)
        s += '}\n'
        for o in e.outs:
            ty = dict((n, t) for t, n in e.params)[o]
            s += 'namespace %s { extern const std::array<unsigned long, 24> vl_%s; const std::array<unsigned long, 24> vl_%s = vf::layout<%s>(); }\n' % (ns, o, o, ty)
        for o, x in e.split.items():
            s += 'namespace %s { extern const std::array<long, 2> vs_%s; const std::array<long, 2> vs_%s = {(long)(%s), 0}; }\n' % (ns, o, o, x)
        for a, (lo, hi) in e.ranges.items():
            s += 'namespace %s { extern const std::array<long, 2> vk_%s; const std::array<long, 2> vk_%s = {(long)(%s), (long)(%s)}; }\n' % (ns, a, a, lo, hi)
    return s


def gen_spec(entries, deep=False):
    out = []
    for e in entries:
        nc = list(e.nocut) + (list(e.deep) if deep else [])
        out.append('root ^e_%s::vf_%s' % (e.id, ''.join('\t' + x for x in nc)))
    out += ['cut ' + c for c in CUTS]
    return '\n'.join(out) + '\n'


def geom_of(g):
    img = g.get('image') or []
    a = [0] * 24
    for o, n, v in img:
        if v == 'Z':
            continue
        a[o // 8] = int(v)
    nd = a[2]
    return ('d' if a[1] else a[0], tuple((a[3 + 2 * i], a[4 + 2 * i]) for i in range(nd)))


def const_pair(g):
    a = [0, 0]
    for o, n, v in g.get('image') or []:
        if v != 'Z':
            a[o // 8] = int(v)
    return tuple(a)


# ------------------------------------------------------------------ facts about the type-checked program
AFFLAGS = ['-std=gnu++20', '-DUSE_RANDEN', '-march=x86-64-v3', '-maes', '-w', '-fopenmp', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


def astfacts():
    return tool('astfacts', os.path.join(VERIF, 'astfacts', 'astfacts.cpp'), '-L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18')


def facts_of(name, path, flags):
    rc, so, se = run([astfacts(), REPO, path, '--'] + AFFLAGS + incflags() + flags)
    try:
        f = json.loads(so)
    except ValueError:
        f = None
    return name, f, (rc, se)


def units_src():
    """translation units of the library: (name, path, extra flags)"""
    pre = ['-include', os.path.join(VERIF, 'harness', 'pre.hpp')]
    out = []
    src = os.path.join(REPO, 'src')
    for f in sorted(os.listdir(src)):
        if f.endswith('.cpp'):
            out.append(('src/' + f, os.path.join(src, f), pre))
    for f in ('thirdparties/spqlios/fft_processor_spqlios.cpp', 'thirdparties/spqlios/spqlios-fft-impl.cpp', 'thirdparties/spqlios/x8664/fft_processor_spqlios.cpp',
              'thirdparties/randen/randen.cc'):
        if os.path.exists(os.path.join(REPO, f)):
            out.append((f, os.path.join(REPO, f), []))
    return out


def facts(units):
    """run astfacts over (name, path, flags) units in parallel -> {name: facts}; a unit that does not compile is an error"""
    astfacts()
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda u: facts_of(*u), units))
    out = {}
    for n, f, (rc, se) in res:
        if f is None or rc:
            m = re.search(r'error: .*', se)
            raise CheckError('%s does not compile: %s' % (n, m.group(0) if m else se[-400:]))
        out[n] = f
    return out


def header_unit(d, name, src, flags=()):
    """a unit made of the library's headers followed by src"""
    p = os.path.join(d, name + '.cpp')
    with open(p, 'w') as f:
        f.write('#include "pre.hpp"\n' + lib_includes() + src)
    return (name, p, list(flags))


def pmap(fn, items, jobs=8, limit=None):
    """fn over items, one forked process each; None for an item whose process died or was ended at the limit (seconds)"""
    import multiprocessing
    import time
    from multiprocessing.connection import wait
    ctx = multiprocessing.get_context('fork')
    res, live, todo, t0 = [None] * len(items), {}, list(range(len(items))), time.time()

    def child(c, x):
        c.send(fn(x))
        c.close()
    try:
        while todo or live:
            over = limit is not None and time.time() - t0 > limit
            if over:
                todo = []
                break
            while todo and len(live) < jobs:
                i = todo.pop(0)
                r, w = ctx.Pipe(False)
                p = ctx.Process(target=child, args=(w, items[i]))
                p.start()
                w.close()
                live[r] = (i, p)
            for r in wait(list(live), 5):
                i, p = live.pop(r)
                try:
                    res[i] = r.recv()
                except EOFError:
                    pass
                r.close()
                p.join()
    finally:
        for i, p in live.values():
            p.kill()
    return res
