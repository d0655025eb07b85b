"""Every public template and every selectable parameter set is usable: programs that must type-check, and declarations that must have definitions."""
import importlib
import os
import re
from concurrent.futures import ThreadPoolExecutor
import astrules
import vlib

CONFIGS = dict(vlib.CONFIGS, cggi16=['-DUSE_80BIT_SECURITY'], cggi19=['-DUSE_CGGI19'])
FLAGS = ['-std=gnu++20', '-fsyntax-only', '-w', '-DUSE_RANDEN', '-march=x86-64-v3', '-maes', '-mpclmul', '-fno-access-control']
LV = {'ring': ['lvl1param', 'lvl2param'], 'all': ['lvl0param', 'lvl1param', 'lvl2param']}

# uses of public templates that no behavioural specification contains: (name, template, levels, body); P is the level
EXTRA = [
    ('boots', 'bootsSymEncrypt/bootsSymDecrypt', ['lvl0param', 'lvl1param'],
     'std::vector<uint8_t> p(3); SecretKey sk; auto c = bootsSymEncrypt<P>(p, sk); auto e = bootsSymEncrypt<P, P::μ>(p, sk); p = bootsSymDecrypt<P>(c, sk); '
     'auto g = bootsSymEncrypt<P>(p, sk.key.get<P>()); p = bootsSymDecrypt<P>(e, sk.key.get<P>());'),
    ('bootsdefault', 'bootsSymEncrypt default level', ['lvl1param'], 'std::vector<uint8_t> p(3); SecretKey sk; auto c = bootsSymEncrypt(p, sk); p = bootsSymDecrypt(c, sk);'),
    ('decntt', 'DecompositionNTT', LV['ring'], 'DecomposedPolynomialNTT<P> d; Polynomial<P> p{}; DecompositionNTT<P>(d, p);'),
    ('naiverescale', 'PolyMulNaieveRescaleUnsigned', LV['ring'], 'Polynomial<P> r, a{}, b{}; PolyMulNaieveRescaleUnsigned<P>(r, a, b);'),
    ('packs', 'TLWE2TRLWEChengsPacking/TLWE2TRLWEPacking', LV['ring'],
     'TRLWE<P> r; std::vector<TLWE<P>> t(3); auto k = std::make_unique<AnnihilateKey<P>>(); TLWE2TRLWEChengsPacking<P>(r, t, *k); TLWE2TRLWEPacking<P>(r, t, *k);'),
    ('annihilate', 'AnnihilateKeySwitching', LV['ring'], 'TRLWE<P> r, a{}; auto k = std::make_unique<AnnihilateKey<P>>(); AnnihilateKeySwitching<P>(r, a, *k);'),
    ('annihilatepriv', 'AnnihilatePrivateKeySwitching', ['lvl1param'],
     'std::array<TRLWE<P>, 2> r; TRLWE<P> a{}; auto k = std::make_unique<AnnihilateKey<P>>(); auto q = std::make_unique<std::array<TRGSWFFT<P>, 2>>(); AnnihilatePrivateKeySwitching<P, 2>(r, a, *k, *q);'),
    ('homdecomp', 'HomDecomp', ['lvl3param'],
     'std::array<TLWE<lvl1param>, 4> r; TLWE<lvl3param> c{}; EvalKey ek; HomDecomp<lvl31param, lvl1hparam, lvlh1param, 4, 4>(r, c, ek.getiksk<lvl31param>(), ek.getiksk<lvl1hparam>(), ek.getbkfft<lvlh1param>());'),
    ('archive', 'serialize of keys', ['lvl1param'],
     'std::stringstream s; SecretKey sk; EvalKey ek(sk); IOpacket io; { cereal::PortableBinaryOutputArchive a(s); a(sk); a(ek); a(io); } { cereal::PortableBinaryInputArchive a(s); a(sk); a(ek); a(io); }'),
    ('secret', 'lweKey::get', ['lvl0param', 'lvlhalfparam', 'lvl1param', 'lvl2param'], 'SecretKey sk; const Key<P> k = sk.key.get<P>(); (void)k;'),
    ('secret3', 'lweKey lvl3', ['lvl3param'], 'SecretKey sk; const Key<P> k = sk.key.lvl3; (void)k;'),
]


def diag(se):
    """(file, line, message) of each error, with the places that required it (clang prints them after the error, gcc before)"""
    out, pend = [], []
    for l in se.splitlines():
        m = re.match(r'^(.*?):(\d+):(?:\d+:)? +((?:recursively )?required (?:from|by|for).*)$', l)
        if m:
            pend.append((m.group(1), int(m.group(2)), m.group(3)))
            continue
        m = re.match(r'^(.*?):(\d+):(?:\d+:)? (fatal error|error|note): (.*)$', l)
        if not m:
            continue
        f, n, k, t = m.groups()
        if k != 'note':
            out.append({'file': f, 'line': int(n), 'text': t, 'notes': pend})
            pend = []
        elif out:
            out[-1]['notes'].append((f, int(n), t))
    return out


def rel(f):
    return os.path.relpath(f, vlib.REPO) if f.startswith(vlib.REPO + '/') else f


def compile_(cc, path, flags):
    cmd = [cc] + FLAGS + (['-ferror-limit=0'] if 'clang' in cc else ['-fmax-errors=0', '-fopenmp']) + vlib.incflags() + flags + [path]
    return vlib.run(cmd, timeout=800)


def entry_units(d, tier, cfg):
    """one unit per chunk of behavioural entries; returns (name, path, flags, lines -> entry)"""
    out = []
    for m in astrules.MODS + ['c28']:
        try:
            es = [e for e in importlib.import_module(m).entries(tier) if e.cfg == cfg and e.mode == 'ref']
        except ModuleNotFoundError:
            continue
        for i in range(0, len(es), 60):
            part = es[i:i + 60]
            s = '#include "pre.hpp"\n' + vlib.lib_includes()
            for u in sorted({e.unit for e in part if e.unit.startswith('src/')}):
                s += '#include "%s"\n' % os.path.join(vlib.REPO, u)
            if any(e.unit.startswith('synth') for e in part):
                s += '#include "synth.hpp"\n'
            s += ''.join(sorted({getattr(e, 'extra', '') for e in part}))
            lines = {}
            for e in part:
                a = s.count('\n') + 1
                s += 'namespace e_%s {\nusing namespace TFHEpp;\n' % e.id
                for k, t in e.using.items():
                    s += 'using %s = %s;\n' % (k, t)
                s += e.pre + '\nvoid vf_c(%s)\n{\n%s\n}\n}\n' % (', '.join('%s %s' % (t, n) for t, n in e.params), e.call)
                for j in range(a, s.count('\n') + 1):
                    lines[j] = (e.fn, e.using)
            p = os.path.join(d, 'w_%s_%s_%d.cpp' % (cfg, m, i))
            with open(p, 'w') as f:
                f.write(s)
            out.append(('uses:%s:%d' % (m, i), p, CONFIGS[cfg], lines, cfg, len(part)))
    return out


def extra_unit(d, cfg):
    s = '#include "pre.hpp"\n' + vlib.lib_includes() + 'namespace w {\nusing namespace TFHEpp;\n'
    lines = {}
    n = 0
    for id, what, levels, body in EXTRA:
        for P in levels:
            s += 'namespace %s_%s { using P = %s; void f()\n{ %s }\n}\n' % (id, P, P, body)
            for j in (s.count('\n') - 2, s.count('\n') - 1, s.count('\n')):
                lines[j] = (what, {'P': P})
            n += 1
    p = os.path.join(d, 'x_%s.cpp' % cfg)
    with open(p, 'w') as f:
        f.write(s + '}\n')
    return ('uses:extra', p, CONFIGS[cfg], lines, cfg, n)


def src_units(cfg):
    out = []
    for sub in ('src', 'tutorial'):
        dd = os.path.join(vlib.REPO, sub)
        for f in sorted(os.listdir(dd)) if os.path.isdir(dd) else []:
            if f.endswith('.cpp'):
                out.append((sub + '/' + f, os.path.join(dd, f), ['-include', os.path.join(vlib.VERIF, 'harness', 'pre.hpp')] + CONFIGS[cfg], {}, cfg, 1))
    return out


def judge(u, se, cc):
    """errors of one unit -> findings; an error located in the witness itself counts only when the library's template could not be formed"""
    name, path, fl, lines, cfg, n = u
    out, ignored = [], []
    for e in diag(se):
        where = os.path.normpath(e['file'])
        chain = [(e['file'], e['line'])] + [(f, l) for f, l, t in e['notes']]
        use = next((lines[l] for f, l in chain if f == path and l in lines), None)
        inlib = where.startswith(vlib.REPO + '/')
        if not inlib:
            inner = [t for f, l, t in e['notes'] if f.startswith(vlib.REPO + '/')]
            formed = e['text'].startswith('no matching') and inner and all('substitution failure' in t or 'template argument deduction/substitution failed' in t for t in inner if 'candidate' in t)
            if not formed:
                ignored.append('%s: %s' % (use[0] if use else name, e['text'][:160]))
                continue
            f2, l2, t2 = next((f, l, t) for f, l, t in e['notes'] if f.startswith(vlib.REPO + '/'))
            site, text = '%s:%d' % (rel(f2), l2), t2
        else:
            site, text = '%s:%d' % (rel(where), e['line']), e['text']
        what = use[0] if use else name
        out.append({'key': '%s:%s' % (what.replace(' ', '_'), os.path.basename(site.split(':')[0])),
                    'text': '%s: %s does not compile in configuration %s: %s' % (site, what, cfg, text[:200]),
                    'detail': ['%s:%d %s' % (rel(f), l, t[:160]) for f, l, t in e['notes'][:6]] + ['unit %s, %s' % (name, cc)]})
    return out, ignored


def linkage(d, tier):
    """declarations of the public headers against the definitions of the library's translation units"""
    findings, need = [], 0
    cfgs = sorted(CONFIGS) if tier == 'thorough' else ['default', 'ternary', 'compress']
    for cfg in cfgs:
        p = os.path.join(d, 'hdr_%s.cpp' % cfg)
        with open(p, 'w') as f:
            f.write('#include "pre.hpp"\n#include "tfhe++.hpp"\n')
        units = [('headers', p, CONFIGS[cfg])] + [(n, q, fl + CONFIGS[cfg]) for n, q, fl in vlib.units_src()]
        f, bad = astrules.collect(units, must=False)
        N, G = {}, set()
        for x in f:
            for e in f[x]['externs']:
                if e['needs']:
                    if e['at'].startswith('include/'):
                        N.setdefault(e['mangled'], e)
                else:
                    G.add(e['mangled'])
        if bad:
            continue       # reported by the compile matrix
        need += len(N)
        for m, e in sorted(N.items()):
            if m not in G:
                findings.append({'key': 'link:%s' % e['name'], 'text': '%s: %s is declared as defined by the library, but no translation unit in src/ defines it (%s)'
                                 % (e['at'], e['name'], cfg), 'detail': ['mangled name: ' + m]})
    return findings, need


def check(tier):
    findings, ignored, n, uses = [], [], 0, 0
    with vlib.Work() as d:
        units = []
        for cfg in sorted(CONFIGS):
            units += src_units(cfg) + [extra_unit(d, cfg)] + entry_units(d, tier, cfg)
        jobs = [('g++', u) for u in units]
        if tier == 'thorough':
            jobs += [('clang++-18', u) for u in units]
        with ThreadPoolExecutor(8) as ex:
            for (cc, u), (rc, so, se) in zip(jobs, ex.map(lambda j: compile_(j[0], j[1][1], j[1][2]), jobs)):
                n += 1
                uses += u[5]
                if rc:
                    f, ig = judge(u, se, cc)
                    findings += f
                    ignored += ig
                    if not f and not ig:
                        raise vlib.CheckError('%s: no diagnostic: %s' % (u[0], se[-300:]))
        f, need = linkage(d, tier)
        findings += f
    seen, out = set(), []
    for f in findings:
        if f['key'] not in seen:
            seen.add(f['key'])
            out.append(f)
    return astrules.report(out, {'units_compiled': n, 'uses': uses, 'configurations': len(CONFIGS), 'declarations_checked': need, 'uses_not_applicable': len(ignored),
                                 'not_applicable': sorted(set(ignored))[:40]},
                           'type-checked uses of the public interface', sorted(CONFIGS),
                           'Every translation unit of src/ and tutorial/ and one use of every public function template per admissible parameter is type-checked under each selectable '
                           'parameter-set option; each explicit instantiation declaration and each function declared in the public headers is matched by mangled name with a definition in src/.')
