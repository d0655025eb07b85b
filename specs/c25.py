"""Parameter sets are internally consistent: compile-fail witnesses (static assertions), one unit per selectable set."""
import os
import re
from concurrent.futures import ThreadPoolExecutor
import astrules
import vlib

CONFIGS = dict(vlib.CONFIGS, cggi16=['-DUSE_80BIT_SECURITY'], cggi19=['-DUSE_CGGI19'])

LEVELS = ['lvl0param', 'lvlhalfparam', 'lvl1param', 'lvl2param', 'lvl3param']
RINGS = ['lvl1param', 'lvl2param', 'lvl3param']
DIG = {'0': 'lvl0param', 'h': 'lvlhalfparam', '1': 'lvl1param', '2': 'lvl2param', '3': 'lvl3param'}
KS = ['lvl10param', 'lvl1hparam', 'lvl11param', 'lvl20param', 'lvl2hparam', 'lvl21param', 'lvl22param', 'lvl31param']
BK = ['lvl01param', 'lvlh1param', 'lvl02param', 'lvlh2param']

# noise values the two historical sets publish for lvl21 instead of the target level's own value
PUBLISHED = {('cggi16', 'lvl21param'): -31, ('cggi19', 'lvl21param'): -29}

LEVEL_RULES = [
    ('rank', 'P::k >= 1 && P::n >= 1', ''),
    ('torus-type', 'std::is_unsigned_v<typename P::T>', ''),
    ('key-range', 'P::key_value_min < P::key_value_max', ''),
    ('key-diff', 'P::key_value_diff == P::key_value_max - P::key_value_min', 'P::key_value_diff'),
    ('ring-degree', 'std::uint64_t(P::n) == (std::uint64_t(1) << P::nbit)', 'P::nbit'),
    ('gadget-base', 'std::uint64_t(P::Bg) == (std::uint64_t(1) << P::Bgbit)', 'P::Bg'),
    ('gadget-fits', 'P::l >= 1 && P::Bgbit >= 1 && P::l * P::Bgbit <= vf_modbits<P>()', 'P::l'),
    ('modulus', 'vf_pow2(vf_modbits<P>()) >= (long double)P::q && P::qbit <= std::numeric_limits<typename P::T>::digits', 'P::q'),
    ('delta', '(long double)P::Δ * P::plain_modulus == vf_scale<P>() || (long double)P::Δ * P::plain_modulus * 2 == vf_scale<P>()', 'P::Δ'),
    ('plain-modulus', 'P::plain_modulus >= 2', 'P::plain_modulus'),
    ('mu', '(long double)P::μ * 8 == vf_scale<P>()', 'P::μ'),
    ('noise-range', 'P::α > 0 && P::α < (double)P::Δ / (double)vf_scale<P>() / 2', 'P::α'),
    ('noise-present', 'requires { P::α; } || requires { P::η; }', ''),
    ('errordist', '(P::errordist == ErrorDistribution::ModularGaussian) ? requires { P::α; } : requires { P::η; }', 'P::errordist'),
    ('eta', 'P::η >= 1', 'P::η'),
]
KS_RULES = [
    ('digits', 'P::basebit >= 1 && P::t * P::basebit < std::numeric_limits<typename P::domainP::T>::digits', ''),
    ('noise', 'P::α == P::targetP::α', 'P::α'),
    ('errordist', 'P::errordist == P::targetP::errordist', 'P::errordist'),
    ('eta', 'P::η == P::targetP::η', 'P::η'),
]
TYPE_RULES_LEVEL = [
    ('Key', 'std::tuple_size_v<Key<P>> == P::k * P::n'),
    ('TLWE', 'vf_len<TLWE<P>>() == P::k * P::n + 1'),
]
TYPE_RULES_RING = [
    ('Polynomial', 'std::tuple_size_v<Polynomial<P>> == P::n && std::tuple_size_v<PolynomialInFD<P>> == P::n && std::tuple_size_v<PolynomialNTT<P>> == P::n'),
    ('TRLWE', 'std::tuple_size_v<TRLWE<P>> == P::k + 1 && std::tuple_size_v<TRLWEInFD<P>> == P::k + 1 && std::tuple_size_v<TRLWENTT<P>> == P::k + 1'),
    ('TRGSW', 'vf_len<TRGSW<P>>() == (P::k + 1) * P::l && vf_len<TRGSWFFT<P>>() == (P::k + 1) * P::l && vf_len<TRGSWNTT<P>>() == (P::k + 1) * P::l'),
    ('HalfTRGSW', 'vf_len<HalfTRGSW<P>>() == P::l && vf_len<HalfTRGSWFFT<P>>() == P::l'),
    ('DecomposedPolynomial', 'vf_len<DecomposedPolynomial<P>>() == P::l && vf_len<DecomposedPolynomialNTT<P>>() == P::l'),
    ('EvalAutoKey', 'vf_len<EvalAutoKey<P>>() == P::k && vf_len<AnnihilateKey<P>>() == P::nbit'),
    ('relinKey', 'vf_len<relinKey<P>>() == P::l && vf_len<relinKeyFFT<P>>() == P::l'),
]
TYPE_RULES_KS = [
    ('KeySwitchingKey', 'vf_dims<KeySwitchingKey<P>>(P::domainP::k * P::domainP::n, P::t, 1ul << (P::basebit - 1))'),
    ('PrivateKeySwitchingKey', 'vf_dims<PrivateKeySwitchingKey<P>>(P::domainP::k * P::domainP::n + 1, P::t, 1ul << (P::basebit - 1))', 'ring'),
    ('TLWE2TRLWEIKSKey', 'vf_dims<TLWE2TRLWEIKSKey<P>>(P::domainP::k * P::domainP::n, P::t, (1ul << P::basebit) - 1)', 'ring'),
    ('SubsetKeySwitchingKey', 'vf_dims<SubsetKeySwitchingKey<P>>(P::domainP::k * P::domainP::n - P::targetP::k * P::targetP::n, P::t, (1ul << P::basebit) - 1)', 'subset'),
    ('SubsetPrivateKeySwitchingKey', 'vf_dims<SubsetPrivateKeySwitchingKey<P>>(P::targetP::k * P::targetP::n + 1, P::t, (1ul << P::basebit) - 1)', 'subset'),
]

PRE = r'''
#include <bits/stdc++.h>
#include "cuhe++.hpp"
#include "raintt.hpp"
// the noise constants are plain constants computed by std::pow: this makes them usable in a constant expression
%s
#include "params.hpp"
#undef inline
#undef const
using namespace TFHEpp;
constexpr long double vf_pow2(unsigned b) { return b >= 64 ? 18446744073709551616.0L : (long double)(1ull << b); }
template <class P> constexpr unsigned vf_modbits() { if constexpr (requires { P::qbit; }) return P::qbit; else return std::numeric_limits<typename P::T>::digits; }
template <class P> constexpr long double vf_scale()
{
    // encodings of a level are relative to its modulus when that is a power of two, to the torus width otherwise
    if constexpr (requires { P::q; }) return (P::q & (P::q - 1)) == 0 ? (long double)P::q : vf_pow2(std::numeric_limits<typename P::T>::digits);
    else return vf_pow2(std::numeric_limits<typename P::T>::digits);
}
template <class A> struct vf_ex;
template <class E, size_t N> struct vf_ex<std::array<E, N>> { static constexpr size_t n = N; using e = E; };
template <class E, size_t N> struct vf_ex<aligned_array<E, N>> { static constexpr size_t n = N; using e = E; };
template <class A> constexpr size_t vf_len() { return vf_ex<A>::n; }
template <class A> constexpr bool vf_dims(size_t a, size_t b, size_t c)
{
    using B = typename vf_ex<A>::e; using C = typename vf_ex<B>::e;
    return vf_ex<A>::n == a && vf_ex<B>::n == b && vf_ex<C>::n == c;
}
'''


def rules(cfg):
    out = []   # (struct, tag, expression, member it is about)

    for p in LEVELS:
        for tag, ex, need in LEVEL_RULES:
            out.append((p, tag, ex, need))
        out += [(p, tag, ex, '') for tag, ex in TYPE_RULES_LEVEL]
        if p in RINGS:
            out += [(p, tag, ex, '') for tag, ex in TYPE_RULES_RING]
    for p in KS:
        a, b = DIG[p[3]], DIG[p[4]]
        out.append((p, 'levels', 'std::is_same_v<typename P::domainP, %s> && std::is_same_v<typename P::targetP, %s>' % (a, b), ''))
        for tag, ex, need in KS_RULES:
            if tag == 'noise' and (cfg, p) in PUBLISHED:
                ex = 'P::α == std::pow(2.0, %d)' % PUBLISHED[cfg, p]
            out.append((p, tag, ex, need))
        for r in TYPE_RULES_KS:
            if len(r) == 3 and b not in RINGS:
                continue
            if len(r) == 3 and r[2] == 'subset' and (p != 'lvl21param'):
                continue
            out.append((p, r[0], r[1], ''))
    for p in BK:
        a, b = DIG[p[3]], DIG[p[4]]
        out.append((p, 'levels', 'std::is_same_v<typename P::domainP, %s> && std::is_same_v<typename P::targetP, %s>' % (a, b), ''))
        out.append((p, 'addends', 'P::Addends >= 1 && (P::domainP::k * P::domainP::n) % P::Addends == 0', 'P::Addends'))
        if cfg != 'keybundle':
            out.append((p, 'BootstrappingKey', 'vf_len<BootstrappingKey<P>>() == P::domainP::k * P::domainP::n && vf_len<BootstrappingKeyElement<P>>() == P::domainP::key_value_diff', ''))
        out.append((p, 'BootstrappingKeyFFT', 'vf_len<BootstrappingKeyFFT<P>>() == P::domainP::k * P::domainP::n / P::Addends && vf_len<BootstrappingKeyElementFFT<P>>() >= '
                    + ('(1u << P::Addends) - 1' if cfg == 'keybundle' else 'P::domainP::key_value_diff'), ''))
    if cfg.startswith('ternary'):
        out.append(('lvl0param', 'ternary', 'P::key_value_min == -1 && P::key_value_max == 1', ''))
    return out


def unit(cfg, how):
    s = PRE % how
    for p, tag, ex, need in rules(cfg):
        cond = 'requires { %s; }' % need if need else 'true'
        s += ('static_assert([]<class P>() -> bool { if constexpr (%s) return %s; else return true; }.template operator()<%s>(), "C25|%s|%s");\n' % (cond, ex, p, p, tag))
    return s


FORMS = ['#define inline\n#define const constexpr', '#define inline constexpr', '#define inline\n', '']


def run(d, cfg):
    for i, how in enumerate(FORMS):
        src = os.path.join(d, 'p_%s_%d.cpp' % (cfg, i))
        with open(src, 'w') as f:
            f.write(unit(cfg, how))
        rc, so, se = vlib.run(['g++', '-std=gnu++20', '-fsyntax-only', '-w', '-march=x86-64-v3', '-fmax-errors=0', '-DUSE_RANDEN'] + CONFIGS[cfg] + vlib.incflags() + [src])
        errs = re.findall(r'^(.*?): error: (.*)$', se, re.M)
        other = [e for e in errs if 'C25|' not in e[1]]
        if rc == 0 or (errs and not other):
            break
    else:
        raise vlib.CheckError('the parameter set %s cannot be evaluated: %s' % (cfg, (other or ['', se])[0]))
    bad = []
    for at, m in errs:
        _, p, tag = re.search(r'(C25)\|(\w+)\|([\w-]+)', m).groups()
        bad.append((p, tag))
    return cfg, bad


def where(cfg, p):
    f = {'default': '128bit', 'keybundle': '128bit', 'compress': 'compress', 'concrete': 'concrete', 'tfhers': 'tfhe-rs', 'ternary': 'ternary',
         'ternarycmux': 'ternary', 'cggi16': 'CGGI16', 'cggi19': 'CGGI19'}[cfg]
    for rel in ('include/params/%s.hpp' % f, 'include/params.hpp'):
        with open(os.path.join(vlib.REPO, rel), encoding='utf-8') as h:
            for i, l in enumerate(h, 1):
                if re.match(r'\s*struct %s\b' % p, l):
                    return '%s:%d' % (rel, i)
    return 'include/params.hpp'


def check(tier):
    findings, n = [], 0
    with vlib.Work() as d, ThreadPoolExecutor(8) as ex:
        for cfg, bad in ex.map(lambda c: run(d, c), sorted(CONFIGS)):
            R = {(p, t): (e, q) for p, t, e, q in rules(cfg)}
            n += len(R)
            for p, tag in bad:
                findings.append({'key': '%s:%s:%s' % (cfg, p, tag), 'text': '%s: in parameter set %s, %s violates %s' % (where(cfg, p), cfg, p, tag),
                                 'detail': ['relation: ' + R[p, tag][0]]})
    return astrules.report(findings, {'assertions': n, 'parameter_sets': len(CONFIGS), 'refuted': len(findings)}, 'static assertions over the parameter sets',
                           sorted(CONFIGS),
                           'For each selectable parameter set one translation unit of static assertions (relations between the constants of every level, key-switch and bootstrapping '
                           'parameter, and the dimensions of every ciphertext and key type) is type-checked against the current headers; a relation that does not hold is a compile error '
                           'naming the structure and the relation.')
