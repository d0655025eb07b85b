"""The integer transforms compute exact negacyclic products (cuHE++ and RAINTT) and exact inverses (Nussbaumer)."""
import json
import os
import re
import vlib

SRC = r'''
#undef NDEBUG
#include <cassert>
#include <cstdint>
#include <array>
#include <memory>
#include <span>
#include <algorithm>
#include "cuhe++.hpp"
#include "raintt.hpp"
#include "nussbaumer.hpp"
extern "C" { uint32_t __vf_in32(int,int,long,long); void __vf_out32(int,uint32_t); uint64_t __vf_in64(int,int,long,long); void __vf_out64(int,uint64_t); void __vf_mod(unsigned long, int); }
template <unsigned B> void cuhe() {
  __vf_mod(cuHEpp::P, 0);
  constexpr int N = 1 << B;
  std::array<uint32_t, N> a, b, r;
  for (int i = 0; i < N; i++) { a[i] = __vf_in32(1, i, 0, 0xffffffffl); b[i] = __vf_in32(2, i, 0, 0xffffffffl); }
  auto table = cuHEpp::TableGen<B>(); auto twist = cuHEpp::TwistGen<B>();
  cuHEpp::PolyMullvl1<uint32_t, B>(r, a, b, *table, *twist);
  for (int i = 0; i < N; i++) __vf_out32(i, r[i]);
}
extern "C" void vf_cuhe9() { cuhe<9>(); }
extern "C" void vf_cuhe10() { cuhe<10>(); }
extern "C" void vf_cuhe11() { cuhe<11>(); }
template <unsigned B> void rai() {
  __vf_mod(raintt::P, raintt::wordbits);
  constexpr int N = 1 << B;
  std::array<uint32_t, N> a, b, r;
  for (int i = 0; i < N; i++) { a[i] = __vf_in32(1, i, -DIGIT, DIGIT); b[i] = __vf_in32(2, i, 0, (long)raintt::P); }
  auto table = raintt::TableGen<B>(); auto twist = raintt::TwistGen<B, 3>();
  raintt::PolyMullvl1<uint32_t, B, false, false>(r, a, b, *table, *twist);
  for (int i = 0; i < N; i++) __vf_out32(i, r[i]);
}
extern "C" void vf_rai9() { rai<9>(); }
extern "C" void vf_rai10() { rai<10>(); }
template <class T, unsigned B> void nuss() {
  __vf_mod(0, 0);
  constexpr int N = 1 << B;
  std::array<T, N> a;
  for (int i = 0; i < N; i++) a[i] = sizeof(T) == 4 ? __vf_in32(1, i, 0, 0) : __vf_in64(1, i, 0, 0);
  Nussbaumer::NussbaumerTransform<T, B>(std::span<T, N>(a));
  Nussbaumer::InverseNussbaumerTransform<T, B>(std::span<T, N>(a));
  for (int i = 0; i < N; i++) if (sizeof(T) == 4) __vf_out32(i, a[i]); else __vf_out64(i, a[i]);
}
extern "C" void vf_nuss64() { nuss<uint64_t, 10>(); }
extern "C" void vf_nuss32() { nuss<uint32_t, 9>(); }

// ---- the primitive operations that the interpreter takes as ring operations, at boundary and scattered values
using U = unsigned __int128;
using S = __int128;
static const uint64_t CP = cuHEpp::P;
static uint64_t mulm(uint64_t a, uint64_t b) { return (uint64_t)((U)a * b % CP); }
static const int NV = 72;
static uint64_t cuval(int i) {
  static const uint64_t t[] = {0, 1, 2, 3, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001, 0x1fffffffe, 0x1ffffffff, 0x200000000,
    CP - 1, CP - 2, CP - 3, CP / 2, CP / 2 + 1, 0xfffffffe00000000, 0xfffffffe00000001, 0xfffffffeffffffff, 0x8000000000000000, 0x7fffffffffffffff, 0xffffffff00000000, 0x80000000ffffffff, 0x00000001ffffffff,
    CP - 0xffffffff, CP - 0x100000000, CP - 0x80000000, 0x7fffffff80000000, 0x8000000080000000, 0xaaaaaaaa55555555};
  if (i < 32) return t[i] % CP;
  uint64_t x = 0x9e3779b97f4a7c15u * (i + 1);
  x ^= x >> 29; x *= 0xbf58476d1ce4e5b9u; x ^= x >> 32;
  return (i & 1 ? x : i & 2 ? x & 0xffffffff00000000 : x >> 32) % CP;
}
extern "C" void vf_leaf_intorus() {
  using T = cuHEpp::INTorus;
  __vf_mod(CP, 0);
  assert(T(CP).value == 0 && T(CP + 5).value == 5 && T(~0ull).value == ~0ull - CP && T(CP - 1).value == CP - 1);
  for (int i = 0; i < NV; i++) {
    const uint64_t a = cuval(i);
    const T x(a, false);
    assert(T(a).value == a);
    for (int j = 0; j < NV; j++) {
      const uint64_t b = cuval(j);
      const T y(b, false);
      assert((x + y).value == (uint64_t)(((U)a + b) % CP));
      assert((x - y).value == (uint64_t)(((U)a + CP - b) % CP));
      assert((x * y).value == mulm(a, b));
      T z = x; z += y; assert(z.value == (uint64_t)(((U)a + b) % CP));
      z = x; z -= y; assert(z.value == (uint64_t)(((U)a + CP - b) % CP));
      z = x; z *= y; assert(z.value == mulm(a, b));
    }
    uint64_t s = a;
    for (int l = 0; l < 192; l++) {
      assert((x << l).value == s);
      s = mulm(s, 2);
    }
    uint64_t p = 1;
    for (int e = 0; e < 20; e++) { assert(x.Pow(e).value == p); p = mulm(p, a); }
  }
  uint64_t h = 2;
  for (int n = 1; n < 32; n++) { assert(mulm(cuHEpp::InvPow2(n).value, h) == 1); h = mulm(h, 2); }
}
extern "C" void vf_leaf_sredc() {
  using namespace raintt;
  __vf_mod(P, wordbits);
  const S R1 = (S)1 << wordbits, p = P, top = p * (R1 / 2) - 1;
  for (int i = 0; i < 600; i++) {
    uint64_t x = 0x9e3779b97f4a7c15u * (i + 1);
    x ^= x >> 29; x *= 0xbf58476d1ce4e5b9u; x ^= x >> 32;
    S a;
    switch (i % 6) {
      case 0: a = (S)(i / 6) - 50; break;
      case 1: a = top - (i / 6); break;
      case 2: a = -top + (i / 6); break;
      case 3: a = ((S)(i / 6) - 50) * (R1 / 2) + (S)(x % 5) - 2; break;
      case 4: a = ((S)(i / 6) - 50) * p * (S)(1 + x % 1000) + (S)((x >> 20) % 3) - 1; break;
      default: a = (S)x % (top + 1) * (i & 1 ? -1 : 1);
    }
    const S r = SREDC((DoubleSWord)a);
    assert((r * R1 - a) % p == 0);
    const S n = a - r * R1;               // a multiple of P: at most R/2 times P
    assert(n <= p * (R1 / 2) && n >= -p * (R1 / 2));
    if (i % 6 == 5 || i % 6 == 4) {
      const U t = (U)(a < 0 ? -a : a) % ((U)P * R1);
      const S q = REDC((DoubleWord)t);
      assert((q * R1 - (S)t) % p == 0 && q >= 0 && q <= p);
    }
  }
}
extern "C" void vf_leaf_switch() {
  __vf_mod(CP, 0);
  {
    constexpr int N = 8;
    std::array<cuHEpp::INTorus, N> one, x; std::array<uint64_t, N> a, r;
    for (int i = 0; i < N; i++) one[i] = cuHEpp::INTorus(1, false);
    for (int v = 0; v < 128; v += N) {
      for (int i = 0; i < N; i++) a[i] = v + i < NV ? cuval(v + i) : ~cuval(v + i - NV);
      cuHEpp::TwistMulInvert<uint64_t, 3>(x, a, one);
      for (int i = 0; i < N; i++) assert(x[i].value == (uint64_t)(((U)a[i] * CP + ((U)1 << 63)) >> 64) % CP);
      for (int i = 0; i < N; i++) x[i] = cuHEpp::INTorus(mulm(cuval(v % 64 + i), N), false);
      cuHEpp::TwistMulDirect<uint64_t, 3>(r, x, one);
      for (int i = 0; i < N; i++) {
        const int64_t d = (int64_t)(r[i] - (uint64_t)(((U)cuval(v % 64 + i) << 64) / CP));
        assert(d >= -1 && d <= 2);
      }
      std::array<uint32_t, N> r2;
      cuHEpp::TwistMulDirect<uint32_t, 3>(r2, x, one);
      for (int i = 0; i < N; i++) assert(r2[i] == (uint32_t)cuval(v % 64 + i));
    }
  }
  {
    using namespace raintt;
    constexpr int N = 8;
    std::array<SWord, N> one; std::array<DoubleSWord, N> x; std::array<uint32_t, N> a, r;
    for (int i = 0; i < N; i++) one[i] = R;
    for (int v = 0; v < 128; v += N) {
      for (int i = 0; i < N; i++) a[i] = (uint32_t)(v + i < NV ? cuval(v + i) : ~cuval(v + i - NV));
      TwistMulInvert<uint32_t, 3, true>(x, a, one);
      for (int i = 0; i < N; i++) assert(((S)x[i] - (S)(((U)a[i] * (U)P + ((U)1 << 31)) >> 32)) % (S)P == 0);
      TwistMulInvert<uint32_t, 3, false>(x, a, one);
      for (int i = 0; i < N; i++) if ((int32_t)a[i] < 4096 && (int32_t)a[i] > -4096) assert(((S)x[i] - (S)(int32_t)a[i]) % (S)P == 0);
      for (int i = 0; i < N; i++) x[i] = (DoubleSWord)((S)(cuval(v % 64 + i) % (uint64_t)P) - (i & 1 ? (S)P : 0));
      TwistMulDirect<uint32_t, 3, true>(r, x, one);
      for (int i = 0; i < N; i++) {
        const uint64_t w = cuval(v % 64 + i) % (uint64_t)P;
        const int32_t d = (int32_t)(r[i] - (uint32_t)((w << 32) / (uint64_t)P));
        assert(d >= -(1 << (33 - wordbits > 0 ? 33 - wordbits : 0)) - 2 && d <= 2 + (1 << (33 - wordbits > 0 ? 33 - wordbits : 0)));
      }
      TwistMulDirect<uint32_t, 3, false>(r, x, one);
      for (int i = 0; i < N; i++) assert(((S)r[i] - (S)(cuval(v % 64 + i) % (uint64_t)P)) % (S)P == 0);
    }
  }
}
'''
# root -> description
PROOFS = {'vf_cuhe9': 'cuHEpp::PolyMullvl1 N=512', 'vf_cuhe10': 'cuHEpp::PolyMullvl1 N=1024', 'vf_cuhe11': 'cuHEpp::PolyMullvl1 N=2048',
          'vf_rai9': 'raintt::PolyMullvl1 N=512', 'vf_rai10': 'raintt::PolyMullvl1 N=1024',
          'vf_nuss64': 'Nussbaumer transform and inverse, 64 bit N=1024', 'vf_nuss32': 'Nussbaumer transform and inverse, 32 bit N=512'}
LEAVES = {'vf_leaf_intorus': 'cuHEpp::INTorus operations', 'vf_leaf_sredc': 'raintt::SREDC and REDC', 'vf_leaf_switch': 'modulus switches of TwistMulInvert and TwistMulDirect'}
# (configuration, flags, bound on the digits)
CFG = [('default', [], 1 << 12), ('compress', ['-DUSE_COMPRESS'], 1 << 6)]


def job(x):
    bc, root, args, limit = x
    try:
        rc, so, se = vlib.run([vlib.modarith(), bc, root] + args, limit)
        return json.loads(so.strip().splitlines()[-1]) if so.strip() else {'status': 'unknown', 'why': 'interpreter ended: ' + se[-200:]}
    except Exception as e:
        return {'status': 'unknown', 'why': type(e).__name__ + ' ' + str(e)[:200]}


def check(tier):
    vlib.modarith()      # leaves: without the ring operations standing for the primitives
    findings, cov, und, n = [], {}, [], {'proved': 0, 'agree': 0, 'undecided': 0}
    with vlib.Work() as d:
        todo = []
        for cfg, fl, dig in CFG:
            bc, err = vlib.compile_unit(d, 'ntt_' + cfg, SRC, fl + ['-DDIGIT=%dl' % dig])
            if bc is None:
                und.append('%s: does not compile: %s' % (cfg, (re.search(r'error: .*', err) or [err[-200:]])[0]))
                n['undecided'] += 1
                continue
            for r in list(PROOFS) + list(LEAVES):
                if cfg != 'default' and 'rai' not in r and 'sredc' not in r and 'switch' not in r:
                    continue
                todo.append((cfg, bc, r))
        rs = vlib.pmap(job, [(bc, r, ['witness', '0'] if r in LEAVES else [], 240 if tier == 'quick' else 1200) for cfg, bc, r in todo], 8)
        again = []
        for (cfg, bc, r), x in zip(todo, rs):
            x = x or {'status': 'unknown', 'why': 'process ended'}
            name = (PROOFS.get(r) or LEAVES[r]) + ' [%s]' % cfg
            for q in x.get('functions', []):
                q = re.sub(r'<.*', '', q)
                if q.split('::')[0] in ('cuHEpp', 'raintt', 'Nussbaumer'):
                    cov.setdefault(q, 0)
                    cov[q] += 1
            if r in LEAVES:
                if x['status'] == 'assertion':
                    findings.append({'key': '%s:%s' % (r, cfg), 'text': '%s: %s' % (name, x['why']), 'detail': ['functions: ' + ', '.join(x.get('functions', []))[:600]]})
                elif x['status'] == 'unknown':
                    und.append('%s: %s' % (name, x['why']))
                    n['undecided'] += 1
                else:
                    n['agree'] += 1
            elif x['status'] == 'proved':
                n['proved'] += 1
            elif x['status'] == 'assertion' or 'nuss' in r and x['status'] == 'refuted':
                findings.append({'key': '%s:%s' % (r, cfg), 'text': '%s: %s' % (name, x['why']), 'detail': ['functions: ' + ', '.join(x.get('functions', []))[:600]]})
            elif 'nuss' in r:
                und.append('%s: %s' % (name, x['why']))
                n['undecided'] += 1
            else:
                again.append((cfg, bc, r, name, x))
        # no proof: look for operands on which the interpreted instructions give another product
        ws = [(a, s) for a in again for s in (('1', '0') if 'cuhe' in a[2] else ('0', '1', '2', '3'))]
        wr = vlib.pmap(job, [(a[1], a[2], ['witness', s], 300 if tier == 'quick' else 1200) for a, s in ws], 8)
        hit = {}
        for (a, s), w in zip(ws, wr):
            if w and w['status'] in ('differs', 'assertion'):
                hit.setdefault(a[3], (s, w))
        for cfg, bc, r, name, x in again:
            if name in hit:
                s, w = hit[name]
                findings.append({'key': '%s:%s' % (r, cfg), 'text': '%s is not the product modulo X^N+1: %s' % (name, w['why']),
                                 'detail': ['operand set %s' % s, 'linear forms: %s, %s' % (x['status'], x['why']), 'first value without a form: %s' % x.get('first_lost', ''),
                                            'functions: ' + ', '.join(x.get('functions', []))[:600]]})
            else:
                und.append('%s: %s %s' % (name, x['status'], x['why']))
                n['undecided'] += 1
    tot = sum(n.values()) + len(findings)
    rep = {'level': 'other', 'findings': findings,
           'summary': '%d transforms and primitive groups: %d proved, %d agree at boundary values, %d undecided' % (tot, n['proved'], n['agree'], n['undecided']),
           'coverage': {'explanation': 'The LLVM IR of each transform is interpreted over linear forms modulo the transform prime together with integer ranges; the product is proved by showing that '
                        'every pointwise product multiplies the values of both operands at one root of X^N+1, that the roots are distinct, and that the outputs interpolate them, and that no '
                        'intermediate value leaves its type. Ring primitives are interpreted at boundary values.',
                        'obligations': tot, 'discharged': n['proved'], 'no_difference_found': n['agree'], 'undecided': n['undecided'], 'functions': len(cov),
                        'analysed': sorted(cov), 'undecided_list': und[:20]},
           'assumptions': ['operands of the RAINTT product are digits of at most %d (compress: %d) in absolute value and residues in [0, P]' % (CFG[0][2], CFG[1][2])]}
    if n['proved'] + n['agree'] < 5 and not findings:
        rep['too_small'] = 'only %d of %d decided' % (n['proved'] + n['agree'], tot)
    return rep
