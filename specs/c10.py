"""Blind rotation visits every key coordinate once with its own rounded exponent."""
from vlib import Entry

DEF = '''using D = typename B::domainP; using P = typename B::targetP; using DT = typename D::T;
constexpr int W = std::numeric_limits<DT>::digits, DN = D::k * D::n, TWO = 2 * P::n;
// the 2N-torus holds nbit+1 bits; num outputs cost that many low bits of it
template <unsigned num> constexpr int lost() { int b = 0; while ((1u << b) < num) b++; return b; }
template <unsigned num> static inline uint32_t body(const TLWE<D> &x) {
  constexpr int b = lost<num>(); return (uint32_t)TWO - ((uint32_t)(x[DN] >> (W - 1 - (int)P::nbit + b)) << b); }
template <unsigned num> static inline uint32_t expo(const DT m) {
  constexpr int b = lost<num>(); constexpr int s = W - 1 - (int)P::nbit + b; constexpr DT half = (DT)1 << (s - 1);
  return (uint32_t)((m + half) >> s << b); }
// the same with the sum reduced to the torus first
template <unsigned num> static inline uint32_t expow(const DT m) {
  constexpr int b = lost<num>(); constexpr int s = W - 1 - (int)P::nbit + b; constexpr DT half = (DT)1 << (s - 1);
  return (uint32_t)((DT)(m + half) >> s) << b; }
'''
ST = {'poly': 'for (int k = 0; k < (int)P::k; k++) for (int i = 0; i < (int)P::n; i++) res[k][i] = 0; PolynomialMulByXai<P>(res[P::k], tv, body<%d>(x));\n',
      'ring': 'for (int k = 0; k <= (int)P::k; k++) PolynomialMulByXai<P>(res[k], tv[k], body<%d>(x));\n'}
CMUX = {'FFT': 'CMUXFFTwithPolynomialMulByXaiMinusOne<B>', 'NTT': 'CMUXNTTwithPolynomialMulByXaiMinusOne<P>',
        'RAINTT': 'CMUXRAINTTwithPolynomialMulByXaiMinusOne<P>'}
BUNDLE = '''std::array<TRGSWFFT<P>, DN / 2> both;
for (int i = 0; i < DN / 2; i++) { const std::array<DT, 2> a = {(DT)expo<%d>(x[2 * i]), (DT)expo<%d>(x[2 * i + 1])}; KeyBundleFFT<B>(both[i], bk[i], a); }
for (int i = 0; i < DN / 2; i++) { TRLWE<P> o; trgswfftExternalProduct<P>(o, res, both[i]); res = o; }'''


def loop(nt, num, ex, skip):
    return 'for (int i = 0; i < DN; i++) { const uint32_t a = %s<%d>(x[i]); %s %s(res, bk[i], a); }' % (ex, num, 'if (a == 0) continue;' if skip else '', CMUX[nt])


BLINDS = [('default', 'lvl01param', 'vfs::Ring'), ('default', 'lvl01param', 'vfs::Ring2'), ('default', 'lvl01param', 'lvl1param'), ('default', 'lvl02param', 'lvl2param'),
          ('default', 'lvlh1param', 'lvl1param'), ('default', 'lvlh2param', 'lvl2param'),
          ('concrete', 'lvl01param', 'lvl1param'), ('concrete', 'lvl02param', 'lvl2param'), ('tfhers', 'lvl01param', 'lvl1param'), ('tfhers', 'lvl02param', 'lvl2param'),
          ('compress', 'lvl01param', 'lvl1param'), ('ternary', 'lvl01param', 'lvl1param'), ('ternary', 'lvl02param', 'lvl2param'),
          ('keybundle', 'lvl01param', 'lvl1param'), ('keybundle', 'lvl02param', 'lvl2param')]
REAL = [('default', ['lvl01param', 'lvlh1param', 'lvl02param', 'lvlh2param']), ('concrete', ['lvl01param', 'lvl02param']), ('tfhers', ['lvl01param', 'lvl02param']),
        ('compress', ['lvl01param', 'lvl02param']), ('ternary', ['lvl01param', 'lvl02param'])]


def entries(tier):
    out = []
    for cfg, b, t in BLINDS:
        for n, k in ((2, 1), (4, 1), (2, 2)):
            if (n, k) != (4, 1) and (cfg, b) != ('default', 'lvl01param'):
                continue
            using = {'B': 'vfs::Br<%s, %s, %d, %d>' % (b, t, n, k)}
            X = [('TRLWE<P> &', 'res'), ('const TLWE<D> &', 'x')]
            for nt in ('FFT', 'NTT', 'RAINTT'):
                if nt != 'FFT' and (cfg in ('keybundle', 'ternary') or cfg != 'default' and b != 'lvl01param'):
                    continue
                if nt == 'RAINTT' and t != 'lvl1param':
                    continue
                for form, tv in (('poly', 'const Polynomial<P> &'), ('ring', 'const TRLWE<P> &')):
                    if form == 'ring' and nt != 'FFT':
                        continue
                    for num in (1, 2, 3, 4):
                        if num in (2, 4) and (cfg != 'default' or (n, k) != (4, 1)):
                            continue
                        st = ST[form] % num
                        if cfg == 'keybundle':
                            ref, alts = st + BUNDLE % (num, num), []
                        else:
                            ref, alts = st + loop(nt, num, 'expo', True), [st + loop(nt, num, e, s) for e, s in (('expo', 0), ('expow', 1), ('expow', 0))]
                        out.append(Entry('c10_%s_%s_%s_%d_%d_%s%s%d' % (cfg, b, t.split('::')[-1], n, k, nt, form, num), 'C10', 'BlindRotate', using,
                                         X + [('const BootstrappingKey%s<B> &' % nt, 'bk'), (tv, 'tv')],
                                         'BlindRotate<B%s>(res, x, bk, tv);' % ('' if num == 1 else ', %d' % num), ref, alts=alts,
                                         pre=DEF, nocut=[r'TFHEpp::BlindRotate'], cfg=cfg, unit='synth', unroll=5))
    for cfg, bs in REAL:
        for b in bs:
            def add(id, fn, params, call, ref, nocut, **kw):
                kw.setdefault('pre', DEF)
                out.append(Entry('c10_%s_%s_%s' % (cfg, b, id), 'C10', fn, kw.pop('using', {'B': b}), params, call, ref, nocut=nocut, cfg=cfg, **kw))
            X = ('const TLWE<D> &', 'x')
            for nt in ('FFT', 'NTT', 'RAINTT'):
                if nt == 'RAINTT' and (cfg, b) != ('default', 'lvl01param'):
                    continue
                fn = 'GateBootstrappingTLWE2TLWE' + nt
                add('gb' + nt, fn, [('TLWE<P> &', 'res'), X, ('const BootstrappingKey%s<B> &' % nt, 'bk'), ('const Polynomial<P> &', 'tv')],
                    fn + '<B>(res, x, bk, tv);', 'TRLWE<P> acc; BlindRotate<B>(acc, x, bk, tv); SampleExtractIndex<P>(res, acc, 0);', [r'TFHEpp::GateBootstrapping'])
            for num in (2, 3, 4):
                add('many%d' % num, 'GateBootstrappingManyLUT', [('std::array<TLWE<P>, %d> &' % num, 'res'), X, ('const BootstrappingKeyFFT<B> &', 'bk'), ('const Polynomial<P> &', 'tv')],
                    'GateBootstrappingManyLUT<B, %d>(res, x, bk, tv);' % num,
                    'TRLWE<P> acc; BlindRotate<B, %d>(acc, x, bk, tv); for (int i = 0; i < %d; i++) SampleExtractIndex<P>(res[i], acc, i);' % (num, num), [r'TFHEpp::GateBootstrapping'])
            for v in ('P::μ', '(typename P::T)-P::μ'):
                add('mupoly%d' % (v[0] == '('), 'μpolygen', [('Polynomial<P> &', 'res')], 'res = μpolygen<P, %s>();' % v, 'for (int i = 0; i < (int)P::n; i++) res[i] = %s;' % v, [])
            # keys: indicator of every nonzero key value
            DK, TK, SK = ('const Key<D> &', 'dkey'), ('const Key<P> &', 'tkey'), ('const SecretKey &', 'sk')
            for fn, ty, enc in (('bkgen', 'BootstrappingKey<B> &', 'trgswSymEncrypt'), ('bkfftgen', 'BootstrappingKeyFFT<B> &', 'trgswfftSymEncrypt')):
                ref = '''for (int i = 0; i < DN; i++) { int q = 0; for (int v = D::key_value_min; v <= D::key_value_max; v++) if (v != 0) {
  Polynomial<P> p = {}; p[0] = dkey[i] == v ? 1 : 0; res[i][q] = %s<P>(p, tkey); q++; } }''' % enc
                add(fn, fn, [(ty, 'res'), DK, TK], fn + '<B>(res, dkey, tkey);', ref, [r'TFHEpp::%s<' % fn], erase=True, unroll=4)
                add(fn + 'sk', fn, [(ty, 'res'), SK], fn + '<B>(res, sk);', fn + '<B>(res, sk.key.get<D>(), sk.key.get<P>());', [r'TFHEpp::%s<.*SecretKey' % fn], erase=True)
            if cfg != 'ternary':
                for fn, ty, enc in (('bknttgen', 'BootstrappingKeyNTT<B> &', 'trgswnttSymEncrypt'), ('bkrainttgen', 'BootstrappingKeyRAINTT<B> &', 'trgswrainttSymEncrypt')):
                    if fn == 'bkrainttgen' and (cfg, b) != ('default', 'lvl01param'):
                        continue
                    ref = 'for (int i = 0; i < DN; i++) { Polynomial<P> p = {}; p[0] = dkey[i]; res[i] = %s<P>(p, tkey); }' % enc
                    add(fn, fn, [(ty, 'res'), DK, TK], fn + '<B>(res, dkey, tkey);', ref, [r'TFHEpp::%s<' % fn], erase=True)
                    add(fn + 'sk', fn, [(ty, 'res'), SK], fn + '<B>(res, sk);', fn + '<B>(res, sk.key.get<D>(), sk.key.get<P>());', [r'TFHEpp::%s<.*SecretKey' % fn], erase=True)
    # key bundle: pairs of coordinates, one entry per nonzero pair of key bits
    for b in ('lvl01param', 'lvl02param'):
        using = {'B': 'vfs::Br<%s, typename %s::targetP, 4, 1>' % (b, b)}
        for fn, ty, enc in (('bkgen', 'BootstrappingKey<B> &', 'trgswSymEncrypt'), ('bkfftgen', 'BootstrappingKeyFFT<B> &', 'trgswfftSymEncrypt')):
            ref = '''for (int i = 0; i < DN / 2; i++) { const DT s = dkey[2 * i], t = dkey[2 * i + 1];
  Polynomial<P> p = {}; p[0] = (int32_t)(s * t); res[i][0] = %s<P>(p, P::α, tkey);
  p[0] = (int32_t)(s * (1 - t)); res[i][1] = %s<P>(p, P::α, tkey); p[0] = (int32_t)((1 - s) * t); res[i][2] = %s<P>(p, P::α, tkey); }''' % (enc, enc, enc)
            out.append(Entry('c10_keybundle_%s_%s' % (b, fn), 'C10', fn, using, [(ty, 'res'), ('const Key<D> &', 'dkey'), ('const Key<P> &', 'tkey')],
                             fn + '<B>(res, dkey, tkey);', ref, pre=DEF, nocut=[r'TFHEpp::%s<' % fn], cfg='keybundle', unit='synth', erase=True, unroll=5))
    return out


def check(tier):
    import runner
    return runner.check_entries('C10', entries(tier), tier)
