"""Packing, digit decomposition and ternary controlled rotation assemble their steps in the right arrangement."""
from vlib import Entry

HALF = 'for (int j = 0; j < P::n; j++) '


def pack(var, l, off, itv, size, lsb, lines, top=False):
    """text computing the packing of 2^l ciphertexts off, off + itv, ... into var"""
    if not top:
        lines.append('TRLWE<P> %s;' % var)
    if lsb and off >= size:
        lines.append('%s = {};' % var)
        return
    if l == 0:
        lines.append('InvSampleExtractIndex<P>(%s, tl[%d], 0);' % (var, off))
        return
    e, o, m, d = (var + x for x in 'eomd')
    pack(e, l - 1, off, 2 * itv, size, lsb, lines)
    pack(o, l - 1, off + itv, 2 * itv, size, lsb, lines)
    lines.append('TRLWE<P> %(m)s, %(d)s; for (int k = 0; k <= P::k; k++) { PolynomialMulByXai<P>(%(m)s[k], %(o)s[k], P::n >> %(l)d); '
                 'for (int j = 0; j < P::n; j++) { %(e)s[k][j] /= 2; %(m)s[k][j] /= 2; %(d)s[k][j] = %(e)s[k][j] - %(m)s[k][j]; } }'
                 'EvalAuto<P>(%(v)s, %(d)s, %(g)d, ak[P::nbit - %(l)d]); '
                 'for (int k = 0; k <= P::k; k++) for (int j = 0; j < P::n; j++) %(v)s[k][j] += %(e)s[k][j] + %(m)s[k][j];'
                 % dict(v=var, e=e, o=o, m=m, d=d, l=l, g=(1 << l) + 1))


def entries(tier):
    out = []
    for cfg in ('default', 'concrete', 'tfhers', 'ternary', 'compress'):
        for P in ('lvl1param', 'lvl2param'):
            def add(id, fn, params, call, ref, nocut, **kw):
                out.append(Entry('c28_%s_%s_%s' % (cfg, P, id), 'C28', fn, {'P': P}, params, call, ref, nocut=nocut, cfg=cfg, **kw))

            V = 'const TLWE<P> *view[3] = {&tl[0], &tl[0] + %d, &tl[0] + tl.size()};  // the three pointers of a vector\n'
            VV = '*(std::vector<TLWE<P>> *)view'
            R, AK = ('TRLWE<P> &', 'res'), ('const AnnihilateKey<P> &', 'ak')
            T = [R, ('const std::array<TLWE<P>, 32> &', 'tl'), AK]
            for fn in ('PackLWEs', 'PackLWEsLSB'):
                for l, off, itv, size in ((0, 5, 8, 32), (1, 3, 4, 32), (2, 1, 3, 32), (3, 2, 3, 32), (0, 5, 8, 5), (0, 5, 8, 6), (1, 3, 2, 5), (2, 0, 1, 3), (2, 1, 2, 6)):
                    lsb = fn.endswith('LSB')
                    if size < 32 and not lsb:
                        continue
                    s = []
                    pack('res', l, off, itv, size, lsb, s, True)
                    add('%s_%d_%d' % (fn, l, size), fn, T, V % size + '%s<P>(res, %s, ak, %d, %d, %d);' % (fn, VV, l, off, itv), '\n'.join(s), ['TFHEpp::%s<' % fn])
            # the two whole packings: all ciphertexts from the first one on, then every remaining automorphism
            for l in (0, 2, 4):
                add('cheng%d' % l, 'TLWE2TRLWEChengsPacking', T, V % (1 << l) + 'TLWE2TRLWEChengsPacking<P>(res, %s, ak);' % VV, V % (1 << l) + '''
                    PackLWEs<P>(res, %s, ak, %d, 0, 1);
                    for (int i = 0; i < P::nbit - %d; i++) { TRLWE<P> h, a; for (int k = 0; k <= P::k; k++) for (int j = 0; j < P::n; j++) h[k][j] = res[k][j] / 2;
                      EvalAuto<P>(a, h, (1 << (P::nbit - i)) + 1, ak[i]); for (int k = 0; k <= P::k; k++) for (int j = 0; j < P::n; j++) res[k][j] = h[k][j] + a[k][j]; }'''
                    % (VV, l, l), ['TFHEpp::TLWE2TRLWEChengsPacking<'], unroll=16)
            add('lsball', 'TLWE2TRLWEPacking', T, V % 7 + 'TLWE2TRLWEPacking<P>(res, %s, ak);' % VV, V % 7 + 'PackLWEsLSB<P>(res, %s, ak, P::nbit, 0, 1);' % VV, ['TFHEpp::TLWE2TRLWEPacking<'])
        # --- digit decomposition: digit d of a message of numdigit * basebit bits
        for b, nd in ((4, 1), (4, 3), (2, 4), (5, 2)):
            out.append(Entry('c28_%s_homdecomp_%d_%d' % (cfg, b, nd), 'C28', 'HomDecomp', {'h': 'lvl31param', 'm': 'lvl1hparam', 'br': 'lvlh1param', 'H': 'lvl3param', 'M': 'lvl1param', 'L': 'lvlhalfparam'},
                             [('std::array<TLWE<M>, %d> &' % nd, 'res'), ('const TLWE<H> &', 'c'), ('const KeySwitchingKey<h> &', 'k1'), ('const KeySwitchingKey<m> &', 'k2'), ('const BootstrappingKeyFFT<br> &', 'bk')],
                             'HomDecomp<h, m, br, %d, %d>(res, c, k1, k2, bk);' % (b, nd),
                             '''Polynomial<M> tv; for (int i = 0; i < M::n; i++) tv[i] = (typename M::T)1 << (std::numeric_limits<typename M::T>::digits - %(b)d - 2);
                                for (int d = 0; d < %(n)d; d++) { TLWE<H> s; for (int i = 0; i <= H::k * H::n; i++) s[i] = c[i] << (%(b)d * (%(n)d - 1 - d)); IdentityKeySwitch<h>(res[d], s, k1); }
                                TLWE<M> low; TLWE<L> t;
                                for (int d = 0; d < %(n)d; d++) {
                                  if (d > 0) { for (int i = 0; i <= M::k * M::n; i++) res[d][i] += low[i]; res[d][M::k * M::n] -= (typename M::T)1 << (std::numeric_limits<typename M::T>::digits - %(b)d - 1); }
                                  IdentityKeySwitch<m>(t, res[d], k2); t[L::k * L::n] += (typename L::T)1 << (std::numeric_limits<typename L::T>::digits - %(b)d - 1);
                                  if (d + 1 < %(n)d) GateBootstrappingTLWE2TLWEFFT<br>(low, t, bk, tv); }''' % {'b': b, 'n': nd},
                             nocut=['TFHEpp::HomDecomp<'], cfg=cfg, unroll=8))
    # --- controlled rotation with a ternary key in the frequency domain
    for br, P in (('lvl01param', 'lvl1param'), ('lvl02param', 'lvl2param')):
        out.append(Entry('c28_ternarycmux_%s_step' % br, 'C28', 'CMUXFFTwithPolynomialMulByXaiMinusOne', {'br': br, 'P': P},
                         [('TRLWE<P> &', 'acc'), ('const BootstrappingKeyElementFFT<br> &', 'cs'), ('const int', 'a')], 'CMUXFFTwithPolynomialMulByXaiMinusOne<br>(acc, cs, a);',
                         '''TRGSWFFT<P> g; for (int j = 0; j < (P::k + 1) * P::l; j++) for (int k = 0; k <= P::k; k++) { PolynomialInFD<P> x, y;
                              PolynomialMulByXaiMinusOneInFD<P>(x, cs[0][j][k], -a); PolynomialMulByXaiMinusOneInFD<P>(y, cs[1][j][k], a);
                              for (int i = 0; i < P::n; i++) g[j][k][i] = trgswone%s[j][k][i] + x[i] + y[i]; }
                            trgswfftExternalProduct<P>(acc, acc, g);''' % P[:4],
                         nocut=['TFHEpp::CMUXFFTwithPolynomialMulByXaiMinusOne<'], cfg='ternarycmux', ranges={'a': (1, '2 * P::n - 1')}, unroll=4))
    # --- one bundled key: the gadget form of one plus each key entry times (its monomial - 1)
    for br, P in (('lvl01param', 'lvl1param'), ('lvl02param', 'lvl2param')):
        out.append(Entry('c28_keybundle_%s_bundle' % br, 'C28', 'KeyBundleFFT', {'br': br, 'P': P},
                         [('TRGSWFFT<P> &', 'res'), ('const BootstrappingKeyElementFFT<br> &', 'bk'), ('const std::array<typename br::domainP::T, 2> &', 'a')],
                         'KeyBundleFFT<br>(res, bk, a);',
                         '''res = onetrgsw%(p)s; const unsigned M = 2 * P::n - 1; for (int j = 0; j < (P::k + 1) * P::l; j++) for (int k = 0; k <= P::k; k++) {
                              FMAInFD<P::n>(res[j][k], bk[2][j][k], (*xaitt%(p)s)[a[1] & M]); FMAInFD<P::n>(res[j][k], bk[1][j][k], (*xaitt%(p)s)[a[0] & M]);
                              FMAInFD<P::n>(res[j][k], bk[0][j][k], (*xaitt%(p)s)[(a[0] + a[1]) & M]); }''' % {'p': P[:4]},
                         nocut=['TFHEpp::KeyBundleFFT<'], cfg='keybundle', unroll=4))
        out.append(Entry('c28_keybundle_%s_one' % br, 'C28', 'oneTRGSWFFTgen', {'P': P}, [('TRGSWFFT<P> &', 'res')], 'res = oneTRGSWFFTgen<P>();',
                         '''constexpr auto h = hgen<P>(); TRGSW<P> t = {}; for (size_t k = 0; k < P::k + 1; k++) for (size_t i = 0; i < P::l; i++) t[k * P::l + i][k][0] = h[i];
                            res = ApplyFFT2trgsw<P>(t);''', nocut=['TFHEpp::oneTRGSWFFTgen<'], cfg='keybundle'))
    return out


def check(tier):
    import runner
    return runner.check_entries("C28", entries(tier), tier)
