"""Ring products, transforms and BFV style operations combine the right operands."""
from vlib import Entry

FFT = 'fftp%s.execute_%s(%s);'


def entries(tier):
    out = []
    for cfg, lv in (('default', ['lvl1param', 'lvl2param']), ('concrete', ['lvl1param', 'lvl2param']), ('tfhers', ['lvl1param', 'lvl2param']),
                    ('ternary', ['lvl1param', 'lvl2param']), ('compress', ['lvl1param'])):
        for P in lv:
            w = 64 if P == 'lvl2param' or cfg == 'tfhers' else 32
            pr = 'fftp' + P[:4]

            def add(id, fn, params, call, ref, nocut, **kw):
                out.append(Entry('c27_%s_%s_%s' % (cfg, P, id), 'C27', fn, {'P': P}, params, call, ref, nocut=nocut, cfg=cfg, **kw))

            FD, PO = 'PolynomialInFD<P> &', 'Polynomial<P> &'
            # --- transforms: the processor of the level, the kernel of the torus width
            add('ifft', 'TwistIFFT', [(FD, 'res'), ('const ' + PO, 'a')], 'TwistIFFT<P>(res, a);', '%s.execute_reverse_torus%d(res.data(), a.data());' % (pr, w), ['TFHEpp::TwistIFFT<'])
            add('fft', 'TwistFFT', [(PO, 'res'), ('const ' + FD, 'a')], 'TwistFFT<P>(res, a);', '%s.execute_direct_torus%d(res.data(), a.data());' % (pr, w), ['TFHEpp::TwistFFT<'])
            add('fftrescale', 'TwistFFTrescale', [(PO, 'res'), ('const ' + FD, 'a')], 'TwistFFTrescale<P>(res, a);',
                '%s.execute_direct_torus%d_rescale(res.data(), a.data(), P::Δ);' % (pr, w), ['TFHEpp::TwistFFTrescale<'])
            if w == 32:
                add('ifftuint', 'TwistIFFTUInt', [(FD, 'res'), ('const ' + PO, 'a')], 'TwistIFFTUInt<P>(res, a);', '%s.execute_reverse_uint(res.data(), a.data());' % pr, ['TFHEpp::TwistIFFTUInt<'])
            # --- pointwise products of complex vectors, real parts first
            A, B = ('const ' + FD, 'a'), ('const ' + FD, 'b')
            add('mul3', 'MulInFD', [(FD, 'res'), A, B], 'MulInFD<P::n>(res, a, b);',
                '''for (size_t i = 0; i < P::n / 2; i++) { res[i] = a[i] * b[i] - a[i + P::n / 2] * b[i + P::n / 2];
                   res[i + P::n / 2] = a[i] * b[i + P::n / 2] + a[i + P::n / 2] * b[i]; }''', ['TFHEpp::MulInFD<'])
            add('mul2', 'MulInFD', [(FD, 'res'), A, B], 'res = a; MulInFD<P::n>(res, b);',
                '''for (size_t i = 0; i < P::n / 2; i++) { res[i] = a[i] * b[i] - a[i + P::n / 2] * b[i + P::n / 2];
                   res[i + P::n / 2] = a[i] * b[i + P::n / 2] + a[i + P::n / 2] * b[i]; }''', ['TFHEpp::MulInFD<'])
            add('fma', 'FMAInFD', [(FD, 'res'), A, B, ('const ' + FD, 'c')], 'res = c; FMAInFD<P::n>(res, a, b);',
                '''for (size_t i = 0; i < P::n / 2; i++) { res[i] = c[i] + a[i] * b[i] - a[i + P::n / 2] * b[i + P::n / 2];
                   res[i + P::n / 2] = c[i + P::n / 2] + a[i] * b[i + P::n / 2] + a[i + P::n / 2] * b[i]; }''', ['TFHEpp::FMAInFD<'])
            # --- ring products
            X = [(PO, 'res'), ('const ' + PO, 'a'), ('const ' + PO, 'b')]
            add('polymul', 'PolyMul', X, 'PolyMul<P>(res, a, b);',
                'PolynomialInFD<P> x, y; TwistIFFT<P>(x, a); TwistIFFT<P>(y, b); MulInFD<P::n>(x, y); TwistFFT<P>(res, x);' if w == 32 else
                'PolynomialNTT<P> x, y; TwistINTT<P>(x, a); TwistINTT<P>(y, b); for (size_t i = 0; i < P::n; i++) x[i] *= y[i]; TwistNTT<P>(res, x);', ['TFHEpp::PolyMul<'],
                alts=['PolynomialInFD<P> x, y, z; TwistIFFT<P>(x, a); TwistIFFT<P>(y, b); MulInFD<P::n>(z, x, y); TwistFFT<P>(res, z);'] if w == 32 else ())
            add('naive', 'PolyMulNaive', X, 'PolyMulNaive<P>(res, a, b);',
                '''for (size_t i = 0; i < P::n; i++) { typename P::T s = 0;
                   for (size_t j = 0; j <= i; j++) s += a[j] * b[i - j];
                   for (size_t j = i + 1; j < P::n; j++) s -= a[j] * b[P::n + i - j];
                   res[i] = s; }''', ['TFHEpp::PolyMulNaive<'])
            if w == 32:
                add('rescale', 'PolyMulRescaleUnsigned', X, 'PolyMulRescaleUnsigned<P>(res, a, b);',
                    'PolynomialInFD<P> x, y; TwistIFFTUInt<P>(x, a); TwistIFFTUInt<P>(y, b); MulInFD<P::n>(x, y); TwistFFTrescale<P>(res, x);', ['TFHEpp::PolyMulRescaleUnsigned<'])
            # --- table of X^i - 1
            for nt, sfx, fd in (('IFFT', '', 'PolynomialInFD<P>'), ('INTT', 'NTT', 'PolynomialNTT<P>')):
                add('xaitt' + sfx, 'XaittGen' + sfx, [('std::array<%s, 2 * P::n> &' % fd, 'res')],
                    'auto t = XaittGen%s<P>(); for (size_t i = 0; i < 2 * P::n; i++) res[i] = (*t)[i];' % sfx,
                    '''for (size_t i = 0; i < 2 * P::n; i++) { Polynomial<P> x;
                       for (size_t j = 0; j < P::n; j++) x[j] = (i < P::n ? (j == i ? 1 : 0) : (j == i - P::n ? -1 : 0)) + (j == 0 ? -1 : 0);
                       Twist%s<P>(res[i], x); }''' % nt, ['TFHEpp::XaittGen%s<' % sfx])
            if cfg == 'ternary':
                add('xaifd', 'PolynomialMulByXaiMinusOneInFD', [(FD, 'res'), A, ('const int', 'e')], 'PolynomialMulByXaiMinusOneInFD<P>(res, a, e);',
                    'MulInFD<P::n>(res, a, (*xaitt%s)[e < 0 ? 2 * P::n + e : e]);' % P[:4], ['TFHEpp::PolynomialMulByXaiMinusOneInFD<'],
                    ranges={'e': ('-2 * (long)P::n + 1', '2 * (long)P::n - 1')})
            # --- BFV style multiplication (module rank 1)
            if w == 32 and cfg not in ('concrete', 'compress'):
                R3, RK = 'TRLWE3<P> &', ('const relinKeyFFT<P> &', 'rk')
                AB = [('const TRLWE<P> &', 'a'), ('const TRLWE<P> &', 'b')]
                add('tensor', 'TRLWEMultWithoutRelinerization', [(R3, 'res')] + AB, 'TRLWEMultWithoutRelinerization<P>(res, a, b);',
                    '''PolynomialInFD<P> x, y, z; TwistIFFTUInt<P>(x, a[0]); TwistIFFTUInt<P>(y, b[1]); MulInFD<P::n>(z, x, y);
                       TwistIFFTUInt<P>(x, a[1]); TwistIFFTUInt<P>(y, b[0]); FMAInFD<P::n>(z, x, y); TwistFFTrescale<P>(res[0], z);
                       PolyMulRescaleUnsigned<P>(res[1], a[1], b[1]); PolyMulRescaleUnsigned<P>(res[2], a[0], b[0]);''', ['TFHEpp::TRLWEMultWithoutRelinerization<'])
                add('relinks', 'relinKeySwitch', [('TRLWE<P> &', 'res'), ('const ' + PO, 'p'), RK], 'relinKeySwitch<P>(res, p, rk);',
                    '''DecomposedPolynomial<P> d; Decomposition<P>(d, p); PolynomialInFD<P> x; TRLWEInFD<P> acc;
                       for (auto &q : acc) for (auto &y : q) y = 0.0;
                       for (size_t i = 0; i < P::l; i++) { TwistIFFT<P>(x, d[i]); for (size_t m = 0; m < 2; m++) FMAInFD<P::n>(acc[m], x, rk[i][m]); }
                       for (size_t m = 0; m < 2; m++) TwistFFT<P>(res[m], acc[m]);''', ['TFHEpp::relinKeySwitch<'])
                add('relin', 'Relinearization', [('TRLWE<P> &', 'res'), ('const ' + R3, 'm'), RK], 'Relinearization<P>(res, m, rk);',
                    'TRLWE<P> s; relinKeySwitch<P>(s, m[2], rk); for (size_t k = 0; k < 2; k++) for (size_t i = 0; i < P::n; i++) res[k][i] = m[k][i] + s[k][i];',
                    ['TFHEpp::Relinearization<'], alias=[])
                add('mult', 'TRLWEMult', [('TRLWE<P> &', 'res')] + AB + [RK], 'TRLWEMult<P>(res, a, b, rk);',
                    'TRLWE3<P> t; TRLWEMultWithoutRelinerization<P>(t, a, b); Relinearization<P>(res, t, rk);', ['TFHEpp::TRLWEMult<'])
                add('relinkeygen', 'relinKeygen', [('relinKey<P> &', 'res'), ('const Key<P> &', 'key')], 'res = relinKeygen<P>(key);',
                    '''constexpr auto h = hgen<P>(); Polynomial<P> s2; std::array<typename P::T, P::n> s; for (size_t j = 0; j < P::n; j++) s[j] = key[j];
                       PolyMulNaive<P>(s2, s, s);
                       for (size_t i = 0; i < P::l; i++) res[i] = trlweSymEncryptZero<P>(key);
                       for (size_t i = 0; i < P::l; i++) for (size_t j = 0; j < P::n; j++) res[i][1][j] += s2[j] * h[i];''',
                    ['TFHEpp::relinKeygen<'], erase=True)
                add('relingen', 'relinKeyFFTgen', [('relinKeyFFT<P> &', 'res'), ('const Key<P> &', 'key')], 'res = relinKeyFFTgen<P>(key);',
                    'relinKey<P> r = relinKeygen<P>(key); for (size_t i = 0; i < P::l; i++) for (size_t m = 0; m < 2; m++) TwistIFFT<P>(res[i][m], r[i][m]);',
                    ['TFHEpp::relinKeyFFTgen<'], erase=True)
                if P == 'lvl1param':
                    out.append(Entry('c27_%s_tlwemult' % cfg, 'C27', 'TLWEMult', {'P': 'lvl11param', 'D': 'lvl1param'},
                                     [('TLWE<D> &', 'res'), ('const TLWE<D> &', 'a'), ('const TLWE<D> &', 'b'), ('const relinKeyFFT<D> &', 'rk'), ('const PrivateKeySwitchingKey<P> &', 'ks')],
                                     'TLWEMult<P>(res, a, b, rk, ks);',
                                     'TRLWE<D> x, y, z; PrivKeySwitch<P>(x, a, ks); PrivKeySwitch<P>(y, b, ks); TRLWEMult<D>(z, x, y, rk); SampleExtractIndex<D>(res, z, 0);',
                                     nocut=['TFHEpp::TLWEMult<'], cfg=cfg))
    return out


def check(tier):
    import runner
    return runner.check_entries('C27', entries(tier), tier)
