"""Gadget encryption, decomposition and external products agree row by row."""
from vlib import Entry

LV = [('default', ['lvl1param', 'lvl2param']), ('concrete', ['lvl1param', 'lvl2param']), ('tfhers', ['lvl1param', 'lvl2param']),
      ('compress', ['lvl1param', 'lvl2param'])]
ETA = {('compress', 'lvl1param'), ('compress', 'lvl2param')}
TW = '((typename P::T)1 << (std::numeric_limits<typename P::T>::digits - (i + 1) * P::Bgbit))'
TG = r'TFHEpp::(half)?trgsw\w*Sym'
TABLES = '(*raintttable)[%d], (*raintttwist)[%d]'


def extprod(dom, T, rows, zero, fma, back, extra=''):
    """sum over components and levels of digit(i, k) * row(k*l+i), transformed back"""
    return '''%s %s acc[P::k + 1]; for (auto &p : acc) for (auto &x : p) x = %s;
      for (size_t k = 0; k < %s; k++) {
        DecomposedPolynomial<P> dec;
        Decomposition<P>(dec, %s);
        for (size_t i = 0; i < P::l; i++) {
          %s
          for (size_t m = 0; m < P::k + 1; m++) { %s }
        } }
      for (size_t m = 0; m < P::k + 1; m++) %s;''' % (extra, T, zero, 'P::k + 1' if rows == 'full' else '1',
                                                     'x[k]' if rows == 'full' else 'x', dom, fma, back)


def entries(tier):
    out = []
    for cfg, lv in LV:
        for P in lv:
            eta = (cfg, P) in ETA

            def add(id, fn, params, call, ref, nocut, **kw):
                kw.setdefault('cfg', cfg)
                out.append(Entry('c07_%s_%s_%s' % (cfg, P, id), 'C07', fn, {'P': P}, params, call, ref, nocut=nocut, **kw))

            POLY, KEY = [('const Polynomial<P> &', 'p')], [('const Key<P> &', 'key')]
            # --- the gadget: weights, digits, reconstruction
            add('weights', 'hgen', [('std::array<typename P::T, P::l> &', 'res')], 'constexpr auto h = hgen<P>(); for (int i = 0; i < P::l; i++) res[i] = h[i];',
                'for (int i = 0; i < P::l; i++) res[i] = %s;' % TW, [])
            add('dec', 'Decomposition', [('DecomposedPolynomial<P> &', 'res')] + POLY, 'Decomposition<P>(res, p);',
                '''constexpr int w = std::numeric_limits<typename P::T>::digits;
                   typename P::T bias = (typename P::T)1 << (w - P::l * P::Bgbit - 1);
                   for (int i = 0; i < P::l; i++) bias += (typename P::T)1 << (w - i * P::Bgbit - 1);
                   for (int i = 0; i < P::l; i++) for (int j = 0; j < P::n; j++)
                     res[i][j] = ((typename P::T)(p[j] + bias) >> (w - (i + 1) * P::Bgbit)) %% ((typename P::T)1 << P::Bgbit) - ((typename P::T)1 << (P::Bgbit - 1));'''.replace('%%', '%'),
                [r'TFHEpp::Decomposition<'])
            # --- gadget encryption: zero encryptions plus p * weight on the diagonal
            S = [('const uint' if eta else 'const double', 's')]
            D = 'P::η' if eta else 'P::α'
            for suf, sp, sa in (('', S, 's'), ('0', [], D)):
                call = 's, key' if sp else 'key'
                body = '''constexpr auto h = hgen<P>();
                   for (int k = 0; k < P::k + 1; k++) for (int i = 0; i < P::l; i++) {
                     res[k * P::l + i] = trlweSymEncryptZero<P>(%s, key);
                     for (int j = 0; j < P::n; j++) res[k * P::l + i][k][j] += p[j] * h[i]; }''' % sa
                half = '''constexpr auto h = hgen<P>();
                   for (int i = 0; i < P::l; i++) {
                     res[i] = trlweSymEncryptZero<P>(%s, key);
                     for (int j = 0; j < P::n; j++) res[i][P::k][j] += p[j] * h[i]; }''' % sa
                enc = [TG]
                add('enc' + suf, 'trgswSymEncrypt', [('TRGSW<P> &', 'res')] + POLY + sp + KEY, 'res = trgswSymEncrypt<P>(p, %s);' % call, body, enc, erase=True)
                add('half' + suf, 'halftrgswSymEncrypt', [('HalfTRGSW<P> &', 'res')] + POLY + sp + KEY, 'res = halftrgswSymEncrypt<P>(p, %s);' % call, half, enc, erase=True)
                # transformed forms
                add('fft' + suf, 'trgswfftSymEncrypt', [('TRGSWFFT<P> &', 'res')] + POLY + sp + KEY, 'res = trgswfftSymEncrypt<P>(p, %s);' % call,
                    'TRGSW<P> t = trgswSymEncrypt<P>(p, %s, key); res = ApplyFFT2trgsw<P>(t);' % sa, [r'TFHEpp::trgswfftSym', r'TFHEpp::trgswfftSymEncrypt'], erase=True)
                add('halffft' + suf, 'halftrgswfftSymEncrypt', [('HalfTRGSWFFT<P> &', 'res')] + POLY + sp + KEY, 'res = halftrgswfftSymEncrypt<P>(p, %s);' % call,
                    'HalfTRGSW<P> t = halftrgswSymEncrypt<P>(p, %s, key); res = ApplyFFT2halftrgsw<P>(t);' % sa, [r'TFHEpp::halftrgswfft'], erase=True)
                add('ntt' + suf, 'trgswnttSymEncrypt', [('TRGSWNTT<P> &', 'res')] + POLY + sp + KEY, 'res = trgswnttSymEncrypt<P>(p, %s);' % call,
                    'TRGSW<P> t = trgswSymEncrypt<P>(p, %s, key); res = ApplyNTT2trgsw<P>(t);' % sa, [r'TFHEpp::trgswnttSym'], erase=True)
                if not eta and P == 'lvl1param' and cfg == 'default':
                    add('raintt' + suf, 'trgswrainttSymEncrypt', [('TRGSWRAINTT<P> &', 'res')] + POLY + sp + KEY, 'res = trgswrainttSymEncrypt<P>(p, %s);' % call,
                        'TRGSW<P> t = trgswSymEncrypt<P>(p, %s, key); res = ApplyRAINTT2trgsw<P>(t);' % sa, [r'TFHEpp::trgswrainttSym'], erase=True)
            IN = [('const TRGSW<P> &', 't')]
            add('apply', 'ApplyFFT2trgsw', [('TRGSWFFT<P> &', 'res')] + IN, 'res = ApplyFFT2trgsw<P>(t);',
                'for (size_t r = 0; r < (P::k + 1) * P::l; r++) for (size_t m = 0; m < P::k + 1; m++) TwistIFFT<P>(res[r][m], t[r][m]);', [r'TFHEpp::ApplyFFT2trgsw'])
            add('applyhalf', 'ApplyFFT2halftrgsw', [('HalfTRGSWFFT<P> &', 'res'), ('const HalfTRGSW<P> &', 't')], 'res = ApplyFFT2halftrgsw<P>(t);',
                'for (size_t r = 0; r < P::l; r++) for (size_t m = 0; m < P::k + 1; m++) TwistIFFT<P>(res[r][m], t[r][m]);', [r'TFHEpp::ApplyFFT2halftrgsw', 'TFHEpp::TRGSW2|TFHEpp::ApplyFFT2half'])
            add('applyntt', 'ApplyNTT2trgsw', [('TRGSWNTT<P> &', 'res')] + IN, 'res = ApplyNTT2trgsw<P>(t);',
                'for (size_t r = 0; r < (P::k + 1) * P::l; r++) for (size_t m = 0; m < P::k + 1; m++) TwistINTT<P>(res[r][m], t[r][m]);', [r'TFHEpp::ApplyNTT2trgsw'])
            add('one', 'TRGSWFFTOneGen', [('TRGSWFFT<P> &', 'res')], 'res = TRGSWFFTOneGen<P>();',
                '''constexpr auto h = hgen<P>(); TRGSW<P> t = {};
                   for (size_t k = 0; k < P::k + 1; k++) for (size_t i = 0; i < P::l; i++) t[k * P::l + i][k][0] = h[i];
                   res = ApplyFFT2trgsw<P>(t);''', [r'TFHEpp::(TRGSW\w*OneGen|oneTRGSW)'])
            add('decntt', 'DecompositionNTT', [('DecomposedPolynomialNTT<P> &', 'res')] + POLY, 'DecompositionNTT<P>(res, p);',
                'DecomposedPolynomial<P> d; Decomposition<P>(d, p); for (size_t i = 0; i < P::l; i++) TwistINTT<P>(res[i], d[i]);', [r'TFHEpp::DecompositionNTT<'])
            add('tontt', 'TRGSW2NTT', [('TRGSWNTT<P> &', 'res')] + IN, 'res = TRGSW2NTT<P>(t);',
                '''for (size_t r = 0; r < (P::k + 1) * P::l; r++) for (size_t m = 0; m < P::k + 1; m++) { PolynomialNTT<P> x; TwistINTT<P>(x, t[r][m]);
                     for (size_t j = 0; j < P::n; j++) res[r][m][j] = x[cuHEpp::BitReverse<P::nbit>(j)]; }''',
                [r'TFHEpp::TRGSW2NTT<', 'cuHEpp::BitReverse<'])
            if P == 'lvl1param' and cfg in ('default', 'compress'):
                RAI = 'raintt::TwistINTT<typename P::T, P::nbit, %s>(%s, %s, (*raintttable)[1], (*raintttwist)[1]);'
                # outputs of the last butterfly stage beyond the first pair carry one Montgomery factor less
                MONT = 'for (size_t j = 0; j < P::n; j++) %s[j] = raintt::MulSREDC(%s[j], j %% (1u << ((P::nbit - 1) %% 3 + 1)) > 1 ? raintt::%s : raintt::%s);'
                add('decrai', 'DecompositionRAINTT', [('DecomposedPolynomialRAINTT<P> &', 'res')] + POLY, 'DecompositionRAINTT<P>(res, p);',
                    'DecomposedPolynomial<P> d; Decomposition<P>(d, p); for (size_t i = 0; i < P::l; i++) %s' % (RAI % ('false', 'res[i]', 'd[i]')), [r'TFHEpp::DecompositionRAINTT<'])
                add('applyrai', 'ApplyRAINTT2trgsw', [('TRGSWRAINTT<P> &', 'res')] + IN, 'res = ApplyRAINTT2trgsw<P>(t);',
                    'for (size_t r = 0; r < (P::k + 1) * P::l; r++) for (size_t m = 0; m < P::k + 1; m++) { %s %s }' % (RAI % ('true', 'res[r][m]', 't[r][m]'), MONT % ('res[r][m]', 'res[r][m]', 'R4', 'R2')),
                    [r'TFHEpp::ApplyRAINTT2trgsw<'])
            # --- external products
            X, W = [('TRLWE<P> &', 'res'), ('const TRLWE<P> &', 'x')], []
            add('ep', 'trgswfftExternalProduct', X + [('const TRGSWFFT<P> &', 'g')], 'trgswfftExternalProduct<P>(res, x, g);',
                extprod('PolynomialInFD<P> d; TwistIFFT<P>(d, dec[i]);', 'PolynomialInFD<P>', 'full', '0', 'FMAInFD<P::n>(acc[m], d, g[k * P::l + i][m]);',
                        'TwistFFT<P>(res[m], acc[m])'), [r'TFHEpp::trgswfftExternalProduct'])
            add('ephalf', 'halftrgswfftExternalProduct', [('TRLWE<P> &', 'res'), ('const Polynomial<P> &', 'x'), ('const HalfTRGSWFFT<P> &', 'g')],
                'halftrgswfftExternalProduct<P>(res, x, g);',
                extprod('PolynomialInFD<P> d; TwistIFFT<P>(d, dec[i]);', 'PolynomialInFD<P>', 'half', '0', 'FMAInFD<P::n>(acc[m], d, g[i][m]);',
                        'TwistFFT<P>(res[m], acc[m])'), [r'TFHEpp::halftrgswfftExternalProduct'])
            add('epntt', 'trgswnttExternalProduct', X + [('const TRGSWNTT<P> &', 'g')], 'trgswnttExternalProduct<P>(res, x, g);',
                extprod('PolynomialNTT<P> d; TwistINTT<P>(d, dec[i]);', 'PolynomialNTT<P>', 'full', 'cuHEpp::INTorus(0, false)',
                        'for (size_t j = 0; j < P::n; j++) acc[m][j] += d[j] * g[k * P::l + i][m][j];', 'TwistNTT<P>(res[m], acc[m])'),
                [r'TFHEpp::trgswnttExternalProduct'])
            if P == 'lvl1param' and cfg in ('default', 'compress'):
                add('eprai', 'trgswrainttExternalProduct', X + [('const TRGSWRAINTT<P> &', 'g')], 'trgswrainttExternalProduct<P>(res, x, g);',
                    extprod('PolynomialRAINTT<P> d; raintt::TwistINTT<typename P::T, P::nbit, false>(d, dec[i], (*raintttable)[1], (*raintttwist)[1]);',
                            'PolynomialRAINTT<P>', 'full', '0',
                            'for (size_t j = 0; j < P::n; j++) acc[m][j] = raintt::AddMod(acc[m][j], raintt::MulSREDC(d[j], g[k * P::l + i][m][j]));',
                            'raintt::TwistNTT<typename P::T, P::nbit, true>(res[m], acc[m], (*raintttable)[0], (*raintttwist)[0])'),
                    [r'TFHEpp::trgswrainttExternalProduct', 'TFHEpp::DecompositionRAINTT'])
    return out


def check(tier):
    import runner
    return runner.check_entries('C07', entries(tier), tier)
