"""Index maps."""
from vlib import Entry


def entries(tier):
    out = []
    LV = [('default', ['lvl1param', 'lvl2param']), ('compress', ['lvl1param', 'lvl2param']), ('concrete', ['lvl1param'])]
    for cfg, lv in LV:
        for P in lv:
            u = {'P': P}
            id = 'c06_%s_%s' % (cfg, P)
            R = {'a': ('0', '2*P::n-1')}
            out.append(Entry(id + '_xai', 'C06', 'PolynomialMulByXai', u,
                [('Polynomial<P> &', 'res'), ('const Polynomial<P> &', 'p'), ('typename P::T', 'a')],
                'PolynomialMulByXai<P>(res, p, a);',
                '''for (size_t i = 0; i < P::n; i++) {
                    size_t s = (i + 2 * P::n - a) % (2 * P::n);
                    res[i] = s < P::n ? p[s] : -p[s - P::n]; }''',
                nocut=['TFHEpp::PolynomialMulByXai<'], ranges=R, cfg=cfg))
            out.append(Entry(id + '_xaim1', 'C06', 'PolynomialMulByXaiMinusOne', u,
                [('Polynomial<P> &', 'res'), ('const Polynomial<P> &', 'p'), ('typename P::T', 'a')],
                'PolynomialMulByXaiMinusOne<P>(res, p, a);',
                '''for (size_t i = 0; i < P::n; i++) {
                    size_t s = (i + 2 * P::n - a) % (2 * P::n);
                    res[i] = (s < P::n ? p[s] : -p[s - P::n]) - p[i]; }''',
                nocut=['TFHEpp::PolynomialMulByXai'], ranges=R, cfg=cfg))
            out.append(Entry(id + '_se', 'C06', 'SampleExtractIndex', u,
                [('TLWE<P> &', 'res'), ('const TRLWE<P> &', 'c'), ('int', 'idx')],
                'SampleExtractIndex<P>(res, c, idx);',
                '''for (size_t k = 0; k < P::k; k++)
                     for (size_t i = 0; i < P::n; i++)
                       res[k * P::n + i] = i <= (size_t)idx ? c[k][idx - i] : -c[k][P::n + idx - i];
                   res[P::k * P::n] = c[P::k][idx];''',
                nocut=['TFHEpp::SampleExtractIndex'], split={'res': 'P::n'}, ranges={'idx': ('0', 'P::n-1')}, cfg=cfg))
            out.append(Entry(id + '_inv', 'C06', 'InvSampleExtractIndex', u,
                [('TRLWE<P> &', 'res'), ('const TLWE<P> &', 'c'), ('int', 'idx')],
                'InvSampleExtractIndex<P>(res, c, idx);',
                '''for (size_t k = 0; k < P::k; k++)
                     for (size_t i = 0; i < P::n; i++)
                       res[k][i] = i <= (size_t)idx ? c[k * P::n + idx - i] : -c[k * P::n + P::n + idx - i];
                   for (size_t i = 0; i < P::n; i++) res[P::k][i] = i == (size_t)idx ? c[P::k * P::n] : 0;''',
                nocut=['TFHEpp::InvSampleExtractIndex'], ranges={'idx': ('0', 'P::n-1')}, cfg=cfg))
            out.append(Entry(id + '_auto', 'C06', 'Automorphism', u,
                [('Polynomial<P> &', 'res'), ('const Polynomial<P> &', 'p'), ('unsigned', 'd')],
                'Automorphism<P>(res, p, d);',
                '''for (unsigned i = 0; i < P::n; i++) res[i] = 0;
                   for (unsigned i = 0; i < P::n; i++) {
                     unsigned s = (i * d) % (2 * P::n);
                     if (s < P::n) res[s] += p[i]; else res[s - P::n] -= p[i]; }''',
                nocut=['TFHEpp::Automorphism'], ranges={'d': ('1', '2*P::n-1')}, cfg=cfg))
    return out


def check(tier):
    import runner
    return runner.check_entries('C06', entries(tier), tier)
