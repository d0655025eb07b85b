"""CMUX, memory multiplexer trees and lookups select by their control bits."""
from vlib import Entry

CFG = {'default': ['lvl1param', 'lvl2param'], 'concrete': ['lvl1param', 'lvl2param'], 'compress': ['lvl1param', 'lvl2param'],
       'tfhers': ['lvl1param', 'lvl2param'], 'ternary': ['lvl1param', 'lvl2param']}
EP = r'TFHEpp::trgsw(fft|ntt|raintt)ExternalProduct<'
CM = 'for (size_t k = 0; k <= P::k; k++) for (size_t i = 0; i < P::n; i++) '
DEF = '''
template <class P> static inline void mux(TRLWE<P> &out, const TRGSWFFT<P> &ctl, const TRLWE<P> &one, const TRLWE<P> &zero) {
  TRLWE<P> d, p; ''' + CM + '''d[k][i] = one[k][i] - zero[k][i];
  trgswfftExternalProduct<P>(p, d, ctl);
  ''' + CM + '''out[k][i] = zero[k][i] + p[k][i];
}
'''
STEP = '''TRLWE<P> d, p; for (size_t k = 0; k <= P::k; k++) PolynomialMulByXaiMinusOne<P>(d[k], acc[k], %s);
trgsw%sExternalProduct<P>(p, d, %s); ''' + CM + '''acc[k][i] = acc[k][i] + p[k][i];'''


def tree(bits, first):
    """reference of a selection tree: entry pairs differing in address bit b are combined at level b"""
    s, n = '', 1 << bits
    names = ['data[%d]' % i for i in range(n)]
    for b in range(bits):
        nx = []
        for j in range(0, len(names), 2):
            v = 'v%d_%d' % (b, j // 2)
            s += 'TRLWE<P> %s; mux<P>(%s, inv[%d], %s, %s);\n' % (v, v, first + b, names[j], names[j + 1])
            nx.append(v)
        names = nx
    return s + CM + 'res[k][i] = %s[k][i];' % names[0]


def entries(tier):
    out = []
    for cfg, lv in CFG.items():
        def add(P, id, fn, params, call, ref, using=None, **kw):
            kw.setdefault('cfg', cfg)
            kw.setdefault('pre', DEF)
            nocut = kw.pop('nocut', [])
            out.append(Entry('c09_%s_%s_%s' % (cfg, P.split('::')[-1], id), 'C09', fn, using or {'P': P}, params, call, ref,
                             nocut=[r'TFHEpp::CMUX'] + nocut, **kw))
        RES = ('TRLWE<P> &', 'res')
        ring = ['vfs::Ring', 'vfs::Ring2'] if cfg == 'default' else []
        for P in lv + ring:
            u = {'unit': 'synth'} if P in ring else {}
            add(P, 'cmux', 'CMUXFFT', [RES, ('const TRGSWFFT<P> &', 'cs'), ('const TRLWE<P> &', 'c1'), ('const TRLWE<P> &', 'c0')],
                'CMUXFFT<P>(res, cs, c1, c0);', 'mux<P>(res, cs, c1, c0);', **u)
            # accumulator steps of blind rotation
            A = ('const int', 'a')
            for nt in ('NTT', 'RAINTT'):
                if P != 'lvl1param' and (nt == 'RAINTT' or P in ring):
                    continue
                add(P, 'step' + nt, 'CMUX%swithPolynomialMulByXaiMinusOne' % nt, [('TRLWE<P> &', 'acc'), ('const TRGSW%s<P> &' % nt, 'cs'),
                                                                               ('const typename P::T', 'a')],
                    'CMUX%swithPolynomialMulByXaiMinusOne<P>(acc, cs, a);' % nt, STEP % ('a', nt.lower(), 'cs'), ranges={'a': (1, '2 * P::n - 1')}, **u)
            # memory trees
            for bits in ((2, 3, 4) if P in ring or P == 'lvl1param' and cfg == 'default' else (2, 3)):
                TRG = ('const std::array<TRGSWFFT<P>, %d> &' % bits, 'inv')
                add(P, 'ramux%d' % bits, 'RAMUX', [RES, TRG, ('const std::array<TRLWE<P>, %d> &' % (1 << bits), 'data')],
                    'RAMUX<P, %d>(res, inv, data);' % bits, tree(bits, 0), nocut=[r'TFHEpp::RAMUX'], unroll=6, **u)
                for w in (1, 2):
                    TRG = ('const std::array<TRGSWFFT<P>, %d> &' % (bits + w), 'inv')
                    add(P, 'uromux%d_%d' % (bits, w), 'UROMUX', [RES, TRG, ('const std::array<TRLWE<P>, %d> &' % (1 << bits), 'data')],
                        'UROMUX<P, %d, %d>(res, inv, data);' % (bits + w, w), tree(bits, w), nocut=[r'TFHEpp::UROMUX'], unroll=6, **u)
            # write-back: keep the written value only where every address bit selects it
            for bits in (1, 3):
                s = 'TRLWE<P> w0 = wr;\n'
                for i in range(bits):
                    s += 'TRLWE<P> w%d; mux<P>(w%d, ctl[(unsigned)(index >> %d) & 1][%d], w%d, mem);\n' % (i + 1, i + 1, i, i, i)
                add(P, 'rambar%d' % bits, 'RAMwriteBar', [RES, ('const TRLWE<P> &', 'wr'), ('const TRLWE<P> &', 'mem'), ('const int', 'index'),
                                                       ('const std::array<std::array<TRGSWFFT<P>, %d>, 2> &' % bits, 'ctl')],
                    'RAMwriteBar<P, %d>(res, wr, mem, index, ctl);' % bits, s + CM + 'res[k][i] = w%d[k][i];' % bits,
                    nocut=[r'TFHEpp::RAMwriteBar'], unroll=6, ranges={'index': (0, (1 << bits) - 1)}, **u)
            # horizontal lookup inside one ring element
            for bits, w in ((3, 1), (3, 2), (3, 3), (4, 2)):
                if w > 2 and P not in ring:
                    continue
                s = 'TRLWE<P> acc0 = data;\n'
                for b in range(1, w + 1):
                    s += '''TRLWE<P> d%d, p%d, acc%d; for (size_t k = 0; k <= P::k; k++) PolynomialMulByXaiMinusOne<P>(d%d[k], acc%d[k], 2 * P::n - (P::n >> %d));
                    trgswfftExternalProduct<P>(p%d, d%d, addr[%d]); ''' % (b, b, b, b, b - 1, b, b, b, w - b) + CM + 'acc%d[k][i] = acc%d[k][i] + p%d[k][i];\n' % (b, b - 1, b)
                s += 'for (int i = 0; i < P::n >> %d; i++) SampleExtractIndex<P>(res[i], acc%d, i);' % (w, w)
                add(P, 'lromux%d_%d' % (bits, w), 'LROMUX', [('std::array<TLWE<P>, (P::n >> %d)> &' % w, 'res'),
                                                           ('const std::array<TRGSWFFT<P>, %d> &' % bits, 'addr'), ('const TRLWE<P> &', 'data')],
                    'TLWE<P> *view[3] = {&res[0], &res[0] + res.size(), &res[0] + res.size()};  // the three pointers of a vector\nLROMUX<P, %d, %d>(*(std::vector<TLWE<P>> *)view, addr, data);' % (bits, w), s, nocut=[r'TFHEpp::LROMUX'], unroll=6,
                    **u)
        for br in ('lvl01param', 'lvl02param'):
            U = {'br': br, 'P': 'typename br::targetP'}
            ref = '''constexpr int V = 2 * P::n; int q = 0;
for (int v = br::domainP::key_value_min; v <= br::domainP::key_value_max; v++) { if (v == 0) continue;
  const int e = (v * a) % V; ''' + STEP % ('e > 0 ? e : e + V', 'fft', 'cs[q]') + ' q++; }'
            add(br, 'step', 'CMUXFFTwithPolynomialMulByXaiMinusOne', [('TRLWE<P> &', 'acc'), ('const BootstrappingKeyElementFFT<br> &', 'cs'), ('const int', 'a')],
                'CMUXFFTwithPolynomialMulByXaiMinusOne<br>(acc, cs, a);', ref, using=U, ranges={'a': (1, '2 * P::n - 1')}, unroll=4)
        for P in lv:
            # the constant one and its gadget form
            add(P, 'one', 'TRGSWFFTOneGen', [('TRGSWFFT<P> &', 'res')], 'res = TRGSWFFTOneGen<P>();',
                '''TRGSW<P> g = {}; constexpr auto h = hgen<P>(); for (int i = 0; i < P::l; i++) for (int k = 0; k <= P::k; k++) g[k * P::l + i][k][0] = h[i];
                   res = ApplyFFT2trgsw<P>(g);''', nocut=[r'TFHEpp::TRGSWFFTOneGen'])
    return out


def check(tier):
    import runner
    return runner.check_entries('C09', entries(tier), tier)
