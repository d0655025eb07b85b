"""Circuit bootstrapping assembles every row of the gadget ciphertext."""
from vlib import Entry

# configuration, bootstrapping (domain -> source of the private switch), private switch, key switch in front
CB = [('default', 'lvl02param', 'lvl21param', 'lvl10param'), ('default', 'lvl02param', 'lvl22param', 'lvl10param'),
      ('concrete', 'lvl02param', 'lvl21param', 'lvl10param'), ('concrete', 'lvl02param', 'lvl22param', 'lvl10param'),
      ('tfhers', 'lvl02param', 'lvl22param', 'lvl10param'), ('compress', 'lvl02param', 'lvl21param', 'lvl10param'),
      ('ternary', 'lvl02param', 'lvl21param', 'lvl10param'), ('default', 'lvl01param', 'lvl11param', 'lvl10param')]
PRE = '''using T = typename pk::targetP; using S = typename pk::domainP; using ST = typename S::T;
constexpr int W = std::numeric_limits<ST>::digits;
// half the weight of gadget level i, at the precision of the source level
constexpr ST halfw(int i) { return (ST)1 << (W - 1 - (i + 1) * (int)T::Bgbit); }
constexpr int low() { int b = 0; while ((1u << b) < (unsigned)T::l) b++; return b; }
'''
TV = '''Polynomial<S> tv; for (int i = 0; i < (int)S::n >> low(); i++) for (int j = 0; j < 1 << low(); j++) tv[(i << low()) + j] = halfw(j);
'''
ROWS = TV + '''std::array<TLWE<S>, T::l> o; GateBootstrappingManyLUT<br, T::l>(o, %s, ek.getbkfft<br>(), tv);
for (int i = 0; i < (int)T::l; i++) { o[i][S::k * S::n] += halfw(i);
  for (int k = 0; k <= (int)T::k; k++) %s }'''
PRIV = 'PrivKeySwitch<pk>(%s[i + k * T::l], o[i], ek.getprivksk<pk>("privksk4cb_" + std::to_string(k)));'
SUB = '''{ TLWE<T> s; SubsetIdentityKeySwitch<pk>(s, o[i], ek.getsubiksk<pk>());
  SubsetPrivKeySwitch<pk>(%s[i + k * T::l], s, ek.getsubprivksk<pk>("subprivksk4cb_" + std::to_string(k))); }'''
IKS = 'TLWE<typename iks::targetP> y; IdentityKeySwitch<iks>(y, x, ek.getiksk<iks>());\n'
FFT = 'for (int r = 0; r < (int)((T::k + 1) * T::l); r++) for (int c = 0; c <= (int)T::k; c++) TwistIFFT<T>(%s[r][c], %s[r][c]);\n'
INV = '''for (int r = 0; r < (int)((T::k + 1) * T::l); r++) for (int c = 0; c <= (int)T::k; c++) for (int m = 0; m < (int)T::n; m++)
  v[r][c][m] = -g[r][c][m];
constexpr auto h = hgen<T>();
for (int k = 0; k <= (int)T::k; k++) for (int i = 0; i < (int)T::l; i++) v[i + k * T::l][k][0] += h[i];
'''
EK = ('const EvalKey &', 'ek')
CBR = r'TFHEpp::CircuitBootstrapping'


def entries(tier):
    out = []
    for cfg, br, pk, iks in CB:
        using = {'br': br, 'pk': pk, 'iks': iks}

        def add(id, fn, params, call, ref, nocut, **kw):
            kw.setdefault('pre', PRE)
            kw.setdefault('unroll', 6)
            out.append(Entry('c11_%s_%s_%s' % (cfg, pk, id), 'C11', fn, using, params, call, ref, nocut=nocut, cfg=cfg, **kw))
        X0, X1 = ('const TLWE<typename br::domainP> &', 'x'), ('const TLWE<typename iks::domainP> &', 'x')
        G, GF, GI = ('TRGSW<T> &', 'g'), ('TRGSWFFT<T> &', 'f'), ('TRGSWFFT<T> &', 'inv')
        cut = lambda n: [r'TFHEpp::CircuitBootstrapping%s<' % n]
        add('tv', 'CBtestvector', [('Polynomial<S> &', 'tv_')], 'tv_ = CBtestvector<pk>();', TV + 'tv_ = tv;', [r'TFHEpp::CBtestvector'])
        add('cb', 'CircuitBootstrapping', [G, X0, EK], 'CircuitBootstrapping<br, pk>(g, x, ek);', ROWS % ('x', PRIV % 'g'), cut(''))
        sub = pk == 'lvl21param' and cfg not in ('tfhers',)
        forms = [('', 'br, pk', X0, cut('')), ('ks', 'iks, br, pk', X1, cut(''))]
        for sfx, ta, X, nc in forms:
            if sfx:
                add('cb' + sfx, 'CircuitBootstrapping', [G, X, EK], 'CircuitBootstrapping<%s>(g, x, ek);' % ta, IKS + ROWS % ('y', PRIV % 'g'), nc)
            gen = 'TRGSW<T> g; CircuitBootstrapping<%s>(g, x, ek);\n' % ta
            add('fft' + sfx, 'CircuitBootstrappingFFT', [GF, X, EK], 'CircuitBootstrappingFFT<%s>(f, x, ek);' % ta, gen + FFT % ('f', 'g'), cut('FFT'), deep=[CBR])
            add('inv' + sfx, 'CircuitBootstrappingFFTInv', [GF, X, EK], 'CircuitBootstrappingFFTInv<%s>(f, x, ek);' % ta,
                'std::remove_cvref_t<decltype(x)> y; for (size_t i = 0; i < y.size(); i++) y[i] = -x[i]; CircuitBootstrappingFFT<%s>(f, y, ek);' % ta,
                cut('FFTInv'), deep=[CBR])
            add('with' + sfx, 'CircuitBootstrappingFFTwithInv', [GF, GI, X, EK], 'CircuitBootstrappingFFTwithInv<%s>(f, inv, x, ek);' % ta,
                gen + 'TRGSW<T> v;\n' + INV + FFT % ('f', 'g') + FFT % ('inv', 'v'), cut('FFTwithInv'), deep=[CBR])
        if sub:
            add('sub', 'CircuitBootstrappingSub', [G, X1, EK], 'CircuitBootstrappingSub<iks, br, pk>(g, x, ek);', IKS + ROWS % ('y', SUB % 'g'), cut('Sub'))
            add('subfft', 'CircuitBootstrappingSubFFT', [GF, X1, EK], 'CircuitBootstrappingSubFFT<iks, br, pk>(f, x, ek);',
                'TRGSW<T> g; CircuitBootstrappingSub<iks, br, pk>(g, x, ek);' + FFT % ('f', 'g'), cut('SubFFT'), deep=[CBR])
        # the keys registered for it: minus the key slice of component k, and one for the body
        for s in (('', 'sub') if sub else ('',)):
            READ = 'for (int k = 0; k <= (int)T::k; k++) out[k] = *(const uint64_t *)&ek.get%sprivksk<pk>("%sprivksk4cb_" + std::to_string(k));' % (s, s)
            reg = ''
            add('reg' + s, 'emplace%sprivksk4cb' % s, [('std::array<uint64_t, T::k + 1> &', 'out'), ('EvalKey &', 'ek'), ('const SecretKey &', 'sk')],
                'ek.emplace%sprivksk4cb<pk>(sk);\n' % s + READ,
                '''for (int k = 0; k < (int)T::k; k++) { Polynomial<T> p; for (int i = 0; i < (int)T::n; i++) p[i] = -sk.key.get<T>()[k * T::n + i];
                   ek.emplace%sprivksk<pk>("%sprivksk4cb_" + std::to_string(k), p, sk); }
                   Polynomial<T> one = {}; one[0] = 1; ek.emplace%sprivksk<pk>("%sprivksk4cb_" + std::to_string((int)T::k), one, sk);\n''' % (s, s, s, s) + READ,
                [r'TFHEpp::EvalKey::emplace%sprivksk4cb' % s], outs=['out'])
    return out


def check(tier):
    import runner
    return runner.check_entries('C11', entries(tier), tier)
