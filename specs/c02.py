"""Multiplexer gates: bootstrap (s AND c1) and (NOT s AND c0), add, add mu."""
from vlib import Entry

CFG = ['default', 'concrete', 'tfhers', 'compress', 'ternary']
EK = ('const EvalKey &', 'ek')
KEYS = r'TFHEpp::EvalKey::get(bk|iksk|subiksk)'
HOM = r'TFHEpp::(Hom[A-Z]|ExtractSwitch)'
AND = '''TLWE<I> x1, x0; for (size_t i = 0; i <= I::k * I::n; i++) { x1[i] = s[i] + c1[i]; x0[i] = c0[i] - s[i]; }
x1[I::k * I::n] -= I::μ; x0[I::k * I::n] -= I::μ;
'''
TV = 'Polynomial<T> tv; for (auto &t : tv) t = %s;\n'
RING = '''TRLWE<T> p1, p0; BlindRotate<br>(p1, %s, ek.getbkfft<br>(), tv); BlindRotate<br>(p0, %s, ek.getbkfft<br>(), tv);
for (size_t k = 0; k <= T::k; k++) for (size_t i = 0; i < T::n; i++) res[k][i] = p1[k][i] + p0[k][i] + (k == T::k && i == 0 ? (typename T::T)%s : 0);
'''


def entries(tier):
    out = []
    for cfg in CFG:
        def add(id, fn, using, params, call, ref, **kw):
            out.append(Entry('c02_%s_%s' % (cfg, id), 'C02', fn, using, params, call, ref, nocut=[HOM, KEYS], cfg=cfg, **kw))
        MUX = [('const TLWE<I> &', n) for n in ('s', 'c1', 'c0')]
        for sg, fn in (('', 'HomMUX'), ('-', 'HomNMUX')):
            L1 = {'I': 'lvl1param', 'T': 'lvl1param', 'br': 'lvl01param', 'iks': 'lvl10param'}
            L0 = dict(L1, I='lvl0param')
            R = [('TLWE<I> &', 'res')]
            add(fn + '_lvl1', fn, L1, R + MUX + [EK], fn + '<I>(res, s, c1, c0, ek);', AND + TV % 'T::μ' +
                '''TLWE<lvl0param> a1, a0; IdentityKeySwitch<iks>(a1, x1, ek.getiksk<iks>()); IdentityKeySwitch<iks>(a0, x0, ek.getiksk<iks>());
                   TLWE<T> b1, b0; GateBootstrappingTLWE2TLWEFFT<br>(b1, a1, ek.getbkfft<br>(), tv); GateBootstrappingTLWE2TLWEFFT<br>(b0, a0, ek.getbkfft<br>(), tv);
                   for (size_t i = 0; i <= I::k * I::n; i++) res[i] = %s(b1[i] + b0[i] + (i == I::k * I::n ? I::μ : 0));''' % sg,
                deep=[r'TFHEpp::GateBootstrappingTLWE2TLWE'])
            add(fn + '_lvl0', fn, L0, R + MUX + [EK], fn + '<I>(res, s, c1, c0, ek);', AND + TV % 'T::μ' +
                '''TLWE<T> b1, b0; GateBootstrappingTLWE2TLWEFFT<br>(b1, x1, ek.getbkfft<br>(), tv); GateBootstrappingTLWE2TLWEFFT<br>(b0, x0, ek.getbkfft<br>(), tv);
                   for (size_t i = 0; i <= T::k * T::n; i++) b1[i] = b1[i] + b0[i]; TLWE<I> r; IdentityKeySwitch<iks>(r, b1, ek.getiksk<iks>());
                   for (size_t i = 0; i <= I::k * I::n; i++) res[i] = %s(r[i] + (i == I::k * I::n ? I::μ : 0));''' % sg,
                deep=[r'TFHEpp::GateBootstrappingTLWE2TLWE'])
        for br, iks in (('lvl01param', 'lvl10param'), ('lvl02param', 'lvl20param')):
            U = {'br': br, 'iks': iks, 'T': 'typename br::targetP'}
            R = [('TRLWE<T> &', 'res')]
            UB, UK = dict(U, I='typename br::domainP'), dict(U, I='typename iks::domainP')
            add('woIKSandSE_' + br, 'HomMUXwoIKSandSE', UB, R + MUX + [EK], 'HomMUXwoIKSandSE<br>(res, s, c1, c0, ek);',
                AND + TV % 'T::μ' + RING % ('x1', 'x0', 'T::μ'))
            for nm, mu in (('', 'T::μ'), ('mu', '(typename T::T)(T::μ / 2)')):
                m = '' if not nm else ', ' + mu
                add('woSE%s_%s' % (nm, br), 'HomMUXwoSE', UB, R + MUX + [EK], 'HomMUXwoSE<br%s>(res, s, c1, c0, ek);' % (m or ', T::μ'),
                    AND + TV % mu + RING % ('x1', 'x0', mu))
                add('ksSE%s_%s' % (nm, br), 'HomMUXwoSE', UK, R + MUX + [EK], 'HomMUXwoSE<iks, br%s>(res, s, c1, c0, ek);' % m,
                    AND + '''TLWE<typename iks::targetP> a1, a0; IdentityKeySwitch<iks>(a1, x1, ek.getiksk<iks>());
                    IdentityKeySwitch<iks>(a0, x0, ek.getiksk<iks>());''' + TV % mu + RING % ('a1', 'a0', mu))
        # inputs are ring ciphertexts: extract the constant coefficient and switch before combining
        ER = [('const TRLWE<T> &', n) for n in ('s', 'c1', 'c0')]
        add('extract', 'ExtractSwitchAndHomMUX', {'br': 'lvl01param', 'iks': 'lvl10param', 'T': 'lvl1param', 'I': 'lvl0param'},
            [('TRLWE<T> &', 'res')] + ER + [EK], 'ExtractSwitchAndHomMUX(res, s, c1, c0, ek);',
            '''TLWE<T> e; TLWE<I> as, a1, a0;
               SampleExtractIndex<T>(e, s, 0); IdentityKeySwitch<iks>(as, e, ek.getiksk<iks>());
               SampleExtractIndex<T>(e, c1, 0); IdentityKeySwitch<iks>(a1, e, ek.getiksk<iks>());
               SampleExtractIndex<T>(e, c0, 0); IdentityKeySwitch<iks>(a0, e, ek.getiksk<iks>());
               for (size_t i = 0; i <= I::k * I::n; i++) { a1[i] = as[i] + a1[i]; a0[i] = a0[i] - as[i]; }
               a1[I::k * I::n] -= I::μ; a0[I::k * I::n] -= I::μ;''' + TV % 'T::μ' + RING % ('a1', 'a0', 'T::μ'), unit='src/gate.cpp')
    return out


def check(tier):
    import runner
    return runner.check_entries('C02', entries(tier), tier)
