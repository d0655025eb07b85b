"""The boolean gates compute their truth tables."""
from vlib import Entry

# output for (a, b) in (0,0) (0,1) (1,0) (1,1), and the linear form sign(ca*a + cb*b + off), messages +-1, off in units of mu
GATES = {
    'NAND': ((1, 1, 1, 0), -1, -1, 1), 'NOR': ((1, 0, 0, 0), -1, -1, -1), 'XNOR': ((1, 0, 0, 1), -2, -2, -2),
    'AND': ((0, 0, 0, 1), 1, 1, -1), 'OR': ((0, 1, 1, 1), 1, 1, 1), 'XOR': ((0, 1, 1, 0), 2, 2, 2),
    'ANDNY': ((0, 1, 0, 0), -1, 1, -1), 'ANDYN': ((0, 0, 1, 0), 1, -1, -1),
    'ORNY': ((1, 1, 0, 1), -1, 1, 1), 'ORYN': ((1, 0, 1, 1), 1, -1, 1),
}
for name, (tt, ca, cb, off) in GATES.items():
    for i, out in enumerate(tt):
        a, b = (1 if i & 2 else -1), (1 if i & 1 else -1)
        ph = (ca * a + cb * b + off) % 8          # the torus in units of mu = 1/8: positive half is 1..3
        assert ph in (1, 2, 3) if out else ph in (5, 6, 7), name

# (configuration, bootstrapping, its message scale, key switch)
SETS = [('default', 'lvl01param', 'lvl1param::μ', 'lvl10param'), ('default', 'lvl02param', 'lvl2param::μ', 'lvl20param'),
        ('concrete', 'lvl01param', 'lvl1param::μ', 'lvl10param'), ('tfhers', 'lvl01param', 'lvl1param::μ', 'lvl10param'),
        ('compress', 'lvl01param', 'lvl1param::μ', 'lvl10param'), ('ternary', 'lvl01param', 'lvl1param::μ', 'lvl10param')]
EK = ('const EvalKey &', 'ek')
IN = [('const TLWE<I> &', 'a'), ('const TLWE<I> &', 'b')]
KEYS = r'TFHEpp::EvalKey::get(bk|iksk|subiksk)'
COMB = 'TLWE<I> c; for (size_t i = 0; i <= I::k * I::n; i++) c[i] = (typename I::T)((typename I::T)(%d) * a[i] + (typename I::T)(%d) * b[i]);\n' \
       'c[I::k * I::n] += (typename I::T)((typename I::T)(%d) * (typename I::T)I::μ);\n'


def entries(tier):
    out = []
    for cfg, br, mu, iks in SETS:
        def add(id, fn, params, call, ref, nocut, **kw):
            using = {'br': br, 'iks': iks, 'I': kw.pop('I'), 'O': kw.pop('O')}
            out.append(Entry('c01_%s_%s_%s' % (cfg, br, id), 'C01', fn, using, params, call, ref, nocut=nocut, cfg=cfg, **kw))
        BR = dict(I='typename br::domainP', O='typename iks::targetP')
        KS = dict(I='typename iks::domainP', O='typename br::targetP')
        R = [('TLWE<O> &', 'res')]
        GB = [r'TFHEpp::GateBootstrapping(NTT)?<']
        for g, (tt, ca, cb, off) in GATES.items():
            for form, targs, d in (('br', 'br, %s, iks' % mu, BR), ('ks', 'iks, br, %s' % mu, KS)):
                add('%s_%s' % (g, form), 'Hom' + g, R + IN + [EK], 'Hom%s<%s>(res, a, b, ek);' % (g, targs),
                    COMB % (ca, cb, off) + 'GateBootstrapping<%s>(res, c, ek);' % targs, [r'TFHEpp::Hom[A-Z]', KEYS], deep=GB, **d)
        # the bootstrapping a gate uses: constant test vector of its amplitude, its own keys, its own order
        X = [('const TLWE<I> &', 'x')]
        for N in ('FFT', 'NTT'):
            if N == 'NTT' and (cfg not in ('default', 'concrete', 'ternary') or br != 'lvl01param'):
                continue
            s = '' if N == 'FFT' else 'NTT'
            tv = 'Polynomial<typename br::targetP> tv; for (auto &t : tv) t = %s;\n' % mu
            boot = 'GateBootstrappingTLWE2TLWE%s<br>(%%s, %%s, ek.getbk%s<br>(), tv);' % (N, N.lower())
            add('boot_br' + s, 'GateBootstrapping' + s, R + X + [EK], 'GateBootstrapping%s<br, %s, iks>(res, x, ek);' % (s, mu),
                tv + 'TLWE<typename br::targetP> m;' + boot % ('m', 'x') + 'IdentityKeySwitch<iks>(res, m, ek.getiksk<iks>());',
                GB + [KEYS], deep=[r'TFHEpp::GateBootstrappingTLWE2TLWE'], **BR)
            add('boot_ks' + s, 'GateBootstrapping' + s, R + X + [EK], 'GateBootstrapping%s<iks, br, %s>(res, x, ek);' % (s, mu),
                tv + 'TLWE<typename iks::targetP> m; IdentityKeySwitch<iks>(m, x, ek.getiksk<iks>());' + boot % ('res', 'm'),
                GB + [KEYS], deep=[r'TFHEpp::GateBootstrappingTLWE2TLWE'], **KS)
    for cfg in ('default', 'concrete', 'tfhers', 'compress', 'ternary'):
        for L in ('lvl0param', 'lvl1param'):
            def add(id, fn, params, call, ref):
                out.append(Entry('c01_%s_%s_%s' % (cfg, L, id), 'C01', fn, {'I': L}, params, call, ref, nocut=[r'TFHEpp::Hom[A-Z]'], cfg=cfg))
            R = [('TLWE<I> &', 'res')]
            for nm, sg in (('ONE', ''), ('ZERO', '-')):
                add('const' + nm, 'HomCONSTANT' + nm, R, 'HomCONSTANT%s<I>(res);' % nm,
                    'for (size_t i = 0; i < I::k * I::n; i++) res[i] = 0; res[I::k * I::n] = %sI::μ;' % sg)
            for nm, sg in (('COPY', ''), ('NOT', '-')):
                add(nm, 'Hom' + nm, R + [('const TLWE<I> &', 'a')], 'Hom%s<I>(res, a);' % nm,
                    'for (size_t i = 0; i <= I::k * I::n; i++) res[i] = %sa[i];' % sg)
    return out


def check(tier):
    import runner
    return runner.check_entries('C01', entries(tier), tier)
