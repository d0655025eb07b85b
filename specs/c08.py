"""Key-switching keys and key switches agree on digits, entries and coverage."""
from vlib import Entry

# parameter type, domain level, target level used per configuration
KS = ['lvl10param', 'lvl1hparam', 'lvl20param', 'lvl2hparam', 'lvl21param']
RING = ['lvl11param', 'lvl21param', 'lvl22param']
CFG = [('default', KS, RING, ['lvl21param']), ('concrete', ['lvl10param', 'lvl20param', 'lvl21param'], RING, ['lvl21param']),
       ('tfhers', ['lvl10param', 'lvl20param', 'lvl21param'], ['lvl11param', 'lvl22param'], []), ('compress', ['lvl10param', 'lvl20param', 'lvl21param'], ['lvl21param', 'lvl22param'], [])]
PRE = '''using DP = typename P::domainP; using TP = typename P::targetP; using DT = typename DP::T; using TT = typename TP::T;
constexpr int W = std::numeric_limits<DT>::digits, V = std::numeric_limits<TT>::digits;
constexpr int DN = DP::k * DP::n, TN = TP::k * TP::n, B = P::basebit;
// value of a torus element moved between precisions, rounding to nearest
static inline TT conv(DT x) {
  if constexpr (W > V) return (TT)((DT)(x + ((DT)1 << (W - V - 1))) >> (W - V));
  else return (TT)((TT)x << (V - W));
}
// what has to be added so that truncating to t digits rounds to nearest
constexpr DT half = B * P::t < W ? (DT)1 << (B * P::t < W ? W - 1 - B * P::t : 0) : (DT)0;
// and so that unsigned digits become balanced ones
constexpr DT balance() { DT r = 0; for (int j = 0; j < P::t; j++) r += (DT)1 << (W - j * B - 1); return r; }
'''
# subtract digit * key entry, digit in [-B/2, B/2) (balanced) or [0, B)
BAL = '''{ const DT av = %(src)s + half + balance();
  for (int j = 0; j < P::t; j++) {
    const int d = (int)((DT)(av >> (W - (j + 1) * B)) & (((DT)1 << B) - 1)) - (1 << (B - 1));
    if (d > 0) { %(each)s -= %(key)s[i][j][d - 1]%(idx)s; }
    else if (d < 0) %(each)s += %(key)s[i][j][-d - 1]%(idx)s;
  } }'''
UNS = '''{ const DT av = %(src)s + half;
  for (int j = 0; j < P::t; j++) {
    const unsigned d = (unsigned)((DT)(av >> (W - (j + 1) * B)) & (((DT)1 << B) - 1));
    if (d != 0) %(each)s -= %(key)s[i][j][d - 1]%(idx)s;
  } }'''
TL = dict(each='for (int m = 0; m <= TN; m++) res[m]', idx='[m]')
TR = dict(each='for (int c = 0; c <= TP::k; c++) for (int m = 0; m < TP::n; m++) res[c][m]', idx='[c][m]')


def entries(tier):
    out = []
    for cfg, ks, ring, sub in CFG:
        def add(P, id, fn, params, call, ref, nocut, **kw):
            kw.setdefault('cfg', cfg)
            using = kw.pop('using', {'P': P})
            kw.setdefault('pre', PRE)
            out.append(Entry('c08_%s_%s_%s' % (cfg, P, id), 'C08', fn, using, params, call, ref, nocut=nocut, **kw))

        DK, TK = ('const Key<typename P::domainP> &', 'dkey'), ('const Key<typename P::targetP> &', 'tkey')
        SK = ('const SecretKey &', 'sk')
        GET = 'sk.key.get<DP>(), sk.key.get<TP>()'
        for P in ks:
            add(P, 'iks', 'IdentityKeySwitch', [('TLWE<TP> &', 'res'), ('const TLWE<DP> &', 'x'), ('const KeySwitchingKey<P> &', 'ksk')],
                'IdentityKeySwitch<P>(res, x, ksk);',
                'for (int m = 0; m < TN; m++) res[m] = 0; res[TN] = conv(x[DN]);\nfor (int i = 0; i < DN; i++) ' + BAL % dict(TL, src='x[i]', key='ksk'),
                [r'TFHEpp::IdentityKeySwitch<'])
            add(P, 'cat', 'CatIdentityKeySwitch', [('std::array<TLWE<TP>, 3> &', 'res'), ('const std::array<TLWE<DP>, 3> &', 'x'), ('const KeySwitchingKey<P> &', 'ksk')],
                'CatIdentityKeySwitch<P, 3>(res, x, ksk);',
                'for (int q = 0; q < 3; q++) { for (int m = 0; m < TN; m++) res[q][m] = 0; res[q][TN] = conv(x[q][DN]); }\nfor (int i = 0; i < DN; i++) for (int q = 0; q < 3; q++) ' +
                BAL % dict(TL, each='for (int m = 0; m <= TN; m++) res[q][m]', src='x[q][i]', key='ksk'), [r'TFHEpp::CatIdentityKeySwitch<'])
            add(P, 'gen', 'ikskgen', [('KeySwitchingKey<P> &', 'res'), DK, TK], 'ikskgen<P>(res, dkey, tkey);',
                '''for (int i = 0; i < DN; i++) for (int j = 0; j < P::t; j++) for (int u = 0; u < 1 << (B - 1); u++)
                   res[i][j][u] = tlweSymEncrypt<TP>((TT)((TT)(dkey[i] * (u + 1)) * ((TT)1 << (V - (j + 1) * B))), tkey);''',
                [r'TFHEpp::ikskgen<'], erase=True)
            add(P, 'gensk', 'ikskgen', [('KeySwitchingKey<P> &', 'res'), SK], 'ikskgen<P>(res, sk);', 'ikskgen<P>(res, %s);' % GET,
                [r'ikskgen<.*SecretKey'], erase=True)
        for P in sub:
            add(P, 'sub', 'SubsetIdentityKeySwitch', [('TLWE<TP> &', 'res'), ('const TLWE<DP> &', 'x'), ('const SubsetKeySwitchingKey<P> &', 'ksk')],
                'SubsetIdentityKeySwitch<P>(res, x, ksk);',
                'for (int m = 0; m < TN; m++) res[m] = conv(x[m]); res[TN] = conv(x[DN]);\nfor (int i = 0; i < DN - TN; i++) ' + UNS % dict(TL, src='x[TN + i]', key='ksk'),
                [r'TFHEpp::SubsetIdentityKeySwitch<'])
            add(P, 'subgen', 'subikskgen', [('SubsetKeySwitchingKey<P> &', 'res'), DK], 'subikskgen<P>(res, dkey);',
                '''Key<TP> sub; for (int i = 0; i < TN; i++) sub[i] = dkey[i];
                   for (int i = 0; i < DN - TN; i++) for (int j = 0; j < P::t; j++) for (int u = 0; u < (1 << B) - 1; u++)
                   res[i][j][u] = tlweSymEncrypt<TP>((TT)((TT)(dkey[TN + i] * (u + 1)) * ((TT)1 << (V - (j + 1) * B))), sub);''',
                [r'TFHEpp::subikskgen<'], erase=True)
            add(P, 'subgensk', 'subikskgen', [('SubsetKeySwitchingKey<P> &', 'res'), SK], 'subikskgen<P>(res, sk);', 'subikskgen<P>(res, sk.key.get<DP>());',
                [r'subikskgen<.*SecretKey'], erase=True)
            # private functional switch from the target level itself
            pre = PRE.replace('using DP = typename P::domainP', 'using DP = typename P::targetP').replace(
                'using DT = typename DP::T', 'using DT = typename TP::T')
            FU = ('const Polynomial<TP> &', 'func')
            add(P, 'subpriv', 'SubsetPrivKeySwitch', [('TRLWE<TP> &', 'res'), ('const TLWE<TP> &', 'x'), ('const SubsetPrivateKeySwitchingKey<P> &', 'ksk')],
                'SubsetPrivKeySwitch<P>(res, x, ksk);',
                'for (int c = 0; c <= TP::k; c++) for (int m = 0; m < TP::n; m++) res[c][m] = 0;\nfor (int i = 0; i <= TN; i++) ' + UNS % dict(TR, src='x[i]', key='ksk'),
                [r'TFHEpp::SubsetPrivKeySwitch<'], pre=pre)
            add(P, 'subprivgen', 'subprivkskgen', [('SubsetPrivateKeySwitchingKey<P> &', 'res'), FU, ('const Key<typename P::domainP> &', 'dkey'), TK],
                'subprivkskgen<P>(res, func, dkey, tkey);',
                '''for (int i = 0; i <= TN; i++) for (int j = 0; j < P::t; j++) for (int u = 0; u < (1 << B) - 1; u++) {
                     res[i][j][u] = trlweSymEncryptZero<TP>(tkey); const TT s = i < TN ? (TT)dkey[i] : (TT)-1;
                     for (int m = 0; m < TP::n; m++) res[i][j][u][TP::k][m] += (TT)((TT)((TT)(u + 1) * func[m]) * s) << (V - (j + 1) * B); }''',
                [r'TFHEpp::subprivkskgen<'], erase=True, pre=pre)
            add(P, 'subprivgensk', 'subprivkskgen', [('SubsetPrivateKeySwitchingKey<P> &', 'res'), FU, SK],
                'subprivkskgen<P>(res, func, sk);', 'subprivkskgen<P>(res, func, sk.key.get<typename P::domainP>(), sk.key.get<TP>());',
                [r'subprivkskgen<.*SecretKey'], erase=True)
        for P in ring:
            FU = ('const Polynomial<TP> &', 'func')
            add(P, 'toring', 'TLWE2TRLWEIKS', [('TRLWE<TP> &', 'res'), ('const TLWE<DP> &', 'x'), ('const TLWE2TRLWEIKSKey<P> &', 'ksk')],
                'TLWE2TRLWEIKS<P>(res, x, ksk);',
                'for (int c = 0; c <= TP::k; c++) for (int m = 0; m < TP::n; m++) res[c][m] = 0; res[TP::k][0] = conv(x[DN]);\nfor (int i = 0; i < DN; i++) ' + UNS % dict(TR, src='x[i]', key='ksk'),
                [r'TFHEpp::TLWE2TRLWEIKS<'])
            add(P, 'toringgen', 'tlwe2trlweikskgen', [('TLWE2TRLWEIKSKey<P> &', 'res'), DK, TK], 'tlwe2trlweikskgen<P>(res, dkey, tkey);',
                '''for (int i = 0; i < DN; i++) for (int j = 0; j < P::t; j++) for (int u = 0; u < (1 << B) - 1; u++) {
                   Polynomial<TP> p = {}; p[0] = (TT)((TT)(dkey[i] * (u + 1)) * ((TT)1 << (V - (j + 1) * B)));
                   res[i][j][u] = trlweSymEncrypt<TP>(p, tkey); }''', [r'TFHEpp::tlwe2trlweikskgen<'], erase=True)
            add(P, 'toringgensk', 'tlwe2trlweikskgen', [('TLWE2TRLWEIKSKey<P> &', 'res'), SK], 'tlwe2trlweikskgen<P>(res, sk);',
                'tlwe2trlweikskgen<P>(res, %s);' % GET, [r'tlwe2trlweikskgen<.*SecretKey'], erase=True)
            add(P, 'priv', 'PrivKeySwitch', [('TRLWE<TP> &', 'res'), ('const TLWE<DP> &', 'x'), ('const PrivateKeySwitchingKey<P> &', 'ksk')],
                'PrivKeySwitch<P>(res, x, ksk);',
                'for (int c = 0; c <= TP::k; c++) for (int m = 0; m < TP::n; m++) res[c][m] = 0;\nfor (int i = 0; i <= DN; i++) ' + BAL % dict(TR, src='x[i]', key='ksk'),
                [r'TFHEpp::PrivKeySwitch<'])
            add(P, 'privgen', 'privkskgen', [('PrivateKeySwitchingKey<P> &', 'res'), FU, DK, TK], 'privkskgen<P>(res, func, dkey, tkey);',
                '''for (int i = 0; i <= DN; i++) for (int j = 0; j < P::t; j++) for (int u = 0; u < 1 << (B - 1); u++) {
                     res[i][j][u] = trlweSymEncryptZero<TP>(tkey); const TT s = i < DN ? (TT)dkey[i] : (TT)-1;
                     for (int m = 0; m < TP::n; m++) res[i][j][u][TP::k][m] += (TT)((TT)((TT)(u + 1) * func[m]) * s) << (V - (j + 1) * B); }''',
                [r'TFHEpp::privkskgen<'], erase=True)
            add(P, 'privgensk', 'privkskgen', [('PrivateKeySwitchingKey<P> &', 'res'), FU, SK], 'privkskgen<P>(res, func, sk);',
                'privkskgen<P>(res, func, %s);' % GET, [r'privkskgen<.*SecretKey'], erase=True)
        # --- automorphism switch and trace
        for L in ('lvl1param', 'lvl2param'):
            if cfg == 'compress':
                continue
            AK = ('const AnnihilateKey<P> &', 'ak')
            add(L, 'auto', 'EvalAuto', [('TRLWE<P> &', 'res'), ('const TRLWE<P> &', 'x'), ('const int', 'd'), ('const EvalAutoKey<P> &', 'ak')],
                'EvalAuto<P>(res, x, d, ak);',
                '''Polynomial<P> b; Automorphism<P>(b, x[P::k], d); Polynomial<P> a[P::k]; TRLWE<P> s[P::k];
                   for (size_t k = 0; k < P::k; k++) { Automorphism<P>(a[k], x[k], d); halftrgswfftExternalProduct<P>(s[k], a[k], ak[k]); }
                   for (size_t c = 0; c <= P::k; c++) for (size_t m = 0; m < P::n; m++) {
                     typename P::T v = c == P::k ? b[m] : 0; for (size_t k = 0; k < P::k; k++) v -= s[k][c][m]; res[c][m] = v; }''',
                [r'TFHEpp::EvalAuto<'], pre='')
            add(L, 'autogen', 'evalautokeygen', [('EvalAutoKey<P> &', 'res'), ('const uint', 'd'), ('const Key<P> &', 'key')], 'evalautokeygen<P>(res, d, key);',
                '''for (size_t k = 0; k < P::k; k++) { Polynomial<P> part, rot; for (size_t m = 0; m < P::n; m++) part[m] = key[k * P::n + m];
                   Automorphism<P>(rot, part, d); res[k] = halftrgswfftSymEncrypt<P>(rot, key); }''', [r'TFHEpp::evalautokeygen<'], erase=True, pre='')
            add(L, 'anngen', 'annihilatekeygen', [('AnnihilateKey<P> &', 'res'), ('const Key<P> &', 'key')], 'annihilatekeygen<P>(res, key);',
                'for (size_t i = 0; i < P::nbit; i++) evalautokeygen<P>(res[i], (2u * P::n >> (i + 1)) + 1, key);', [r'TFHEpp::annihilatekeygen<'], erase=True, pre='')
            add(L, 'anngensk', 'annihilatekeygen', [('AnnihilateKey<P> &', 'res'), SK], 'annihilatekeygen<P>(res, sk);',
                'annihilatekeygen<P>(res, sk.key.get<P>());', [r'annihilatekeygen<.*SecretKey'], erase=True, pre='')
        # the trace on a ring of degree 8 (the same template; its loop over nbit is expanded): halve, add the image under X -> X^(2^(nbit-i)+1) with the key generated for that exponent
        if cfg == 'default':
          for R in ('vfs::Ring', 'vfs::Ring2'):
            add(R[5:], 'ann', 'AnnihilateKeySwitching', [('TRLWE<P> &', 'res'), ('const TRLWE<P> &', 'x'), AK],
                'AnnihilateKeySwitching<P>(res, x, ak);',
                '''res = x; for (size_t i = 0; i < P::nbit; i++) { TRLWE<P> e;
                   for (size_t c = 0; c <= P::k; c++) for (size_t m = 0; m < P::n; m++) res[c][m] /= 2;
                   EvalAuto<P>(e, res, (2u * P::n >> (i + 1)) + 1, ak[i]);
                   for (size_t c = 0; c <= P::k; c++) for (size_t m = 0; m < P::n; m++) res[c][m] += e[c][m]; }''', [r'TFHEpp::AnnihilateKeySwitching<'], pre='', unroll=3, unit='synth', using={'P': R})
    return out


def check(tier):
    import runner
    return runner.check_entries('C08', entries(tier), tier)
