"""Encryption functions of every level: shared by C04 (message and key part) and C05 (masks and noise)."""
TL = r'TFHEpp::tlweSym'
TR = r'TFHEpp::trlweSym'
LEVELS = [('default', ['lvl0param', 'lvlhalfparam', 'lvl1param', 'lvl2param', 'lvl3param']),
          ('concrete', ['lvl0param', 'lvl1param', 'lvl2param']), ('tfhers', ['lvl0param', 'lvl1param', 'lvl2param']),
          ('compress', ['lvl0param', 'lvl1param', 'lvl2param'])]
ETA = {('compress', 'lvl1param'), ('compress', 'lvl2param')}
NORING = ('lvl0param', 'lvlhalfparam', 'lvl3param')
TPHASE = '''typename P::T ph = c[P::k * P::n];
            for (size_t k = 0; k < P::k; k++)
              for (size_t i = 0; i < P::n; i++) ph -= c[k * P::n + i] * key[k * P::n + i];
            res = ph;'''
RPHASE = '''for (size_t i = 0; i < P::n; i++) res[i] = c[P::k][i];
            for (size_t k = 0; k < P::k; k++) {
              Polynomial<P> part, prod;
              for (size_t i = 0; i < P::n; i++) part[i] = key[k * P::n + i];
              PolyMul<P>(prod, c[k], part);
              for (size_t i = 0; i < P::n; i++) res[i] -= prod[i]; }'''
KEY = [('const Key<P> &', 'key')]


def forms():
    """(cfg, P, form id, function, call expression, parameters, ring?, message expression, noise argument)"""
    for cfg, lv in LEVELS:
        for P in lv:
            eta = (cfg, P) in ETA
            S = [('const uint' if eta else 'const double', 's')]
            D = 'P::η' if eta else 'P::α'
            M = [('const typename P::T', 'p')]
            unit = 'p'
            if eta:
                # units of the message: the torus, or Z_q where the level's own amplitude is given in Z_q
                unit = '(P::μ == P::q / 8 ? p << (std::numeric_limits<typename P::T>::digits - P::qbit) : p)'
            intm = unit.replace('? p', '? X').replace(': p', ': X') if eta else 'X'
            intm = intm.replace('X', '(typename P::T)(p * P::Δ)')
            yield cfg, P, 'enc', 'tlweSymEncrypt', 'tlweSymEncrypt<P>(p, s, key)', M + S + KEY, False, unit, 's'
            yield cfg, P, 'enc0', 'tlweSymEncrypt', 'tlweSymEncrypt<P>(p, key)', M + KEY, False, unit, D
            yield cfg, P, 'int', 'tlweSymIntEncrypt', 'tlweSymIntEncrypt<P>(p, s, key)', M + S + KEY, False, intm, 's'
            yield cfg, P, 'int0', 'tlweSymIntEncrypt', 'tlweSymIntEncrypt<P>(p, key)', M + KEY, False, intm, D
            if P in NORING:
                continue
            M = [('const Polynomial<P> &', 'p')]
            yield cfg, P, 'rzero', 'trlweSymEncryptZero', 'trlweSymEncryptZero<P>(s, key)', S + KEY, True, '0', 's'
            yield cfg, P, 'rzero0', 'trlweSymEncryptZero', 'trlweSymEncryptZero<P>(key)', KEY, True, '0', D
            yield cfg, P, 'renc', 'trlweSymEncrypt', 'trlweSymEncrypt<P>(p, s, key)', M + S + KEY, True, 'p[i]', 's'
            yield cfg, P, 'renc0', 'trlweSymEncrypt', 'trlweSymEncrypt<P>(p, key)', M + KEY, True, 'p[i]', D
            yield cfg, P, 'rint', 'trlweSymIntEncrypt', 'trlweSymIntEncrypt<P>(p, s, key)', M + S + KEY, True, '(typename P::T)(P::Δ * p[i])', 's'
            yield cfg, P, 'rint0', 'trlweSymIntEncrypt', 'trlweSymIntEncrypt<P>(p, key)', M + KEY, True, '(typename P::T)(P::Δ * p[i])', D

# functions that build gadget ciphertexts and evaluation keys from encryptions
GENERATORS = set('''trgswSymEncrypt halftrgswSymEncrypt trgswfftSymEncrypt halftrgswfftSymEncrypt trgswnttSymEncrypt trgswrainttSymEncrypt ikskgen subikskgen privkskgen
subprivkskgen tlwe2trlweikskgen evalautokeygen annihilatekeygen bkgen bkfftgen bknttgen bkrainttgen relinKeygen relinKeyFFTgen bootsSymEncrypt'''.split())


def generators(prop, tier, mode, cfgs=None):
    """the generator entries of the behavioural specifications, to be judged under another rule"""
    import copy
    import importlib
    out = []
    for m in ('c04', 'c07', 'c08', 'c10', 'c27', 'c28'):
        for e in importlib.import_module(m).entries(tier):
            if e.fn in GENERATORS and e.mode == 'ref' and (cfgs is None or e.cfg in cfgs or e.cfg == 'ternary' and e.fn.startswith('bk')):
                g = copy.copy(e)
                g.id, g.prop, g.mode, g.ref, g.alts, g.alias, g.erase = prop.lower() + 'g_' + e.id, prop, mode, None, [], [], False
                out.append(g)
    return out
