"""The evaluation key stores and returns the key that was asked for."""
from vlib import Entry

BR = ['lvl01param', 'lvlh1param', 'lvl02param', 'lvlh2param']
KS = ['lvl10param', 'lvl1hparam', 'lvl20param', 'lvl2hparam', 'lvl21param', 'lvl22param', 'lvl31param']
# everything but the generators is looked into
KEYS = [r'TFHEpp::EvalKey::(emplace|get)', r'TFHEpp::lweKey::get', r'TFHEpp::\w+gen<.*SecretKey']
# kind, parameters, type, generator on plain keys
KINDS = [('bk', BR, 'BootstrappingKey<P>', 'bkgen'), ('bkfft', BR, 'BootstrappingKeyFFT<P>', 'bkfftgen'), ('bkntt', BR, 'BootstrappingKeyNTT<P>', 'bknttgen'),
         ('iksk', KS, 'KeySwitchingKey<P>', 'ikskgen'), ('subiksk', ['lvl21param'], 'SubsetKeySwitchingKey<P>', 'subikskgen')]
NAMED = [('privksk', ['lvl11param', 'lvl21param', 'lvl22param'], 'PrivateKeySwitchingKey<P>', 'privkskgen'),
         ('subprivksk', ['lvl21param'], 'SubsetPrivateKeySwitchingKey<P>', 'subprivkskgen')]
SUBSET = ('subiksk', 'subprivksk')
CFG = {'default': None, 'concrete': None, 'ternary': None, 'tfhers': None, 'compress': None}


def usable(cfg, kind, P):
    if cfg == 'ternary' and kind == 'bkntt':
        return False                    # no generator of NTT keys for ternary key coefficients
    return True


def gen(kind, g):
    src = 'sk.key.get<typename P::domainP>()'
    tgt = 'sk.key.get<typename P::targetP>()'
    if kind == 'subiksk':
        return '%s<P>(res, %s);' % (g, src)
    if kind in ('privksk', 'subprivksk'):
        return '%s<P>(res, f, %s, %s);' % (g, src, tgt)
    return '%s<P>(res, %s, %s);' % (g, src, tgt)


def entries(tier):
    out = []
    EK, SK = ('EvalKey &', 'ek'), ('const SecretKey &', 'sk')
    for cfg in CFG:
        slots = [(k, P, ty, g, '') for k, ps, ty, g in KINDS for P in ps if usable(cfg, k, P)] + \
                [(k, P, ty, g, n) for k, ps, ty, g in NAMED for P in ps for n in ('a', 'b')]
        def put(k, P, n, f='f'):
            return 'ek.emplace%s<%s>(%ssk);' % (k, P, '"%s", %s, ' % (n, f) if n else '')
        for k, P, ty, g, n in slots:
            params = [(ty + ' &', 'res'), EK, SK] + ([('const Polynomial<typename P::targetP> &', 'f')] if n else [])
            get = 'ek.get%s<P>(%s)' % (k, '"%s"' % n if n else '')
            def add(id, fn, call, ref, **kw):
                out.append(Entry('c20_%s_%s_%s%s_%s' % (cfg, k, P, n, id), 'C20', 'EvalKey::' + fn, {'P': P}, params, call, ref, nocut=KEYS, cfg=cfg, erase=True, outs=['res'], **kw))
            add('own', 'emplace' + k, '%s res = %s;' % (put(k, P, n), get), gen(k, g))
            # the slot of this key belongs to no other key
            if cfg == 'default':
                other = ''.join('{ Polynomial<typename %s::targetP> f2 = {}; %s }' % (P2, put(k2, P2, n2, 'f2')) for k2, P2, t2, g2, n2 in slots if (k2, P2, n2) != (k, P, n))
                other += ''.join('{ Polynomial<typename %s::targetP> f2 = {}; %s }' % (P, put(k, P, x, 'f2')) for x in ('', 'ab') if n and x)
                add('slot', 'emplace' + k, '%s %s res = %s;' % (put(k, P, n), other, get), gen(k, g))
        for P in BR:
            for k, ty, conv in (('bkfft', 'BootstrappingKeyFFT<P>', 'ApplyFFT2trgsw'), ('bkntt', 'BootstrappingKeyNTT<P>', 'ApplyNTT2trgsw')):
                if cfg == 'ternary' and k == 'bkntt':
                    continue
                el = 'for (int j = 0; j < (int)P::domainP::key_value_diff; j++) res[i][j] = %s<typename P::targetP>(ek.getbk<P>()[i][j]);' % conv \
                    if k == 'bkfft' else 'res[i] = %s<typename P::targetP>(ek.getbk<P>()[i][0]);' % conv
                out.append(Entry('c20_%s_bk2%s_%s' % (cfg, k, P), 'C20', 'EvalKey::emplacebk2' + k, {'P': P}, [(ty + ' &', 'res'), EK],
                                 'ek.emplacebk2%s<P>(); res = ek.get%s<P>();' % (k, k),
                                 'for (int i = 0; i < (int)(P::domainP::k * P::domainP::n); i++) { %s }' % el, nocut=KEYS, cfg=cfg, outs=['res'], unroll=4))
    out.append(Entry('c20_params', 'C20', 'EvalKey::EvalKey', {}, [('std::array<uint64_t, sizeof(lweParams) / 8> &', 'res'), ('const SecretKey &', 'sk')],
                     'EvalKey ek(sk); memcpy(&res, &ek.params, sizeof(lweParams));', 'memcpy(&res, &sk.params, sizeof(lweParams));'))
    return out


def check(tier):
    import runner
    return runner.check_entries('C20', entries(tier), tier)
