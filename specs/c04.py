"""Encryption and phase are exact duals: phase(encrypt(m)) = m + noise, coordinate by coordinate."""
from vlib import Entry
from encforms import *


def entries(tier):
    out = []

    def add(id, fn, P, params, call, ref, nocut, cfg, **kw):
        out.append(Entry('c04_%s_%s_%s' % (cfg, P, id), 'C04', fn, {'P': P}, params, call, ref, nocut=nocut, cfg=cfg, nonoise=True, **kw))

    T, R = [('typename P::T &', 'res')], [('Polynomial<P> &', 'res')]
    for cfg, P, f, fn, call, params, ring, msg, noise in forms():
        if ring:
            add(f, fn, P, R + params, 'TRLWE<P> c = %s;' % call + RPHASE, 'for (size_t i = 0; i < P::n; i++) res[i] = %s;' % msg, [TR], cfg)
        else:
            add(f, fn, P, T + params, 'TLWE<P> c = %s;' % call + TPHASE, 'res = %s;' % msg, [TL], cfg)
    # levels whose message unit is unclear (see the known findings): the phase still may not depend on key and masks
    for cfg, P, f, fn, call, params, ring, msg, noise in forms():
        if (cfg, P) in ETA and not ring:
            add(f + '_indep', fn, P, T + params, 'TLWE<P> c = %s;' % call + TPHASE,
                'Key<P> zero; for (auto &x : zero) x = 0; TLWE<P> c = %s; res = c[P::k * P::n];' % call.replace('key', 'zero'), [TL], cfg)
    C, CR = [('const TLWE<P> &', 'c')], [('const TRLWE<P> &', 'c')]
    for cfg, lv in LEVELS:
        for P in lv:
            add('phase', 'tlweSymPhase', P, T + C + KEY, 'res = tlweSymPhase<P>(c, key);', TPHASE, [TL], cfg)
            add('dec', 'tlweSymDecrypt', P, [('bool &', 'out')] + C + KEY, 'out = tlweSymDecrypt<P>(c, key);',
                'typename P::T res;' + TPHASE + 'out = static_cast<std::make_signed_t<typename P::T>>(res) > 0;', [TL], cfg)
            add('idec', 'tlweSymIntDecrypt', P, [('typename P::T &', 'out')] + C + KEY, 'out = tlweSymIntDecrypt<P>(c, key);',
                'typename P::T res;' + TPHASE +
                '''const double D = 2 * static_cast<double>(1ULL << (std::numeric_limits<typename P::T>::digits - 1)) / P::plain_modulus;
                   const typename P::T m = static_cast<typename P::T>(std::round(res / D));
                   out = m >= P::plain_modulus / 2 ? m - P::plain_modulus : m;''', [TL], cfg)
            # the vector interface: every message with its own encryption
            N = 5
            BV = 'const uint8_t *view[3] = {&p[0], &p[0] + %d, &p[0] + p.size()};  // the three pointers of a vector\n' % N
            CV = 'const TLWE<P> *view[3] = {&c[0], &c[0] + %d, &c[0] + c.size()};\n' % N
            B, CC = [('const std::array<uint8_t, 8> &', 'p')], [('const std::array<TLWE<P>, 8> &', 'c')]
            O, OB = [('std::array<TLWE<P>, %d> &' % N, 'res')], [('std::array<uint8_t, %d> &' % N, 'res')]
            SK = [('const SecretKey &', 'sk')]
            each = 'for (int i = 0; i < %d; i++) res[i] = ' % N
            sv = 'sk.key.get<P>()'

            def addb(id, fn, params, call, ref):
                out.append(Entry('c04_%s_%s_%s' % (cfg, P, id), 'C04', fn, {'P': P}, params, call, ref, nocut=[r'TFHEpp::boots'], cfg=cfg, erase=True))
            for id, K, k, kv in (('', KEY, 'key', 'key'), ('sk', SK, 'sk', sv)):
                for mid, arg, mu in (('', '<P>', 'P::μ'), ('mu', '<P, 5>', '5')):
                    addb('boots' + mid + id, 'bootsSymEncrypt', O + B + K, BV + 'std::vector<TLWE<P>> v = bootsSymEncrypt%s(*(std::vector<uint8_t> *)view, %s);' % (arg, k) + each + 'v[i];',
                         each + 'tlweSymEncrypt<P>(p[i] ? %s : -%s, %s);' % (mu, mu, kv))
                addb('bootsd' + id, 'bootsSymDecrypt', OB + CC + K, CV + 'std::vector<uint8_t> v = bootsSymDecrypt<P>(*(std::vector<TLWE<P>> *)view, %s);' % k + each + 'v[i];',
                     each + 'tlweSymDecrypt<P>(c[i], %s);' % kv)
            if P in NORING:
                continue
            add('rphase', 'trlwePhase', P, R + CR + KEY, 'res = trlwePhase<P>(c, key);', RPHASE, [r'TFHEpp::trlwePhase'], cfg)
            if (cfg, P) not in ETA:
                add('rdec', 'trlweSymDecrypt', P, [('std::array<bool, P::n> &', 'out')] + CR + KEY, 'out = trlweSymDecrypt<P>(c, key);',
                    'Polynomial<P> res;' + RPHASE +
                    'for (size_t i = 0; i < P::n; i++) out[i] = static_cast<std::make_signed_t<typename P::T>>(res[i]) > 0;',
                    [TR, 'TFHEpp::trlwePhase'], cfg)
            add('ridec', 'trlweSymIntDecrypt', P, [('Polynomial<P> &', 'out')] + CR + KEY, 'out = trlweSymIntDecrypt<P>(c, key);',
                'Polynomial<P> res;' + RPHASE +
                'for (size_t i = 0; i < P::n; i++) out[i] = static_cast<typename P::T>(std::round(res[i] / P::Δ)) % P::plain_modulus;',
                [TR, 'TFHEpp::trlwePhase'], cfg)
    return out


def check(tier):
    import runner
    return runner.check_entries('C04', entries(tier), tier)
