"""Fresh uniform masks from the CSPRNG and the level's noise in every fresh ciphertext."""
from vlib import Entry
from encforms import *

# centered binomial noise of Z_q carried to the torus: e * 2^w / q
CBT = '''static_cast<typename P::T>((static_cast<__int128>(static_cast<std::make_signed_t<typename P::T>>(CenteredBinomial<P>(%s)))
           * (static_cast<__int128>(1) << std::numeric_limits<typename P::T>::digits)) / static_cast<__int128>(P::q))'''
UNI = 'std::uniform_int_distribution<typename P::T> dist(0, std::numeric_limits<typename P::T>::max());'


def entries(tier):
    out = []

    def add(id, fn, P, params, call, ref, nocut, cfg, **kw):
        out.append(Entry('c05_%s_%s_%s' % (cfg, P, id), 'C05', fn, {'P': P}, params, call, ref, nocut=nocut, cfg=cfg, **kw))

    T, R = [('typename P::T &', 'res')], [('Polynomial<P> &', 'res')]
    for cfg, P, f, fn, call, params, ring, msg, noise in forms():
        nz = ('ModularGaussian<P>(0, %s)' if (cfg, P) not in ETA else CBT) % noise
        if ring:
            O = [('std::array<Polynomial<P>, P::k> &', 'res')]
            masks = 'TRLWE<P> c = %s; for (size_t k = 0; k < P::k; k++) for (size_t i = 0; i < P::n; i++) res[k][i] = c[k][i];' % call
            mref = UNI + 'for (size_t k = 0; k < P::k; k++) for (size_t i = 0; i < P::n; i++) res[k][i] = dist(generator);'
            ph, pref = 'TRLWE<P> c = %s;' % call + RPHASE, 'for (size_t i = 0; i < P::n; i++) res[i] = %s;' % nz
            PO = R
        else:
            O = [('std::array<std::array<typename P::T, P::n>, P::k> &', 'res')]
            masks = 'TLWE<P> c = %s; for (size_t k = 0; k < P::k; k++) for (size_t i = 0; i < P::n; i++) res[k][i] = c[k * P::n + i];' % call
            mref = UNI + 'for (size_t k = 0; k < P::k; k++) for (size_t i = 0; i < P::n; i++) res[k][i] = dist(generator);'
            if (cfg, P) in ETA:
                # a power-of-two modulus: uniform multiples of 2^w/q
                mref = '''std::uniform_int_distribution<typename P::T> dist(0, (P::q & (P::q - 1)) == 0 ? P::q - 1 : std::numeric_limits<typename P::T>::max());
                    for (size_t k = 0; k < P::k; k++) for (size_t i = 0; i < P::n; i++)
                      res[k][i] = dist(generator) * ((P::q & (P::q - 1)) == 0 ? (typename P::T)1 << (std::numeric_limits<typename P::T>::digits - P::qbit) : 1);'''
            ph, pref = 'TLWE<P> c = %s;' % call + TPHASE, 'res = %s;' % nz
            PO = T
        cut = [TR] if ring else [TL]
        add(f + '_mask', fn, P, O + params, masks, mref, cut, cfg, erase=True)
        add(f + '_fresh', fn, P, O + params, masks, None, cut, cfg, mode='fresh')
        add(f + '_noise', fn, P, PO + params, ph, pref, cut, cfg, mode='noise')
        add(f + '_nfresh', fn, P, PO + params, ph, None, cut, cfg, mode='noisefresh')
    # gadget ciphertexts and evaluation keys: every row from its own encryption
    out += generators('C05', tier, 'fresh', ('default',) if tier == 'quick' else None)
    return out


def check(tier):
    import runner
    return runner.check_entries('C05', entries(tier), tier)
