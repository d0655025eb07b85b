"""A new secret key is random at every level, and each level's accessor returns that level's key."""
from vlib import Entry

LEVELS = [('lvl0', 'lvl0param'), ('lvlhalf', 'lvlhalfparam'), ('lvl1', 'lvl1param'), ('lvl2', 'lvl2param'), ('lvl3', 'lvl3param')]
CFG = ['default', 'compress', 'concrete', 'tfhers', 'ternary']


def entries(tier):
    out = []
    for cfg in CFG:
        # no two levels share a draw
        out.append(Entry('c15_%s_levels' % cfg, 'C15', 'lweKey::lweKey', {}, [('std::array<std::array<int64_t, N>, 5> &', 'res')],
                         'lweKey key; for (size_t i = 0; i < N; i++) { %s }' % ' '.join('res[%d][i] = key.%s[i];' % (i, m) for i, (m, P) in enumerate(LEVELS)),
                         None, pre='constexpr size_t N = std::min({%s});' % ', '.join('(size_t)(%s::k * %s::n)' % (P, P) for m, P in LEVELS),
                         nocut=['TFHEpp::lweKey::lweKey'], cfg=cfg, unit='src/key.cpp', mode='fresh'))
        for m, P in LEVELS:
            def add(id, fn, params, call, ref, nocut=(), **kw):
                out.append(Entry('c15_%s_%s_%s' % (cfg, P, id), 'C15', fn, {'P': P}, params, call, ref, nocut=nocut, cfg=cfg, unit='src/key.cpp', **kw))
            O = [('std::array<typename P::T, P::k * P::n> &', 'res')]
            new = 'lweKey key; for (size_t i = 0; i < P::k * P::n; i++) res[i] = key.%s[i];' % m
            add('draw', 'lweKey::lweKey', O, new,
                'std::uniform_int_distribution<int32_t> d(P::key_value_min, P::key_value_max); for (size_t i = 0; i < P::k * P::n; i++) res[i] = d(generator);',
                ['TFHEpp::lweKey::lweKey'], erase=True)
            add('fresh', 'lweKey::lweKey', O, new, None, ['TFHEpp::lweKey::lweKey'], mode='fresh')
            add('sk', 'SecretKey::SecretKey', O, new.replace('lweKey key', 'SecretKey s; const lweKey &key = s.key'),
                'std::uniform_int_distribution<int32_t> d(P::key_value_min, P::key_value_max); for (size_t i = 0; i < P::k * P::n; i++) res[i] = d(generator);',
                ['TFHEpp::(lweKey::lweKey|SecretKey::SecretKey)'], erase=True)
            add('get', 'lweKey::get', [('Key<P> &', 'res'), ('const lweKey &', 'key')], 'res = key.get<P>();', 'res = key.%s;' % m, ['TFHEpp::lweKey::get'])
    return out


def check(tier):
    import runner
    return runner.check_entries('C15', entries(tier), tier)
