"""Parameter descriptions: every field is the constant of the same name, and equality looks at every field."""
import re
import records
from vlib import Entry

CFG = ['default', 'compress', 'concrete', 'tfhers', 'ternary']
# the constant a field describes
PRE = '''template <class Q> constexpr double noise() { if constexpr (requires { Q::targetP::n; }) return noise<typename Q::targetP>();
  else if constexpr (Q::errordist == ErrorDistribution::ModularGaussian) return Q::α; else return Q::η; }
'''


def constant(field, level):
    if field in ('α', 'alpha'):
        return 'noise<%s>()' % level
    if field == 'approx_bit':
        return 'std::numeric_limits<typename %s::T>::digits' % level
    return '%s::%s' % (level, field)


def entries(tier):
    recs = records.of(['TFHEpp::lweParams'])
    port = {n: r for n, r in recs.items() if re.match(r'TFHEpp::portablelvl\w+param$', n)}
    out = []
    for cfg in CFG:
        for n, r in sorted(port.items()):
            short, level = n[len('TFHEpp::'):], n[len('TFHEpp::portable'):]
            for f in r['fields']:
                q = dict(params=[('std::array<%s, 1> &' % f['type'], 'res')], cfg=cfg, pre=PRE)
                ref = 'res[0] = (%s)(%s);' % (f['type'], constant(f['name'], level))
                out.append(Entry('c19_%s_%s_%s' % (cfg, short, f['name'].replace('α', 'alpha')), 'C19', short, {}, call='%s p; res[0] = p.%s;' % (short, f['name']), ref=ref, **q))
        # the whole description of a key
        for p, f in records.leaves(recs, 'TFHEpp::lweParams'):
            lv, _, fn = p.partition('.')
            out.append(Entry('c19_%s_lweParams_%s' % (cfg, p.replace('.', '_').replace('α', 'alpha')), 'C19', 'lweParams', {}, [('std::array<%s, 1> &' % f['type'], 'res')],
                             'lweParams p; res[0] = p.%s;' % p, 'res[0] = (%s)(%s);' % (f['type'], constant(fn, lv + 'param')), cfg=cfg, pre=PRE))
    for n, r in sorted(port.items()) + [('TFHEpp::lweParams', recs['TFHEpp::lweParams'])]:
        short = n[len('TFHEpp::'):]
        cond = ' && '.join('a.%s == b.%s' % (p, p) for p, f in records.leaves(recs, n))
        for op, v in (('==', '%s'), ('!=', '!(%s)')):
            out.append(Entry('c19_%s_%s' % (short, 'eq' if op == '==' else 'ne'), 'C19', short + '::operator==', {},
                             [('std::array<uint8_t, 1> &', 'res'), ('const %s &' % short, 'a'), ('const %s &' % short, 'b')],
                             'res[0] = a %s b;' % op, 'res[0] = %s;' % (v % cond)))
        # two descriptions that differ in one field at most
        for p, f in records.leaves(recs, n):
            out.append(Entry('c19_%s_eq_%s' % (short, p.replace('.', '_').replace('α', 'alpha')), 'C19', short + '::operator==', {},
                             [('std::array<uint8_t, 1> &', 'res'), ('const %s &' % short, 'a'), ('const std::array<%s, 1> &' % f['type'], 'v')],
                             '%s b = a; b.%s = v[0]; res[0] = a == b;' % (short, p),
                             ' && '.join(['res[0] = a.%s == v[0]' % p] + ['a.%s == a.%s' % (q, q) for q, g in records.leaves(recs, n) if q != p and g['type'] in ('double', 'float')]) + ';'))
    return out


def check(tier):
    import runner
    es = entries(tier)
    return runner.check_entries('C19', es, tier)
