"""Every data member of a serialisable record is given to the archive exactly once, in the same order for saving and loading."""
import records
from vlib import Entry

TYPES = ['SecretKey', 'EvalKey', 'IOpacket', 'lweParams', 'portablelvl0param', 'portablelvl1param', 'portablelvl2param',
         'portablelvl10param', 'portablelvl20param', 'portablelvl21param', 'portablelvl22param']
EXTRA = '#include "io-packet.hpp"\n#include "probe.hpp"\n'


def entries(tier):
    recs = records.of(['TFHEpp::' + t for t in TYPES if t != 'IOpacket'] + ['TFHEpp::IOpacket'], src=EXTRA)
    # any other record with a serialize/save/load member is an obligation as well
    more = [n for n, r in recs.items() if n.startswith('TFHEpp::') and '<' not in n and {'serialize', 'save', 'load'} & set(r['methods'])]
    out = []
    for t in TYPES + sorted(x[8:] for x in more if x[8:] not in TYPES):
        al = list(records.leaves(recs, 'TFHEpp::' + t))
        for j in range(0, len(al), 3):
            ls = al[j:j + 3]
            call = 'constexpr size_t N = (sizeof(%s) + 3) / 4; uint32_t c[N], o[N], s[N], c2[N], o2[N], s2[N]; vfp::run<true>(obj, c, o, s); vfp::run<false>(obj, c2, o2, s2);\n' % t
            ref = ''
            for i, (p, f) in enumerate(ls):
                call += '{ const size_t k = ((const char *)&obj.%s - (const char *)&obj) / 4; res[%d][0] = c[k]; res[%d][1] = s[k]; res[%d][2] = c2[k]; res[%d][3] = s2[k]; res[%d][4] = o[k] - o2[k]; }\n' \
                    % (p, i, i, i, i, i)
                ref += 'res[%d][0] = 1; res[%d][1] = sizeof(obj.%s); res[%d][2] = 1; res[%d][3] = sizeof(obj.%s); res[%d][4] = 0;\n' % (i, i, p, i, i, p, i)
            e = Entry('c18_%s_%d' % (t, j), 'C18', t + '::serialize', {}, [('std::array<std::array<uint32_t, 5>, %d> &' % len(ls), 'res'), ('%s &' % t, 'obj')],
                      call, ref, outs=['res'])
            e.nullable = True
            e.extra, e.fields = EXTRA, [p for p, f in ls]
            out.append(e)
    return out


def check(tier):
    import runner
    es = entries(tier)
    res = runner.run_entries(es, tier, per=1)
    rep = runner.report('C18', es, res, what='serialisable records examined')
    names = {e.id: e.fields for e in es}
    for f in rep['findings']:
        i = f['key'].split(':')[-1]
        f['text'] = '%s does not give every data member to the archive exactly once, in one order' % f['key'].split(':')[0]
        for j, l in enumerate(f['detail']):
            if l.startswith('output res at index ['):
                k = int(l.split('[')[1].split(',')[0])
                f['detail'].insert(0, 'data member: %s (%s)' % (names[i][k], ['count saving', 'size saving', 'count loading', 'size loading', 'order saving-loading'][int(l.split(',')[1].split(']')[0])]))
                break
    rep['coverage']['members'] = names
    return rep
