"""Inputs and keys are not modified: const-dropping casts, mutable members, and the write effects of every function."""
import astrules
import effects
import vlib


def check(tier):
    fs = []
    with vlib.Work() as d:
        f, other, skipped = astrules.library_facts(d, tier, tuple(vlib.CONFIGS))
    f.update(other)
    casts = mut = 0
    for c in astrules.uniq(f, 'casts', key=lambda o: (o['at'], o['function'], o['from'])):
        casts += 1
        if c['use']:
            fs.append({'key': 'cast:%s' % c['function'].split('<')[0], 'text': 'constness of %s is cast away at %s (%s) and the object is modified: %s' %
                       (c['from'][:100], c['at'], c['function'][:100], c['use']), 'detail': []})
    for r in astrules.uniq(f, 'records', key=lambda o: o['name']):
        for q in r['fields']:
            if q['mutable'] and not r['at'].startswith('thirdparties/randen'):
                mut += 1
                fs.append({'key': 'mutable:%s::%s' % (r['name'], q['name']), 'text': 'member %s::%s at %s is mutable: read-only operations can change it' % (r['name'], q['name'], q['at']), 'detail': []})
    es, res, cov, ef = effects.run('C23', tier)
    r = astrules.report(fs + ef, {'const_dropping_casts': casts, 'mutable_members': mut, 'effects': cov, 'not_compiling_under_option': skipped},
                        'casts, mutable members and write effects', f,
                        'Every cast that removes const is followed to its uses (none may modify the object); no member is mutable; and the array-dataflow summary of every '
                        'function must not write a read-only parameter, anything reached through pointers stored in one, or a key object returned by an accessor of one.',
                        ['calls handled as primitives write only through their non-const parameters'])
    r['summary'] = '%d const-dropping casts without modification, effects %s' % (casts, {k: v for k, v in cov.items() if isinstance(v, int)})
    if cov['functions_analysed'] < 100:
        r['too_small'] = 'only %d functions' % cov['functions_analysed']
    return r
