"""Thread safety: variables of static storage duration, lazily initialised statics, and the effects of every function."""
import re
import astrules
import effects
import vlib

SYNC = re.compile(r'^(const )?std::(atomic\b|__atomic_base|mutex|shared_mutex|recursive_mutex|once_flag|condition_variable|atomic_flag|counting_semaphore)')


def check(tier):
    fs = []
    with vlib.Work() as d:
        f, other, skipped = astrules.library_facts(d, tier, tuple(vlib.CONFIGS) + ('-UUSE_RANDEN',))
    f.update(other)
    n = {'thread_local': 0, 'constant': 0, 'synchronised': 0, 'shared_mutable': 0, 'capturing': 0}
    for v in astrules.uniq(f, 'statics', key=lambda o: (o['at'], o['name'], o['type'], o['function'])):
        where = '%s at %s%s' % (v['name'], v['at'], ' in ' + v['function'] if v['function'] else '')
        const = (v['const'] or v['constexpr']) and not v['mutable_part']
        key = '%s:%s' % (v['function'].split('<')[0], v['name'].split('<')[0])
        why = None
        if SYNC.match(v['type']):
            n['synchronised'] += 1
        elif v['tls']:
            n['thread_local'] += 1
        elif not const:
            why = 'is neither constant nor thread_local (type %s)' % v['type'][:120]
        elif v['written_through']:
            why = 'refers to a shared object that is modified: %s' % v['written_through']
        else:
            n['constant'] += 1
        if why is None and v['local'] and v.get('captures') and not v['constexpr']:
            n['capturing'] += 1
            why = 'is initialised once from values of the first call (%s)' % ', '.join(v['captures'])
        if why:
            n['shared_mutable'] += 1
            fs.append({'key': 'static:' + key, 'text': 'static variable %s %s' % (where, why), 'detail': [v['type'][:300]]})
    es, res, cov, ef = effects.run('C21', tier)
    r = astrules.report(fs + ef, {**n, 'effects': cov, 'not_compiling_under_option': skipped}, 'variables of static storage duration classified', f,
                        'Every variable of static storage duration of the library, of every instantiation, under every parameter option, is classified: thread_local, '
                        'constant (const, no mutable member, objects behind its pointers never modified, by a use analysis) or a synchronisation object; a function-local '
                        'static must not be initialised from parameters, locals or this. In addition the array-dataflow summary of every function must write only outputs, '
                        'locals, fresh allocations and thread_local objects.',
                        ['calls handled as primitives write only through their non-const parameters; each of them is itself an analysed function or listed as primitive in engine/vlib.py'])
    r['summary'] = 'static variables %s; effects %s' % (n, {k: v for k, v in cov.items() if isinstance(v, int)})
    if n['thread_local'] < 3 or cov['functions_analysed'] < 100:
        r['too_small'] = 'only %s, %s' % (n, cov['functions_analysed'])
    return r
