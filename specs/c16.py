"""All randomness comes from the per-thread CSPRNG: provenance rule over every engine object, seed and draw, and the
seeding and output functions of the generator itself."""
import re
import astrules
import c16e
import runner
import vlib

ALLOWED = re.compile(r'^(const )?(std::random_device|randen::Randen<[\w ]+>)$')
BAD = {'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'erand48', 'nrand48', 'jrand48', 'rand_r', 'arc4random', 'arc4random_uniform'}
IMPL = 'thirdparties/randen/'


def base(t):
    return re.sub(r'\s*&+$', '', t)


def check(tier):
    fs = []

    def bad(key, text, detail=()):
        fs.append({'key': key, 'text': text, 'detail': list(detail)})
    cfgs = ('default', 'compress', 'concrete', 'tfhers', 'ternary', 'keybundle', '-UUSE_RANDEN')
    with vlib.Work() as d:
        f, other, skipped = astrules.library_facts(d, tier, cfgs)
    f.update(other)
    cons = uses = 0
    for e in astrules.uniq(f, 'engines', key=lambda o: (o['at'], o.get('function'), o.get('use'), o['type'])):
        where = '%s (%s)' % (e['at'], e['function'])
        impl = e['at'].startswith(IMPL)
        t = base(e['type'])
        if 'use' in e:
            uses += 1
            if impl:
                continue
            if not ALLOWED.match(t) and 'type-parameter' not in t:
                bad('use:%s:%s' % (e['function'], e['use']), 'random engine %s of type %s, which is not the CSPRNG, is used at %s' % (e['use'], t, where))
            elif e['shared']:
                bad('shared:%s:%s' % (e['function'], e['use']), 'generator %s used at %s is shared between threads (static storage, not thread_local)' % (e['use'], where))
            continue
        cons += 1
        a = e['args']
        if e['copy']:
            if not impl:
                bad('copy:%s:%s' % (e['function'], t), 'generator state of type %s is copied at %s' % (t, where))
            continue
        if not ALLOWED.match(t):
            bad('engine:%s:%s' % (e['function'], t), 'engine of type %s constructed at %s is not the CSPRNG' % (t, where))
        elif t.endswith('random_device'):
            if [x for x in a if not x.get('default')]:
                bad('token:%s' % e['function'], 'std::random_device with a token at %s' % where)
        else:
            ok = len(a) == 1 and base(a[0]['type']).endswith('std::random_device') and a[0].get('lvalue')
            if not ok:
                bad('seed:%s' % e['function'], 'generator at %s is not seeded from std::random_device but from %s' % (where, ', '.join(x.get('ref') or x['type'] for x in a) or 'its default seed'))
            elif a[0].get('shared'):
                bad('seedshared:%s' % e['function'], 'generator at %s is seeded from a std::random_device object shared between threads' % where)
    for h in astrules.uniq(f, 'holds'):
        if not h['at'].startswith(IMPL):
            bad('hold:%s:%s' % (h['function'], h['what']), '%s at %s stores a copy of a generator (%s)' % (h['what'], h['at'], h['type'][:120]))
    ncalls = 0
    for c in astrules.uniq(f, 'calls', key=lambda o: (o['at'], o['function'], o['callee'])):
        ncalls += 1
        n = c['callee'].split('<')[0].split('::')[-1]
        if c['at'].startswith(IMPL):
            continue
        if n in BAD:
            bad('call:%s:%s' % (c['function'], n), '%s called at %s (%s)' % (n, c['at'], c['function']))
        elif c['engine']:
            bad('reseed:%s:%s' % (c['function'], n), 'generator state is reset by %s at %s (%s)' % (n, c['at'], c['function']))
    small = None
    if cons < 2 or uses < 20:
        small = 'only %d engine constructions and %d uses found' % (cons, uses)
    r = astrules.report(fs, {'engine_constructions': cons, 'engine_uses': uses, 'calls_examined': ncalls, 'not_compiling_under_option': skipped},
                        'engine objects, uses and seeds examined', f,
                        'Every expression of a type satisfying the uniform-random-bit-generator interface in the library is classified: constructions must be '
                        'std::random_device without token or Randen seeded from a random_device that is not shared; used variables must be thread_local, automatic or '
                        'parameters; no copies of generator state, no reseeding outside the generator, no C library random functions.')
    es = c16e.entries(tier)
    res = runner.run_entries(es, tier)
    q = runner.report('C16', es, res)
    r['findings'] += q['findings']
    r['coverage']['generator_functions'] = q['coverage']
    r['assumptions'] += q.get('assumptions', [])
    r['too_small'] = small or q.get('too_small')
    return r
