"""Secret key material leaves only through encryption."""
import copy
import re
import astrules
import vlib
from vlib import Entry
from encforms import *


def entries(tier):
    out = []
    for cfg, P, f, fn, call, params, ring, msg, noise in forms():
        if tier == 'quick' and cfg in ('concrete', 'tfhers'):
            continue
        out.append(Entry('c17_%s_%s_%s' % (cfg, P, f), 'C17', fn, {'P': P}, [(('TRLWE<P>' if ring else 'TLWE<P>') + ' &', 'res')] + params,
                         'res = %s;' % call, None, nocut=[TR if ring else TL], cfg=cfg, erase=True, mode='taint'))
    out += generators('C17', tier, 'taint', ('default',) if tier == 'quick' else None)
    import c20
    for e in c20.entries(tier):
        if e.id.endswith('_own') and (tier != 'quick' or e.cfg == 'default'):
            g = copy.copy(e)
            g.id, g.prop, g.mode, g.ref, g.erase = 'c17_' + e.id, 'C17', 'taint', None, False
            out.append(g)
    return out


SEC = re.compile(r'(?<!\w)(Key<|SecretKey\b|lweKey\b)')
EVAL = re.compile(r'^const .*(EvalKey|BootstrappingKey|KeySwitchingKey|IKSKey|EvalAutoKey|AnnihilateKey|relinKey)\w*(<.*>)? ?[&*]')
OWNERS = ('TFHEpp::SecretKey', 'TFHEpp::lweKey')


def structure(tier):
    """findings and counts of the rules about containers, statics, signatures and output"""
    fs = []
    with vlib.Work() as d:
        f, other, skipped = astrules.library_facts(d, tier, ('ternary', 'concrete') if tier == 'quick' else tuple(vlib.CONFIGS))
    f.update(other)
    n = {'records': 0, 'fields': 0, 'statics': 0, 'functions': 0, 'functions_with_secret_parameters': 0, 'output_calls': 0}
    recs = astrules.uniq(f, 'records', key=lambda o: (o['name'], tuple((q['name'], q['type']) for q in o['fields'])))
    own = {q['type'] for r in recs if r['name'] == 'TFHEpp::lweKey' for q in r['fields']}
    if not own:
        return fs, n, 'the type holding the secret keys was not found'
    for r in recs:
        n['records'] += 1
        if r['name'] in OWNERS:
            continue
        for q in r['fields']:
            n['fields'] += 1
            if SEC.search(q['type'].replace('TFHEpp::', '')) or SEC.search(q['written']) or (q['type'] in own and 'Polynomial' not in q['written']):
                fs.append({'key': 'field:%s::%s' % (r['name'], q['name']), 'text': '%s::%s at %s (%s) stores secret key material outside the secret key type' %
                           (r['name'], q['name'], q['at'], q['written'][:120]), 'detail': []})
        for b in r['bases']:
            if SEC.search(b.replace('TFHEpp::', '')):
                fs.append({'key': 'base:%s' % r['name'], 'text': '%s at %s derives from %s and so contains the secret key' % (r['name'], r['at'], b[:120]), 'detail': []})
    for x in astrules.uniq(f, 'statics'):
        n['statics'] += 1
        if SEC.search(x['type'].replace('TFHEpp::', '')) or SEC.search(x['written']) or (x['type'] in own and 'Polynomial' not in x['written']):
            fs.append({'key': 'static:%s' % x['name'], 'text': 'variable %s at %s of static storage duration keeps secret key material (%s)' % (x['name'], x['at'], x['written'][:120]), 'detail': []})
    for x in astrules.uniq(f, 'functions', key=lambda o: (o['name'], tuple(o['params']))):
        n['functions'] += 1
        if not any(SEC.search(p) for p in x['params']):
            continue
        n['functions_with_secret_parameters'] += 1
        ev = [p for p in x['params'] if EVAL.search(p.replace('struct ', ''))]
        if ev:
            fs.append({'key': 'signature:%s' % x['name'], 'text': '%s at %s evaluates with a public key (%s) but also takes a secret key' % (x['name'], x['at'], ev[0][:120]), 'detail': []})
    for x in astrules.uniq(f, 'prints', key=lambda o: (o['at'], o['function'], tuple(o['types']))):
        if not astrules.lib(x['at']):
            continue
        n['output_calls'] += 1
        t = [t for t in x['types'] if SEC.search(t)]
        if t:
            fs.append({'key': 'output:%s' % x['function'].split('<')[0], 'text': '%s writes secret key material (%s) to an output stream at %s' % (x['function'][:120], t[0][:100], x['at']), 'detail': []})
    return fs, n, ''


def check(tier):
    import runner
    fs, n, why = structure(tier)
    # one finding per construct
    fs = list({q['key']: q for q in fs}.values())
    es = entries(tier)
    r = runner.report('C17', es, runner.run_entries(es, tier), extra_findings=fs, what='public outputs examined for unmasked key material')
    r['coverage']['structure'] = n
    r['coverage']['explanation'] = ('Array-dataflow summary of every encryption function, gadget encryption and evaluation-key generator: an output element that does not change '
                                    'with the results of encryptions and uniform draws is published in clear and must not vary with the secret inputs (three independent streams of '
                                    'random interpretation). Rules over the type-checked program: no record but SecretKey and lweKey has a member, base or archive content of key type, '
                                    'no variable of static storage duration has one, no function taking a read-only evaluation key takes a secret key, and no output call names one.')
    r['summary'] += '; %(records)d records, %(fields)d fields, %(statics)d statics, %(functions)d functions (%(functions_with_secret_parameters)d with secret parameters)' % n
    if why or n['records'] < 5 or n['functions_with_secret_parameters'] < 10:
        r['too_small'] = why or 'only %(records)d records and %(functions_with_secret_parameters)d functions with secret parameters' % n
    return r
