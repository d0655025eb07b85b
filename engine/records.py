"""Data members of the library's records, from the type-checked program."""
import vlib


def of(names, cfg='default', src=''):
    """record name -> astfacts entry, for the given qualified names and every library record they contain"""
    with vlib.Work() as d:
        u = vlib.header_unit(d, 'rec', src, vlib.CONFIGS[cfg])
        f = vlib.facts([u])['rec']
    recs = {r['name']: r for r in f['records']}
    for n in names:
        if n not in recs:
            raise vlib.CheckError('record %s not found' % n)
    return recs


def leaves(recs, name, prefix=''):
    """access paths of the data members that are not library records themselves"""
    r = recs[name]
    if r['bases']:
        for b in r['bases']:
            if b in recs:
                yield from leaves(recs, b, prefix)
    for f in r['fields']:
        p = prefix + f['name']
        if f['lib_record'] and f['lib_record'] in recs and recs[f['lib_record']]['fields']:
            yield from leaves(recs, f['lib_record'], p + '.')
        else:
            yield p, f
