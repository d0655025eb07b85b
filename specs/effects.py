"""Write effects of every function the behavioural specifications cover (shared by C21 and C23)."""
import importlib
import runner

MODS = ['c01', 'c02', 'c04', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c15', 'c19', 'c20', 'c27', 'c28']


def entries(prop, tier):
    out, seen = [], set()
    for m in MODS:
        try:
            es = importlib.import_module(m).entries(tier)
        except ModuleNotFoundError:
            continue
        for e in es:
            if e.mode != 'ref':
                continue
            # parameter sets of the same shape have the same effects: one instance per function, call and option
            k = (m, e.fn, e.call, e.cfg if tier == 'thorough' or e.cfg in ('default', 'ternary', 'keybundle', 'ternarycmux', 'compress') else '')
            if tier != 'thorough' and k in seen:
                continue
            seen.add(k)
            e.effect = prop
            out.append(e)
    return out


def run(prop, tier):
    es = entries(prop, tier)
    res = runner.run_entries(es, tier, what=runner.w_effects)
    cnt = {}
    for r in res:
        for k, v in r.get('counts', {}).items():
            cnt['written_' + k] = cnt.get('written_' + k, 0) + v
    fs = []
    for r in res:
        if r['status'] == 'refuted':
            for where, d in r['outs'].items():
                fs.append({'key': '%s:%s' % (r['fn'], d['got']), 'text': '%s [%s, %s]: %s at %s' %
                           (r['fn'], r['cfg'], ', '.join('%s=%s' % kv for kv in r['using'].items()), d['got'], where), 'detail': []})
    cov = {'functions_analysed': sum(r['status'] == 'proved' for r in res), **cnt,
           'undecided': [{'id': r['id'], 'why': str(r.get('why'))[:150]} for r in res if r['status'] not in ('proved', 'refuted')],
           'functions': sorted({r['fn'] for r in res})}
    return es, res, cov, fs
