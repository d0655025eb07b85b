"""Rules over the type-checked program (clang AST facts collected by astfacts)."""
import importlib
import os
import re
import vlib
from vlib import REPO, VERIF

MODS = ['c01', 'c02', 'c04', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c27']


def instance_units(d, tier, cfg='default', mods=MODS, chunk=60):
    """units that instantiate every function template the behavioural specifications cover"""
    out = []
    for m in mods:
        try:
            es = [e for e in importlib.import_module(m).entries(tier) if e.cfg == cfg and e.mode == 'ref']
        except ModuleNotFoundError:
            continue
        if not es:
            continue
        # the references are this framework's own code: only the library call is kept
        for i in range(0, len(es), chunk):
            part = es[i:i + chunk]
            s = '#include "pre.hpp"\n' + vlib.lib_includes()
            for u in sorted({e.unit for e in part if e.unit.startswith('src/')}):
                s += '#include "%s"\n' % os.path.join(REPO, u)
            if any(e.unit.startswith('synth') for e in part):
                s += '#include "synth.hpp"\n'
            s += ''.join(sorted({getattr(e, 'extra', '') for e in part}))
            for e in part:
                s += 'namespace e_%s {\nusing namespace TFHEpp;\n' % e.id
                for k, t in e.using.items():
                    s += 'using %s = %s;\n' % (k, t)
                s += e.pre + '\nvoid vf_c(%s)\n{\n%s\n}\n}\n' % (', '.join('%s %s' % (t, n) for t, n in e.params), e.call)
            n = 'inst_%s_%s_%d' % (cfg, m, i)
            p = os.path.join(d, n + '.cpp')
            with open(p, 'w') as f:
                f.write(s)
            out.append((n, p, list(vlib.CONFIGS[cfg])))
    return out


def collect(units, must=True):
    """facts of all units; units that do not type-check are an error (must) or listed"""
    from concurrent.futures import ThreadPoolExecutor
    vlib.astfacts()
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda u: vlib.facts_of(*u), units))
    out, bad = {}, []
    for n, f, (rc, se) in res:
        if f is None or rc:
            m = re.search(r'error: .*', se)
            if must:
                raise vlib.CheckError('%s does not compile: %s' % (n, m.group(0) if m else se[-400:]))
            bad.append(n)
        else:
            out[n] = f
    return out, bad


def library_facts(d, tier, cfgs=('default',), instances=True):
    """(facts of the default configuration, of the others, units that do not compile under another option)"""
    units = vlib.units_src()
    if instances:
        units += instance_units(d, tier)
    base, _ = collect(units)
    other, bad = {}, []
    extra = []
    for c in cfgs:
        if c == 'default':
            continue
        for n, p, fl in vlib.units_src():
            if 'randen.cc' in n:
                continue
            extra.append((c + ':' + n, p, fl + (vlib.CONFIGS[c] if c in vlib.CONFIGS else [c])))
    if extra:
        other, bad = collect(extra, must=False)
    return base, other, bad


def uniq(facts, kind, key=lambda o: (o.get('at'), o.get('function', ''))):
    seen, out = set(), []
    for u in sorted(facts):
        for o in facts[u][kind]:
            k = key(o)
            if k in seen:
                continue
            seen.add(k)
            out.append(o)
    return out


def lib(at):
    return not at.startswith('/') and not at.startswith('thirdparties/cereal/')


def report(findings, cov, what, units, expl, assumptions=()):
    cov = dict(cov)
    cov['units'] = sorted(units)
    cov['explanation'] = expl
    cov['what'] = what
    return {'level': 'other', 'findings': findings, 'coverage': cov, 'assumptions': list(assumptions),
            'summary': '%s: %s' % (what, ', '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, int)))}
