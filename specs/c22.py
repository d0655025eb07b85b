"""Parallel loops are free of data races: per-iteration write and read sets of every worksharing loop."""
import bisect
import os
import random
import re
import traceback
import astrules
import vlib
import sym
from sym import Poly, Atom, Bool, const, pa

MODS = ['c01', 'c02', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c15', 'c20', 'c27', 'c28']
EXTRA = '''
namespace w22_%(P)s { using namespace TFHEpp; using P = %(P)s;
std::vector<TLWE<P>> f1(const std::vector<uint8_t> &p, const Key<P> &k) { return bootsSymEncrypt<P, P::μ>(p, k); }
std::vector<uint8_t> f2(const std::vector<TLWE<P>> &p, const Key<P> &k) { return bootsSymDecrypt<P>(p, k); } }
'''
DECOMP = '''
namespace w22_hd { using namespace TFHEpp;
void f(std::array<TLWE<lvl1param>, 4> &r, const TLWE<lvl3param> &c, const EvalKey &ek)
{ HomDecomp<lvl31param, lvl1hparam, lvlh1param, 4, 4>(r, c, ek.getiksk<lvl31param>(), ek.getiksk<lvl1hparam>(), ek.getbkfft<lvlh1param>()); } }
'''
SYNC = re.compile(r'__kmpc_(critical|reduce|reduce_nowait|single|master|masked|ordered|barrier|atomic\w*)$')
WB = {8: 1, 16: 2, 32: 4, 64: 8, 128: 16, 'd': 8, 'p': 8, 'f': 4, 'bytes': 1}


def units(d, tier):
    out = []
    cfgs = list(vlib.CONFIGS) if tier == 'thorough' else ['default', 'keybundle']
    for cfg in cfgs:
        out += [(n, p, fl) for n, p, fl in astrules.instance_units(d, tier, cfg, MODS)]
        for n, p, fl in vlib.units_src():
            if n.startswith('src/'):
                out.append((cfg + '_' + re.sub(r'\W', '_', n), p, fl + vlib.CONFIGS[cfg]))
        q = os.path.join(d, 'x_%s.cpp' % cfg)
        with open(q, 'w') as f:
            f.write('#include "pre.hpp"\n' + vlib.lib_includes() + ''.join(EXTRA % {'P': P} for P in ('lvl0param', 'lvl1param')) + DECOMP)
        out.append(('x_' + cfg, q, vlib.CONFIGS[cfg]))
    return out


def chain(n):
    while n is not None:
        yield n
        n = n.prev


def atoms(xs):
    """every atom occurring in the values"""
    seen, stack = set(), list(xs)
    while stack:
        x = stack.pop()
        if isinstance(x, (tuple, list)):
            stack.extend(x)
            continue
        if not isinstance(x, (Poly, Bool, Atom)) or id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, Poly):
            for m in x.t:
                stack.extend(m)
        elif isinstance(x, Bool):
            if x.var is not None:
                stack += [x.var, x.lo, x.hi]
        else:
            yield x
            stack.append(x.args)


def span(off, quants, L, k, w):
    """bytes touched in iteration k: (low, high, dense); quants: [(variable, trip)]"""
    env = {L: k} if L is not None else {}
    lo = {}
    I = sym.Interp(7, {}, budget=200000)
    ranges = []
    for v, trip in quants:
        t = I.poly(trip, dict(env)) if isinstance(trip, Poly) else trip
        if t <= 0:
            return None
        ranges.append((v, t))
    e0 = dict(env)
    e0.update({v: 0 for v, t in ranges})
    base = I.poly(off, e0)
    low = high = base
    step = []
    for v, t in ranges:
        if t > 1:
            e1 = dict(e0)
            e1[v] = 1
            s = I.poly(off, e1) - base
            e1[v] = t - 1
            if I.poly(off, e1) - base != s * (t - 1):
                return (None, None, False)
            step.append((abs(s), t))
            if s > 0:
                high += s * (t - 1)
            else:
                low += s * (t - 1)
    ext, dense = w, True
    for s, t in sorted(step):
        dense = dense and s <= ext
        ext = max(ext, s * (t - 1) + ext)
    return low, high + w, dense


def cells(off, quants, L, k, w, limit=200000):
    """the set of bytes touched in iteration k, None if too many"""
    I = sym.Interp(7, {}, budget=4000000)
    env0 = {L: k} if L is not None else {}
    envs = [env0]
    for v, trip in quants:
        t = I.poly(trip, dict(env0)) if isinstance(trip, Poly) else trip
        if t * len(envs) > limit // 8:
            return None
        envs = [dict(e, **{}) for e in envs for _ in (0,)]
        new = []
        for e in envs:
            for x in range(t):
                f = dict(e)
                f[v] = x
                new.append(f)
        envs = new
    out = set()
    for e in envs:
        a = I.poly(off, e)
        out.update(range(a, a + w))
    return out


def guard_holds(g, L, k, quants):
    """whether the guard can hold in iteration k (first cell), judged under several interpretations of the inputs"""
    for seed in range(6):
        I = sym.Interp(seed, {}, budget=200000)
        env = {L: k} if L is not None else {}
        env.update({v: 0 for v, t in quants})
        try:
            if I.batom(g, env) if isinstance(g, Atom) else I.bool(g, env):
                return True
        except sym.Unknown:
            return True
    return False


def bound(at):
    return [v for v in at.fv if v.kind in ('iv', 'bv', 'arg')]


def iterations(last, rng):
    if last <= 70000:
        return list(range(last + 1))
    ks = set(range(64)) | {last - i for i in range(64)}
    b = 1
    while b <= min(last, 1 << 20):        # neighbourhoods of powers and random blocks
        ks |= {x for x in range(b - 2, b + 3) if 0 <= x <= last}
        b *= 2
    for _ in range(24):
        s = rng.randrange(min(last, 1 << 20))
        ks |= {x for x in range(s, s + 40) if x <= last}
    # every pair of consecutive elements of each outer index: blocks of one outer iteration
    return sorted(ks)


def analyse_region(fn, mod, omp):
    from dataflow import Analysis
    from models import standard_models
    from runner import root_of
    r = {'fn': fn['name'].split('(')[0][:160], 'file': omp['file'].replace(vlib.REPO + '/', ''), 'line': omp['line'], 'findings': [], 'notes': [], 'writes': 0, 'private': 0, 'reads': 0, 'iterations': 0}
    for b in fn['blocks']:
        for i in b['insts']:
            if i['op'] == 'call' and SYNC.match(i.get('callee') or ''):
                r['notes'].append('uses %s' % i['callee'])
                r['status'] = 'undecided'
                return r
    A = Analysis(fn, mod, standard_models(), erase=True)
    L = getattr(A, 'iteration', None)
    if L is None:
        r['status'] = 'undecided'
        r['notes'].append('no iteration variable')
        return r
    ks = iterations(L.hi, random.Random(1))
    r['iterations'] = len(ks)
    where = lambda site: '%s:%s' % (str((site or {}).get('file') if isinstance(site, dict) else omp['file']).replace(vlib.REPO + '/', ''), (site or {}).get('line') if isinstance(site, dict) else omp['line'])
    shared = {}
    vals = []
    for b, top in A.state.items():
        for n in chain(top):
            vals += [n.guard, n.off, n.val]
        k, nm, at = root_of(b)
        if k in ('local', 'tls'):
            r['private'] += 1
            continue
        if k == 'global' and (mod.g.get(nm) or {}).get('tls'):
            r['private'] += 1
            continue
        if b.kind == 'addr' and b.args[0] == 'arg' and b.args[1] in ('.global_tid.', '.bound_tid.'):
            continue
        ns = [n for n in chain(top) if n.kind in ('set', 'inc', 'zero', 'undef', 'havoc', 'scan')]
        if ns:
            shared[b] = (nm, ns)
    for rec in A.records:
        vals += [v for v in rec.values() if isinstance(v, (Poly, Bool, Atom, tuple, list))]
    used = {}
    for a in atoms(vals):
        if a.kind in ('ld', 'ref') and isinstance(a.args[0], Atom):
            used.setdefault(a.args[0], []).append(a)
    bad = undec = 0
    for b, (nm, ns) in shared.items():
        spans = []           # (low, high, iteration, node)
        okb = True
        for n in ns:
            r['writes'] += 1
            if n.off is None or n.kind == 'scan':
                r['notes'].append('%s of %s not located (%s)' % (n.kind, nm, n.site))
                okb = False
                continue
            w = WB.get(n.w, 8)
            qs = [(v, t) for v, t in n.quants]
            free = [v for v in n.off.fv if v not in {q for q, t in qs} and v is not L and v.kind in ('iv', 'bv')]
            if free:
                r['notes'].append('write of %s with unbound index' % nm)
                okb = False
                continue
            for k in ks:
                try:
                    s = span(n.off, qs, L, k, w)
                except sym.Unknown as e:
                    s = (None, None, False)
                if s is None:
                    continue
                if s[0] is None:
                    r['notes'].append('write of %s: offset not evaluated' % nm)
                    okb = False
                    break
                spans.append((s[0], s[1], k, n, s[2]))
        spans.sort(key=lambda s: (s[0], s[1], s[2]))
        hit = clash(spans, L, nm, b)
        if hit:
            n1, k1, n2, k2, byte = hit
            bad += 1
            r['findings'].append({'what': nm, 'kind': 'write', 'site': site_of(n1, omp), 'text': 'iterations %d and %d both write byte %d of %s' % (k1, k2, byte, describe(b, nm)), 'other': site_of(n2, omp)})
            continue
        if not okb:
            undec += 1
        # reads of the written object
        starts = [s[0] for s in spans]
        wide = max([s[1] - s[0] for s in spans], default=0)
        for a in used.get(b, []):
            r['reads'] += 1
            h = read_clash(a, L, ks, spans, starts, wide)
            if h == 'undecided':
                r['notes'].append('read of %s not evaluated' % nm)
                undec += 1
            elif h:
                k1, k2, byte, n = h
                bad += 1
                r['findings'].append({'what': nm, 'kind': 'read', 'site': site_of(n, omp), 'text': 'iteration %d reads byte %d of %s, which iteration %d writes' % (k1, byte, describe(b, nm), k2), 'other': site_of(n, omp)})
                break
    r['status'] = 'refuted' if bad else 'undecided' if undec else 'proved'
    r['shared'] = sorted({nm for nm, ns in shared.values()})
    return r


def describe(b, nm):
    return nm if b.kind == 'addr' else 'the elements of %s' % nm


def site_of(n, omp):
    s = n.site
    if isinstance(s, tuple) and len(s) >= 2:
        return '%s:%s' % (str(s[0]).replace(vlib.REPO + '/', ''), s[1])
    if isinstance(s, dict) and s.get('line'):
        return '%s:%s' % (str(s.get('file')).replace(vlib.REPO + '/', ''), s['line'])
    return '%s:%s' % (omp['file'].replace(vlib.REPO + '/', ''), omp['line'])


def clash(spans, L, nm, b):
    """a byte written by two different iterations"""
    act = []
    tries = 0
    for s in spans:
        act = [t for t in act if t[1] > s[0]]
        for t in act:
            if t[2] == s[2]:
                continue
            tries += 1
            if tries > 400:
                return None
            if s[4] and t[4]:
                byte = s[0]
            else:
                c1, c2 = cells(s[3].off, s[3].quants, L, s[2], WB.get(s[3].w, 8)), cells(t[3].off, t[3].quants, L, t[2], WB.get(t[3].w, 8))
                if c1 is None or c2 is None or not c1 & c2:
                    continue
                byte = min(c1 & c2)
            if guard_holds(s[3].guard, L, s[2], s[3].quants) and guard_holds(t[3].guard, L, t[2], t[3].quants):
                return s[3], t[2], t[3], s[2], byte
        act.append(s)
    return None


def read_clash(a, L, ks, spans, starts, wide):
    off = a.args[1]
    if a.kind == 'ld':
        w, dims = WB.get(a.args[2], 8), []
    else:
        geom = a.args[2]
        if geom is None:
            return 'undecided'
        w, dims = WB.get(geom[0], 8), list(geom[1])
    ext = w + sum((n - 1) * st for n, st in dims)
    free = [v for v in off.fv if v is not L and v.kind in ('iv', 'bv')]
    if any(v.hi is None or v.hi > 1 << 40 for v in free):
        return 'undecided'
    rng = random.Random(3)
    pts = [dict.fromkeys(free, 0), {v: v.hi for v in free}] + [{v: rng.randint(0, v.hi) for v in free} for _ in range(6 if free else 0)]
    for k in (ks if len(ks) < 400 else ks[::max(1, len(ks) // 400)]):
        for p in (pts if free else pts[:1]):
            env = dict(p)
            env[L] = k
            try:
                x = sym.Interp(7, {}, budget=200000).poly(off, env)
            except sym.Unknown:
                return 'undecided'
            i = bisect.bisect_left(starts, x - wide)
            while i < len(spans) and spans[i][0] < x + ext:
                s = spans[i]
                if s[2] != k and s[1] > x:
                    byte = max(x, s[0])
                    if s[4] or (cells(s[3].off, s[3].quants, L, s[2], WB.get(s[3].w, 8)) or set()) & set(range(x, x + ext)):
                        if guard_holds(s[3].guard, L, s[2], s[3].quants):
                            return k, s[2], byte, s[3]
                i += 1
    return None


def one(u):
    name, path, fl, d = u
    try:
        bc = os.path.join(d, name + '.bc')
        rc, so, se = vlib.run(['clang++-18'] + vlib.BASEFLAGS + ['-fopenmp=libomp', '-include', os.path.join(vlib.VERIF, 'harness', 'pre.hpp')] + vlib.incflags() + list(fl) + [path, '-o', bc], timeout=800)
        if rc:
            m = re.search(r'error: (.*)', se)
            return {'unit': name, 'error': m.group(0)[:200] if m else se[-200:]}
        js = vlib.dump_unit(d, name, bc, 'omp\n' + vlib.gen_spec([]))
        os.unlink(bc)
        os.unlink(os.path.join(d, name + '.json'))
        from dataflow import Module
        mod = Module(js)
        omp = {o['name']: o for o in js['omp']}
        res = []
        for fn in js['functions']:
            o = omp.get(fn['mangled'])
            if o is None:
                res.append({'fn': fn['name'][:160], 'file': fn.get('file', ''), 'line': fn.get('line', 0), 'status': 'undecided', 'notes': ['parallel region without a worksharing loop'], 'findings': [], 'writes': 0, 'private': 0, 'reads': 0, 'iterations': 0})
                continue
            try:
                res.append(analyse_region(fn, mod, o))
            except Exception:
                res.append({'fn': fn['name'][:160], 'file': o['file'].replace(vlib.REPO + '/', ''), 'line': o['line'], 'status': 'undecided', 'notes': [traceback.format_exc()[-400:]], 'findings': [], 'writes': 0, 'private': 0, 'reads': 0, 'iterations': 0})
        return {'unit': name, 'regions': res}
    except Exception:
        return {'unit': name, 'fatal': traceback.format_exc()[-600:]}


def pragmas():
    """worksharing directives in the sources (for the coverage report)"""
    out = []
    for sub in ('include', 'src'):
        for root, ds, fs in os.walk(os.path.join(vlib.REPO, sub)):
            for f in sorted(fs):
                if f.endswith(('.hpp', '.cpp', '.h')):
                    p = os.path.join(root, f)
                    with open(p, errors='replace') as fh:
                        for i, l in enumerate(fh, 1):
                            if re.match(r'\s*#\s*pragma\s+omp\b', l):
                                out.append('%s:%d' % (os.path.relpath(p, vlib.REPO), i))
    return sorted(out)


def check(tier):
    findings, regions, failed = [], {}, []
    vlib.irdump()
    with vlib.Work() as d:
        us = [u + (d,) for u in units(d, tier)]
        rs = [r or {'unit': u[0], 'error': 'the analysis process was ended (time or memory)'} for u, r in zip(us, vlib.pmap(one, us, 8, 700 if tier == 'quick' else None))]
    for r in sorted(rs, key=lambda r: r['unit']):
        if 'fatal' in r:
            raise vlib.CheckError(r['fatal'])
        if 'error' in r:
            failed.append('%s: %s' % (r['unit'], r['error']))
            continue
        for g in r['regions']:
            regions.setdefault((g['fn'], g['line'], g['status']), g)
    n = {'proved': 0, 'undecided': 0, 'refuted': 0}
    seen = set()
    for g in regions.values():
        n[g['status']] += 1
        for f in g['findings']:
            key = '%s:%s:%s' % (re.sub(r'<.*', '', g['fn']).split('::')[-1] if not g['fn'].startswith('_Z') else os.path.basename(g['file']), f['what'], f['kind'])
            if key in seen:
                continue
            seen.add(key)
            findings.append({'key': key, 'text': '%s:%d: parallel loop: %s' % (g['file'], g['line'], f['text']), 'detail': ['at %s and %s' % (f['site'], f['other']), g['fn']]})
    locs = pragmas()
    cov = sorted({'%s:%d' % (g['file'], g['line']) for g in regions.values()})
    und = ['%s:%s %s' % (g['file'], g['line'], '; '.join(g['notes'])[:200]) for g in regions.values() if g['status'] == 'undecided']
    return astrules.report(findings, {'parallel_loops_in_source': len(locs), 'parallel_loops_analysed': len(cov), 'instances': len(regions), 'proved': n['proved'], 'undecided': n['undecided'],
                                      'writes': sum(g['writes'] for g in regions.values()), 'private_objects': sum(g['private'] for g in regions.values()),
                                      'reads_of_written_objects': sum(g['reads'] for g in regions.values()),
                                      'loops': cov, 'directives': locs, 'undecided_loops': und[:20], 'units_not_compiling': failed[:20]},
                           'worksharing loops', [u[0] for u in us],
                           'Every outlined OpenMP worksharing loop is reduced to one symbolic iteration; its summary lists the cells of shared objects the iteration writes and reads. '
                           'Offsets are evaluated for the iteration numbers (all up to 70000, otherwise blocks covering both ends, powers of two and random blocks); no two iterations may '
                           'write the same byte and none may read a byte another one writes. Objects local to the iteration or thread-local are private.',
                           ['two different reference parameters or variables do not overlap', 'constant functions called from the loop are covered by C21 and C23'])
