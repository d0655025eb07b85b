"""Runs the entries of a property: compile units, summarise, compare, report."""
import json
import os
import re
import subprocess
import sys
import time
import traceback
import vlib
from vlib import *
from sym import Interp, Unknown, Poly, Bool, Atom


def analyse(fn, mod, e, layouts, ranges, **kw):
    from dataflow import Analysis
    from models import standard_models
    hints = {o: g[0] for o, g in layouts.items()}
    return Analysis(fn, mod, standard_models(), arg_ranges=ranges, width_hints=hints,
                    **{'erase': e.erase, 'nonoise': e.nonoise, 'unroll': e.unroll, **kw})


def load_unit(js, entries):
    """-> {entry id: (layouts, ranges, {suffix: fn json})}, Module"""
    from dataflow import Module
    mod = Module(js)
    res = {}
    for e in entries:
        ns = 'e_' + e.id + '::'
        lay = {o: geom_of(mod.g[ns + 'vl_' + o]) for o in e.outs if ns + 'vl_' + o in mod.g}
        for o in e.split:
            if o in lay and ns + 'vs_' + o in mod.g:
                lay[o] += (const_pair(mod.g[ns + 'vs_' + o])[0],)
        rng = {a: const_pair(mod.g[ns + 'vk_' + a]) for a in e.ranges if ns + 'vk_' + a in mod.g}
        fns = {}
        for f in js['functions']:
            m = re.match(r'e_(\w+?)::vf_(\w+)\(', f['name'])
            if m and m.group(1) == e.id:
                fns[m.group(2)] = f
        res[e.id] = (lay, rng, fns)
    return res, mod


def views(g):
    """index spaces of an output: (width, dims, byte offset); a split array is seen as blocks plus remainder"""
    w, dims = g[0], g[1]
    if len(g) < 3 or len(dims) != 1:
        return [(w, dims, 0)]
    (n, st), s = dims[0], g[2]
    r = [(w, ((n // s, s * st), (s, st)), 0)]
    if n % s:
        r.append((w, ((n % s, st),), n // s * s * st))
    return r


def fmt(v, n=700):
    s = repr(v)
    return s if len(s) <= n else s[:n] + ' ...'


def decide(e, info, mod, tier):
    """compare the entry's call with its reference (and, where it differs, with the equally acceptable ones)"""
    r = decide1(e, info, mod, tier, 'r')
    for i in range(len(e.alts)):
        if r['status'] in ('proved', 'agree'):
            break
        q = decide1(e, info, mod, tier, 'r%d' % (i + 1))
        if q['status'] in ('proved', 'agree'):
            r = q
    return r


def decide1(e, info, mod, tier, ref):
    from compare import compare_out, stores_to
    lay, rng, fns = info
    r = {'id': e.id, 'fn': e.fn, 'cfg': e.cfg, 'using': e.using, 'outs': {}, 'notes': []}
    if 'c' not in fns or ref not in fns:
        r['status'], r['why'] = 'unknown', 'function not found in the unit'
        return r
    A = analyse(fns['c'], mod, e, lay, rng)
    B = analyse(fns[ref], mod, e, lay, rng)
    if not hasattr(A, 'final') or not hasattr(B, 'final'):
        r['status'], r['why'] = ('refuted', 'the function never returns') if hasattr(B, 'final') else ('unknown', 'reference never returns')
        r['witness'] = {}
        return r
    st = 'proved'
    for o in e.outs:
        for view in views(lay[o]):
            v, va, vb = compare_out(A, B, o, view, o, nmul=1 if tier == 'quick' else 6)
            if v.status != 'proved':
                break
        d = {'status': v.status, 'why': v.why}
        if v.status == 'refuted':
            d.update(witness=v.witness, got=fmt(va), expected=fmt(vb), sites=stores_to(A, o)[:12])
            if A.allhavoc_note():
                d['status'] = 'unknown'
        elif v.status != 'proved':
            d.update(got=fmt(va, 300), expected=fmt(vb, 300))
        r['outs'][o] = d
        rank = {'proved': 0, 'agree': 1, 'unknown': 2, 'refuted': 3}
        if rank[d['status']] > rank[st]:
            st = d['status']
    r['status'] = st
    r['unknowns'] = [u[0] for u in A.unknowns][:5] + ['ref: ' + u[0] for u in B.unknowns][:5]
    r['notes'] = A.notes[:3] + ['ref: ' + x for x in B.notes][:3]
    return r


def decide_alias(e, a, info, mod, tier):
    from compare import compare_out, stores_to
    lay, rng, fns = info
    r = {'id': e.id + '@' + a, 'fn': e.fn, 'cfg': e.cfg, 'using': e.using, 'outs': {}, 'notes': []}
    if 'a_' + a not in fns or 'b_' + a not in fns:
        r['status'], r['why'] = 'unknown', 'function not found in the unit'
        return r
    A = analyse(fns['a_' + a], mod, e, lay, rng)
    B = analyse(fns['b_' + a], mod, e, lay, rng)
    st = 'proved'
    o = e.outs[0]
    v, va, vb = compare_out(A, B, o, lay[o][:2], o)
    d = {'status': v.status, 'why': v.why}
    if v.status == 'refuted':
        d.update(witness=v.witness, got=fmt(va), expected=fmt(vb), sites=stores_to(A, o)[:12])
    r['outs'][o] = d
    r['status'] = v.status
    r['unknowns'] = [u[0] for u in A.unknowns][:5]
    r['overlaps'] = sorted(A.overlaps)
    return r


def outcome(r):
    rank = {'proved': 0, 'agree': 1, 'unknown': 2, 'refuted': 3}
    r['status'] = max((d['status'] for d in r['outs'].values()), key=rank.get)
    return r


def decide_noise(e, info, mod, tier):
    """the contribution of the noise samples: summary with noise minus summary without"""
    from compare import compare_vals, stores_to
    from dataflow import query_space
    lay, rng, fns = info
    r = {'id': e.id, 'fn': e.fn, 'cfg': e.cfg, 'using': e.using, 'outs': {}, 'notes': []}
    An = [[analyse(fns[s], mod, e, lay, rng, erase='noise', nonoise=z) for z in (False, True)] for s in 'cr']
    for o in e.outs:
        qs, off, w = query_space(lay[o])
        v = [a.query_final(addr_arg(o), off, w) - b.query_final(addr_arg(o), off, w) for a, b in An]
        v = compare_vals(v[0], v[1], qs)
        d = {'status': v.status, 'why': v.why}
        if v.status == 'refuted':
            d.update(witness=v.witness, got=v.got, expected=v.want, sites=stores_to(An[0][0], o)[:12])
        r['outs'][o] = d
    return outcome(r)


def addr_arg(o):
    from dataflow import addr
    return addr('arg', o)


def decide_fresh(e, info, mod, tier):
    """no two elements of the output receive the same random draws (elements compared with themselves shifted)"""
    from compare import distinct
    from dataflow import query_space
    lay, rng, fns = info
    r = {'id': e.id, 'fn': e.fn, 'cfg': e.cfg, 'using': e.using, 'outs': {}, 'notes': []}
    A = analyse(fns['c'], mod, e, lay, rng, erase=False)
    B = analyse(fns['c'], mod, e, lay, rng, erase=False, nonoise=True) if e.mode == 'noisefresh' else None
    for o in e.outs:
        qs, off, w = query_space(lay[o])
        v = A.query_final(addr_arg(o), off, w)
        if B:
            v = v - B.query_final(addr_arg(o), off, w)
        x = distinct(v, qs)
        r['outs'][o] = {'status': x.status, 'why': x.why, 'witness': x.witness, 'got': fmt(v), 'expected': 'a different random draw in every element'}
    return outcome(r)


SECRET = re.compile(r'(?<!\w)(Key<|SecretKey\b|lweKey\b)')
MASKED = re.compile(r'(SymEncrypt|SymIntEncrypt|EncryptZero|\w+gen)\b')


def decide_taint(e, info, mod, tier):
    """an element of a public output that varies with a secret key is hidden by an encryption or a draw

    The summary of every output element is interpreted with the results of encryptions and uniform draws taken
    from one stream, the secret inputs from a second and everything else from a third. An element that does not change
    with the first stream is published in clear; it must not change with the second either."""
    import random
    import compare
    import sym
    from compare import sample_points, roots, argranges, Unknown, stores_to
    from dataflow import query_space
    lay, rng, fns = info
    r = {'id': e.id, 'fn': e.fn, 'cfg': e.cfg, 'using': e.using, 'outs': {}, 'notes': []}
    if 'c' not in fns:
        r['status'], r['why'] = 'unknown', 'function not found in the unit'
        return r
    A = analyse(fns['c'], mod, e, lay, rng, erase=True)
    if not hasattr(A, 'final'):
        r['status'], r['why'] = 'unknown', 'never returns'
        return r
    secrets = {addr_arg(n).id for t, n in e.params if SECRET.search(t)}

    class T(Interp):
        def ldval(self, base, bv, off, w):
            if getattr(base, 'id', None) in secrets:
                if w in ('p', 'd'):
                    return self.rnd(64 if w == 'p' else w, 'secret', self.sec, base.id, off)
                x = self.rnd(64, 'secret', self.sec, base.id, off)
                return [0, 1, (1 << w) - 1, 1][x & 3]
            return Interp.ldval(self, base, bv, off, w)

        def ref(self, a, env):
            b = a.args[0]
            if getattr(b, 'id', None) in secrets and a.args[2] is None:
                return self.rnd(64, 'sref', self.sec, self.vals(a.args, env))
            return Interp.ref(self, a, env)

        def atom1(self, a, env):
            k = a.kind
            if k == 'rnd' or k in ('call', 'ret', 'comm') and MASKED.search(str(a.args[0]).split('<')[0]):
                v = self.rnd(a.w, 'mask', self.mask, k, self.vals(a.args, env))
                return v
            return Interp.atom1(self, a, env)

    for o, view in [(o, vw) for o in e.outs for vw in views(lay[o])]:
        if r['outs'].get(o, {}).get('status') == 'refuted':
            continue
        qs, off, w = query_space(view)
        v = A.query_final(addr_arg(o), off, w)
        rnd = random.Random(5)
        extra = {0, 1, 2}
        roots(v, None, extra)
        sym.EXTRA_POINTS.clear()
        sym.EXTRA_POINTS.update(x for x in extra if abs(x) < 1 << 20)
        sym._ptsc.clear()
        pts = sample_points(qs, extra, 24 if tier == 'quick' else 120, rnd)
        args = argranges(v, v)
        done, masked, unk, d = 0, 0, '', None
        t0 = time.time()
        for i, pt in enumerate(pts):
            if time.time() - t0 > (12 if tier == 'quick' else 60):
                break
            env = dict(zip(qs, pt))
            for a, (lo, hi) in args.items():
                if lo is not None and isinstance(a.w, int) and hi - lo < 1 << 24:
                    env[a] = rnd.choice([lo, hi, rnd.randint(lo, hi)]) % (1 << a.w)

            def val(sec, mask):
                I = T(i, compare.corner_hook(i), budget=400000)
                I.sec, I.mask = sec, mask
                return I.poly(v, env)
            try:
                for s in range(3 if tier == 'quick' else 8):
                    x = val(s, 0)
                    if not all(compare.close(x, val(s, m), w) for m in (1, 2)):
                        masked += 1
                        continue
                    ys = [val(s + k, 0) for k in range(1, 7)]
                    bad = [y for y in ys if not compare.close(x, y, w)]
                    if bad:
                        d = {'status': 'refuted', 'why': 'the element is published in clear and varies with a secret key', 'got': fmt(v),
                             'expected': 'hidden by an encryption, or independent of the secret key', 'sites': stores_to(A, o)[:12],
                             'witness': {'index': list(pt), 'args': {str(a.args[0]): env[a] for a in args if a in env}, 'got': x,
                                         'expected': 'a value independent of the key; with another key it is %s' % bad[0]}}
                        break
                done += 1
            except (Unknown, RecursionError, OverflowError) as ex:
                unk = str(ex)[:80]
                continue
            if d:
                break
        worse(r['outs'], o, d or ({'status': 'agree', 'why': 'hidden or independent of the keys at %d indices' % done, 'got': fmt(v, 300), 'expected': ''}
                                  if done else {'status': 'unknown', 'why': unk, 'got': fmt(v, 300), 'expected': ''}))
    return outcome(r)


def decide_init(e, info, mod, tier):
    """no output element depends on the previous content of the outputs or on uninitialised memory"""
    import random
    import compare
    from compare import sample_points, roots, argranges, Unknown, stores_to
    from dataflow import query_space
    import sym
    lay, rng, fns = info
    r = {'id': 'c12_' + e.id, 'fn': e.fn, 'cfg': e.cfg, 'using': e.using, 'outs': {}, 'notes': []}
    if 'c' not in fns:
        r['status'], r['why'] = 'unknown', 'function not found in the unit'
        return r
    A = analyse(fns['c'], mod, e, lay, rng, erase=True)
    if not hasattr(A, 'final'):
        r['status'], r['why'] = 'unknown', 'never returns'
        return r
    bases = {addr_arg(o) for o in e.outs}
    r['unknowns'] = [u[0] for u in A.unknowns][:5]
    for o, view in [(o, vw) for o in e.outs for vw in views(lay[o])]:
        if r['outs'].get(o, {}).get('status') == 'refuted':
            continue
        qs, off, w = query_space(view)
        v = A.query_final(addr_arg(o), off, w)
        if not stale_atoms(v, bases):
            worse(r['outs'], o, {'status': 'unknown' if v.unk else 'proved', 'why': 'no unassigned memory in the summary', 'got': fmt(v, 300), 'expected': ''})
            continue
        rnd = random.Random(3)
        extra = {0, 1, 2}
        roots(v, None, extra)
        sym.EXTRA_POINTS.clear()
        sym.EXTRA_POINTS.update(x for x in extra if abs(x) < 1 << 20)
        sym._ptsc.clear()
        pts = sample_points(qs, extra, 40 if tier == 'quick' else 200, rnd)
        args = argranges(v, v)
        d = None
        done = 0
        unk = ''
        t0 = time.time()
        for i, pt in enumerate(pts):
            if time.time() - t0 > 25:
                break
            env = dict(zip(qs, pt))
            for a, (lo, hi) in args.items():
                if lo is not None and isinstance(a.w, int) and hi - lo < 1 << 24:
                    env[a] = rnd.choice([lo, hi, rnd.randint(lo, hi)]) % (1 << a.w)
            def val(u, seed):
                h = compare.corner_hook(i)['ldval']
                def ldval(I, base, off, w):
                    if base in bases:
                        return I.rnd(64 if w == 'p' else w, 'stale', u, base.id, off)
                    return h(I, base, off, w)
                I = Interp(seed, {'ldval': ldval}, budget=400000)
                I.undef_seed = u
                return I.poly(v, env)
            try:
                diff = 0
                for s in range(4):
                    x, y = val(1, i + 1000 * s), val(2, i + 1000 * s)
                    if compare.close(x, y, w):
                        break
                    diff += 1
                done += 1
            except (Unknown, RecursionError, OverflowError) as ex:
                unk = str(ex)[:80]
                continue
            if diff:
                d = {'status': 'refuted', 'why': 'the result depends on memory the call has not initialised', 'got': fmt(v),
                     'expected': 'a value determined by the inputs', 'sites': stores_to(A, o)[:12],
                     'witness': {'index': list(pt), 'args': {str(a.args[0]): env[a] for a in args if a in env}, 'got': x,
                                 'expected': '%s with other content of the unassigned memory' % y}}
                break
        worse(r['outs'], o, d or ({'status': 'agree', 'why': 'same value under two contents of unassigned memory at %d indices' % done, 'got': fmt(v, 300), 'expected': ''}
                             if done else {'status': 'unknown', 'why': unk, 'got': fmt(v, 300), 'expected': ''}))
    return outcome(r)


def worse(d, o, x):
    rank = {'proved': 0, 'agree': 1, 'unknown': 2, 'refuted': 3}
    if o not in d or rank[x['status']] > rank[d[o]['status']]:
        d[o] = x


def stale_atoms(v, bases):
    seen, stack = set(), [v]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(y for y in x if isinstance(y, (tuple, Poly, Bool, Atom)))
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, Poly):
            for m in x.t:
                stack.extend(m)
        elif isinstance(x, Bool):
            if x.var is not None:
                stack += [x.var, x.lo, x.hi]
        elif isinstance(x, Atom):
            if x.kind == 'undef' or (x.kind in ('ld', 'ref') and any(y in bases for y in x.args if isinstance(y, Atom))):
                return True
            stack.append(x.args)
    return False


BOUND = re.compile(r'__glibcxx_assert_fail|__throw_out_of_range|ubsantrap|^llvm\.trap')


def decide_asserts(e, info, mod, tier):
    """every assertion inserted by the compiler (subscript in range, shift amount in range) cannot fail"""
    import random
    import compare
    import sym
    from compare import roots, argranges, prove_false
    from sym import band, ind, FALSE
    lay, rng, fns = info
    r = {'id': e.id, 'fn': e.fn, 'cfg': e.cfg, 'using': e.using, 'outs': {}, 'notes': []}
    if 'c' not in fns:
        r['status'], r['why'] = 'unknown', 'function not found in the unit'
        return r
    A = analyse(fns['c'], mod, e, lay, rng, erase=True)
    n = {'proved': 0, 'agree': 0, 'unknown': 0, 'refuted': 0}
    sites = {}
    rnd = random.Random(4)
    for rec in A.records:
        if rec['kind'] != 'assert':
            continue
        where = '%s:%s' % (str(rec.get('file') or '?').split('/repo/')[-1], rec.get('line'))
        f = band(rec['guard'], rec['cond'])
        st, w = 'unknown', None
        qd = dict(rec['quants'])
        if ptr_null(rec['cond']):
            continue
        if f is FALSE:
            st = 'proved'
        elif not f.unk and not rec.get('unsure') and prove_false(f):
            st = 'proved'
        elif not rec.get('unsure') and only_inputs(f):
            extra = {0, 1, 2}
            roots(f, None, extra)
            sym.EXTRA_POINTS.clear()
            sym.EXTRA_POINTS.update(x for x in extra if abs(x) < 1 << 20)
            sym._ptsc.clear()
            args = argranges(ind(f, 8), ind(f, 8))
            done = 0
            t0 = time.time()
            for i in range(200 if tier == 'quick' else 1000):
                if time.time() - t0 > 6:
                    break
                env = {}
                for a, (lo, hi) in args.items():
                    if lo is not None and isinstance(a.w, int):
                        c = [lo, hi, lo + 1, hi - 1, rnd.randint(lo, hi)] + [x for x in extra if lo <= x <= hi]
                        env[a] = rnd.choice(c) % (1 << a.w)
                try:
                    ok = True
                    for q, t in rec['quants']:
                        I = Interp(i, compare.corner_hook(i), budget=200000)
                        k = I.poly(t, env)
                        if k <= 0 or k > 1 << 40:
                            ok = False
                            break
                        env[q] = rnd.choice([0, k - 1, k // 2] + [x for x in extra if 0 <= x < k])
                    if not ok:
                        continue
                    I = Interp(i, compare.corner_hook(i), budget=200000)
                    done += 1
                    if I.bool(f, env):
                        w = {'index': [env[q] for q, t in rec['quants']], 'args': {str(a.args[0]): env[a] for a in args if a in env},
                             'got': 'assertion fails', 'expected': 'in range'}
                        st = 'refuted'
                        break
                except (Unknown, RecursionError, OverflowError):
                    continue
            if st == 'unknown' and done:
                st = 'agree'
        n[st] += 1
        d = {'status': st, 'why': rec['what'][:80], 'got': fmt(f, 300), 'expected': 'impossible', 'sites': [where]}
        if w:
            d['witness'] = w
        if st != 'proved':
            worse(sites, where, d)
    r['outs'] = sites
    r['counts'] = n
    r['sites'] = fns['c'].get('traps', 0)
    r['notes'] = A.notes[:5]
    r['unknowns'] = [u[0] for u in A.unknowns][:5]
    rank = {'proved': 0, 'agree': 1, 'unknown': 2, 'refuted': 3}
    r['status'] = max((d['status'] for d in sites.values()), key=rank.get) if sites else 'proved'
    return r


def decide_align(e, info, mod, tier):
    """every buffer given to the vector kernels has their alignment"""
    lay, rng, fns = info
    r = {'id': e.id, 'fn': e.fn, 'cfg': e.cfg, 'using': e.using, 'outs': {}, 'notes': []}
    n = {'proved': 0, 'caller': 0, 'unknown': 0, 'refuted': 0}
    r['counts'] = n
    r['status'] = 'proved'
    if 'c' not in fns:
        r['status'], r['why'] = 'unknown', 'function not found in the unit'
        return r
    if 'TwistIFFT' not in repr(fns['c']) and 'execute_reverse' not in repr(fns['c']):
        r['skip'] = True
        return r
    A = analyse(fns['c'], mod, e, lay, rng, erase=True)
    r['fft'] = [(str(rec['obj'].args[1]) if rec['obj'] is not None and rec['obj'].kind == 'addr' else None, rec['sizes'], rec['name'],
                 '%s:%s' % (str(rec.get('file') or '?').split('/repo/')[-1], rec.get('line'))) for rec in A.records if rec['kind'] == 'fft']
    for rec in A.records:
        if rec['kind'] != 'align':
            continue
        where = '%s:%s' % (str(rec.get('file') or '?').split('/repo/')[-1], rec.get('line'))
        b, off = rec['base'], rec['off']
        al = A.base_align.get(b) if b is not None else None
        st = 'unknown'
        if al is not None:
            bad = [c for c in off.t.values() if c % e.align] if hasattr(off, 't') else [1]
            st = 'proved' if al % e.align == 0 and not bad else 'caller' if b.args[0] == 'arg' and al <= 8 else 'refuted'
        n[st] += 1
        if st == 'refuted':
            worse(r['outs'], where, {'status': st, 'why': '', 'got': '%s is only %d byte aligned, offset %s' % (fmt(b, 80), al, fmt(off, 200)),
                  'expected': '%d byte alignment' % e.align, 'sites': [where],
                  'witness': {'index': [], 'args': {}, 'got': 'alignment %d' % al, 'expected': 'alignment %d' % e.align}})
        elif st == 'unknown':
            worse(r['outs'], where, {'status': st, 'why': 'object of unknown origin: ' + fmt(b, 100), 'got': '', 'expected': ''})
    rank = {'proved': 0, 'agree': 1, 'unknown': 2, 'refuted': 3}
    r['status'] = max((d['status'] for d in r['outs'].values()), key=rank.get) if r['outs'] else 'proved'
    return r


def w_align(e, info, mod, tier):
    return [timed(decide_align, e, info, mod, tier)]


def root_of(b, seen=0):
    """what a written object was reached from: (kind, name) with kind arg/local/global/tls/key/unknown"""
    while seen < 30:
        seen += 1
        if b.kind == 'addr':
            k = b.args[0]
            if k in ('arg', 'g', 'tls', 'alloca', 'slot', 'new'):
                return ({'g': 'global', 'alloca': 'local', 'new': 'local', 'slot': 'key'}.get(k, k), str(b.args[1]), b)
            return ('unknown', repr(b)[:80], b)
        nxt = None
        stack = list(b.args)
        if b.kind in ('ret', 'call'):
            return ('result', str(b.args[0])[:120], b)
        if b.kind == 'new' or b.kind == 'heap':
            return ('local', 'heap', b)
        while stack:
            x = stack.pop(0)
            if isinstance(x, Atom):
                nxt = x
                break
            if isinstance(x, Poly):
                c = [m[0] for m in x.t if len(m) == 1 and m[0].kind in ('addr', 'ld', 'ret', 'call')]
                if c:
                    nxt = c[0]
                    break
            if isinstance(x, tuple):
                stack = list(x) + stack
        if nxt is None:
            return ('unknown', repr(b)[:80], b)
        b = nxt
    return ('unknown', repr(b)[:80], b)


def decide_effects(e, info, mod, tier):
    """the objects a function writes: outputs, locals, thread-local objects; nothing shared, nothing read-only"""
    lay, rng, fns = info
    r = {'id': e.id, 'fn': e.fn, 'cfg': e.cfg, 'using': e.using, 'outs': {}, 'notes': []}
    n = {'output': 0, 'local': 0, 'thread_local': 0, 'unknown': 0, 'refuted': 0}
    r['counts'] = n
    r['status'] = 'proved'
    if 'c' not in fns:
        r['status'], r['why'] = 'unknown', 'function not found in the unit'
        return r
    A = analyse(fns['c'], mod, e, lay, rng, erase=True)
    ptype = dict((nm, t) for t, nm in e.params)
    def ro(nm):
        t = ptype.get(nm)
        return t is not None and t.startswith('const')
    hasrw = any('EvalKey' in e.using.get(t.rstrip('& '), t) and not t.startswith('const') for t, nm in e.params)
    for b, (kind, f, line) in A.written.items():
        if kind in ('root', 'loopstart', 'undef'):
            continue
        k, nm, at = root_of(b)
        where = '%s:%s' % (str(f or '?').split('/repo/')[-1], line)
        st, why = None, ''
        if k == 'arg':
            st = ('C23', 'read-only parameter %s is modified' % nm) if ro(nm) else 'output'
        elif k == 'local':
            st = 'local'
        elif k == 'tls':
            st = 'thread_local'
        elif k == 'global':
            g = mod.g.get(nm) or {}
            if g.get('tls'):
                st = 'thread_local'
            elif 'guard variable' in nm:
                st = 'local'
            elif b.kind == 'addr':
                st = ('C21', 'shared variable %s is modified' % nm)
            else:
                st = ('C21', 'object owned by shared variable %s is modified' % nm)
        elif k == 'key':
            o = at.args[1][3] if len(at.args) > 1 and isinstance(at.args[1], tuple) and len(at.args[1]) > 3 else None
            st = 'output' if o is not None and o.kind == 'addr' and o.args[0] == 'arg' and not ro(str(o.args[1])) else ('C23', 'stored key %s is modified' % nm)
        elif k == 'result' and re.search(r'EvalKey::get\w+|lweKey::get', nm):
            st = 'output' if hasrw else ('C23', 'key object returned by %s is modified' % nm)
        else:
            st = 'unknown'
        if isinstance(st, tuple):
            if kind == 'havoc':
                n['unknown'] += 1
                continue
            if st[0] != e.effect:
                continue
            n['refuted'] += 1
            worse(r['outs'], where, {'status': 'refuted', 'why': '', 'got': st[1], 'expected': 'no such write', 'sites': [where],
                                     'witness': {'index': [], 'args': {}, 'got': st[1], 'expected': 'no write'}})
            r['status'] = 'refuted'
        else:
            n[st] += 1
            if st == 'unknown':
                r['notes'].append('%s %s at %s' % (kind, nm, where))
    return r


def w_effects(e, info, mod, tier):
    return [timed(decide_effects, e, info, mod, tier)]


def ptr_null(c):
    """'the pointer is not null': whether a key is present is the caller's business"""
    if c.var is None or c.var.kind != 'eq0':
        return False
    t = list(c.var.args[0].t)
    return len(t) == 1 and len(t[0]) == 1 and t[0][0].kind == 'ld' and t[0][0].args[2] == 'p'


def only_inputs(f):
    """the condition is a function of arguments, input cells and loop indices only"""
    seen, stack = set(), [f]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(y for y in x if isinstance(y, (tuple, Poly, Bool, Atom)))
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, Poly):
            for m in x.t:
                stack.extend(m)
        elif isinstance(x, Bool):
            if x.var is not None:
                stack += [x.var, x.lo, x.hi]
        elif isinstance(x, Atom):
            if x.kind in ('call', 'unk', 'bunk', 'undef', 'bop', 'ret', 'comm', 'scan'):
                return False
            stack.append(x.args)
    return True


def w_asserts(e, info, mod, tier):
    return [timed(decide_asserts, e, info, mod, tier)]


def w_init(e, info, mod, tier):
    return [timed(decide_init, e, info, mod, tier)]


def w_auto(e, info, mod, tier):
    f = {'ref': decide, 'noise': decide_noise, 'fresh': decide_fresh, 'noisefresh': decide_fresh, 'taint': decide_taint}[e.mode]
    return [timed(f, e, info, mod, tier)]


class TimeLimit(Exception):
    pass


CURRENT = [None]        # start of the comparison the worker is at
ENTRY_LIMIT = {'quick': 200, 'thorough': 1500}
MEMORY_LIMIT = 6 << 30


def undecided(entries, why):
    return [{'id': e.id, 'fn': e.fn, 'cfg': e.cfg, 'using': e.using, 'status': 'unknown', 'why': why, 'outs': {}, 't': 0} for e in entries]


def run_unit(args):
    name, entries, cfg, tier, what, extra = args
    sys.setrecursionlimit(100000)
    import threading
    import ctypes
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    threading.stack_size(512 * 1024 * 1024)
    out = []

    def work():
        try:
            out.extend(_run_unit(name, entries, cfg, tier, what, extra))
        except (TimeLimit, MemoryError, subprocess.TimeoutExpired):
            out.extend(undecided(entries, 'time or memory limit'))
        except CheckError as ex:
            if 'irdump failed' in str(ex):
                out.extend(undecided(entries, str(ex)[-300:]))
            else:
                out.append({'id': name, 'fatal': str(ex)})
        except Exception:
            out.append({'id': name, 'fatal': traceback.format_exc()})
    t = threading.Thread(target=work)
    t.start()
    last = None
    while t.is_alive():
        t.join(1)
        c, now = CURRENT[0], time.time()
        if c is not None and (now - c > ENTRY_LIMIT[tier] or tier == 'quick' and now - START > QUICK_BUDGET + 20):
            if last != c or now - hit > 10:
                last, hit = c, now
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(TimeLimit))
    return out


def _run_unit(name, entries, cfg, tier, what, extra):
    res = []
    with Work() as d:
        flags = CONFIGS[cfg] + list(getattr(entries[0], 'flags', ()))
        bc, err = compile_unit(d, name, gen_unit(entries, extra), flags)
        if bc is None:
            if len(entries) > 1:
                for i, e in enumerate(entries):
                    res += _run_unit('%s_%d' % (name, i), [e], cfg, tier, what, extra)
                return res
            e = entries[0]
            m = re.search(r'error: (.*)', err)
            return [{'id': e.id, 'fn': e.fn, 'cfg': cfg, 'using': e.using, 'status': 'nocompile',
                     'why': m.group(1) if m else err[-300:], 'outs': {}}]
        js = dump_unit(d, name, bc, gen_spec(entries))
        info, mod = load_unit(js, entries)
        todo = []
        for e in entries:
            for r in what(e, info[e.id], mod, tier):
                if r['status'] == 'refuted' and e.deep:
                    todo.append((e, r))
                else:
                    res.append(r)
        if todo:
            es = list({e.id: e for e, r in todo}.values())
            js = dump_unit(d, name + 'd', bc, gen_spec(es, True))
            info, mod = load_unit(js, es)
            deep = {}
            for e in es:
                for r in what(e, info[e.id], mod, tier):
                    deep[r['id']] = r
            for e, r in todo:
                q = deep.get(r['id'], r)
                if q['status'] in ('proved', 'agree'):
                    q['deep'] = True
                    res.append(q)
                else:
                    res.append(r)
    return res


def w_ref(e, info, mod, tier):
    return [timed(decide, e, info, mod, tier)]


def w_alias(e, info, mod, tier):
    return [timed(decide_alias, e, a, info, mod, tier) for a in e.alias]


START = time.time()
QUICK_BUDGET = 600      # seconds; what is left over is reported as undecided in the evidence


def timed(f, *a):
    import compare
    compare.NULLABLE = getattr(a[0], 'nullable', False)
    t = time.time()
    if a[-1] == 'quick' and t - START > QUICK_BUDGET:
        e = a[0]
        return {'id': e.id, 'fn': e.fn, 'cfg': e.cfg, 'using': e.using, 'status': 'skipped', 'why': 'time budget of the quick tier used up', 'outs': {}, 't': 0}
    try:
        CURRENT[0] = t
        r = f(*a)
        CURRENT[0] = None
    except (TimeLimit, MemoryError, RecursionError):
        CURRENT[0] = None
        r = undecided([a[0]], 'time or memory limit')[0]
    except Exception:
        CURRENT[0] = None
        r = undecided([a[0]], traceback.format_exc()[-600:])[0]
    r['t'] = round(time.time() - t, 2)
    return r


def run_entries(entries, tier='quick', what=w_auto, per=8, extra='', jobs=8):
    """analyse all entries; -> list of results"""
    groups = {}
    for e in entries:
        groups.setdefault((e.cfg, e.unit, tuple(getattr(e, 'flags', ()))), []).append(e)
    irdump()
    units = []
    for (cfg, u, fl), es in groups.items():
        for i in range(0, len(es), per):
            units.append(('u%d' % len(units), es[i:i + per], cfg, tier, what, extra))
    res = []
    for u, r in zip(units, vlib.pmap(run_unit, units, jobs, QUICK_BUDGET + 130 - (time.time() - START) if tier == 'quick' else None)):
        res += undecided(u[1], 'the analysis process was ended (time or memory)') if r is None else r
    for r in res:
        if 'fatal' in r:
            raise CheckError(r['fatal'])
    return res


# ------------------------------------------------------------------ reporting
def finding(prop, r):
    det = []
    for o, d in r['outs'].items():
        if d['status'] == 'refuted':
            w = d['witness']
            det.append('output %s at index %s with %s: computed %s, specified %s' %
                       (o, w.get('index'), w.get('args'), w.get('got'), w.get('expected')))
            det.append('writes: ' + ', '.join(d.get('sites', [])))
            det.append('summary:   ' + d['got'])
            det.append('specified: ' + d['expected'])
    return {'key': '%s:%s' % (r['fn'], r['id']), 'text': '%s [%s, %s] does not compute what is specified' %
            (r['fn'], r['cfg'], ', '.join('%s=%s' % kv for kv in r['using'].items())), 'detail': det or [r.get('why', '')]}


def report(prop, entries, results, extra_findings=(), min_decided=None, what='function summaries compared with their specification'):
    cnt = {}
    for r in results:
        cnt[r['status']] = cnt.get(r['status'], 0) + 1
    fs = [finding(prop, r) for r in results if r['status'] == 'refuted'] + list(extra_findings)
    dec = cnt.get('proved', 0) + cnt.get('agree', 0)
    rep = {
        'level': 'other', 'findings': fs,
        'summary': '%d %s: %d equal in canonical form, %d without a distinguishing interpretation, %d undecided' %
        (len(results), what, cnt.get('proved', 0), cnt.get('agree', 0), len(results) - dec - cnt.get('refuted', 0)),
        'coverage': {
            'explanation': 'Array-dataflow summaries of the instantiated library functions (LLVM IR of the current headers, nothing '
                           'executed) compared with the summary of their mathematical specification: canonical equality (or equality '
                           'in every case of the guards) proves the instance for all inputs and indices; otherwise both summaries are '
                           'compared under random interpretations of the primitives and reported only with a reproduced difference.',
            'obligations': len(results), 'discharged': cnt.get('proved', 0),
            'no_difference_found': cnt.get('agree', 0),
            'undecided': [{'id': r['id'], 'why': str(r.get('why') or [d.get('why') for d in r['outs'].values()])[:200]}
                          for r in results if r['status'] not in ('proved', 'agree', 'refuted')],
            'functions': sorted({r['fn'] for r in results}),
            'configurations': sorted({r['cfg'] for r in results}),
            'instances': {r['id']: r['status'] for r in results},
            'samples': [{'id': e.id, 'function': e.fn, 'call': e.call, 'specification': e.ref, 'types': e.using} for e in entries[:3]],
        },
        'assumptions': ['callee primitives are used according to their own summaries, which are checked as separate entries',
                        'distinct reference parameters do not overlap (overlap is the subject of C03)'],
    }
    n = min_decided if min_decided is not None else (len(results) - cnt.get('skipped', 0) + 1) // 2
    if dec < n and not fs:
        rep['too_small'] = 'only %d of %d instances decided (expected at least %d)' % (dec, len(results), n)
    return rep


def check_entries(prop, entries, tier, **kw):
    res = run_entries(entries, tier)
    return report(prop, entries, res, **kw)
