"""Comparison of two summaries of the same output array.

Equal canonical forms prove equality for every input and every index.  Otherwise the two values are evaluated
under random interpretations (every opaque primitive becomes a pseudo-random function, every input cell a
pseudo-random or corner value) at structured indices; a difference that is reproduced under several
interpretations is reported, anything that cannot be evaluated is undecided."""
import itertools
import random
import time
from sym import *
import sym
from dataflow import *


def roots(p, vars_, out):
    """integer roots of linear predicates over one variable, and constants near them"""
    seen = set()
    stack = [p]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(y for y in x if isinstance(y, (tuple, Poly, Bool, Atom)))
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        if len(seen) > 60000:
            return
        if isinstance(x, Poly):
            for m in x.t:
                stack.extend(m)
        elif isinstance(x, Bool):
            if x.var is not None:
                stack += [x.var, x.lo, x.hi]
        elif isinstance(x, Atom):
            if x.kind in ('ge0', 'eq0'):
                q = x.args[0]
                k = q.t.get((), 0)
                for m, c in q.t.items():
                    if len(m) == 1 and m[0].kind in ('iv', 'bv') and c and isinstance(k, int) and abs(k) < 1 << 40:
                        r = -k // c
                        out.update((r - 1, r, r + 1))
            stack.append(x.args)


NULLABLE = False   # stored pointers may be null in the interpretations


def corner_hook(seed):
    """input cells take corner values in a third of the interpretations"""
    mode = seed % 3

    def h(I, base, off, w):
        if NULLABLE and w in ('p', 64) and I.rnd(64, 'null', base.id, off) % 2:
            return 0
        if mode == 0 or w == 'd' or w == 'p':
            return None
        x = I.rnd(64, 'cv', base.id, off)
        if mode == 1 and x & 1:
            return None
        M = 1 << w
        k = (x >> 8) % (2 * w + 3)
        v = [0, M - 1, M >> 1][k] if k < 3 else (1 << ((k - 3) // 2)) - (1 if k & 1 else 0)
        if (x >> 40) & 1:
            v = -v
        return v % M
    return {'ldval': h}


def evaluate(p, env, seed, budget, undef_seed=0):
    I = Interp(seed, corner_hook(seed), budget=budget)
    I.undef_seed = undef_seed
    v = I.poly(p, env)
    return v, I.undef_used


def close(a, b, w):
    if w != 'd':
        return a == b
    return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))


def sample_points(qs, extra, n, rng, argv=()):
    """index tuples: corners, roots of predicates, random"""
    per = []
    for q in qs:
        t = q.hi + 1
        pts = {0, t - 1, t // 2}
        pts |= {x for x in extra if 0 <= x < t}
        pts = sorted(pts)
        per.append(pts)
    tot = 1
    for p in per:
        tot *= len(p)
    out = []
    if tot <= n:
        out = list(itertools.product(*per))
    else:
        for _ in range(n):
            out.append(tuple(rng.choice(p) for p in per))
    for _ in range(n // 2):
        out.append(tuple(rng.randrange(q.hi + 1) for q in qs))
    # order: spread
    rng.shuffle(out)
    return list(dict.fromkeys(out))


class Verdict:
    def __init__(self, status, why='', witness=None):
        self.status, self.why, self.witness = status, why, witness

    def __repr__(self):
        return '%s %s %s' % (self.status, self.why, self.witness or '')


def argranges(p, q):
    """scalar arguments with a small declared range"""
    out = {}
    seen = set()
    stack = [p, q]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(y for y in x if isinstance(y, (tuple, Poly, Bool, Atom)))
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, Poly):
            for m in x.t:
                stack.extend(m)
        elif isinstance(x, Bool):
            if x.var is not None:
                stack += [x.var, x.lo, x.hi]
        elif isinstance(x, Atom):
            if x.kind == 'arg':
                out[x] = (x.lo, x.hi)
            stack.append(x.args)
    return out


def refute(va, vb, qs, n=40, seeds=6, budget=400000, seed0=0, time_limit=25):
    """look for an interpretation and an index where va and vb differ"""
    import time
    rng = random.Random(1 + seed0)
    extra = {0, 1, 2}
    roots(va, None, extra)
    roots(vb, None, extra)
    sym.EXTRA_POINTS.clear()
    sym.EXTRA_POINTS.update(x for x in extra if abs(x) < 1 << 20)
    sym._ptsc.clear()
    pts = sample_points(qs, extra, n, rng)
    while len(pts) < min(n, 24):
        pts += pts
    args = argranges(va, vb)
    unk = None
    done = 0
    t0 = time.time()
    for i, pt in enumerate(pts):
        if time.time() - t0 > time_limit:
            break
        seed = seed0 * 1000 + i
        env = dict(zip(qs, pt))
        for a, (lo, hi) in args.items():
            if lo is None or not isinstance(a.w, int):
                continue
            if hi - lo < 1 << 24:
                c = [lo, hi, (lo + hi + 1) // 2, lo + 1, hi - 1, (lo + hi + 1) // 2 - 1]
                c += [x for x in extra if lo <= x <= hi]
                c += [rng.randint(lo, hi) for _ in range(len(c) // 2 + 1)]
                # values tied to the index
                c += [x for x in (list(pt) + [p + 1 for p in pt] + [hi - p for p in pt]) if lo <= x <= hi]
                env[a] = rng.choice(c) % (1 << a.w)
        try:
            x, ux = evaluate(va, env, seed, budget)
            y, uy = evaluate(vb, env, seed, budget)
        except Unknown as e:
            unk = str(e)
            if unk != 'budget' and i > 6 and done == 0:
                break
            continue
        except (RecursionError, OverflowError) as e:
            unk = str(e)[:80]
            continue
        done += 1
        if not close(x, y, va.w):
            # same index, other interpretations of the primitives
            rep = 0
            tot = 0
            for s in range(1, 5):
                try:
                    x2, _ = evaluate(va, env, seed + 3 * 7919 * s, budget)
                    y2, _ = evaluate(vb, env, seed + 3 * 7919 * s, budget)
                except Unknown:
                    continue
                tot += 1
                rep += not close(x2, y2, va.w)
            if va.w == 'd' and rep < 2:
                continue
            w = {'index': list(pt), 'args': {str(a.args[0]): env[a] for a in args if a in env}, 'got': x, 'expected': y,
                 'reproduced': '%d/%d' % (rep, tot)}
            return Verdict('refuted', 'values differ', w)
    if done == 0:
        return Verdict('unknown', unk or 'not evaluated')
    return Verdict('agree', 'no difference in %d interpretations%s' % (done, '; some not evaluable: ' + unk if unk else ''))


def compare_out(A, B, out, geom, name='out', nmul=1):
    """compare array `out` of two analyses"""
    w, dims = geom[:2]
    dims = dims or ((1, WB[w]),)
    off0 = geom[2] if len(geom) > 2 else 0
    qs = [new_iv('q', const(64, n)) for n, st in dims]
    off = sum((pa(q) * st for q, (n, st) in zip(qs, dims)), const(64, off0))
    base = addr('arg', out)
    va, vb = A.query_final(base, off, w), B.query_final(base, off, w)
    return compare_vals(va, vb, qs, nmul), va, vb


def compare_vals(va, vb, qs, nmul=1):
    if va is vb:
        return Verdict('unknown' if va.unk else 'proved', 'canonical forms equal')
    if not va.unk and not vb.unk:
        try:
            if prove_zero(va - vb):
                return Verdict('proved', 'equal in every case of the guards')
        except RecursionError:
            pass
    v = refute(va, vb, qs, n=40 * nmul)
    v.got, v.want = str(va)[:700], str(vb)[:700]
    return v


def own_draw(v, qs):
    """the value is one draw of a site whose iteration numbers include every index"""
    while isinstance(v, Poly):
        if len(v.t) != 1:
            return False
        (m, c), = v.t.items()
        if len(m) != 1 or c % (1 << m[0].w if isinstance(m[0].w, int) else 1 << 64) == 0:
            return False
        a = m[0]
        if a.kind == 'op' and a.args[0] in ('sext', 'zext'):
            v = a.args[1]
            continue
        if a.kind != 'rnd':
            return False
        it = {x for x in flat(a.args[0])}
        it |= {m[0] for x in it if isinstance(x, Poly) and len(x.t) == 1 for m, c in x.t.items() if len(m) == 1 and c % 2}
        return all(q in it for q in qs)
    return False


def flat(x):
    if isinstance(x, tuple):
        for y in x:
            yield from flat(y)
    else:
        yield x


def distinct(v, qs, n=60):
    """do different index tuples always denote different draws?"""
    if own_draw(v, qs):
        return Verdict('proved', 'every element is its own draw')
    rng = random.Random(5)
    pts = sample_points(qs, {0, 1, 2, 3}, n, rng)
    pairs = []
    for p in pts:
        for d in range(len(qs)):
            for x in (1, 2, rng.randrange(1, qs[d].hi + 2)):
                q = list(p)
                q[d] = (q[d] + x) % (qs[d].hi + 1)
                if tuple(q) != tuple(p):
                    pairs.append((p, tuple(q)))
    for _ in range(n):
        p, q = rng.choice(pts), rng.choice(pts)
        if p != q:
            pairs.append((p, q))
    if not pairs:
        # a single element: it has to be random at all
        try:
            x = {evaluate(v, dict(zip(qs, [0] * len(qs))), s, 400000)[0] for s in range(4)}
        except Unknown as e:
            return Verdict('unknown', str(e))
        pairs = []
        if len(x) > 1:
            return Verdict('agree', 'random')
        return Verdict('refuted', 'constant', {'index': [], 'args': {}, 'got': x, 'expected': 'random'})
    done = 0
    for p, q in pairs:
        try:
            same = 0
            for s in range(4):
                a = evaluate(v, dict(zip(qs, p)), 77 + s, 400000)[0]
                b = evaluate(v, dict(zip(qs, q)), 77 + s, 400000)[0]
                if a != b:
                    break
                same += 1
            done += 1
        except Unknown as e:
            return Verdict('unknown', str(e))
        if same == 4:
            return Verdict('refuted', 'two elements are the same draw', {'index': [list(p), list(q)], 'args': {}, 'got': a, 'expected': 'distinct draws'})
    return Verdict('agree', '%d pairs of elements are distinct draws' % done)


def stores_to(A, out):
    """file:line of the writes that reach the output"""
    n = A.final.get(addr('arg', out))
    s = set()
    while n is not None:
        if isinstance(n.site, dict) and n.site.get('line'):
            s.add('%s:%s' % (str(n.site.get('file', '?')).split('/include/')[-1].split('/repo/')[-1], n.site['line']))
        n = n.prev
    return sorted(s)


# ------------------------------------------------------------------ equality by cases on the guards
def assign(p, a, val):
    d = {}
    for m, c in p.t.items():
        if a in m:
            if not val:
                continue
            m = tuple(x for x in m if x is not a)
        d[m] = d.get(m, 0) + c
    return mk(p.w, d)


def resimplify(p):
    return subst(p, {v: pa(v) for v in p.fv if v.kind in ('iv', 'arg')})


def pred_facts(v, pol):
    p = v.args[0]
    if v.kind == 'ge0':
        p = mk(256, dict(p.t))
        return (p,) if pol else (-p - 1,)
    if v.kind == 'eq0' and isinstance(p.w, int):
        r = p.rng()
        if r[0] is None or r[0] <= -(1 << p.w) or r[1] >= 1 << p.w:
            return ()
        p = mk(256, dict(p.t))
        if pol:
            return (p, -p)
        if r[0] == 0:
            return (p - 1,)
        if r[1] == 0:
            return (-p - 1,)
    return ()


def contradictory(facts):
    for i, f in enumerate(facts):
        if nonneg(-f - 1, 2, facts[:i] + facts[i + 1:]):
            return True
    return False


class Cases:
    def __init__(self, limit, seconds=15):
        import time
        self.n, self.end = limit, time.time() + seconds


def prove_zero(d, facts=(), st=None, depth=14):
    st = st or Cases(600)
    if not d.t:
        return True
    if depth == 0 or st.n <= 0 or d.unk or time.time() > st.end:
        return False
    st.n -= 1
    cand = {}
    for m in d.t:
        for a in m:
            if a.kind == 'ind':
                cand[a] = cand.get(a, 0) + 1
    lin = [a for a in cand if a.args[0].kind in ('ge0', 'eq0')]
    if not lin:
        if not cand:
            # predicates hidden inside index expressions
            return False
        lin = list(cand)
    a = max(lin, key=lambda x: (x.args[0].kind == 'ge0', cand[x], -x.id))
    v = a.args[0]
    for pol in (1, 0):
        fs = facts + pred_facts(v, pol) if v.kind in ('ge0', 'eq0') else facts
        if contradictory(fs):
            continue
        e = assign(d, a, pol)
        old = sym.FACTS
        sym.FACTS = fs
        try:
            # equalities of single variables are substituted
            if v.kind == 'eq0' and pol:
                p = v.args[0]
                for m, c in p.t.items():
                    if len(m) == 1 and c in (1, -1) and m[0].kind in ('iv', 'arg') and not any(m[0] in x.fv for mm in p.t for x in mm if mm != m):
                        r = -(p - mk(p.w, {m: c})) if c == 1 else p - mk(p.w, {m: c})
                        e = subst(e, {m[0]: zcast(r, 64) if m[0].w == 64 else zcast(r, m[0].w)})
                        break
            e = resimplify(e)
        finally:
            sym.FACTS = old
        if not prove_zero(e, fs, st, depth - 1):
            return False
    return True


def predicates(x):
    """linear predicates anywhere inside a condition, innermost first"""
    out, seen, stack = {}, set(), [(x, 0)]
    while stack:
        x, d = stack.pop()
        if isinstance(x, tuple):
            stack.extend((y, d) for y in x if isinstance(y, (tuple, Poly, Bool, Atom)))
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, Poly):
            for m in x.t:
                stack.append((m, d))
        elif isinstance(x, Bool):
            if x.var is not None:
                stack += [(x.var, d), (x.lo, d), (x.hi, d)]
        elif isinstance(x, Atom):
            if x.kind in ('ge0', 'eq0') and isinstance(x.args[0].w, int):
                out[x] = max(out.get(x, 0), d)
            stack.append((x.args, d + 1))
    return sorted(out, key=lambda a: (-out[a], a.kind != 'ge0', a.id))


def prove_false(f, facts=(), st=None, depth=8):
    """is the condition impossible?  by cases on the linear predicates inside it"""
    st = st or Cases(200, 8)
    if f is FALSE:
        return True
    if f is TRUE or depth == 0 or st.n <= 0 or f.unk or time.time() > st.end:
        return False
    st.n -= 1
    ps = predicates(f)
    if not ps:
        return False
    for a in ps[:3]:
        ok = True
        for pol in (1, 0):
            fs = facts + pred_facts(a, pol)
            if contradictory(fs):
                continue
            old = sym.FACTS
            sym.FACTS = fs
            try:
                g = sym.Assume(a, pol).bool(f)
            finally:
                sym.FACTS = old
            if g is f or not prove_false(g, fs, st, depth - 1):
                ok = False
                break
        if ok:
            return True
        if time.time() > st.end:
            break
    return False

