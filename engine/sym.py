"""Symbolic values for the array-dataflow analysis.

Values are polynomials over interned atoms, modulo 2^w (w = bit width) or over the rationals
(w = 'd', floating point treated as a commutative ring).  Boolean conditions are reduced ordered
BDDs over interned predicate atoms; a condition c enters a polynomial as the idempotent indicator
atom [c].  Sums over loop ranges are binder atoms.  Everything is hash-consed, so that equality of
canonical forms is identity."""
import hashlib
from fractions import Fraction
import itertools

INF = None


class Atom:
    __slots__ = ('id', 'kind', 'args', 'w', 'lo', 'hi', 'fv', 'h', 'unk', 'key')

    def __repr__(self):
        return show_atom(self)


_atoms = {}
_atom_by_id = []


def atom(kind, args, w, lo=None, hi=None, fv=None, h=None, unk=None, selfvar=False):
    key = (kind, args, w)
    a = _atoms.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(_atom_by_id)
    a.kind, a.args, a.w, a.key = kind, args, w, key
    if lo is None and hi is None and isinstance(w, int) and kind != 'addr':
        lo, hi = 0, (1 << w) - 1
    a.lo, a.hi = lo, hi
    f = set()
    hh = 0
    u = False
    for x in _subs(args):
        f |= x.fv
        if x.h > hh:
            hh = x.h
        u = u or x.unk
    if selfvar:
        f.add(a)
    a.fv = frozenset(f) if fv is None else fv
    a.h = hh if h is None else h
    a.unk = u if unk is None else unk
    _atoms[key] = a
    _atom_by_id.append(a)
    return a


def _subs(args):
    for x in args:
        if isinstance(x, (Atom, Poly, Bool)):
            yield x
        elif isinstance(x, tuple):
            yield from _subs(x)


# ------------------------------------------------------------------ polynomials
class Poly:
    __slots__ = ('w', 't', 'key', '_fv', '_h', '_unk', '_rng')

    @property
    def fv(self):
        if self._fv is None:
            f = set()
            for m in self.t:
                for a in m:
                    f |= a.fv
            self._fv = frozenset(f)
        return self._fv

    @property
    def h(self):
        if self._h is None:
            self._h = max([a.h for m in self.t for a in m], default=0)
        return self._h

    @property
    def unk(self):
        if self._unk is None:
            self._unk = any(a.unk for m in self.t for a in m)
        return self._unk

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __repr__(self):
        return show(self)

    # arithmetic
    def __add__(self, o):
        o = lift(o, self.w)
        if not o.t:
            return self
        if not self.t:
            return o
        assert self.w == o.w, (self.w, o.w)
        d = dict(self.t)
        for m, c in o.t.items():
            d[m] = d.get(m, 0) + c
        return mk(self.w, d)

    __radd__ = __add__

    def __neg__(self):
        return mk(self.w, {m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-lift(o, self.w))

    def __rsub__(self, o):
        return lift(o, self.w) - self

    def __mul__(self, o):
        o = lift(o, self.w)
        if not o.t or not self.t:
            return const(self.w, 0)
        d = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mmul(m1, m2)
                if m is None:
                    continue
                d[m] = d.get(m, 0) + c1 * c2
        return mk(self.w, d)

    __rmul__ = __mul__

    def const(self):
        """constant value (centered) or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def rng(self):
        if self._rng is None:
            self._rng = _range(self)
        return self._rng


_polys = {}


def _cen(c, w):
    if w == 'd':
        return c
    M = 1 << w
    c %= M
    if c > M >> 1 or (c == M >> 1 and w == 1):
        c -= M
    return c


def mk(w, d):
    t = {}
    for m, c in d.items():
        c = _cen(c, w)
        if c != 0:
            t[m] = c
    key = (w, tuple(sorted(((tuple(a.id for a in m), c) for m, c in t.items()))))
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.w, p.t, p.key = w, t, key
        p._fv = p._h = p._unk = p._rng = None
        _polys[key] = p
    return p


def const(w, c):
    return mk(w, {(): c})


def lift(x, w):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return pa(x, w)
    if isinstance(x, float):
        x = Fraction(x)
    return const(w, x)


def pa(a, w=None):
    """polynomial of an atom"""
    return mk(a.w if w is None else w, {(a,): 1})


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    r = list(m1)
    for a in m2:
        if a.kind == 'ind' and a in r:
            continue  # idempotent
        r.append(a)
    r.sort(key=lambda a: a.id)
    return tuple(r)


_indc = {}


def ind(b, w):
    """0/1 polynomial of a condition: multilinear in the indicators of its predicate atoms"""
    if b is TRUE:
        return const(w, 1)
    if b is FALSE:
        return const(w, 0)
    k = (b.id, w)
    r = _indc.get(k)
    if r is None:
        v = mk(w, {(atom('ind', (b.var,), 'b', 0, 1),): 1})
        lo, hi = ind(b.lo, w), ind(b.hi, w)
        r = lo + v * (hi - lo)
        _indc[k] = r
    return r


def ite(b, x, y):
    if b is TRUE:
        return x
    if b is FALSE:
        return y
    if x is y:
        return x
    # an undefined/unknown value selected by a condition stays confined to its arm
    return y + ind(b, x.w) * (x - y)


def _range(p):
    if p.w == 'd':
        return (None, None)
    inds = {a for m in p.t for a in m if a.kind == 'ind'}
    if inds and len(inds) <= 4:
        lo = hi = None
        for vals in itertools.product((0, 1), repeat=len(inds)):
            ass = dict(zip(inds, vals))
            d = {}
            for m, c in p.t.items():
                if all(ass.get(a, 1) for a in m):
                    mm = tuple(a for a in m if a.kind != 'ind')
                    d[mm] = d.get(mm, 0) + c
            r = _range0(d)
            if r[0] is None:
                return r
            lo = r[0] if lo is None else min(lo, r[0])
            hi = r[1] if hi is None else max(hi, r[1])
        return (lo, hi)
    return _range0(p.t)


def _range0(t):
    lo = hi = 0
    for m, c in t.items():
        if c == 0:
            continue
        a, b = 1, 1
        for x in m:
            if x.lo is None or x.hi is None:
                return (None, None)
            cs = (a * x.lo, a * x.hi, b * x.lo, b * x.hi)
            a, b = min(cs), max(cs)
        if c >= 0:
            lo += c * a
            hi += c * b
        else:
            lo += c * b
            hi += c * a
    return (lo, hi)


FACTS = ()      # integer polynomials known to be >= 0 under the current block guard


def fits(p, lo, hi):
    r = p.rng()
    if r[0] is None:
        return False
    if r[0] >= lo and r[1] <= hi:
        return True
    r = sym_range(p)
    if r[0] is not None and r[0] >= lo and r[1] <= hi:
        return True
    if not FACTS or r[0] is None:
        return False
    return (r[0] >= lo or nonneg(zcast(p, 256) - lo)) and (r[1] <= hi or nonneg(hi - zcast(p, 256)))


def nonneg(p, depth=3, facts=None):
    """p >= 0 over the integers, from the atoms' ranges and positive multiples of at most `depth` facts"""
    lo = sym_range(p)[0]
    if lo is not None and lo >= 0:
        return True
    facts = FACTS if facts is None else facts
    if not depth:
        return False
    for i, f in enumerate(facts):
        cs = set()
        for m, c in f.t.items():
            if m != () and m in p.t and (c > 0) == (p.t[m] > 0) and p.t[m] % c == 0:
                cs.add(p.t[m] // c)
        if not cs:
            # bounded through a loop variable's trip count
            ep = _endpoint(p, -1)
            if ep is not p:
                for m, c in f.t.items():
                    if m != () and m in ep.t and (c > 0) == (ep.t[m] > 0) and ep.t[m] % c == 0:
                        cs.add(ep.t[m] // c)
                for k in cs:
                    if nonneg(ep - f * k, depth - 1, facts[:i] + facts[i + 1:]):
                        return True
                continue
        for k in cs:
            if nonneg(p - f * k, depth - 1, facts[:i] + facts[i + 1:]):
                return True
    return False


def facts_of(b):
    """integer polynomials that are >= 0 whenever condition b holds"""
    out = []
    seen = set()
    if b is TRUE or b is FALSE:
        return ()
    stack, vs = [b], []
    while stack:
        x = stack.pop()
        if x.var is None or x.id in seen:
            continue
        seen.add(x.id)
        if len(seen) > 200:
            return ()
        vs.append(x.var)
        stack += [x.lo, x.hi]
    for v in sorted(set(vs), key=lambda a: a.id):
        if v.kind == 'ge0':
            p = mk(256, dict(v.args[0].t))
            if band(b, bnot(bvar(v))) is FALSE:
                out.append(p)
            elif band(b, bvar(v)) is FALSE:
                out.append(-p - 1)
        elif v.kind == 'eq0' and isinstance(v.args[0].w, int):
            p = v.args[0]
            r = p.rng()
            if r[0] is None or r[0] <= -(1 << p.w) or r[1] >= 1 << p.w:
                continue
            p = mk(256, dict(p.t))
            if band(b, bnot(bvar(v))) is FALSE:
                out += [p, -p]
            elif band(b, bvar(v)) is FALSE:
                if r[0] == 0:
                    out.append(p - 1)
                elif r[1] == 0:
                    out.append(-p - 1)
    return tuple(out)


def set_facts(b):
    global FACTS
    old = FACTS
    FACTS = facts_of(b) if b is not None else ()
    return old


def restore_facts(f):
    global FACTS
    FACTS = f


def sym_range(p):
    """interval of p, eliminating loop variables with symbolic trip counts first"""
    lo = _endpoint(p, -1)
    hi = _endpoint(p, +1)
    rl = lo.rng()[0] if lo is not None else None
    rh = hi.rng()[1] if hi is not None else None
    if rl is None or rh is None:
        return p.rng()
    return (rl, rh)


def _endpoint(p, sgn, depth=0):
    for v in sorted((v for v in p.fv if v.kind in ('iv', 'bv') and v.args[-1] is not None
                     and isinstance(v.args[-1], Poly) and v.args[-1].const() is None),
                    key=lambda a: -a.id):
        c = lin_coef(p, v)
        if c is None or depth > 6:
            return p
        trip = v.args[-1]
        up = (c > 0) == (sgn > 0)
        val = zcast(trip, p.w) - 1 if up else const(p.w, 0)
        return _endpoint(subst(p, {v: val}), sgn, depth + 1)
    return p


def zcast(p, w):
    if p.w == w:
        return p
    return mk(w, dict(p.t))


def lin_coef(p, v):
    """integer coefficient of v if p is linear in v with constant coefficient; None otherwise"""
    c = 0
    for m, k in p.t.items():
        if m == (v,):
            c = k
        elif any(v in a.fv for a in m):
            return None
    return c


# ------------------------------------------------------------------ booleans (BDD)
class Bool:
    __slots__ = ('id', 'var', 'lo', 'hi', '_fv', '_h', '_unk')

    @property
    def fv(self):
        if self._fv is None:
            self._fv = self.var.fv | self.lo.fv | self.hi.fv if self.var is not None else frozenset()
        return self._fv

    @property
    def h(self):
        if self._h is None:
            self._h = max(self.var.h, self.lo.h, self.hi.h) if self.var is not None else 0
        return self._h

    @property
    def unk(self):
        if self._unk is None:
            self._unk = (self.var.unk or self.lo.unk or self.hi.unk) if self.var is not None else False
        return self._unk

    def __repr__(self):
        return show_bool(self)


_bools = {}
_nb = itertools.count()


def _bmk(var, lo, hi):
    if lo is hi:
        return lo
    k = (var.id, lo.id, hi.id)
    b = _bools.get(k)
    if b is None:
        b = Bool()
        b.id = next(_nb)
        b.var, b.lo, b.hi = var, lo, hi
        b._fv = b._h = b._unk = None
        _bools[k] = b
    return b


def _leaf():
    b = Bool()
    b.id = next(_nb)
    b.var = b.lo = b.hi = None
    b._fv = b._h = b._unk = None
    return b


FALSE = _leaf()
TRUE = _leaf()
_bc = {}


def bite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if x is TRUE and y is FALSE:
        return c
    k = (c.id, x.id, y.id)
    r = _bc.get(k)
    if r is None:
        v = min((b.var for b in (c, x, y) if b.var is not None), key=lambda a: a.id)

        def co(b, s):
            return (b.hi if s else b.lo) if b.var is v else b
        r = _bmk(v, bite(co(c, 0), co(x, 0), co(y, 0)), bite(co(c, 1), co(x, 1), co(y, 1)))
        _bc[k] = r
    return r


def band(a, b):
    return bite(a, b, FALSE)


def bor(a, b):
    return bite(a, TRUE, b)


def bnot(a):
    return bite(a, FALSE, TRUE)


def bvar(a):
    return _bmk(a, FALSE, TRUE)


def ge0(p):
    """integer polynomial p >= 0"""
    r = p.rng()
    if r[0] is not None:
        if r[0] >= 0:
            return TRUE
        if r[1] < 0:
            return FALSE
        r = sym_range(p)
        if r[0] >= 0:
            return TRUE
        if r[1] < 0:
            return FALSE
        if FACTS:
            if nonneg(zcast(p, 256)):
                return TRUE
            if nonneg(-zcast(p, 256) - 1):
                return FALSE
    # gcd-normalise
    from math import gcd
    g = 0
    for m, c in p.t.items():
        if m != ():
            g = gcd(g, c)
    if g > 1:
        d = {m: c // g for m, c in p.t.items() if m != ()}
        d[()] = p.t.get((), 0) // g  # floor
        p = mk(p.w, d)
    ms = sorted((m for m in p.t if m != ()), key=lambda m: [a.id for a in m])
    neg = p.t[ms[0]] < 0
    if neg:
        p = -p - 1
    # single {0,1} indicator
    v = bvar(atom('ge0', (p,), 'b', 0, 1))
    return bnot(v) if neg else v


def eq0(p):
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    r = p.rng()
    if r[0] is not None:
        if r[0] == 0 == r[1]:
            return TRUE
        if isinstance(p.w, int) and (r[0] > 0 and r[1] < (1 << p.w) or r[1] < 0 and r[0] > -(1 << p.w)):
            return FALSE
        r = sym_range(p)
        if isinstance(p.w, int) and (r[0] > 0 and r[1] < (1 << p.w) or r[1] < 0 and r[0] > -(1 << p.w)):
            return FALSE
        if FACTS and isinstance(p.w, int) and r[1] < (1 << p.w) and r[0] > -(1 << p.w):
            q = zcast(p, 256)
            if nonneg(q - 1) or nonneg(-q - 1):
                return FALSE
    # [c] = k
    if len(p.t) <= 2:
        ms = [m for m in p.t if m != ()]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0].kind == 'ind':
            b = bvar(ms[0][0].args[0])
            k = p.t.get((), 0)
            if k == 0:
                return bnot(b)
            if _cen(p.t[ms[0]] + k, p.w) == 0:
                return b
            return FALSE
    # integer linear forms: divide by gcd
    from math import gcd
    if isinstance(p.w, int) and r[0] is not None and r[0] > -(1 << p.w) and r[1] < (1 << p.w):
        g = 0
        for m, c in p.t.items():
            if m != ():
                g = gcd(g, c)
        if g > 1:
            k = p.t.get((), 0)
            if k % g:
                return FALSE
            p = mk(p.w, {m: c // g for m, c in p.t.items()})
    ms = sorted((m for m in p.t if m != ()), key=lambda m: [a.id for a in m])
    if p.t[ms[0]] < 0:
        p = -p
    return bvar(atom('eq0', (p,), 'b', 0, 1))


def icmp(pred, a, b):
    w = a.w
    if pred == 'eq':
        return eq0(a - b)
    if pred == 'ne':
        return bnot(eq0(a - b))
    if pred in ('sgt', 'ugt'):
        return icmp('slt' if pred == 'sgt' else 'ult', b, a)
    if pred in ('sge', 'uge'):
        return bnot(icmp('slt' if pred == 'sge' else 'ult', a, b))
    if pred in ('sle', 'ule'):
        return bnot(icmp('slt' if pred == 'sle' else 'ult', b, a))
    if pred == 'slt':
        h = 1 << (w - 1)
        if fits(a, -h, h - 1) and fits(b, -h, h - 1):
            return ge0(zcast(b, 128) - zcast(a, 128) - 1)
        return opaque_cmp('slt', a, b)
    if pred == 'ult':
        M = 1 << w
        if fits(a, 0, M - 1) and fits(b, 0, M - 1):
            return ge0(zcast(b, 128) - zcast(a, 128) - 1)
        ca, cb = a.const(), b.const()
        # range check idiom (x - lo) u< n with x-lo possibly negative
        if cb is not None and cb < 0:
            cb += M
        r = sym_range(a)
        if cb is not None and r[0] is not None and r[0] >= -(M >> 1) and r[1] < (M >> 1) and 0 <= cb <= (M >> 1):
            return band(ge0(zcast(a, 128)), ge0(const(128, cb - 1) - zcast(a, 128)))
        if r[0] is not None and r[0] >= -(M >> 1) and r[1] < (M >> 1):
            if cb is not None:
                return bor(ge0(zcast(a, 128)), ge0(const(128, cb - M - 1) - zcast(a, 128)))
            if ca is None and fits(b, 0, M - 1):
                return band(ge0(zcast(a, 128)), ge0(zcast(b, 128) - zcast(a, 128) - 1))
        elif ca is not None and fits(a, 0, M - 1):
            r = sym_range(b)
            if r[0] is not None and r[0] >= -(M >> 1) and r[1] < (M >> 1):
                if ca < 0:
                    ca += M
                return bnot(icmp('ult', b, const(w, ca + 1))) if ca != M - 1 else FALSE
        return opaque_cmp('ult', a, b)
    raise ValueError(pred)


def opaque_cmp(p, a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        w = a.w
        if p == 'slt':
            return TRUE if sgn(ca, w) < sgn(cb, w) else FALSE
        if p == 'ult':
            return TRUE if ca % (1 << w) < cb % (1 << w) else FALSE
    if p == 'ult' and cb is not None and cb % (1 << a.w) == 1:
        return eq0(a)
    if p == 'slt' and a.w != 'd':
        # canonical constant forms:  a < c   and   c < b  <=>  not (b < c+1)
        if ca is not None and sgn(ca, a.w) != (1 << (a.w - 1)) - 1:
            return bnot(opaque_cmp('slt', b, const(a.w, ca + 1)))
    if p == 'ult' and ca is not None and ca % (1 << a.w) != (1 << a.w) - 1:
        return bnot(opaque_cmp('ult', b, const(a.w, ca + 1)))
    return bvar(atom('cmp', (p, a, b), 'b', 0, 1))


def sgn(c, w):
    c %= 1 << w
    return c - (1 << w) if c >> (w - 1) else c


# ------------------------------------------------------------------ opaque operations
def umod(c, w):
    return c % (1 << w)


def split_mod(p, m):
    """p = m*q + r with 0<=r<m syntactically, or None.  p must not wrap and be >= 0."""
    if not fits(p, 0, (1 << p.w) - 1):
        return None
    q, r = {}, {}
    for mo, c in p.t.items():
        if c % m == 0:
            q[mo] = c // m
        else:
            if mo == ():
                q[mo] = c // m
                r[mo] = c % m
            else:
                r[mo] = c
    r = mk(p.w, r)
    if fits(r, 0, m - 1):
        return mk(p.w, q), r
    return None


def binop(op, a, b):
    w = a.w
    ca, cb = a.const(), b.const()
    M = None if w == 'd' else 1 << w
    if op == 'add' or op == 'fadd':
        return a + b
    if op == 'sub' or op == 'fsub':
        return a - b
    if op == 'mul' or op == 'fmul':
        return a * b
    if op == 'shl':
        if cb is not None:
            cb %= M
            if cb >= w:
                return opq('poison', (), w)
            return a * (1 << cb)
        if ca == 1:
            r = b.rng()
            return opq('shl', (a, b), w)
        return opq('shl', (a, b), w)
    if op == 'fdiv':
        if cb is not None and cb != 0:
            return a * (Fraction(1) / Fraction(cb))
        return opq('fdiv', (a, b), w)
    if w != 'd' and ca is not None and cb is not None:
        x, y = ca % M, cb % M
        try:
            v = _conc(op, x, y, w)
            if v is not None:
                return const(w, v)
        except ZeroDivisionError:
            pass
    if op in ('udiv', 'sdiv') and cb is not None and cb > 0:
        if op == 'sdiv':
            if not fits(a, 0, (M >> 1) - 1):
                return opq(op, (a, b), w)
            op = 'udiv'
        if cb == 1:
            return a
        s = split_mod(a, cb)
        if s:
            return s[0]
        if cb & (cb - 1) == 0:
            return binop('lshr', a, const(w, cb.bit_length() - 1))
        return opq('udiv', (a, b), w, rng=_divr(a, cb))
    if op in ('urem', 'srem') and cb is not None and cb > 0:
        if op == 'srem':
            if not fits(a, 0, (M >> 1) - 1):
                return opq(op, (a, b), w)
            op = 'urem'
        if cb == 1:
            return const(w, 0)
        s = split_mod(a, cb)
        if s:
            return s[1]
        if cb & (cb - 1) == 0:
            return binop('and', a, const(w, cb - 1))
        return opq('urem', (a, b), w, rng=(0, cb - 1))
    if op == 'lshr' and cb is not None:
        cb %= M
        if cb == 0:
            return a
        if cb < w:
            s = split_mod(a, 1 << cb)
            if s:
                return s[0]
            return opq('lshr', (a, b), w, rng=_divr(a, 1 << cb))
    if op == 'ashr' and cb is not None:
        cb %= M
        if cb == 0:
            return a
        if fits(a, 0, (M >> 1) - 1):
            return binop('lshr', a, b)
        return opq('ashr', (a, b), w)
    if op == 'and':
        if ca is not None and cb is None:
            a, b, ca, cb = b, a, cb, ca
        if cb is not None:
            y = cb % M
            if y == 0:
                return const(w, 0)
            if y == M - 1:
                return a
            if y & (y + 1) == 0:  # low mask
                if fits(a, 0, y):
                    return a
                s = split_mod(a, y + 1)
                if s:
                    return s[1]
                # off by a few periods
                r0 = sym_range(a)
                if (FACTS or r0[0] is not None and r0[1] - r0[0] <= 2 * y) and r0[0] is not None:
                    for k in range(max(-5, r0[0] // (y + 1)), min(5, r0[1] // (y + 1)) + 1):
                        if k and fits(a - k * (y + 1), 0, y):
                            return a - k * (y + 1)
                # ring reduction: drop multiples of y+1
                r = mk(w, {m: c for m, c in a.t.items() if c % (y + 1)})
                if r is not a:
                    return binop('and', r, b)
                return opq('and', (a, b), w, rng=(0, y))
            ny = M - 1 - y
            if ny & (ny + 1) == 0:  # high mask
                return a - binop('and', a, const(w, ny))
            return opq('and', (a, b), w, rng=(0, y))
    if op == 'or':
        if ca is not None and cb is None:
            a, b, ca, cb = b, a, cb, ca
        if b.const() == 0:
            return a
        for x, y in ((a, b), (b, a)):
            k = _tz(x)
            if k and fits(y, 0, (1 << k) - 1):
                return x + y
        if a is b:
            return a
    if op == 'xor':
        if ca is not None and cb is None:
            a, b, ca, cb = b, a, cb, ca
        if cb is not None and cb % M == M - 1:
            return -a - 1
        if cb == 0:
            return a
        if a is b:
            return const(w, 0)
    if op in ('and', 'or', 'xor') and a.key > b.key:
        a, b = b, a
    if op in ('or', 'xor'):
        ra, rb = (x.rng() if x.const() is None else (x.const() % M,) * 2 for x in (a, b))
        if ra[0] is not None and rb[0] is not None and ra[0] >= 0 and rb[0] >= 0 and max(ra[1], rb[1]) < M >> 1:
            return opq(op, (a, b), w, rng=(0, (1 << max(ra[1], rb[1]).bit_length()) - 1))
    return opq(op, (a, b), w)


def _divr(a, m):
    r = a.rng()
    M = 1 << a.w
    if r[0] is None or r[0] < 0 or r[1] >= M:
        return (0, (M - 1) // m)
    return (r[0] // m, r[1] // m)


def _tz(p):
    k = 0
    if not p.t:
        return 0
    from math import gcd
    g = 0
    for c in p.t.values():
        g = gcd(g, c)
    while g % 2 == 0:
        g //= 2
        k += 1
    return k


def _conc(op, x, y, w):
    M = 1 << w
    if op == 'lshr':
        return x >> y if y < w else 0
    if op == 'ashr':
        return sgn(x, w) >> min(y, w - 1)
    if op == 'shl':
        return x << y if y < w else 0
    if op == 'and':
        return x & y
    if op == 'or':
        return x | y
    if op == 'xor':
        return x ^ y
    if op == 'udiv':
        return x // y
    if op == 'urem':
        return x % y
    if op in ('sdiv', 'srem'):
        a, b = sgn(x, w), sgn(y, w)
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return q if op == 'sdiv' else a - b * q
    return None


def opq(name, args, w, rng=None):
    return pa(atom('op', (name,) + tuple(args), w, *(rng or (None, None))), w)


def trunc(p, w):
    """p mod 2^w"""
    if p.w == w:
        return p
    d = const(w, 0)
    simple = {}
    for m, c in p.t.items():
        if any(a.kind == 'op' and a.args[0] in ('zext', 'sext') for a in m):
            t = const(w, c)
            for a in m:
                if a.kind == 'op' and a.args[0] in ('zext', 'sext'):
                    q = a.args[1]
                    if q.w >= w:
                        t = t * trunc(q, w)
                    else:
                        t = t * (zext(q, w) if a.args[0] == 'zext' else sext(q, w))
                else:
                    t = t * mk(w, {(a,): 1})
            d = d + t
        else:
            simple[m] = c
    return d + mk(w, simple)


def zext(p, w):
    if p.w == w:
        return p
    if fits(p, 0, (1 << p.w) - 1):
        return mk(w, dict(p.t))
    # distribute over indicator-free single terms is unsound; keep opaque
    return opq('zext', (p,), w, rng=(0, (1 << p.w) - 1))


def sext(p, w):
    if p.w == w:
        return p
    h = 1 << (p.w - 1)
    if fits(p, -h, h - 1):
        return mk(w, dict(p.t))
    return pa(atom('op', ('sext', p), w, -h, h - 1), w)


def fresh_unknown(why, w):
    a = atom('unk', (why, len(_atom_by_id)), w, unk=True)
    return pa(a, w)


# ------------------------------------------------------------------ binders
_ivn = itertools.count()


def new_iv(tag, trip, maxtrip=None):
    """loop variable with range [0, trip)"""
    hi = None
    c = trip.const()
    if c is not None:
        hi = max(c - 1, 0)
    else:
        r = trip.rng()
        hi = max(r[1] - 1, 0) if r[1] is not None else (1 << 63)
    n = next(_ivn)
    return atom('iv', (tag, n, trip), 64, 0, hi, selfvar=True)


def bv(level, idx, trip):
    c = trip.const()
    hi = max(c - 1, 0) if c is not None else (max(trip.rng()[1] - 1, 0) if trip.rng()[1] is not None else 1 << 63)
    return atom('bv', (level, idx, trip), 64, 0, hi, h=level, selfvar=True)


def mark(uid):
    return atom('mark', (uid,), 'b', 0, 1, selfvar=True)


def mkph(uid, base, off, w):
    """content of base[off] at the start of the current iteration of loop uid"""
    rw = 64 if w == 'p' else w
    return atom('ph', (uid, base, off, w), rw, fv=frozenset({mark(uid)}) | off.fv | base.fv)


SMALL = 4


def bsum(quants, body):
    """sum of body over [(var, trip Poly)], canonical"""
    if not quants or not body.t:
        return body
    # expand small constant ranges
    for i, (v, trip) in enumerate(quants):
        c = trip.const()
        if c is not None and c <= SMALL and not any(v in q[1].fv for q in quants):
            rest = quants[:i] + quants[i + 1:]
            r = const(body.w, 0)
            for x in range(max(c, 0)):
                r = r + bsum(rest, subst(body, {v: const(64, x)}))
            return r
    total = const(body.w, 0)
    groups = {}
    for m, c in body.t.items():
        vs = [q for q in quants]
        used = set()
        for a in m:
            used |= a.fv
        # triangular ranges: keep variables whose trip others depend on
        dep = [q for q in vs if q[0] in used or any(q[0] in r[1].fv for r in vs if r[0] in used)]
        free = [q for q in vs if q not in dep]
        coef = mk(body.w, {(): c})
        ok = True
        for v, trip in free:
            if any(v in r[1].fv for r in vs):
                ok = False
                break
            coef = coef * zcast(trip, body.w) if body.w != 'd' else coef * const('d', trip.const() or 0)
            if body.w == 'd' and trip.const() is None:
                ok = False
        if not ok:
            dep, coef = vs, mk(body.w, {(): c})
        dv = {q[0] for q in dep}
        out = [a for a in m if not (a.fv & dv)]
        inn = [a for a in m if a.fv & dv]
        if not dep:
            total = total + coef * mk(body.w, {m: 1})
            continue
        # merge with an inner sum
        sums = [a for a in inn if a.kind == 'sum']
        q2 = list(dep)
        if len(inn) >= 1 and len(sums) == 1:
            s = sums[0]
            ren = {}
            for (b, t) in s.args[0]:
                nv = new_iv('m', t)
                ren[b] = pa(nv)
                q2.append((nv, t))
            inner = subst(s.args[1], ren)
            rest = mk(body.w, {tuple(sorted((a for a in inn if a is not s), key=lambda a: a.id)): 1})
            prod = rest * inner
            total = total + coef * mk(body.w, {tuple(out): 1}) * bsum(q2, prod)
            continue
        total = total + coef * mk(body.w, {tuple(out): 1}) * _sum1(dep, mk(body.w, {tuple(inn): 1}))
    return total


def _sum1(quants, body):
    """canonical binder over exactly these quantifiers, one monomial"""
    lvl = body.h + 1
    best = None
    quants = sorted(quants, key=lambda q: q[1].key)
    perms = [quants]
    if len(quants) <= 3 and len({q[1].key for q in quants}) < len(quants):
        perms = [p for p in itertools.permutations(quants)
                 if [q[1].key for q in p] == [q[1].key for q in quants]]
    for p in perms:
        ren = {}
        qs = []
        for i, (v, trip) in enumerate(p):
            trip = subst(trip, ren) if ren else trip
            b = bv(lvl, i, trip)
            ren[v] = pa(b)
            qs.append((b, trip))
        nb = subst(body, ren)
        cand = (nb.key, tuple(qs), nb)
        if best is None or cand[0] < best[0]:
            best = cand
    qs, nb = best[1], best[2]
    bound = {q[0] for q in qs}
    fv = set(nb.fv) - bound
    for b, t in qs:
        fv |= t.fv - bound
    a = atom('sum', (qs, nb), nb.w, None, None, fv=frozenset(fv), h=max(lvl, nb.h), unk=nb.unk)
    a.lo = a.hi = None
    return mk(nb.w, {(a,): 1})


def lam(var, length, body):
    """array content  z in [0,length) -> body"""
    if isinstance(body, Poly):
        lvl = body.h + 1
        b = bv(lvl, 0, const(64, length))
        nb = subst(body, {var: pa(b)})
        return atom('lam', (length, b, nb), 'l', None, None, fv=frozenset(nb.fv - {b}), h=max(lvl, nb.h), unk=nb.unk)
    raise TypeError


def mkscan(quants, entries, nbytes, target, rest):
    """value at `target` of an array written by the iterations of a loop in order:
    for quants: for (guard, off, val) in entries: if guard: a[off] := val
    -- the last match wins, `rest` if there is none"""
    w = rest.w
    parts = [x for e in entries for x in e]
    lvl = max([x.h for x in parts] + [t.h for q, t in quants]) + 1
    ren, qs = {}, []
    for i, (v, t) in enumerate(quants):
        t = subst(t, ren) if ren else t
        b = bv(lvl, i, t)
        ren[v] = pa(b)
        qs.append((b, t))
    es = tuple(tuple(subst(x, ren) for x in e) for e in entries)
    bound = {q[0] for q in qs}
    fv = set()
    for e in es:
        for x in e:
            fv |= x.fv
    fv -= bound
    for b, t in qs:
        fv |= t.fv - bound
    fv |= target.fv | rest.fv
    a = atom('scan', (tuple(qs), es, nbytes, target, rest), w, fv=frozenset(fv), h=max(lvl, target.h, rest.h),
             unk=any(x.unk for e in es for x in e) or rest.unk or target.unk)
    return pa(a, w)


# ------------------------------------------------------------------ substitution
def subst(x, sig, memo=None):
    """sig: {var Atom: Poly}"""
    if memo is None:
        memo = {}
    if isinstance(x, Poly):
        if not (x.fv & sig.keys()):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        r = const(x.w, 0)
        keep = {}
        for m, c in x.t.items():
            if not any(a.fv & sig.keys() for a in m):
                keep[m] = c
                continue
            t = const(x.w, c)
            for a in m:
                t = t * subst_atom(a, sig, memo, x.w)
            r = r + t
        r = r + mk(x.w, keep)
        memo[x] = r
        return r
    if isinstance(x, Bool):
        if not (x.fv & sig.keys()):
            return x
        r = memo.get(x)
        if r is None:
            c = subst_batom(x.var, sig, memo)
            r = bite(c, subst(x.hi, sig, memo), subst(x.lo, sig, memo))
            memo[x] = r
        return r
    if isinstance(x, Atom):
        return subst_atom_raw(x, sig, memo)
    if isinstance(x, tuple):
        return tuple(subst(y, sig, memo) for y in x)
    return x


def subst_batom(a, sig, memo):
    if not (a.fv & sig.keys()):
        return bvar(a)
    if a in sig:
        return sig[a].b
    k = ('b', a)
    r = memo.get(k)
    if r is not None:
        return r
    if a.kind == 'ge0':
        r = ge0(subst(a.args[0], sig, memo))
    elif a.kind == 'eq0':
        r = eq0(subst(a.args[0], sig, memo))
    elif a.kind == 'cmp':
        p = a.args[0]
        x, y = subst(a.args[1], sig, memo), subst(a.args[2], sig, memo)
        r = icmp(p, x, y) if x.w != 'd' else opaque_cmp(p, x, y)
    else:
        r = bvar(subst_atom_raw(a, sig, memo))
    memo[k] = r
    return r


def subst_atom(a, sig, memo, w):
    """-> Poly of width w"""
    if a.kind == 'ph' and a.fv & sig.keys():
        k = (a, w)
        r = memo.get(k)
        if r is None:
            v = sig.resolve(a) if getattr(sig, 'uid', None) == a.args[0] else pa(subst_ph(a, sig, memo))
            r = v if v.w == w else trunc(v, w) if v.w != 'd' and v.w > w else zcast(v, w)
            memo[k] = r
        return r
    if a in sig:
        v = sig[a]
        if isinstance(v, Atom):
            v = pa(v)
        if v.w == w:
            return v
        if w == 'd' or v.w == 'd':
            return v if w == 'd' and v.w == 'd' else (_ for _ in ()).throw(TypeError((w, v.w)))
        return trunc(v, w) if v.w > w else zcast(v, w)
    if not (a.fv & sig.keys()):
        return mk(w, {(a,): 1})
    k = (a, w)
    r = memo.get(k)
    if r is not None:
        return r
    if a.kind == 'ind':
        r = ind(subst_batom(a.args[0], sig, memo), w)
    elif a.kind == 'op':
        r = rebuild_op(a, sig, memo)
        if r.w != w:
            r = trunc(r, w) if (w != 'd' and r.w != 'd' and r.w > w) else zcast(r, w)
    elif a.kind == 'scan':
        qs, es, nb, target, rest = a.args
        sig2 = {k2: v for k2, v in sig.items() if k2 not in {q[0] for q in qs}} if not isinstance(sig, LoopResBase) else sig
        ren, nq = {}, []
        for b, t in qs:
            t2 = subst(subst(t, ren), sig2) if ren else subst(t, sig2)
            nv = new_iv('s', t2)
            ren[b] = pa(nv)
            nq.append((nv, t2))
        r = mkscan(nq, tuple(tuple(subst(subst(x, ren), sig2) for x in e) for e in es), nb, subst(target, sig, memo),
                   subst(rest, sig, memo))
        if r.w != w:
            r = trunc(r, w)
    elif a.kind == 'sum':
        qs, body = a.args
        sig2 = {k2: v for k2, v in sig.items() if k2 not in {q[0] for q in qs}}
        ren = {}
        nq = []
        for b, t in qs:
            t2 = subst(subst(t, ren), sig2) if ren else subst(t, sig2)
            nv = new_iv('s', t2)
            ren[b] = pa(nv)
            nq.append((nv, t2))
        r = bsum(nq, subst(subst(body, ren), sig2))
        if r.w != w:
            r = trunc(r, w)
    else:
        na = subst_atom_raw(a, sig, memo)
        if isinstance(na, Poly):
            r = na if na.w == w else trunc(na, w)
        else:
            r = mk(w, {(na,): 1})
    memo[k] = r
    return r


def subst_ph(a, sig, memo):
    uid, base, off, w = a.args
    base = subst_atom_raw(base, sig, memo)
    if isinstance(base, Poly):
        raise TypeError('base')
    return mkph(uid, base, subst(off, sig, memo), w)



def subst_atom_raw(a, sig, memo):
    if a in sig:
        v = sig[a]
        if isinstance(v, Poly) and len(v.t) == 1:
            (m, c), = v.t.items()
            if c == 1 and len(m) == 1:
                return m[0]
        return v
    if a.kind == 'ph' and getattr(sig, 'uid', None) == a.args[0] and a.fv & sig.keys():
        v = sig.resolve(a)
        if len(v.t) == 1:
            (m, c), = v.t.items()
            if c == 1 and len(m) == 1:
                return m[0]
        return atom('unkbase', (v,), 64, unk=True)
    if not (a.fv & sig.keys()):
        return a
    if a.kind == 'lam':
        length, b, body = a.args
        v = atom('iv', ('lam', next(_ivn), const(64, length)), 64, 0, max(length - 1, 0), selfvar=True)
        nb = subst(subst(body, {b: pa(v)}), sig)
        return mklam(v, length, nb)
    nargs = tuple(subst(y, sig, memo) for y in a.args)
    if a.kind == 'ph':
        return mkph(*nargs)
    r = atom(a.kind, nargs, a.w, a.lo, a.hi, unk=a.unk, selfvar=a in a.fv)
    return r


def mklam(v, length, body):
    return lam(v, length, body)


def table(img, off, w):
    """element of a constant table: identified by the table's content, not its name"""
    c = off.const()
    nb = (w + 7) // 8
    if c is not None:
        v = table_value(img, c % (1 << 64), nb)
        if v is not None:
            return const(w, v)
    vs = [0 if v == 'Z' else v for o, n, v in img]
    return pa(atom('op', ('tbl', img, off), w, min(vs), max(vs)), w)


def table_value(img, c, nb):
    for o, n, v in img:
        if v == 'Z':
            if o <= c and c + nb <= o + n:
                return 0
        elif o == c:
            return v
    return None


def rebuild_op(a, sig, memo):
    name = a.args[0]
    if name == 'tbl':
        return table(a.args[1], subst(a.args[2], sig, memo), a.w)
    args = [subst(y, sig, memo) for y in a.args[1:]]
    w = a.w
    if name in ('zext',):
        return zext(args[0], w)
    if name == 'sext':
        return sext(args[0], w)
    if len(args) == 2 and all(isinstance(x, Poly) for x in args) and name in (
            'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'urem', 'sdiv', 'srem', 'fdiv'):
        return binop(name, args[0], args[1])
    return pa(atom('op', (name,) + tuple(args), w, a.lo, a.hi), w)


class Assume:
    """rebuilds a value under the current FACTS with one predicate fixed, predicates nested in operands included"""

    def __init__(self, a, pol):
        self.a, self.pol, self.memo = a, pol, {}

    def poly(self, p):
        k = (0, p)
        r = self.memo.get(k)
        if r is None:
            r, keep = const(p.w, 0), {}
            for m, c in p.t.items():
                if not any(x.kind in ('ind', 'op') for x in m):
                    keep[m] = c
                    continue
                t = const(p.w, c)
                for x in m:
                    t = t * self.atom(x, p.w)
                r = r + t
            r = self.memo[k] = r + mk(p.w, keep)
        return r

    def atom(self, x, w):
        if x.kind == 'ind':
            return ind(self.batom(x.args[0]), w)
        if x.kind == 'op' and all(isinstance(y, (Poly, str)) for y in x.args) and x.args[0] != 'tbl':
            args = [self.poly(y) if isinstance(y, Poly) else y for y in x.args]
            n, w2 = args[0], x.w
            if n == 'zext':
                r = zext(args[1], w2)
            elif n == 'sext':
                r = sext(args[1], w2)
            elif len(args) == 3 and n in ('shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'urem', 'sdiv', 'srem'):
                r = binop(n, args[1], args[2])
            else:
                return mk(w, {(x,): 1})
            if r.w != w:
                r = trunc(r, w) if r.w > w else zcast(r, w)
            return r
        return mk(w, {(x,): 1})

    def bool(self, b):
        if b.var is None:
            return b
        k = (1, b)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = bite(self.batom(b.var), self.bool(b.hi), self.bool(b.lo))
        return r

    def batom(self, a):
        if a is self.a:
            return TRUE if self.pol else FALSE
        if a.kind == 'ge0':
            return ge0(self.poly(a.args[0]))
        if a.kind == 'eq0' and isinstance(a.args[0].w, int):
            r = eq0(self.poly(a.args[0]))
            if FACTS and r.var is not None and r.var.kind == 'eq0' and isinstance(r.var.args[0].w, int):
                p = r.var.args[0]
                lo, hi = p.rng()
                if lo is not None and lo > -(1 << p.w) and hi < 1 << p.w:
                    p = mk(256, dict(p.t))
                    if nonneg(p, 2, FACTS) and nonneg(-p, 2, FACTS):
                        return TRUE if r.hi is TRUE else FALSE
            return r
        if a.kind == 'cmp' and a.args[1].w != 'd':
            return icmp(a.args[0], self.poly(a.args[1]), self.poly(a.args[2]))
        return bvar(a)


# ------------------------------------------------------------------ evaluation (random interpretation)
class Unknown(Exception):
    pass


class LoopResBase(dict):
    pass


_ptsc = {}
EXTRA_POINTS = set()


def _h64(*xs):
    h = hashlib.blake2b(repr(xs).encode(), digest_size=8)
    return int.from_bytes(h.digest(), 'little')


class Interp:
    """Random interpretation of symbolic values: uninterpreted atoms become pseudo-random functions
    of their (evaluated) arguments."""

    def __init__(self, seed, hooks=None, budget=3000000):
        self.seed = seed
        self.memo = {}
        self.hooks = hooks or {}
        self.budget = budget
        self.undef_seed = 0
        self.undef_used = False

    def group(self, p, env):
        """evaluate indicators; merge terms with equal remaining monomial"""
        d = {}
        for m, c in p.t.items():
            mm = m
            if any(a.kind == 'ind' for a in m):
                if not all(self.atom(a, env) for a in m if a.kind == 'ind'):
                    continue
                mm = tuple(a for a in m if a.kind != 'ind')
            d[mm] = d.get(mm, 0) + c
        return d

    def poly(self, p, env):
        w = p.w
        if w == 'd':
            r = 0.0
            for m, c in self.group(p, env).items():
                if c == 0:
                    continue
                t = float(c)
                for a in m:
                    t *= self.atom(a, env)
                r += t
            return r
        r = 0
        M = 1 << w
        for m, c in self.group(p, env).items():
            t = c % M
            if t:
                for a in m:
                    t = t * self.atom(a, env) % M
            r += t
        return r % M

    def ipoly(self, p, env):
        """integer (unwrapped) evaluation for conditions and offsets"""
        r = 0
        for m, c in self.group(p, env).items():
            t = c
            if t:
                for a in m:
                    v = self.atom(a, env)
                    if a.lo is not None and a.lo < 0 and isinstance(a.w, int):
                        v = sgn(v, a.w)
                    t *= v
            r += t
        return r

    def bool(self, b, env):
        while b.var is not None:
            b = b.hi if self.batom(b.var, env) else b.lo
        return b is TRUE

    def batom(self, a, env):
        if a.kind == 'ge0':
            return self.ipoly(a.args[0], env) >= 0
        if a.kind == 'eq0':
            v = self.poly(a.args[0], env)
            return v == 0
        if a.kind == 'cmp':
            p, x, y = a.args
            vx, vy = self.poly(x, env), self.poly(y, env)
            if x.w == 'd':
                return {'oeq': vx == vy, 'une': vx != vy, 'olt': vx < vy, 'ogt': vx > vy, 'ole': vx <= vy,
                        'oge': vx >= vy, 'ult': vx < vy, 'ugt': vx > vy, 'ule': vx <= vy, 'uge': vx >= vy,
                        'one': vx != vy, 'ueq': vx == vy, 'ord': True, 'uno': False}[p]
            if p == 'slt':
                return sgn(vx, x.w) < sgn(vy, y.w)
            return vx < vy
        if a.kind == 'bunk':
            raise Unknown(a.args[0])
        if a.kind == 'bop':
            return bool(_h64(self.seed, 'bop', a.args[0], self.vals(a.args[1:], env)) & 1)
        raise Unknown(a.kind)

    def vals(self, xs, env):
        out = []
        for x in xs:
            if isinstance(x, Poly):
                out.append(self.poly(x, env))
            elif isinstance(x, Bool):
                out.append(self.bool(x, env))
            elif isinstance(x, Atom):
                out.append(self.atom(x, env))
            elif isinstance(x, tuple):
                out.append(self.vals(x, env))
            else:
                out.append(x)
        return tuple(out)

    def atom(self, a, env):
        if a in env:
            return env[a]
        key = (a.id, tuple(sorted((v.id, env[v]) for v in a.fv if v in env)))
        r = self.memo.get(key)
        if r is None:
            self.budget -= 1
            if self.budget < 0:
                raise Unknown('budget')
            r = self.atom1(a, env)
            self.memo[key] = r
        return r

    def rnd(self, w, *key):
        h = _h64(self.seed, *key)
        if w == 'd':
            return (h % 20011) / 20011.0 * 4.0 - 2.0
        if isinstance(w, int):
            if w > 64:
                h |= _h64(self.seed, 'hi', *key) << 64
            return h % (1 << w)
        return h

    def atom1(self, a, env):
        k = a.kind
        hk = self.hooks.get(k)
        if hk is not None:
            r = hk(self, a, env)
            if r is not None:
                return r
        if k == 'ld':
            base, off, w = a.args
            return self.ldval(base, self.atom(base, env) if isinstance(base, Atom) else base, self.poly(off, env), w)
        if k == 'arg':
            v = self.rnd(a.w, 'arg', a.args)
            if a.lo is not None and a.hi is not None and a.hi - a.lo < (1 << 64) - 1:
                v = a.lo + v % (a.hi - a.lo + 1)
            return v
        if k == 'op':
            return self.op(a, env)
        if k == 'ind':
            return 1 if self.batom(a.args[0], env) else 0
        if k == 'sum':
            return self.sum(a, env)
        if k == 'scan':
            return self.scan(a, env)
        if k == 'lam':
            return self.lam(a, env)
        if k == 'ref':
            return self.ref(a, env)
        if k in ('unk',):
            raise Unknown(a.args[0])
        if k == 'undef':
            self.undef_used = True
            return self.rnd(a.w, 'undef', self.undef_seed, self.vals(a.args, env))
        if k in ('iv', 'bv'):
            raise Unknown('free variable %r' % (a,))
        if k in ('ph', 'phi'):
            raise Unknown('unresolved loop-carried value')
        if k == 'addr':
            return _h64('addr', self.vals(a.args, env)) & ~63
        if k == 'comm':   # commutative uninterpreted function
            vs = sorted(self.vals(a.args[1], env), key=repr)
            return self.rnd(a.w, 'comm', a.args[0], vs, self.vals(a.args[2:], env))
        # rnd, noise, call, ref, base...: uninterpreted
        v = self.rnd(a.w, k, self.vals(a.args, env))
        if isinstance(a.w, int) and a.lo is not None and a.hi is not None and a.lo >= 0 and a.hi < (1 << a.w) - 1:
            v = a.lo + v % (a.hi - a.lo + 1)
        return v

    def sum(self, a, env):
        qs, body = a.args
        w = body.w
        tot = 0.0 if w == 'd' else 0
        env = dict(env)

        def rec(i):
            nonlocal tot
            if i == len(qs):
                self.budget -= 1
                if self.budget < 0:
                    raise Unknown('budget')
                tot += self.poly(body, env)
                return
            b, t = qs[i]
            n = self.ipoly(t, env)
            for x in range(max(n, 0)):
                env[b] = x
                rec(i + 1)
            env.pop(b, None)
        rec(0)
        return tot if w == 'd' else tot % (1 << w)

    def scan(self, a, env):
        qs, es, nb, target, rest = a.args
        bound = {q[0] for q in qs}
        fv = set()
        for x in es:
            for y in x:
                fv |= y.fv
        key = ('scan', qs, es, tuple(sorted((x.id, env[x]) for x in fv - bound if x in env)))
        mp = self.memo.get(key)
        if mp is None:
            mp = {}
            e = dict(env)

            def rec(i):
                if i == len(qs):
                    for k, (g, o, v) in enumerate(es):
                        self.budget -= 1
                        if self.budget < 0:
                            raise Unknown('budget')
                        if self.bool(g, e):
                            mp[self.poly(o, e)] = (k, tuple(e[q[0]] for q in qs))
                    return
                b, t = qs[i]
                for x in range(max(self.ipoly(t, e), 0)):
                    e[b] = x
                    rec(i + 1)
                e.pop(b, None)
            rec(0)
            self.memo[key] = mp
        t = self.poly(target, env)
        it = mp.get(t)
        if it is None:
            for d in range(-nb + 1, nb):
                if d and (t + d) % (1 << 64) in mp:
                    raise Unknown('partial overlap')
            return self.poly(rest, env)
        e = dict(env)
        for (b, _), x in zip(qs, it[1]):
            e[b] = x
        return self.poly(es[it[0]][2], e)

    def points(self, n):
        """indices at which array contents of n elements are compared"""
        r = _ptsc.get(n)
        if r is None:
            if n <= 40:
                r = list(range(n))
            else:
                pts = {0, 1, 2, 3, n - 1, n - 2, n // 2, n // 2 - 1, n // 2 + 1, n // 3, n // 4}
                pts |= {x for x in EXTRA_POINTS if 0 <= x < n}
                h = _h64('lampts', n)
                for i in range(5):
                    pts.add((h >> (i * 11)) % n)
                r = sorted(pts)
            _ptsc[n] = r
        return r

    def lam(self, a, env):
        length, b, body = a.args
        env = dict(env)
        r = []
        for p in self.points(length):
            env[b] = p
            v = self.poly(body, env)
            if body.w == 'd':
                v = float('%.6g' % v)
            r.append(v)
        return _h64('lam', length, r)

    def ref(self, a, env):
        """content of an unmodified array: the same value as the equivalent lam"""
        base, off, geom = a.args
        if geom is None:
            return _h64('ref', self.atom(base, env), self.poly(off, env))
        lw, dims = geom
        b0, o0 = self.atom(base, env), self.poly(off, env)

        def rec(i, o):
            n, st = dims[i]
            r = []
            for p in self.points(n):
                if i + 1 < len(dims):
                    v = rec(i + 1, o + p * st)
                else:
                    v = self.ldval(base, b0, (o + p * st) % (1 << 64), lw)
                    if lw == 'd':
                        v = float('%.6g' % v)
                r.append(v)
            return _h64('lam', n, r)
        return rec(0, o0)

    def ldval(self, base, b0, off, w):
        hk = self.hooks.get('ldval')
        if hk is not None:
            r = hk(self, base, off, w)
            if r is not None:
                return r
        return self.rnd(w if w != 'p' else 64, 'ld', b0, off)

    def op(self, a, env):
        name = a.args[0]
        if name == 'tbl':
            v = table_value(a.args[1], self.poly(a.args[2], env), (a.w + 7) // 8)
            if v is None:
                raise Unknown('table index')
            return v
        vs = self.vals(a.args[1:], env)
        w = a.w
        ws = [x.w if isinstance(x, Poly) else None for x in a.args[1:]]
        if name == 'zext':
            return vs[0]
        if name == 'sext':
            return sgn(vs[0], ws[0]) % (1 << w)
        if name in ('lshr', 'ashr', 'shl', 'and', 'or', 'xor', 'udiv', 'urem', 'sdiv', 'srem'):
            try:
                return _conc(name, vs[0], vs[1], w) % (1 << w)
            except ZeroDivisionError:
                raise Unknown('div by zero')
        import math
        if name == 'fdiv':
            return vs[0] / vs[1] if vs[1] else 0.0
        if name == 'sitofp':
            return float(sgn(vs[0], ws[0]))
        if name == 'uitofp':
            return float(vs[0])
        if name in ('fptosi', 'fptoui'):
            return int(vs[0]) % (1 << w)
        if name == 'fn':
            f, x = a.args[1], vs[1:]
            try:
                if f in ('round',):
                    return float(math.floor(abs(x[0]) + 0.5)) * (1 if x[0] >= 0 else -1)
                if f in ('rint', 'nearbyint', 'roundeven'):
                    return float(round(x[0]))
                if f == 'floor':
                    return float(math.floor(x[0]))
                if f == 'ceil':
                    return float(math.ceil(x[0]))
                if f == 'trunc':
                    return float(math.trunc(x[0]))
                if f == 'fabs':
                    return abs(x[0])
            except (OverflowError, ValueError):
                raise Unknown('fp')
        return self.rnd(w, 'op', name, vs)


# ------------------------------------------------------------------ printing
def show(p, depth=0):
    if not isinstance(p, Poly):
        return repr(p)
    if not p.t:
        return '0'
    out = []
    for m, c in list(p.t.items())[:8]:
        s = '*'.join(show_atom(a, depth + 1) for a in m)
        if not m:
            out.append(str(c) if p.w != 'd' else str(float(c)))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append('-' + s)
        else:
            out.append('%s*%s' % (c if p.w != 'd' else float(c), s))
    if len(p.t) > 8:
        out.append('...')
    return ' + '.join(out)


def show_atom(a, depth=0):
    if depth > 6:
        return '~'
    k = a.kind
    d = depth + 1
    if k == 'iv':
        return '%s%d' % (a.args[0] if isinstance(a.args[0], str) else 'i', a.args[1])
    if k == 'bv':
        return 'b%d_%d' % (a.args[0], a.args[1])
    if k == 'ld':
        return '%s[%s]' % (show_base(a.args[0], d), show(a.args[1], d))
    if k == 'arg':
        return str(a.args[0])
    if k == 'ind':
        return '[%s]' % show_atom(a.args[0], d)
    if k == 'sum':
        return 'SUM{%s}(%s)' % (','.join('%s<%s' % (show_atom(b, d), show(t, d)) for b, t in a.args[0]), show(a.args[1], d))
    if k == 'lam':
        return '(\\%s.%s)' % (show_atom(a.args[1], d), show(a.args[2], d))
    return '%s(%s)' % (k, ', '.join(show_any(x, d) for x in a.args))


def show_any(x, d=0):
    if isinstance(x, Poly):
        return show(x, d)
    if isinstance(x, Atom):
        return show_atom(x, d)
    if isinstance(x, Bool):
        return show_bool(x, d)
    if isinstance(x, tuple):
        return '(' + ','.join(show_any(y, d) for y in x) + ')'
    return str(x)


def show_base(b, d=0):
    if isinstance(b, Atom):
        return show_atom(b, d)
    return str(b)


def show_bool(b, d=0):
    if b is TRUE:
        return 'T'
    if b is FALSE:
        return 'F'
    if d > 6:
        return '~'
    v = '%s%s' % (b.var.kind, ','.join(show_any(x, d + 1) for x in b.var.args))
    if b.hi is TRUE and b.lo is FALSE:
        return v
    if b.hi is FALSE and b.lo is TRUE:
        return '!' + v
    return '(%s ? %s : %s)' % (v, show_bool(b.hi, d + 1), show_bool(b.lo, d + 1))
