"""Array-dataflow summaries of LLVM IR functions (as dumped by irdump).

One transfer function per instruction, one pass per loop body: a loop is summarised by closed forms
(affine induction variables, accumulated sums, quantified array updates), a join by conditional
values.  No path is enumerated and nothing is executed."""
import re
import struct
from fractions import Fraction
from sym import *
import sym

WB = {8: 1, 16: 2, 32: 4, 64: 8, 'd': 8, 'p': 8, 128: 16, 1: 1}


def addr(kind, *name):
    return atom('addr', (kind,) + name, 64)


def restrict(f, care):
    """Coudert-Madre restrict: agrees with f on care, usually smaller"""
    if care is FALSE:
        return f
    if care is TRUE or f is TRUE or f is FALSE:
        return f
    if f is care:
        return TRUE
    fv, cv = f.var, care.var
    if cv.id < fv.id:
        return restrict(f, bor(care.lo, care.hi))
    cl = care.lo if cv is fv else care
    ch = care.hi if cv is fv else care
    if cl is FALSE:
        return restrict(f.hi, ch)
    if ch is FALSE:
        return restrict(f.lo, cl)
    return sym._bmk(fv, restrict(f.lo, cl), restrict(f.hi, ch))


class Node:
    """one entry of the update log of a memory object"""
    __slots__ = ('prev', 'kind', 'guard', 'quants', 'off', 'w', 'val', 'loop', 'outer', 'base', 'site')

    def __init__(self, kind, prev=None, guard=TRUE, quants=(), off=None, w=None, val=None, site=None):
        self.kind, self.prev, self.guard, self.quants = kind, prev, guard, tuple(quants)
        self.off, self.w, self.val, self.site = off, w, val, site
        self.loop = self.outer = self.base = None


class Giveup(Exception):
    pass


MAYBE = object()


def split_eqs(D):
    """D == 0 over bounded integers, split by strides into independent equations"""
    coefs = sorted({abs(c) for m, c in D.t.items() if m != ()}, reverse=True)
    c0 = D.t.get((), 0)
    for s in coefs:
        if s == 1:
            break
        hi, lo = {}, {}
        for m, c in D.t.items():
            if m == ():
                continue
            (hi if c % s == 0 else lo)[m] = c
        if not hi:
            continue
        if not lo and c0 % s == 0:
            if any(c != 0 for c in hi.values()):
                # whole equation divisible
                d = {m: c // s for m, c in hi.items()}
                d[()] = c0 // s
                return split_eqs(mk(D.w, d)) if s > 1 else [D]
        for r in {c0 % s, c0 % s - s}:
            l = dict(lo)
            l[()] = r
            L = mk(D.w, l)
            a, b = sym_range(L)
            if a is not None and a > -s and b < s:
                h = {m: c // s for m, c in hi.items()}
                h[()] = (c0 - r) // s
                return split_eqs(mk(D.w, h)) + split_eqs(L)
    return [D]


def solve(D, unknowns):
    """Solve D == 0 for the unknowns [(var, trip)].
    -> None (no solution), MAYBE, or (assignment {var: Poly}, condition Bool)"""
    rng = sym_range(D)
    if rng[0] is not None and (rng[0] > 0 or rng[1] < 0):
        return None
    U = {v: t for v, t in unknowns}
    sol = {}
    cond = TRUE
    work = split_eqs(D)
    pend = []
    progress = True
    while work and progress:
        progress = False
        nxt = []
        for E in work:
            if sol:
                E = subst(E, sol)
            us = [v for v in U if v not in sol and v in E.fv]
            if not us:
                c = eq0(E)
                if c is FALSE:
                    return None
                cond = band(cond, c)
                progress = True
                continue
            if len(us) == 1:
                u = us[0]
                c = lin_coef(E, u)
                if c is None or c == 0:
                    nxt.append(E)
                    continue
                rest = E - mk(E.w, {(u,): c})
                rest = -rest if c > 0 else rest
                c = abs(c)
                if c != 1:
                    if all(k % c == 0 for k in rest.t.values()):
                        rest = mk(E.w, {m: k // c for m, k in rest.t.items()})
                    else:
                        nxt.append(E)
                        continue
                sol[u] = rest
                progress = True
                continue
            nxt.append(E)
        work = nxt
    for E in work:
        # general mixed-radix: digits of the remainder
        us = [v for v in U if v not in sol and v in E.fv]
        cs = [(lin_coef(E, u), u) for u in us]
        if any(c is None or c == 0 for c, _ in cs):
            return MAYBE
        if all(c < 0 for c, _ in cs):
            E = -E
            cs = [(-c, u) for c, u in cs]
        if not all(c > 0 for c, _ in cs):
            return MAYBE
        cs.sort(key=lambda x: -x[0])
        low = 0
        for i in range(len(cs) - 1, -1, -1):
            c, u = cs[i]
            if c <= low:
                return MAYBE
            if u.hi is None:
                return MAYBE
            low += c * u.hi
        t = -(E - sum((mk(E.w, {(u,): c}) for c, u in cs), const(E.w, 0)))
        if any(u in t.fv for u in us):
            return MAYBE
        g = ge0(t)
        if g is FALSE:
            return None
        cond = band(cond, g)
        for c, u in cs:
            q = binop('udiv', t, const(E.w, c))
            sol[u] = q
            t = binop('urem', t, const(E.w, c))
        c = eq0(t)
        if c is FALSE:
            return None
        cond = band(cond, c)
    for u, x in list(sol.items()):
        t = subst(U[u], sol) if U[u].fv & sol.keys() else U[u]
        lo = ge0(x)
        hi = ge0(zcast(t, x.w) - x - 1)
        if lo is FALSE or hi is FALSE:
            return None
        cond = band(cond, band(lo, hi))
        if cond is FALSE:
            return None
    return sol, cond


class LoopInfo:
    pass


class Analysis:
    def __init__(self, fn, mod, models, arg_ranges=None, width_hints=None, erase=False, nonoise=False, unroll=0):
        self.unroll = unroll   # loops of at most this many iterations are expanded when they carry memory from one iteration to the next
        self.nonoise = nonoise # noise samples count as zero
        self.erase = erase     # identify random draws by what is drawn, not by the call site
        self.fn, self.mod, self.models = fn, mod, models
        self.blocks = {b['id']: b for b in fn['blocks']}
        self.order = [b['id'] for b in fn['blocks']]
        self.loops = {l['id']: l for l in fn['loops']}
        for l in self.loops.values():
            l['blockset'] = set(l['blocks'])
        self.notes = []
        self.unknowns = []
        self.overlaps = set()
        self.inst = {}
        self.instblock = {}
        for b in fn['blocks']:
            for i in b['insts']:
                self.inst[i['id']] = i
                self.instblock[i['id']] = b['id']
        self.dead = self.find_dead()
        self.arg_ranges = arg_ranges or {}
        self.args = {}
        self.argty = {}
        self.modset = {}
        self.basew = {}
        self.width_hints = width_hints or {}
        self.records = []      # random draws, calls, obligations: dicts with polys; substituted at loop ends
        self.dry = True
        self.execute()
        self.dry = False
        self.records = []
        self.unknowns = []
        self.execute()

    # ------------------------------------------------------------ driver
    def find_dead(self):
        """blocks from which every path ends in unreachable"""
        dead = set()
        succ = {}
        for b in self.fn['blocks']:
            t = b['insts'][-1]
            if t['op'] == 'br':
                succ[b['id']] = list(t['succ'])
            elif t['op'] == 'switch':
                succ[b['id']] = [t['default']] + [c[1] for c in t['cases']]
            elif t['op'] == 'unreachable':
                succ[b['id']] = []
                dead.add(b['id'])
            else:
                succ[b['id']] = None
        self.succ = succ
        ch = True
        while ch:
            ch = False
            for b, s in succ.items():
                if b in dead or s is None or not s:
                    continue
                if all(x in dead for x in s):
                    dead.add(b)
                    ch = True
        return dead

    def execute(self):
        self.env = {}
        self.written = {}
        self.state = {}
        self.loopres = {}
        self.loopstack = []
        self.ctx = []
        self.unrolled = []
        self.nhavoc = 0
        for i, a in enumerate(self.fn['args']):
            n = a['name'] or 'arg%d' % i
            if a['ty'] == 'ptr':
                v = pa(addr('arg', n))
                self.base_size[addr('arg', n)] = a['size'] if hasattr(self, 'base_size') else None
                self.base_align[addr('arg', n)] = a.get('align')
            elif a['ty'].startswith('i'):
                w = int(a['ty'][1:])
                if w == 1:
                    v = bvar(atom('bop', ('arg', n), 'b', 0, 1))
                else:
                    lo, hi = self.arg_ranges.get(n, (0, (1 << w) - 1))
                    at = atom('arg', (n, lo, hi), w, lo, hi, selfvar=True)
                    v = pa(at)
            elif a['ty'] == 'double':
                v = pa(atom('arg', (n, None, None), 'd', selfvar=True))
            else:
                v = fresh_unknown('argtype', 64)
            self.args[n] = v
            self.env[a['id']] = v
        self.exits = []
        self.region(None, TRUE)

    base_size = {}
    base_align = {}

    def rpo(self, L):
        if L is None:
            return self.order
        bs = self.loops[L]['blockset']
        return [b for b in self.order if b in bs]

    def inner_loop_of(self, b, L):
        """outermost loop inside L that contains block b (None if b is directly in L)"""
        l = self.blocks[b]['loop']
        last = None
        while l != -1 and l != L:
            last = l
            l = self.loops[l]['parent']
        if l == -1 and L is not None:
            return None
        return last

    def region(self, L, guard):
        """interpret the blocks of loop L (or the function) once, inner loops as single steps"""
        guards = {}
        edges = {}
        header = self.loops[L]['header'] if L is not None else self.order[0]
        done = set()
        for b in self.rpo(L):
            il = self.inner_loop_of(b, L)
            if il is not None:
                if il in done:
                    continue
                done.add(il)
                hb = self.loops[il]['header']
                g = self.block_guard(hb, edges, [p for p in edges if p[1] == hb and p[0] not in self.loops[il]['blockset']])
                if g is FALSE:
                    continue
                old = sym.set_facts(g)
                self.run_loop(il, g, edges)
                sym.restore_facts(old)
                continue
            if b in self.dead:
                continue
            if b == header:
                g = guard
            else:
                g = self.block_guard(b, edges, [p for p in edges if p[1] == b])
                if g is FALSE and not self.dry:
                    continue
            guards[b] = g
            old = sym.set_facts(g)
            self.block(b, g, edges, L)
            sym.restore_facts(old)
        return guards, edges

    def block_guard(self, b, edges, es):
        g = FALSE
        for e in es:
            g = bor(g, edges[e])
        return g

    def val(self, v):
        k = v[0]
        if k == 'c':
            if v[1] == 1:
                return TRUE if int(v[2]) else FALSE
            return const(v[1], int(v[2]))
        if k == 'v':
            r = self.env.get(v[1])
            if r is None:
                r = fresh_unknown('undefined value %d' % v[1], 64)
            return r
        if k == 'f':
            d = struct.unpack('<d', struct.pack('<Q', int(v[1])))[0]
            if d != d or d in (float('inf'), float('-inf')):
                return pa(atom('op', ('fpspecial', repr(d)), 'd'), 'd')
            return const('d', Fraction(d))
        if k == 'g':
            return pa(addr('g', v[1]))
        if k == 'gep':
            return self.val(v[1]) + int(v[2])
        if k == 'null':
            return const(64, 0)
        if k == 'undef':
            ty = v[1]
            if ty == 'i1':
                return FALSE
            if ty == 'double':
                return pa(atom('undef', ('value',), 'd'))
            w = 64 if ty in ('ptr', 'agg') else int(ty[1:]) if ty[0] == 'i' else 64
            return pa(atom('undef', ('value', w), w))
        if k == 'zero':
            return const(64, 0)
        return fresh_unknown('operand ' + str(v), 64)

    def coerce(self, v, w):
        """give a value of unknown width the width its user needs"""
        if w == 1:
            if isinstance(v, Bool):
                return v
            return bnot(eq0(v)) if isinstance(v, Poly) and not v.unk else bvar(atom('bunk', ('coerce', len(self.unknowns)), 'b', 0, 1, unk=True))
        if isinstance(v, Bool):
            return ind(v, w)
        if not isinstance(v, Poly):
            return fresh_unknown('agg', w)
        if v.w == w:
            return v
        if v.unk:
            return fresh_unknown('width', w)
        if w == 'd' or v.w == 'd':
            return fresh_unknown('width', w)
        return trunc(v, w) if v.w > w else zext(v, w)

    def block(self, b, g, edges, L):
        blk = self.blocks[b]
        for ins in blk['insts']:
            self.cur = ins
            op = ins['op']
            if op == 'phi':
                if L is not None and b == self.loops[L]['header']:
                    continue  # set by run_loop
                self.env[ins['id']] = self.phi(ins, b, g, edges)
            elif op == 'br':
                s = ins['succ']
                if 'cond' in ins:
                    t, f = s
                    c = self.coerce(self.val(ins['cond']), 1)
                    if L is not None:
                        lp = self.loops[L]
                        inl = [x for x in s if x in lp['blockset'] and x != lp['header']]
                        out = [x for x in s if x not in lp['blockset']]
                        if out and b in lp['exiting']:
                            live_out = [x for x in out if x not in self.dead]
                            if live_out:
                                # the iteration space encodes the exit test
                                self.exits.append((L, b, t in lp['blockset'], c, g))
                                for x in s:
                                    if x in lp['blockset'] and x != lp['header']:
                                        edges[(b, x)] = bor(edges.get((b, x), FALSE), g)
                                continue
                    if t in self.dead or f in self.dead:
                        d, live = (t, f) if t in self.dead else (f, t)
                        self.obligation(ins, d, g, c if d == t else bnot(c))
                        edges[(b, live)] = bor(edges.get((b, live), FALSE), g)
                        continue
                    if t == f:
                        edges[(b, t)] = g
                        continue
                    edges[(b, t)] = bor(edges.get((b, t), FALSE), band(g, c))
                    edges[(b, f)] = bor(edges.get((b, f), FALSE), band(g, bnot(c)))
                else:
                    if s[0] in self.dead:
                        self.obligation(ins, s[0], g, TRUE)
                    edges[(b, s[0])] = bor(edges.get((b, s[0]), FALSE), g)
            elif op == 'switch':
                v = self.val(ins['cond'])
                rest = g
                for cv, dst in ins['cases']:
                    c = eq0(v - self.val(cv)) if isinstance(v, Poly) else FALSE
                    if dst not in self.dead:
                        edges[(b, dst)] = bor(edges.get((b, dst), FALSE), band(rest, c))
                    rest = band(rest, bnot(c))
                d = ins['default']
                if d in self.dead:
                    pass
                else:
                    edges[(b, d)] = bor(edges.get((b, d), FALSE), rest)
            elif op == 'ret':
                ops = ins.get('ops') or []
                if ops:
                    self.ret = self.val(ops[0])
                self.final = dict(self.state)
            elif op == 'unreachable':
                pass
            else:
                r = self.step(ins, op, g)
                if r is not None:
                    self.env[ins['id']] = r

    def obligation(self, ins, deadblock, g, fail):
        """a branch into a block that only aborts/throws: the condition must be impossible"""
        what = ''
        b = deadblock
        for _ in range(8):
            for i in self.blocks[b]['insts']:
                if i['op'] == 'call' and i.get('callee') and not i['callee'].startswith('llvm.'):
                    what = i['callee']
                    loc = i
            s = self.succ[b]
            if what or not s:
                break
            b = s[0]
        self.record(kind='assert', what=what, guard=g, cond=fail, line=ins.get('line'), file=ins.get('file'),
                    arg=[i['ops'] for i in self.blocks[b]['insts'] if i['op'] == 'call' and i.get('callee') == what][:1],
                    block=b)

    def record(self, **kw):
        if not self.dry:
            kw['ctx'] = tuple(self.ctx)
            kw['quants'] = tuple(self.ctxq())
            self.records.append(kw)

    def ctxvals(self):
        """the iteration a site is executed in"""
        return tuple(pa(f['iv']) for f in self.loopstack if f.get('iv') is not None) + tuple(self.unrolled)

    def ctxq(self):
        return [(f['iv'], f['trip']) for f in self.loopstack if f.get('iv') is not None]

    def phi(self, ins, b, g, edges):
        inc = []
        for p, v in ins['inc']:
            if p == -1 or p in self.dead:
                continue
            e = edges.get((p, b))
            if e is None:
                e = FALSE
            inc.append((p, e, self.lcssa(v, p, b)))
        w = tyw(ins['ty'])
        if not inc:
            return self.unknown('phi', w)
        live = [x for x in inc if x[1] is not FALSE] or inc[:1]
        r = self.coerce(live[-1][2], w) if w != 1 else self.coerce(live[-1][2], 1)
        tot = live[-1][1]
        for p, e, v in reversed(live[:-1]):
            tot2 = bor(tot, e)
            c = restrict(e, tot2)
            v = self.coerce(v, w)
            r = bite(c, v, r) if w == 1 else ite(c, v, r)
            tot = tot2
        return r

    def lcssa(self, v, p, b):
        """value v flowing from block p (possibly inside a finished loop) to block b"""
        if v[0] != 'v':
            return self.val(v)
        r = self.val(v)
        db = self.instblock.get(v[1])
        if db is None:
            return r
        l = self.blocks[db]['loop']
        # leave every loop that contains the definition but not b
        while l != -1 and b not in self.loops[l]['blockset']:
            res = self.loopres.get(l)
            if res is None:
                return self.unknown('value leaves unsupported loop', r.w if isinstance(r, Poly) else 1)
            r = res(r)
            l = self.loops[l]['parent']
        return r

    def unknown(self, why, w):
        self.unknowns.append((why, self.cur.get('line') if hasattr(self, 'cur') else None))
        if w == 1:
            return bvar(atom('bunk', (why, len(self.unknowns), self.dry), 'b', 0, 1, unk=True))
        return fresh_unknown(why, w)

    # ------------------------------------------------------------ instructions
    def step(self, ins, op, g):
        ty = ins['ty']
        w = tyw(ty)
        if op in BIN:
            a, b = (self.val(x) for x in ins['ops'])
            if w == 1:
                a, b = self.coerce(a, 1), self.coerce(b, 1)
                if op == 'and':
                    return band(a, b)
                if op == 'or':
                    return bor(a, b)
                if op in ('xor', 'add', 'sub'):
                    return bite(a, bnot(b), b)
                return self.unknown('i1 ' + op, 1)
            if w is None:
                return self.unknown('vector ' + op, 64)
            return binop(op, self.coerce(a, w), self.coerce(b, w))
        if op == 'fneg':
            return -self.coerce(self.val(ins['ops'][0]), 'd')
        if op == 'icmp':
            a, b = (self.val(x) for x in ins['ops'])
            ow = tyw(ins['opty'])
            if ow == 1:
                a, b = self.coerce(a, 1), self.coerce(b, 1)
                x = bite(a, bnot(b), b)
                if ins['pred'] == 'ne':
                    return x
                if ins['pred'] == 'eq':
                    return bnot(x)
                if ins['pred'] == 'ult':
                    return band(bnot(a), b)
                if ins['pred'] == 'ugt':
                    return band(a, bnot(b))
                return self.unknown('icmp i1', 1)
            if ow is None:
                return self.unknown('icmp vec', 1)
            a, b = self.coerce(a, ow), self.coerce(b, ow)
            if ins['opty'] == 'ptr':
                r = self.ptrcmp(ins['pred'], a, b)
                if r is not None:
                    return r
            return icmp(ins['pred'], a, b)
        if op == 'fcmp':
            a, b = (self.coerce(self.val(x), 'd') for x in ins['ops'])
            ca, cb = a.const(), b.const()
            p = ins['pred']
            if p in ('olt', 'ogt', 'ole', 'oge', 'oeq', 'une', 'ult', 'ugt', 'ule', 'uge', 'one', 'ueq', 'ord', 'uno'):
                if p == 'ord':
                    return TRUE
                if p == 'uno':
                    return FALSE
                # floating point values are numbers: ordered and unordered predicates agree
                p = {'ueq': 'oeq', 'one': 'une', 'ult': 'olt', 'ugt': 'ogt', 'ule': 'ole', 'uge': 'oge'}.get(p, p)
                if a is b:
                    return TRUE if p in ('oeq', 'ole', 'oge') else FALSE
                if p in ('ogt', 'oge'):
                    p, a, b = {'ogt': 'olt', 'oge': 'ole'}[p], b, a
                if p in ('oeq', 'une'):
                    a, b = sorted((a, b), key=repr)
                    r = bvar(atom('cmp', ('oeq', a, b), 'b', 0, 1))
                    return r if p == 'oeq' else bnot(r)
                if p == 'ole':
                    return bnot(bvar(atom('cmp', ('olt', b, a), 'b', 0, 1)))
                return bvar(atom('cmp', (p, a, b), 'b', 0, 1))
            return self.unknown('fcmp', 1)
        if op == 'select':
            c, a, b = (self.val(x) for x in ins['ops'])
            c = self.coerce(c, 1)
            if w == 1:
                return bite(c, self.coerce(a, 1), self.coerce(b, 1))
            if w is None:
                return self.unknown('select', 64)
            return ite(c, self.coerce(a, w), self.coerce(b, w))
        if op in ('zext', 'sext', 'trunc'):
            a = self.val(ins['ops'][0])
            ow = tyw(ins['opty'])
            if ow == 1:
                a = self.coerce(a, 1)
                r = ind(a, w)
                return r if op == 'zext' else -r
            if ow is None or w is None:
                return self.unknown(op, w or 64)
            a = self.coerce(a, ow)
            if op == 'trunc':
                if w == 1:
                    return bnot(eq0(binop('and', a, const(ow, 1))))
                return trunc(a, w)
            return zext(a, w) if op == 'zext' else sext(a, w)
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            a = self.val(ins['ops'][0])
            if w == 1:
                return self.coerce(a, 1)
            ow = tyw(ins.get('opty', ty))
            if w == ow or (w in (64,) and ow in (64,)):
                return self.coerce(a, w)
            if w is None:
                return self.unknown(op, 64)
            return pa(atom('op', (op, self.coerce(a, ow)), w), w) if ow else self.unknown(op, w)
        if op in ('sitofp', 'uitofp'):
            ow = tyw(ins['opty'])
            a = self.coerce(self.val(ins['ops'][0]), ow) if ow != 1 else self.coerce(self.val(ins['ops'][0]), 8)
            if w != 'd':
                return self.unknown(op, 64)
            c = a.const()
            if c is not None:
                return const('d', Fraction(c if op == 'sitofp' else c % (1 << a.w)))
            return pa(atom('op', (op, a), 'd'), 'd')
        if op in ('fptosi', 'fptoui'):
            a = self.coerce(self.val(ins['ops'][0]), 'd')
            c = a.const()
            if c is not None:
                return const(w, int(c))
            self.record(kind='fptoint', op=op, val=a, w=w, guard=g, line=ins.get('line'), file=ins.get('file'))
            return pa(atom('op', (op, a), w), w)
        if op in ('fpext', 'fptrunc', 'frem'):
            return self.unknown(op, w or 64)
        if op == 'gep':
            if ins.get('bad'):
                return self.unknown('gep', 64)
            p = self.coerce(self.val(ins['base']), 64) + ins['off']
            for v, s, t in ins['idx']:
                iw = tyw(t)
                x = self.coerce(self.val(v), iw)
                if iw != 64:
                    x = sext(x, 64)
                p = p + x * s
            return p
        if op == 'alloca':
            b = addr('alloca', ins['id'], ins.get('name') or '')
            self.base_size[b] = ins['bytes']
            self.base_align[b] = ins.get('align')
            if b not in self.state:
                self.state[b] = Node('root')
                self.state[b].base = b
            return pa(b)
        if op == 'load':
            p = self.coerce(self.val(ins['ops'][0]), 64)
            if w is None:
                return self.unknown('load agg', 64)
            if ty == 'ptr':
                return self.load(p, 'p', g)
            if ty == 'i1':
                return self.coerce(self.load(p, 8, g), 1)
            if ins.get('volatile'):
                return self.unknown('volatile', w)
            self.access('load', p, ins['bytes'], g, ins)
            return self.load(p, w, g)
        if op == 'store':
            v, p = self.val(ins['ops'][0]), self.coerce(self.val(ins['ops'][1]), 64)
            ow = tyw(ins['opty'])
            if ow == 1:
                ow, v = 8, ind(self.coerce(v, 1), 8)
            if ow is None:
                if ins['ops'][0] == ['zero']:
                    self.memset(p, const(8, 0), ins['bytes'], g)
                    return None
                self.havoc(p, g, 'aggregate store')
                return None
            self.access('store', p, ins['bytes'], g, ins)
            self.store(p, self.coerce(v, ow), ow, g)
            return None
        if op == 'call':
            return self.call(ins, g)
        if op in ('extractvalue',):
            a = self.val(ins['ops'][0])
            if isinstance(a, tuple):
                try:
                    return a[ins['indices'][0]]
                except Exception:
                    pass
            return self.unknown('extractvalue', w or 64)
        if op in ('fence',):
            return None
        return self.unknown('op ' + op, w or 64)

    def ptrcmp(self, pred, a, b):
        sa, sb = self.split(a), self.split(b)
        if a.const() == 0 or b.const() == 0:
            x = sb if a.const() == 0 else sa
            if x is not None and x[0].kind == 'addr' and pred in ('eq', 'ne'):
                return FALSE if pred == 'eq' else TRUE
            return None
        if sa and sb and sa[0] is sb[0]:
            return icmp({'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pred, pred), sa[1], sb[1])
        if sa and sb and pred in ('eq', 'ne') and sa[0].kind == 'addr' and sb[0].kind == 'addr':
            return FALSE if pred == 'eq' else TRUE
        return None

    def access(self, kind, p, nbytes, g, ins):
        s = self.split(p)
        if s is not None and not self.dry:
            self.record(kind=kind, base=s[0], off=s[1], bytes=nbytes, guard=g, line=ins.get('line'), file=ins.get('file'))

    # ------------------------------------------------------------ memory
    def split(self, p):
        cand = [m[0] for m, c in p.t.items() if len(m) == 1 and c == 1 and isptr(m[0])]
        if len(cand) != 1:
            return None
        b = cand[0]
        off = p - pa(b)
        if b in off.fv:
            return None
        return b, off

    def head(self, base):
        h = self.state.get(base)
        if h is None:
            h = self.mkhead(base)
        return h

    def mkhead(self, base):
        if self.loopstack:
            n = Node('loopstart')
            n.loop = len(self.loopstack) - 1
            n.outer = self.loopstack[-1]
            n.base = base
        else:
            n = Node('root')
            n.base = base
        self.state[base] = n
        return n

    def push(self, base, node):
        if node.kind == 'havoc':
            self.nhavoc += 1
        node.prev = self.head(base)
        node.base = base
        self.state[base] = node
        if node.kind not in ('undef', 'root', 'loopstart') and (base not in self.written or self.written[base][0] == 'havoc'):
            c = getattr(self, 'cur', None) or {}
            self.written[base] = (node.kind, c.get('file'), c.get('line'))
        for f in self.loopstack:
            f['mod'].add(base)

    def load(self, p, w, g):
        s = self.split(p)
        if s is None:
            return self.unknown('load through unresolved pointer', 64 if w == 'p' else w)
        b, off = s
        if b.kind == 'addr' and b.args[0] == 'g':
            c = self.mod.const_load(b.args[1], off, w)
            if c is not None:
                return c
        return self.query(b, off, w, g)

    def allhavoc_note(self):
        return getattr(self, 'allhavoc', False)

    def query_final(self, base, off, w):
        """content of base[off] when the function returns"""
        old, self.state = self.state, dict(self.final)
        r = self.query(base, off, w)
        self.state = old
        return r

    def query(self, base, off, w, g=TRUE, node=None):
        if node is None:
            node = self.head(base)
        return self._query(node, base, off, w, g)

    def _query(self, node, base, off, w, cond):
        rw = 64 if w == 'p' else w
        acc = const(rw, 0)
        arms = []     # (cond, value)
        nbytes = WB[w]
        steps = 0
        while True:
            steps += 1
            k = node.kind
            if k == 'root':
                tail = self.initial(base, off, w)
                break
            if k == 'loopstart':
                tail = self.loopstart(node, base, off, w, cond)
                break
            r = self.match(node, off, nbytes)
            if r is None:
                node = node.prev
                continue
            if r is MAYBE and k == 'inc' and node.w == w and node.quants:
                hit = band(node.guard, eq0(node.off - off))
                acc = acc + bsum(list(node.quants), ind(hit, rw) * node.val)
                node = node.prev
                continue
            if r is MAYBE and k == 'scan' and node.w == w:
                tail = mkscan(node.quants, node.val, nbytes, off, self._query(node.prev, base, off, w, cond))
                break
            if r is MAYBE:
                if band(node.guard if not (node.guard.fv & {q[0] for q in node.quants}) else TRUE, cond) is FALSE:
                    node = node.prev
                    continue
                if node.kind == 'set' and node.w == w and w != 'p':
                    # an update whose target cannot be inverted: keep it as a quantified update
                    rest = self._query(node.prev, base, off, w, cond)
                    tail = mkscan(node.quants, [(node.guard, node.off, node.val)], nbytes, off, rest)
                    break
                tail = self.unknown('memory: undecided overlap', rw)
                break
            sol, c, free = r
            g = node.guard
            if sol:
                g = subst(g, sol)
            freev = {q[0] for q in free}
            if node.kind == 'inc':
                if node.w != w and not (node.w == 64 and w == 'p'):
                    tail = self.unknown('memory: width', rw)
                    break
                v = subst(node.val, sol) if sol else node.val
                full = band(g, c)
                if not (g.fv & freev):
                    if band(full, cond) is FALSE:
                        node = node.prev
                        continue
                    full = restrict(full, cond)
                    v = ind(full, rw) * bsum(list(free), v)
                else:
                    v = bsum(list(free), ind(full, rw) * v)
                acc = acc + v
                node = node.prev
                continue
            # set / undef / havoc: the last iteration of undetermined variables wins
            if free:
                last = {}
                bad = False
                for v_, t in free:
                    if v_ in g.fv:
                        bad = True
                    tt = subst(t, sol) if sol else t
                    tt = subst(tt, last) if last else tt
                    last[v_] = zcast(tt, 64) - 1
                    c = band(c, ge0(zcast(tt, 64) - 1))
                if bad:
                    if node.val is not None and not (node.val.fv & freev) and False:
                        pass
                    tail = self.unknown('memory: conditional overwrite in loop', rw)
                    break
                sol = dict(sol)
                sol.update(last)
                g = subst(node.guard, sol)
            full = band(g, c)
            if band(full, cond) is FALSE:
                node = node.prev
                continue
            full = restrict(full, cond)
            if node.kind == 'havoc':
                v = self.unknown('memory: ' + str(node.site), rw)
            elif node.kind == 'undef':
                v = pa(atom('undef', (node.base, off), rw))
            elif node.kind == 'zero':
                v = const(rw, 0)
            else:
                nw = 64 if node.w == 'p' else node.w
                v = subst(node.val, sol) if sol else node.val
                if nw != rw:
                    v = self.recast(v, nw, rw)
            if full is TRUE:
                tail = v
                break
            arms.append((full, v + acc))
            acc0 = acc
            cond = band(cond, bnot(full))
            node = node.prev
            if len(arms) > 40 or steps > 400:
                tail = self.unknown('memory: too many cases', rw)
                break
        r = tail + acc
        for c, v in reversed(arms):
            r = ite(c, v, r)
        return r

    def recast(self, v, nw, rw):
        if v.const() == 0:
            return const(rw, 0)
        ms = list(v.t.items())
        if len(ms) == 1 and ms[0][1] == 1 and len(ms[0][0]) == 1 and ms[0][0][0].kind in ('ld', 'undef'):
            a = ms[0][0][0]
            if a.kind == 'ld':
                return pa(atom('ld', a.args[:2] + (rw,), rw), rw)
            return pa(atom('undef', a.args, rw), rw)
        return self.unknown('memory: width', rw)

    def match(self, node, off, nbytes):
        if node.kind in ('undef', 'zero', 'havoc') and node.w == 'bytes':
            if node.off is None:
                return {}, TRUE, []
            # byte region: last quantifier is the byte index
            e, n = node.quants[-1]
            r = solve(node.off - off, node.quants)
            if r is None or r is MAYBE:
                return r
            sol, c = r
            if e not in sol:
                return MAYBE
            c = band(c, ge0(n - sol[e] - nbytes))
            if c is FALSE:
                return None
            free = [q for q in node.quants if q[0] not in sol]
            return sol, c, free
        nb = WB.get(node.w, 8)
        if node.kind == 'scan':
            for g, o, v in node.val:
                a, b = sym_range(o - off)
                if a is None or (a < nbytes and b > -nb):
                    return MAYBE
            return None
        r = solve(node.off - off, node.quants)
        if r is None:
            if nb == nbytes:
                return None
            # mixed widths: partial overlap possible unless clearly disjoint
            D = node.off - off
            a, b = sym_range(D)
            if a is not None and (a >= nbytes or b <= -nb):
                return None
            mx = max(nb, nbytes)
            # aligned accesses of different width: same cell iff equal after rounding; be conservative
            for d in range(-mx + 1, mx):
                if d and solve(D + d, node.quants) is not None:
                    return MAYBE
            return None
        if r is MAYBE:
            return MAYBE
        if nb != nbytes and node.kind != 'set':
            return MAYBE
        sol, c = r
        free = [q for q in node.quants if q[0] not in sol]
        return sol, c, free

    def initial(self, base, off, w):
        rw = 64 if w == 'p' else w
        if base.kind == 'addr' and base.args[0] in ('alloca', 'new'):
            return pa(atom('undef', (base, off), rw))
        return pa(atom('ld', (base, off, w), rw), rw)

    def loopstart(self, node, base, off, w, cond):
        f = node.outer
        if self.dry or w == 'p' or base not in self.modset.get((f['id']), ()):
            if not self.dry and base in self.modset.get(f['id'], ()):
                f['assume'].append((base, off, w))
            # go to the state before the loop
            return self.outer_query(f, base, off, w, cond)
        rw = 64 if w == 'p' else w
        return pa(mkph(f['uid'], base, off, w), rw)

    def outer_query(self, f, base, off, w, cond):
        st = f['outer_state']
        n = st.get(base)
        if n is None:
            if f['depth'] > 0:
                n = Node('loopstart')
                n.outer = self.loopstack_at(f['depth'] - 1)
                n.loop = f['depth'] - 1
            else:
                n = Node('root')
            n.base = base
            st[base] = n
        return self._query(n, base, off, w, cond)

    def loopstack_at(self, d):
        return self.loopstack[d]

    def store(self, p, v, w, g, quants=(), site=None):
        s = self.split(p)
        if s is None:
            self.havoc_all('store through unresolved pointer', g)
            return
        b, off = s
        if self.loopstack and not self.dry and w != 'p' and any(a.kind == 'mark' for a in v.fv):
            # accumulation x += d on a loop-carried cell
            cur = self.query(b, off, w, g)
            ph = [m[0] for m, c in cur.t.items() if len(m) == 1 and c == 1 and m[0].kind == 'ph' and m[0].args[1] is b]
            if len(ph) == 1:
                d = v - cur
                if not hasatom(d, ph[0]):
                    self.push(b, Node('inc', None, g, quants, off, w, d, site or self.cur))
                    return
        self.push(b, Node('set', None, g, quants, off, w, v, site or self.cur))

    def inc(self, p, v, w, g, quants=()):
        s = self.split(p)
        if s is None:
            self.havoc_all('update through unresolved pointer', g)
            return
        self.push(s[0], Node('inc', None, g, quants, s[1], w, v, self.cur))

    def bytes_region(self, p, n, g, kind):
        s = self.split(p)
        if s is None:
            self.havoc_all('region', g)
            return
        if n is None:
            self.push(s[0], Node(kind, None, g, (), None, 'bytes', None, self.cur))
            return
        n = n if isinstance(n, Poly) else const(64, n)
        e = new_iv('z', n)
        self.push(s[0], Node(kind, None, g, [(e, n)], s[1] + pa(e), 'bytes', None, self.cur))

    def memset(self, p, v, n, g):
        if v.const() == 0:
            self.bytes_region(p, n, g, 'zero')
        else:
            self.bytes_region(p, n, g, 'havoc')

    def havoc(self, p, g, why):
        s = self.split(p)
        if s is None:
            self.havoc_all(why, g)
            return
        nd = Node('havoc', None, g, (), None, 'bytes', None, why)
        self.push(s[0], nd)

    def havoc_all(self, why, g):
        self.unknown(why, 8)
        for b in list(self.state):
            self.push(b, Node('havoc', None, g, (), None, 'bytes', None, why))
        self.allhavoc = True

    def memcpy(self, d, s, n, g):
        n = n.const() if isinstance(n, Poly) else n
        sd, ss = self.split(d), self.split(s)
        if n is None or sd is None or ss is None:
            self.havoc(d, g, 'memcpy')
            return
        known = self.elemw(sd[0]) or self.elemw(ss[0])
        w = known or 8
        if n % WB[w]:
            w = 8
        if self.dry and known:
            self.setw(sd[0], w)
        e = new_iv('e', const(64, n // WB[w]))
        v = self.query(ss[0], ss[1] + pa(e) * WB[w], w, g)
        self.push(sd[0], Node('set', None, g, [(e, const(64, n // WB[w]))], sd[1] + pa(e) * WB[w], w, v, self.cur))

    def setw(self, base, w):
        self.basew.setdefault(base, w)

    def elemw(self, base):
        if base.kind == 'addr' and base.args[0] == 'arg' and base.args[1] in self.width_hints:
            return self.width_hints[base.args[1]]
        r = self.basew.get(base)
        if r:
            return r
        if base.kind == 'addr' and base.args[0] == 'alloca':
            i = self.inst[base.args[1]]
            lw = i.get('leaf')
            if lw:
                return 'd' if lw == 'double' else 'p' if lw == 'ptr' else int(lw[1:])
        return None

    def content(self, p, geom, g=TRUE):
        """array content argument: the array of geometry (width, [(n, stride)...]) at p"""
        s = self.split(p)
        if s is None:
            return self.unknown('content of unresolved pointer', 64)
        b, off = s
        if self.pristine(b):
            return atom('ref', (b, off, geom), 64)
        if geom is None:
            return self.unknown('content of unknown type', 64)
        w, dims = geom
        es = [new_iv('e', const(64, n)) for n, st in dims]
        rel = sum((pa(e) * st for e, (n, st) in zip(es, dims)), const(64, 0))
        v = self.query(b, off + rel, w, g)
        # an unmodified stretch of memory is named by its address
        ms = list(v.t.items())
        if len(ms) == 1 and ms[0][1] == 1 and len(ms[0][0]) == 1 and ms[0][0][0].kind == 'ld':
            a = ms[0][0][0]
            d = a.args[1] - rel
            if not (d.fv | a.args[0].fv) & set(es) and a.args[2] == w:
                return atom('ref', (a.args[0], d, geom), 64)
        for e, (n, st) in reversed(list(zip(es, dims))):
            v = lam(e, n, v)
            if e is not es[0]:
                v = pa(v, 64)
        return v

    def set_cells(self, p, geom, g, f, kind='set'):
        """cell (e0,e1,..) of the array at p := f((e0,e1,..))"""
        w, dims = geom
        s = self.split(p)
        if s is None:
            self.havoc_all('region store', g)
            return
        es = [new_iv('e', const(64, n)) for n, st in dims]
        rel = sum((pa(e) * st for e, (n, st) in zip(es, dims)), const(64, 0))
        v = f(tuple(pa(e) for e in es))
        self.push(s[0], Node(kind, None, g, [(e, const(64, n)) for e, (n, st) in zip(es, dims)], s[1] + rel, w, v, self.cur))

    def pristine(self, b):
        """no update to b on any enclosing level"""
        n = self.state.get(b)
        if b.kind == 'addr' and b.args[0] in ('alloca', 'new'):
            return False
        depth = len(self.loopstack)
        while True:
            if n is None:
                if depth == 0:
                    return True
                f = self.loopstack[depth - 1]
                if b in self.modset.get(f['id'], ()) and not self.dry:
                    return False
                depth -= 1
                n = f['outer_state'].get(b)
                continue
            if n.kind == 'root':
                return True
            if n.kind == 'loopstart':
                f = n.outer
                if b in self.modset.get(f['id'], ()) and not self.dry:
                    return False
                depth = f['depth']
                n = f['outer_state'].get(b)
                continue
            return False

    # ------------------------------------------------------------ loops
    def scev(self, s, L):
        if s is None:
            raise Giveup('scev')
        k = s[0]
        if k == 'c':
            return const(s[1], int(s[2]))
        if k == 'val':
            v = self.val(s[1])
            w = tyw(s[2])
            return self.coerce(v, w)
        if k in ('add', 'mul', 'smax', 'umax', 'smin', 'umin'):
            xs = [self.scev(x, L) for x in s[2:]]
            r = xs[0]
            for x in xs[1:]:
                if k == 'add':
                    r = r + x
                elif k == 'mul':
                    r = r * x
                else:
                    c = icmp('slt' if k[0] == 's' else 'ult', r, x)
                    r = ite(c, x, r) if k.endswith('max') else ite(c, r, x)
            return r
        if k == 'trunc':
            return trunc(self.scev(s[1], L), tyw(s[2]))
        if k == 'zext':
            return zext(self.scev(s[1], L), tyw(s[2]))
        if k == 'sext':
            return sext(self.scev(s[1], L), tyw(s[2]))
        if k == 'ptrtoint':
            return self.scev(s[1], L)
        if k == 'udiv':
            return binop('udiv', self.scev(s[1], L), self.scev(s[2], L))
        if k == 'rec':
            a, b = self.scev(s[2], L), self.scev(s[3], L)
            f = next((f for f in self.loopstack if f['id'] == s[1]), None)
            if f is None or f.get('iv') is None:
                raise Giveup('scev rec')
            return a + b * mk(a.w, {(f['iv'],): 1})
        raise Giveup('scev ' + k)

    def loop_shape(self, L):
        lp = self.loops[L]
        ex = [b for b in lp['exiting'] if any(x not in lp['blockset'] and x not in self.dead for x in (self.succ[b] or []))]
        if lp['btc'] is None:
            return None, 'no trip count'
        if len(ex) != 1:
            return None, 'several exits'
        if lp['latch'] == -1:
            return None, 'several latches'
        if ex[0] == lp['header'] and lp['header'] != lp['latch']:
            for i in self.blocks[ex[0]]['insts']:
                if i['op'] == 'store' or (i['op'] == 'call' and not i.get('readnone') and not i.get('readonly')
                                          and not (i.get('callee') or '').startswith('llvm.')):
                    if not self.models.pure_in_header(i):
                        return None, 'effect in loop test'
            return 'header', None
        if ex[0] == lp['latch']:
            return 'latch', None
        return None, 'exit in the middle'

    def run_loop(self, L, g, edges):
        """summarise the loop; a short loop that cannot be summarised is expanded instead"""
        if not self.unroll or self.dry:
            return self.run_loop1(L, g, edges)
        snap = (dict(self.env), dict(self.state), len(self.records), len(self.unknowns), len(self.notes), dict(edges), dict(self.loopres), self.nhavoc)
        self.nhavoc = 0
        self.run_loop1(L, g, edges)
        if not self.nhavoc and len(self.unknowns) == snap[3]:
            self.nhavoc = snap[7]
            return
        new = self.nhavoc
        self.nhavoc = snap[7] + new
        shape, why = self.loop_shape(L)
        if not shape:
            return
        try:
            btc = zext(self.scev(self.loops[L]['btc'], L), 64).const()
        except Giveup:
            return
        if btc is None:
            return
        trip = btc if shape == 'header' else btc + 1
        if trip > self.unroll:
            return
        self.env = snap[0]
        self.state.clear()
        self.state.update(snap[1])
        del self.records[snap[2]:], self.unknowns[snap[3]:], self.notes[snap[4]:]
        edges.clear()
        edges.update(snap[5])
        self.loopres = snap[6]
        self.nhavoc = snap[7]
        self.expand(L, g, edges, shape, trip)

    def expand(self, L, g, edges, shape, trip):
        lp = self.loops[L]
        hb = lp['header']
        phis = [i for i in self.blocks[hb]['insts'] if i['op'] == 'phi']
        for t in range(trip + (shape == 'header')):
            vals = {}
            for ins in phis:
                w = tyw(ins['ty'])
                v = None
                for p, x in ins['inc']:
                    if (p in lp['blockset']) == (t > 0) and p not in self.dead and p != -1:
                        v = self.lcssa(x, p, hb)
                        break
                vals[ins['id']] = self.coerce(v, w) if v is not None and w is not None else self.unknown('phi', w or 64)
            self.env.update(vals)
            self.unrolled.append(const(64, t))
            nexits = len(self.exits)
            if t < trip:
                self.region(L, g)
            else:
                self.block(hb, g, {}, L)   # the exit test
            del self.exits[nexits:]
            self.unrolled.pop()
        self.loopres[L] = lambda r: r
        for b in lp['exiting']:
            for x in self.succ[b] or []:
                if x not in lp['blockset'] and x not in self.dead:
                    edges[(b, x)] = g

    def run_loop1(self, L, g, edges):
        lp = self.loops[L]
        shape, why = self.loop_shape(L)
        hb = lp['header']
        btc = None
        if shape:
            try:
                btc = zext(self.scev(lp['btc'], L), 64)
            except Giveup as e:
                shape, why = None, str(e)
        outer_edges = [p for p in edges if p[1] == hb and p[0] not in lp['blockset']]
        frame = {'id': L, 'mod': set(), 'outer_state': dict(self.state), 'depth': len(self.loopstack),
                 'assume': [], 'uid': (L, next(sym._ivn))}
        frame['outer_state_obj'] = self.state
        if shape:
            trip = btc if shape == 'header' else btc + 1
            iv = new_iv('i', btc + 1 if shape == 'header' else trip)
            # inside the body the range is [0, trip); only the header of a header-exit loop sees btc
            ivb = new_iv('i', trip)
            frame['iv'], frame['trip'] = ivb, trip
        else:
            frame['iv'] = new_iv('u', const(64, 1 << 40))
            frame['trip'] = const(64, 1 << 40)
            trip = None
        frame['outer_state'] = self.state
        self.loopstack.append(frame)
        self.state = {}
        # header phis
        phis = {}
        affine = {p['id']: p['step'] for p in lp['phis']}
        pre = [p for p in outer_edges]
        for ins in self.blocks[hb]['insts']:
            if ins['op'] != 'phi':
                break
            w = tyw(ins['ty'])
            start = None
            latchv = None
            for p, v in ins['inc']:
                if p in lp['blockset']:
                    latchv = v
                elif p not in self.dead and p != -1:
                    start = self.lcssa(v, p, hb) if start is None else start
            if w is None:
                self.env[ins['id']] = self.unknown('phi agg', 64)
                continue
            start = self.coerce(start, w) if start is not None else self.unknown('phi start', w)
            if shape and ins['id'] in affine and w != 1 and affine[ins['id']] is not None:
                try:
                    step = self.scev(affine[ins['id']], L)
                    self.env[ins['id']] = start + step * mk(step.w, {(frame['iv'],): 1})
                    continue
                except Giveup:
                    pass
            if w == 1:
                at = atom('bphi', (frame['uid'], ins['id']), 'b', 0, 1, selfvar=True)
                self.env[ins['id']] = bvar(at)
            else:
                at = atom('phi', (frame['uid'], ins['id'], 'p' if ins['ty'] == 'ptr' else w), w, selfvar=True)
                self.env[ins['id']] = pa(at)
            phis[ins['id']] = (at, start, latchv, w)
        nexits = len(self.exits)
        nrec = len(self.records)
        guards, bedges = self.region(L, g)
        del self.exits[nexits:]
        if self.dry:
            self.modset.setdefault(L, set()).update(frame['mod'])
        body = self.state
        self.state = frame['outer_state']
        self.loopstack.pop()
        self.finish_loop(L, lp, frame, shape, why, g, phis, body, nrec, btc)
        # edges out of the loop
        ex = [(b, x) for b in lp['exiting'] for x in (self.succ[b] or []) if x not in lp['blockset'] and x not in self.dead]
        if len(ex) == 1 or shape:
            for b, x in ex:
                edges[(b, x)] = g
        else:
            for n, (b, x) in enumerate(ex):
                edges[(b, x)] = band(g, bvar(atom('bunk', ('loop exit', L, n, self.dry, next(sym._ivn)), 'b', 0, 1, unk=True)))

    def finish_loop(self, L, lp, frame, shape, why, g, phis, body, nrec, btc):
        iv, trip = frame['iv'], frame['trip']
        if self.dry:
            for b in frame['mod']:
                n = Node('havoc', None, g, (), None, 'bytes', None, 'dry')
                n.prev = self.head(b)
                n.base = b
                self.state[b] = n
                for f in self.loopstack:
                    f['mod'].add(b)
            self.loopres[L] = lambda r: self.dryval(r)
            return
        if not shape:
            self.notes.append('loop at %s not summarised: %s' % (self.loc(lp['header']), why))
            for b in frame['mod']:
                self.push(b, Node('havoc', None, g, (), None, 'bytes', None, 'loop not summarised: ' + why))
            for r in self.records[nrec:]:
                r['unsure'] = True
            self.loopres[L] = None
            self.loopres.pop(L)
            return
        # entries of the body in order
        ents = {}
        for b, n in body.items():
            lst = []
            while n is not None and n.kind not in ('loopstart', 'root'):
                lst.append(n)
                n = n.prev
            lst.reverse()
            if lst:
                ents[b] = lst
        # violated pointer assumptions
        for (b, off, w) in frame['assume']:
            for e in ents.get(b, ()):
                if self.overlap_prior(e, off, WB[w], iv, trip):
                    self.unknown('pointer modified in loop', 64)
                    for bb in frame['mod']:
                        self.push(bb, Node('havoc', None, g, (), None, 'bytes', None, 'pointer modified in loop'))
                    self.loopres.pop(L, None)
                    return
        res = self.resolve(L, lp, frame, phis, ents, g)

        def fin(x):
            return subst(x, res)
        self.loopres[L] = lambda r, fin=fin, iv=iv, btc=btc: self.mapval(r, lambda x: subst(fin(x), {iv: btc}))
        # update the records made in the body
        for r in self.records[nrec:]:
            for k2, x in list(r.items()):
                if isinstance(x, (Poly, Bool)) or (isinstance(x, tuple) and k2 in ('vals', 'ctx')):
                    r[k2] = fin(x)
        # push summarised entries
        todo = []
        for b, lst in ents.items():
            out = []
            for e in lst:
                out.append(Node(e.kind, None, fin(e.guard), [(q, fin(t)) for q, t in e.quants],
                                fin(e.off) if e.off is not None else None, e.w,
                                fin(e.val) if e.val is not None else None, e.site))
            todo.append((b, out))
        for b, out in todo:
            self.push_group(b, out, iv, trip)

    def mapval(self, r, f):
        if isinstance(r, tuple):
            return tuple(self.mapval(x, f) for x in r)
        return f(r)

    def dryval(self, r):
        if isinstance(r, tuple):
            return tuple(self.dryval(x) for x in r)
        if isinstance(r, Poly):
            if self.split(r) is not None:
                return r
            return fresh_unknown('dry', r.w)
        return bvar(atom('bunk', ('dry', next(sym._ivn)), 'b', 0, 1, unk=True))

    def push_group(self, b, out, iv, trip):
        if trip.const() == 1:
            z = {iv: const(64, 0)}
            for e in out:
                self.push(b, Node(e.kind, None, subst(e.guard, z), [(q, subst(t, z)) for q, t in e.quants],
                                  subst(e.off, z) if e.off is not None else None, e.w,
                                  subst(e.val, z) if e.val is not None else None, e.site))
            return
        first = out[0]
        indep = all(e.off is None or iv not in e.off.fv for e in out)
        if indep and first.kind in ('undef', 'zero', 'set') and first.guard.fv.isdisjoint({iv}) and len(out) > 1:
            # per-iteration temporary: content after the loop is the last iteration's
            covered = first.kind == 'undef' or not any(e.kind == 'inc' for e in out)
            if covered:
                last = {iv: trip - 1}
                c = ge0(trip - 1)
                for e in out:
                    self.push(b, Node(e.kind, None, band(subst(e.guard, last), c), [(q, subst(t, last)) for q, t in e.quants],
                                      e.off, e.w, subst(e.val, last) if e.val is not None else None, e.site))
                return
        conf = set()
        if len(out) > 1 or iv in first.guard.fv:
            for i, e1 in enumerate(out):
                for j in range(i, len(out)):
                    e2 = out[j]
                    if e1.kind == 'inc' and e2.kind == 'inc':
                        continue
                    if e1 is e2:
                        continue  # same entry: the last iteration wins
                    if self.cross_overlap(e1, e2, iv, trip):
                        conf.add(i)
                        conf.add(j)
        if any(e.kind == 'scan' for e in out):
            e = out[0]
            if len(out) == 1:
                if any(iv in x.fv for t in e.val for x in t):
                    self.push(b, Node('scan', None, TRUE, [(iv, trip)] + list(e.quants), None, e.w, e.val, e.site))
                else:
                    self.push(b, Node('scan', None, TRUE, list(e.quants), None, e.w,
                                      tuple((band(t[0], ge0(trip - 1)), t[1], t[2]) for t in e.val), e.site))
            else:
                self.push(b, Node('havoc', None, TRUE, (), None, 'bytes', None, 'loop-carried overwrite'))
            return
        if conf and len(conf) == len(out) and all(e.kind == 'set' and e.w == out[0].w != 'p' and not e.quants for e in out):
            self.push(b, Node('scan', None, TRUE, [(iv, trip)], None, out[0].w,
                              tuple((e.guard, e.off, e.val) for e in out), out[0].site))
            return
        for i, e in enumerate(out):
            q = [(iv, trip)] + list(e.quants)
            if i in conf:
                if e.off is None:
                    self.push(b, Node('havoc', None, TRUE, (), None, 'bytes', None, 'loop-carried overwrite'))
                else:
                    kind = 'havoc'
                    if e.w == 'bytes':
                        self.push(b, Node('havoc', None, TRUE, q, e.off, 'bytes', None, 'loop-carried overwrite'))
                    else:
                        z = new_iv('z', const(64, WB[e.w]))
                        self.push(b, Node('havoc', None, TRUE, q + [(z, const(64, WB[e.w]))], e.off + pa(z), 'bytes', None,
                                          'loop-carried overwrite'))
                continue
            if e.off is None:
                self.push(b, Node(e.kind, None, TRUE if e.kind == 'havoc' else e.guard, (), None, 'bytes', None, e.site))
                continue
            self.push(b, Node(e.kind, None, e.guard, q, e.off, e.w, e.val, e.site))

    def renamed(self, e, iv):
        """entry with fresh copies of its quantifiers and of iv"""
        ren = {}
        n2 = new_iv('r', iv.args[-1])
        ren[iv] = pa(n2)
        for q, t in e.quants:
            nq = new_iv('r', subst(t, ren))
            ren[q] = pa(nq)
        return subst(e.off, ren), n2

    def cross_overlap(self, e1, e2, iv, trip):
        """can e1 at iteration i and e2 at iteration i' != i touch the same bytes?"""
        if e1.off is None or e2.off is None:
            return True
        o2, i2 = self.renamed(e2, iv)
        n1 = 1 if e1.w == 'bytes' else WB[e1.w]
        n2 = 1 if e2.w == 'bytes' else WB[e2.w]
        return self._cross(e1.off - o2, iv, i2, n1, n2, lambda d: d != 0)

    def _cross(self, D, i1, i2, n1, n2, bad):
        """is D in (-n1, n2) possible with i2 - i1 = d and bad(d)?"""
        a, b = sym_range(D)
        if a is not None and (a >= n2 or b <= -n1):
            return False
        for delta in ([0] if n1 == n2 else range(-n1 + 1, n2)):
            eqs = split_eqs(D - delta)
            ok = False
            for E in eqs:
                r = sym_range(E)
                if r[0] is not None and (r[0] > 0 or r[1] < 0):
                    ok = True
                    break
                if not E.fv or E.const() is not None:
                    if E.const() not in (0, None):
                        ok = True
                        break
                    continue
                c1, c2 = lin_coef(E, i1), lin_coef(E, i2)
                others = [v for v in E.fv if v is not i1 and v is not i2]
                for c in ({c1, -c2} if c1 and c2 and (c1 > 0) == (c2 < 0) else ()):
                    # E = c*(i1 - i2) + rest, the rest may still contain a multiple of i1 or i2
                    rest = E - mk(E.w, {(i1,): c}) + mk(E.w, {(i2,): c})
                    k = rest.const()
                    if k is not None:
                        # c*(i1-i2)+k = 0  ->  i2-i1 = k/c
                        if k % c or not bad(k // c):
                            ok = True
                            break
                    else:
                        lo, hi = sym_range(rest)
                        if lo is not None:
                            # i2-i1 = rest/c
                            xs = sorted((Fraction(lo, c), Fraction(hi, c)))
                            import math
                            l, h = math.ceil(xs[0]), math.floor(xs[1])
                            if l > h or not any(bad(d) for d in {l, h, min(max(0, l), h), min(max(-1, l), h), min(max(1, l), h)}):
                                ok = True
                                break
                if ok:
                    break
            if not ok:
                return True
        return False

    def overlap_prior(self, e, off, nbytes, iv, trip):
        """may entry e of an earlier iteration (i' < i) touch [off, off+nbytes) read at iteration i?"""
        if e.off is None:
            return True
        if trip.const() == 1:
            return False
        o2, i2 = self.renamed(e, iv)
        n1 = nbytes
        n2 = 1 if e.w == 'bytes' else WB[e.w]
        return self._cross(off - o2, iv, i2, n1, n2, lambda d: d < 0)

    def resolve(self, L, lp, frame, phis, ents, g):
        return LoopRes(self, frame, phis, ents, g)

    def loc(self, b):
        for i in self.blocks[b]['insts']:
            if i.get('line'):
                return '%s:%s' % (i.get('file', '?').split('/')[-1], i['line'])
        return 'block %d' % b

    # ------------------------------------------------------------ calls
    def call(self, ins, g):
        callee = ins.get('callee')
        w = tyw(ins['ty'])
        if callee is None:
            self.havoc_all('indirect call', g)
            return self.unknown('indirect call', w or 64) if ins['ty'] != 'void' else None
        ops = [self.val(x) for x in ins['ops']]
        r = self.models.call(self, ins, callee, ops, g)
        return r


class BoolHolder:
    """lets a boolean loop-carried value live in a substitution map"""

    def __init__(self, b):
        self.b = b
        self.w = 'b'


class LoopRes(sym.LoopResBase):
    """substitution that closes the loop-carried values of one loop"""

    def __init__(self, A, frame, phis, ents, g):
        self.A, self.uid, self.iv, self.trip, self.g = A, frame['uid'], frame['iv'], frame['trip'], g
        self.ents = ents
        self.state, self.stack = dict(A.state), list(A.loopstack)   # before the loop; values may be closed much later
        self.latch = {}
        self.done = {}
        self.busy = set()
        dict.__setitem__(self, mark(self.uid), None)
        for pid, (at, start, lv, w) in phis.items():
            v = A.coerce(A.val(lv), w) if lv is not None else A.unknown('latch', w)
            self.latch[at] = (start, v, w)
            dict.__setitem__(self, at, None)

    def __getitem__(self, a):
        r = self.done.get(a)
        if r is not None:
            return r
        A, iv = self.A, self.iv
        start, v, w = self.latch[a]
        if a in self.busy:
            return BoolHolder(bvar(a)) if w == 1 else pa(a)
        self.busy.add(a)
        v = subst(v, self)
        self.busy.discard(a)
        unresolved = any(x in self.latch for x in v.fv if x is not a) or mark(self.uid) in v.fv
        if w == 1:
            if a in v.fv or unresolved:
                r = BoolHolder(A.unknown('loop-carried condition', 1))
            else:
                r = BoolHolder(bite(eq0(pa(iv)), start, subst(v, {iv: pa(iv) - 1})))
        else:
            d = v - pa(a, w)
            if unresolved:
                r = A.unknown('loop-carried value', w)
            elif a not in d.fv:
                j = new_iv('t', pa(iv))
                r = start + bsum([(j, pa(iv))], subst(d, {iv: pa(j)}))
            elif a not in v.fv:
                r = ite(eq0(pa(iv)), start, subst(v, {iv: pa(iv) - 1}))
            else:
                r = A.unknown('loop-carried value', w)
        if not self.busy:
            self.done[a] = r
        return r

    def resolve(self, a):
        r = self.done.get(a)
        if r is not None:
            return r
        A = self.A
        if a in self.busy:
            return A.unknown('cyclic loop-carried memory', a.w)
        self.busy.add(a)
        uid, base, off, w = a.args
        rw = 64 if w == 'p' else w
        base = subst_atom_raw(base, self, {})
        off = subst(off, self)
        fixed = FALSE      # where entries at a place that is the same in every iteration overlap
        bad = base.unk or off.unk or mark(self.uid) in off.fv or any(x in self.latch for x in off.fv)
        if not bad:
            for e in self.ents.get(base, ()):
                if e.off is not None and e.off.fv & self.keys():
                    e = Node(e.kind, None, e.guard, e.quants, subst(e.off, self), e.w)
                    if e.off.unk:
                        bad = True
                        break
                if A.overlap_prior(e, off, WB[w], self.iv, self.trip):
                    m = A.match(e, off, WB[w]) if e.off is not None and not e.quants and e.kind != 'scan' and self.iv not in e.off.fv else None
                    if m and m is not MAYBE and not m[0] and not m[2]:
                        fixed = bor(fixed, m[1])
                        continue
                    bad = True
                    break
        self.busy.discard(a)
        if bad:
            r = A.unknown('loop-carried memory value', rw)
        else:
            now = A.state, A.loopstack
            A.state, A.loopstack = self.state, self.stack
            r = A.query(base, off, w, self.g)
            A.state, A.loopstack = now
            if fixed is not FALSE:
                r = ite(fixed, A.unknown('loop-carried memory value', rw), r)
        if not self.busy:
            self.done[a] = r
        return r


def hasatom(p, a):
    """does atom a occur anywhere in p?"""
    seen = set()
    stack = [p]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(y for y in x if isinstance(y, (tuple, Poly, Bool, Atom)))
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x is a:
            return True
        if isinstance(x, Poly):
            for m in x.t:
                stack.extend(m)
        elif isinstance(x, Bool):
            if x.var is not None:
                stack += [x.var, x.lo, x.hi]
        elif isinstance(x, Atom):
            stack.append(x.args)
    return False


def isptr(a):
    if a.kind == 'addr':
        return True
    if a.kind in ('ld', 'ret', 'ph', 'phi') and a.args[-1] == 'p':
        return True
    return False


def tyw(ty):
    if ty == 'ptr':
        return 64
    if ty == 'double':
        return 'd'
    if ty and ty[0] == 'i' and ty[1:].isdigit():
        return int(ty[1:])
    return None


BIN = {'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'urem', 'sdiv', 'srem',
       'fadd', 'fsub', 'fmul', 'fdiv'}


class Module:
    def __init__(self, js):
        self.g = {g['name']: g for g in js['globals']}
        self.fns = {f['name']: f for f in js['functions']}

    def const_load(self, name, off, w):
        g = self.g.get(name)
        if g is None or not g.get('const'):
            return None
        c = off.const()
        if 'fp' in g and c == 0 and w == 'd':
            return const('d', Fraction(struct.unpack('<d', struct.pack('<Q', int(g['fp'])))[0]))
        if c is None and w not in ('p', 'd'):
            img = tuple((o, n, v if v == 'Z' else int(v)) for o, n, v in g.get('image') or ())
            if img and all(v == 'Z' or n == WB[w] for o, n, v in img):
                return sym.table(img, off, w)
        if c is None or w in ('p', 'd'):
            return None
        for o, n, v in g.get('image', []):
            if v == 'Z':
                if o <= c and c + WB[w] <= o + n:
                    return const(w, 0)
            elif o == c and n == WB[w]:
                return const(w, int(v))
        return None

    def int(self, name):
        g = self.g.get(name)
        if g is None:
            return None
        if 'int' in g:
            return int(g['int'])
        return None


def query_space(geom):
    """index variables and the byte offset of a generic element of an array"""
    w, dims = geom[:2]
    dims = dims or ((1, WB[w]),)
    qs = [new_iv('q', const(64, n)) for n, st in dims]
    return qs, sum((pa(q) * st for q, (n, st) in zip(qs, dims)), const(64, geom[2] if len(geom) > 2 else 0)), w
