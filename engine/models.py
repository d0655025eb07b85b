"""Effects of calls that stay calls: LLVM intrinsics, the runtime library, and the library's own
functions, each of which is analysed as a root of its own."""
import re
from sym import *
from dataflow import *

SCALARS = [('unsigned long', 64), ('unsigned int', 32), ('unsigned short', 16), ('unsigned char', 8),
           ('long', 64), ('int', 32), ('short', 16), ('char', 8), ('bool', 8), ('double', 'd'),
           ('cuHEpp::INTorus', 64), ('unsigned __int128', 128), ('__int128', 128)]


def parse_sig(dem):
    """demangled name -> (base name, template arguments text, [parameter types])"""
    s = dem
    # parameter list = last balanced (...) group at depth 0 of <>
    depth = 0
    start = None
    i = 0
    n = len(s)
    par = None
    while i < n:
        c = s[i]
        if s.startswith('operator', i) and par is None and depth == 0:
            m = re.match(r'operator\s*(\(\)|<<=|>>=|<=|>=|<<|>>|->|<|>|[^\s(<]+)', s[i:])
            if m:
                i += len(m.group(0))
                continue
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif c == '(' and depth == 0:
            # matching paren
            d2, j = 1, i + 1
            while j < n and d2:
                if s[j] == '(':
                    d2 += 1
                elif s[j] == ')':
                    d2 -= 1
                j += 1
            par = (i, j)
            i = j
            continue
        i += 1
    if par is None:
        return s, '', []
    head, params = s[:par[0]], s[par[0] + 1:par[1] - 1]
    # drop the return type of template instances: last space at depth 0
    depth = 0
    cut = 0
    k = head.find('operator')
    for i, c in enumerate(head):
        if k != -1 and i >= k:
            break
        if c in '<(':
            depth += 1
        elif c in '>)':
            depth -= 1
        elif c == ' ' and depth == 0:
            cut = i + 1
    head = head[cut:]
    base, targs = head, ''
    if head.endswith('>') and not head.endswith(('operator>', 'operator>>', 'operator->')):
        d = 0
        for i in range(len(head) - 1, -1, -1):
            if head[i] == '>':
                d += 1
            elif head[i] == '<':
                d -= 1
                if d == 0:
                    base, targs = head[:i], head[i + 1:-1]
                    break
    ps, d, cur = [], 0, ''
    for c in params:
        if c in '<(':
            d += 1
        elif c in '>)':
            d -= 1
        if c == ',' and d == 0:
            ps.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        ps.append(cur.strip())
    return base, targs, ps


# functions whose first argument is stored to with aligned vector stores
VECTOR = re.compile(r'^TFHEpp::TwistIFFT(UInt)?$|^FFT_Processor_\w+::execute_reverse_\w+$')
ARR = re.compile(r'(?:std::|TFHEpp::)?(?:aligned_)?array<(.*), (\d+)(?:ul|UL)?\s*>$')


def leaf_width(t):
    """scalar width an array type is made of; None if it is not an array of scalars"""
    t = re.sub(r'\b(const|volatile)\b', '', t).replace('&', '').replace('*', '').strip()
    n = 0
    while True:
        m = ARR.match(t)
        if not m:
            break
        t = m.group(1).strip()
    for s, w in SCALARS:
        if t == s:
            return w
    return None


def dims_of(t):
    """(leaf width, [(n, stride)...]) of an array type given by its name, contiguous dimensions merged;
    aligned_array is over-aligned to 64 bytes, so its size is padded"""
    t = re.sub(r'\b(const|volatile)\b', '', t).replace('&', '').replace('*', '').strip()
    ns = []
    while True:
        m = ARR.match(t)
        if not m:
            break
        ns.append((int(m.group(2)), 'aligned_array' in t[:t.index('<')]))
        t = m.group(1).strip()
    lw = None
    for s, w in SCALARS:
        if t == s:
            lw = w
    if lw is None:
        return None
    size = WB[lw]
    out = []
    for n, al in reversed(ns):
        if out and size == out[0][0] * out[0][1]:
            out[0] = (n * out[0][0], out[0][1])
        else:
            out.insert(0, (n, size))
        size *= n
        if al:
            size = (size + 63) // 64 * 64
    return lw, out or [(1, WB[lw])], size


def array_len(t):
    n = 1
    t = re.sub(r'\b(const|volatile)\b', '', t).replace('&', '').strip()
    while True:
        m = ARR.match(t)
        if not m:
            return n
        n *= int(m.group(2))
        t = m.group(1).strip()


MATH1 = {'round', 'floor', 'ceil', 'trunc', 'fabs', 'rint', 'nearbyint', 'roundeven', 'sqrt', 'sin', 'cos', 'exp', 'log'}
RANDOM = re.compile(r'Encrypt|Gaussian|Binomial|discard|_distribution|Noise')


class Models:
    def __init__(self, special=None):
        self.special = special or []      # [(regex over base name, handler)]
        self.sigs = {}

    def pure_in_header(self, ins):
        c = ins.get('callee') or ''
        return c.startswith('llvm.')

    def sig(self, callee):
        r = self.sigs.get(callee)
        if r is None:
            r = self.sigs[callee] = parse_sig(callee)
        return r

    def call(self, A, ins, callee, ops, g):
        w = tyw(ins['ty'])
        void = ins['ty'] == 'void'
        if callee.startswith('llvm.'):
            return self.intrinsic(A, ins, callee, ops, g, w)
        base, targs, params = self.sig(callee)
        for rx, h in self.special:
            if rx.search(base):
                return h(self, A, ins, base, targs, params, ops, g)
        if callee.startswith('operator new') or callee in ('malloc', 'aligned_alloc', 'posix_memalign'):
            ctx = A.ctxvals()
            b = atom('addr', ('new', ins['id'], ctx), 64)
            n = ops[0].const() if ops and isinstance(ops[0], Poly) else None
            A.base_size[b] = n
            al = ops[-1] if 'align_val_t' in callee else ops[0] if callee == 'aligned_alloc' else None
            A.base_align[b] = 16 if al is None else al.const() if isinstance(al, Poly) else None
            return pa(b)
        if callee.startswith('TLS init'):
            return None
        if callee.startswith('operator delete') or callee == 'free':
            return None
        if base in MATH1 or (base.startswith('std::') and base[5:] in MATH1):
            return pa(atom('op', ('fn', base.split('::')[-1]) + tuple(A.coerce(o, 'd') for o in ops), 'd'), 'd')
        if callee == '__tls_init' or callee.startswith('TLS init function') or 'thread-local wrapper routine for' in callee or callee.startswith('thread-local wrapper'):
            m = re.search(r'for (.*)$', callee)
            return pa(addr('tls', m.group(1) if m else callee))
        if ins.get('readnone') and not void and w is not None and w != 1:
            return pa(atom('call', (callee, tuple(self.scal(o) for o in ops), 'ret'), w), w)
        if base.startswith(('TFHEpp::', 'cuHEpp::', 'raintt::', 'FFT_Processor', 'randen::', 'nussbaumer')) or base.startswith('vf_'):
            return self.generic(A, ins, base, targs, params, ops, g)
        # unknown callee: everything it can reach through non-const pointers is lost
        self.clobber(A, ins, callee, params, ops, g)
        if void:
            return None
        if ins['ty'] == 'ptr':
            ctx = A.ctxvals()
            return pa(atom('ret', (callee, ins['id'], ctx, 'p'), 64))
        return A.unknown('call ' + callee, w or 64)

    def scal(self, o):
        return o if isinstance(o, (Poly, Bool)) else ('agg',)

    def clobber(self, A, ins, callee, params, ops, g):
        for i, (o, raw) in enumerate(zip(ops, ins['ops'])):
            if not isinstance(o, Poly) or o.w != 64:
                continue
            s = A.split(o)
            if s is None:
                continue
            if ins.get('readonly') or (ins.get('argro') and ins['argro'][i]):
                continue
            off = len(ops) - len(params)
            if i - off >= 0 and i - off < len(params) and re.search(r'const\s*[&*]', params[i - off]):
                continue
            A.havoc(o, g, 'call ' + callee[:60])

    # ------------------------------------------------------------ library functions
    def generic(self, A, ins, base, targs, params, ops, g):
        """result := uninterpreted function of the scalar arguments and of the content of every
        argument passed by const reference; non-const references are pure outputs"""
        w = tyw(ins['ty'])
        name = base.replace('TFHEpp::', '') + ('<%s>' % targs.replace('TFHEpp::', '') if targs else '')
        npar = len(params)
        extra = len(ops) - npar
        ptys = ['sret'] * extra + params if extra >= 0 else params
        if extra >= 1 and re.match(r'TFHEpp::(EvalKey|SecretKey|lweKey|lweParams)::', base):
            ptys[extra - 1] = 'this const *' if (ins.get('callee') or '').rstrip().endswith('const') else 'this *'
        args, outs, ins_at = [], [], []
        for i, (o, t) in enumerate(zip(ops, ptys)):
            sz = ins['argsz'][i] if i < len(ins['argsz']) else 0
            if t == 'sret':
                outs.append((o, sz, None))
                continue
            isref = t.endswith('&') or t.endswith('*') or (isinstance(o, Poly) and A.split(o) is not None and o.w == 64
                                                          and ins['ops'][i][0] != 'c' and ins['argsz'][i])
            if not isref:
                args.append(self.scal(o))
                continue
            ro = re.search(r'const\s*[&*]$', t) is not None or not t.endswith(('&', '*'))
            if not ro:
                outs.append((o, sz, t))
                if base in INOUT or re.search('|'.join(INOUT_RX), base):
                    args.append(self.arg(A, o, sz, t, g))
                continue
            ins_at.append((i, o))
            args.append(self.arg(A, o, sz, t, g))
        for o, sz, t in outs:
            for i, p in ins_at:
                a, b = A.split(o), A.split(p) if isinstance(p, Poly) and p.w == 64 else None
                if a is not None and b is not None and a[0] is b[0]:
                    d = (a[1] - b[1]).const()
                    if d is None or abs(d) < max(sz or 0, ins['argsz'][i] if i < len(ins['argsz']) else 0, 1):
                        A.overlaps.add((base, i - max(extra, 0)))
        if VECTOR.search(base) and extra < len(ops):
            s = A.split(ops[extra])
            A.record(kind='align', base=s and s[0], off=s and s[1], name=name, guard=g, line=ins.get('line'), file=ins.get('file'))
        args = tuple(args)
        ctx = ()
        rnd = RANDOM.search(base) is not None
        if rnd and A.erase is not True:
            ctx = (ins['id'],) + A.ctxvals()
        for k, (o, sz, t) in enumerate(outs):
            s = A.split(o)
            if s is None:
                A.havoc_all('output through unresolved pointer', g)
                continue
            geom = self.geom(A, s[0], t, sz)
            if geom is None:
                A.havoc(o, g, 'output of unknown type: ' + base)
                continue
            A.set_cells(o, geom, g, lambda e, k=k, lw=geom[0]: pa(atom('call', (name, args, k, ctx, e), lw), lw))
        A.record(kind='call', name=name, base=base, targs=targs, vals=args, guard=g, line=ins.get('line'), file=ins.get('file'),
                 id=ins['id'])
        if ins['ty'] == 'void':
            return None
        if ins['ty'] == 'ptr':
            return pa(atom('ret', (name, args, ctx, 'p'), 64))
        if w == 1:
            return bvar(atom('bop', (name, args, ctx), 'b', 0, 1))
        if w is None:
            return (A.unknown('agg result of ' + base, 64),)
        return pa(atom('call', (name, args, 'ret', ctx), w), w)

    def geom(self, A, b, t, sz):
        """geometry of the object a reference of type t (None: returned object) points to"""
        if t is not None and t != 'sret':
            r = dims_of(t)
            if r is not None:
                return r[0], tuple(r[1])
            if not re.search(r'array<', t) and re.search(r'::|\w', t) and leaf_width(t) is None:
                pass
        lw = A.elemw(b)
        if lw is None or lw == 'p' or not sz or sz % WB[lw] or sz > (1 << 34):
            return None
        return lw, ((sz // WB[lw], WB[lw]),)

    def arg(self, A, o, sz, t, g):
        s = A.split(o)
        if s is None:
            return A.unknown('argument of unresolved pointer', 64)
        geom = self.geom(A, s[0], t, sz)
        if geom is None and not A.pristine(s[0]):
            if t is not None and re.match(r'^(const )?std::(__1::)?vector<', t):
                return self.vec(A, s, g)
            return A.unknown('argument content of unknown type', 64)
        return A.content(o, geom, g)

    def vec(self, A, s, g):
        """a vector given by its begin and end pointers into memory that is still as the caller provided it"""
        pp = []
        for i in (0, 8):
            v = A.query(s[0], s[1] + i, 64, g)
            q = A.split(v) if isinstance(v, Poly) else None
            if q is None or not A.pristine(q[0]):
                return A.unknown('vector of modified elements', 64)
            pp.append(atom('ref', (q[0], q[1], None), 64))
        return atom('pair', tuple(pp), 64)

    # ------------------------------------------------------------ intrinsics
    def intrinsic(self, A, ins, callee, ops, g, w):
        n = callee
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            A.memcpy(A.coerce(ops[0], 64), A.coerce(ops[1], 64), ops[2], g)
            return None
        if n.startswith('llvm.memset'):
            A.memset(A.coerce(ops[0], 64), A.coerce(ops[1], 8), ops[2], g)
            return None
        if n.startswith('llvm.lifetime.start'):
            sz = ops[0].const() if isinstance(ops[0], Poly) else None
            A.bytes_region(A.coerce(ops[1], 64), sz if sz and sz > 0 else None, g, 'undef')
            return None
        if n.startswith('llvm.threadlocal.address'):
            s = A.split(ops[0])
            if s is not None and s[0].args[0] == 'g':
                return pa(addr('tls', s[0].args[1])) + s[1]
            return ops[0]
        if n.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
            a, b = A.coerce(ops[0], w), A.coerce(ops[1], w)
            c = icmp('ult' if n[5] == 'u' else 'slt', a, b)
            return ite(c, b, a) if n[6:9] == 'max' else ite(c, a, b)
        if n.startswith('llvm.abs'):
            a = A.coerce(ops[0], w)
            c = icmp('slt', a, const(w, 0))
            return ite(c, -a, a)
        m = re.match(r'llvm\.(round|floor|ceil|trunc|fabs|rint|nearbyint|roundeven|sqrt|sin|cos|exp|log|pow|copysign|minnum|maxnum)\.f64', n)
        if m:
            return pa(atom('op', ('fn', m.group(1)) + tuple(A.coerce(o, 'd') for o in ops), 'd'), 'd')
        m = re.match(r'llvm\.(fmuladd|fma)\.f64', n)
        if m:
            a, b, c = (A.coerce(o, 'd') for o in ops)
            return a * b + c
        if n.startswith(('llvm.fshl', 'llvm.fshr', 'llvm.ctlz', 'llvm.cttz', 'llvm.ctpop', 'llvm.bswap', 'llvm.bitreverse')):
            return pa(atom('op', (n.split('.')[1],) + tuple(o if isinstance(o, Poly) else ind(o, 8) for o in ops), w), w)
        if n.startswith(('llvm.usub.sat',)):
            a, b = A.coerce(ops[0], w), A.coerce(ops[1], w)
            return ite(icmp('ult', a, b), const(w, 0), a - b)
        if n.startswith(('llvm.umul.with.overflow', 'llvm.uadd.with.overflow', 'llvm.usub.with.overflow')):
            a, b = A.coerce(ops[0], ops[1].w), ops[1]
            op = n[6:9]
            v = a * b if op == 'mul' else a + b if op == 'add' else a - b
            M = (1 << a.w) - 1
            ok = False
            ra, rb = a.rng(), b.rng()
            if ra[0] is not None and rb[0] is not None and ra[0] >= 0 and rb[0] >= 0:
                hi = ra[1] * rb[1] if op == 'mul' else ra[1] + rb[1] if op == 'add' else 0
                ok = hi <= M and op != 'sub'
            return (v, FALSE if ok else A.unknown('overflow', 1))
        if n.startswith(('llvm.lifetime.end', 'llvm.assume', 'llvm.dbg', 'llvm.prefetch', 'llvm.invariant', 'llvm.experimental.noalias',
                         'llvm.stackrestore', 'llvm.donothing', 'llvm.trap')):
            return None
        if n.startswith(('llvm.expect', 'llvm.launder', 'llvm.strip')):
            return ops[0]
        if n.startswith('llvm.stacksave'):
            return const(64, 0)
        if n.startswith('llvm.is.constant'):
            return FALSE
        if n.startswith('llvm.objectsize'):
            return const(w, -1)
        for o in ops:
            if isinstance(o, Poly) and o.w == 64 and A.split(o) is not None and not ins.get('readonly') and not ins.get('readnone'):
                A.havoc(o, g, n)
        if ins['ty'] == 'void':
            return None
        return A.unknown(n, w or 64)


INOUT = set()
INOUT_RX = [r'CMUX\w*withPolynomialMulByXaiMinusOne', r'^TFHEpp::FMAInFD', r'RAINTT_NOOP']


# ------------------------------------------------------------ handlers for specific callees
def h_uniform(M, A, ins, base, targs, params, ops, g):
    """std::uniform_int_distribution<T>::operator()(engine) : a fresh uniform draw from [a,b]"""
    w = tyw(ins['ty'])
    ctx = (ins['id'],) + A.ctxvals()
    full = ctx
    if A.erase is True:
        ctx = ()
    lo = A.load(A.coerce(ops[0], 64), w, g)
    hi = A.load(A.coerce(ops[0], 64) + WB[w], w, g)
    s = A.split(A.coerce(ops[1], 64)) if len(ops) > 1 else None
    eng = s[0] if s else addr('unknown', 'engine')
    at = atom('rnd', (ctx, lo, hi, eng), w)
    A.record(kind='rnd', val=pa(at), vals=full[1:], site=ins['id'], lo=lo, hi=hi, eng=eng, guard=g, line=ins.get('line'),
             file=ins.get('file'), w=w)
    return pa(at)


def h_noise(M, A, ins, base, targs, params, ops, g):
    """ModularGaussian<P>(center, stdev) = center + noise(stdev); CenteredBinomial<P>(eta) = noise(eta)"""
    w = tyw(ins['ty'])
    ctx = (ins['id'],) + A.ctxvals()
    full = ctx
    if A.erase:
        ctx = ()
    short = base.replace('TFHEpp::', '')
    if 'Gaussian' in base:
        center, dev = A.coerce(ops[0], w), ops[1]
    else:
        center, dev = const(w, 0), ops[0]
    at = atom('noise', (short, targs, ctx, dev), w)
    if A.nonoise:
        at = None
    A.record(kind='noise', val=pa(at) if at is not None else center, vals=full[1:], dev=dev, site=ins['id'], guard=g, line=ins.get('line'), file=ins.get('file'),
             name=short, targs=targs)
    return center + pa(at) if at is not None else center


def arr(M, A, ins, ops, params, i, g, off=0):
    t = params[i - off]
    return M.arg(A, A.coerce(ops[i], 64), ins['argsz'][i], t, g)


def prod(a, b, e, w):
    x, y = sorted((a, b), key=lambda z: z.id)
    return pa(atom('comm', ('PROD', (x, y), e), w), w)


def h_mulfd(inc):
    def h(M, A, ins, base, targs, params, ops, g):
        """MulInFD(res, a, b) / FMAInFD(res, a, b): pointwise product of spectra, assigned or added"""
        geom = dims_of(params[0])[:2]
        geom = (geom[0], tuple(geom[1]))
        if len(params) == 3:
            a, b = arr(M, A, ins, ops, params, 1, g), arr(M, A, ins, ops, params, 2, g)
        else:   # MulInFD(res, b): in place
            a, b = arr(M, A, ins, ops, params, 0, g), arr(M, A, ins, ops, params, 1, g)
        A.set_cells(A.coerce(ops[0], 64), geom, g, lambda e: prod(a, b, e, 'd'), 'inc' if inc else 'set')
        A.record(kind='call', name=base, base=base, targs=targs, vals=(), guard=g, line=ins.get('line'), file=ins.get('file'), id=ins['id'])
        return None
    return h


def h_fold(M, A, ins, base, targs, params, ops, g):
    """cuHEpp::INTorus / raintt modular arithmetic seen as a commutative ring on residues"""
    short = base.split('::')[-1]
    w = tyw(ins['ty'])
    def rd(i):
        o = ops[i]
        if isinstance(o, Poly) and A.split(o) is not None and ins['argsz'][i]:
            return A.load(o, 64, g)
        return A.coerce(o, 64)
    if base.endswith('INTorus::operator*') or base.endswith('INTorus::operator+') or base.endswith('INTorus::operator-'):
        x, y = rd(0), rd(1)
        return x * y if short == 'operator*' else x + y if short == 'operator+' else x - y
    if base.endswith('INTorus::operator+=') or base.endswith('INTorus::operator-='):
        p = A.coerce(ops[0], 64)
        x, y = A.load(p, 64, g), rd(1)
        A.store(p, x + y if short == 'operator+=' else x - y, 64, g)
        return p
    if base.startswith('raintt::AddMod'):
        return A.coerce(ops[0], w) + A.coerce(ops[1], w)
    if base.startswith('raintt::SubMod'):
        return A.coerce(ops[0], w) - A.coerce(ops[1], w)
    if base.startswith('raintt::MulSREDC'):
        return A.coerce(ops[0], w) * A.coerce(ops[1], w) * pa(atom('const', ('R^-1',), w))
    return M.generic(A, ins, base, targs, params, ops, g)


# ------------------------------------------------------------ strings (names of keys)
def gstring(A, name):
    """characters of a constant string literal"""
    g = A.mod.g.get(name)
    if not g or not g.get('const'):
        return None
    cs = {}
    for o, n, v in g.get('image') or []:
        if v == 'Z':
            for i in range(n):
                cs[o + i] = 0
        else:
            for i in range(n):
                cs[o + i] = (int(v) >> (8 * i)) & 255
    out, i = [], 0
    while i in cs and cs[i]:
        out.append(const(64, cs[i]))
        i += 1
    return tuple(out)


def chars(A, o, g):
    """the characters of a std::string object or of a literal, as polynomials; None if unknown"""
    o = A.coerce(o, 64)
    s = A.split(o)
    if s is None:
        return None
    b, off = s
    if b.args[0] == 'g' and off.const() == 0:
        r = gstring(A, b.args[1])
        if r is not None:
            return r
    v = A.load(o, 64, g)
    ms = list(v.t.items())
    if len(ms) == 1 and ms[0][1] == 1 and len(ms[0][0]) == 1 and ms[0][0][0].kind == 'str':
        return ms[0][0][0].args
    return (v,)


def strval(cs):
    return pa(atom('str', tuple(cs), 64))


def h_to_string(M, A, ins, base, targs, params, ops, g):
    v = ops[-1]
    v = sext(v, 64) if isinstance(v, Poly) and v.w != 64 else A.coerce(v, 64)
    lo, hi = sym_range(v)
    if lo is not None and 0 <= lo and hi <= 9:
        cs = (v + 48,)
    else:
        cs = (pa(atom('call', ('to_string', (v,), 'ret'), 64)),)
    A.store(A.coerce(ops[0], 64), strval(cs), 64, g)


def h_strcat(M, A, ins, base, targs, params, ops, g):
    x, y = chars(A, ops[1], g), chars(A, ops[2], g)
    v = strval(x + y) if x is not None and y is not None else A.unknown('string', 64)
    A.store(A.coerce(ops[0], 64), v, 64, g)


def h_strctor(M, A, ins, base, targs, params, ops, g):
    if '~' in base:
        return None
    x = chars(A, ops[1], g) if len(ops) > 1 else ()
    A.store(A.coerce(ops[0], 64), strval(x) if x is not None else A.unknown('string', 64), 64, g)
    return None


def slot(A, fn, targs, this, key, g):
    """the place a named key lives in"""
    cs = chars(A, key, g)
    if cs is None:
        return None
    name = ''.join('?' if c.const() is None else chr(c.const()) for c in cs)
    off = const(64, 0)
    for c in cs:
        if c.const() is None:
            off = off * 256 + c
    if off.const() is None or name[-1:].isdigit():
        # a trailing digit is a number as well
        if name[-1:].isdigit():
            name, off = name[:-1] + '?', const(64, ord(name[-1]))
    s = A.split(A.coerce(this, 64))
    return pa(addr('slot', (fn, targs, name, s[0] if s else None))) + (off * (1 << 40) if off is not None else 0)


def h_getkey(M, A, ins, base, targs, params, ops, g):
    p = slot(A, 'sub' if 'sub' in base else '', targs, ops[0], ops[1], g)
    return p if p is not None else A.unknown('key name', 64)


def h_putkey(M, A, ins, base, targs, params, ops, g):
    p = slot(A, 'sub' if 'sub' in base else '', targs, ops[0], ops[1], g)
    if p is None:
        A.havoc_all('key name', g)
        return
    args = tuple(M.arg(A, A.coerce(o, 64), ins['argsz'][i + 2], params[i + 1], g) for i, o in enumerate(ops[2:]))
    A.store(p, pa(atom('call', ('key', args, 'ret', ()), 64)), 64, g)


def h_map(M, A, ins, base, targs, params, ops, g):
    """the element of a string-keyed map: a place of its own per map object and key"""
    s = A.split(A.coerce(ops[0], 64))
    p = slot(A, ('map',) + ((s[1],) if s else ()), '', ops[0], ops[1], g)
    return p if p is not None else A.unknown('key name', 64)


def h_refcount(M, A, ins, base, targs, params, ops, g):
    """shared ownership: the stored pointer is a plain member; the count has no effect on values"""
    if base.endswith('::__shared_count') and len(params) > 0:
        if 'unique_ptr' in params[0]:
            A.store(A.coerce(ops[1], 64), const(64, 0), 64, g)      # released into the shared owner
        elif any('_Sp_alloc_shared_tag' in p or '_Sp_make_shared' in p for p in params):
            b = atom('addr', ('new', ins['id'], A.ctxvals()), 64)
            A.base_size[b] = None
            A.store(A.coerce(ops[1], 64), pa(b), 64, g)
    if ins['ty'] == 'ptr':
        return A.coerce(ops[0], 64)
    return None if ins['ty'] == 'void' else A.unknown('call ' + base, tyw(ins['ty']) or 64)


def h_fft(M, A, ins, base, targs, params, ops, g):
    """a method of the FFT processor: reads its whole input array, assigns its whole output array; which processor, which method and
    which further arguments are part of the value"""
    n = len(ops) - len(params)
    if n != 1 or len(params) < 2:
        return M.generic(A, ins, base, targs, params, ops, g)
    p, q = A.split(A.coerce(ops[1], 64)), A.split(A.coerce(ops[2], 64))
    if VECTOR.search(base):
        A.record(kind='align', base=p and p[0], off=p and p[1], name=base, guard=g, line=ins.get('line'), file=ins.get('file'))
    geoms = []
    for o, t in ((p, params[0]), (q, params[1])):
        w = 'd' if 'double' in t else leaf_width(t.replace('*', '').replace('const', '').strip())
        sz = A.base_size.get(o[0]) if o is not None and o[1].const() == 0 else None
        if w is None or not sz:
            A.havoc(ops[1], g, 'FFT of an array of unknown size')
            return None
        geoms.append((w, ((sz // WB[w], WB[w]),)))
    obj = A.split(A.coerce(ops[0], 64))
    A.record(kind='fft', obj=obj and obj[0], sizes=[g[1][0][0] for g in geoms], name=base, guard=g, line=ins.get('line'), file=ins.get('file'))
    args = (obj[0] if obj else A.unknown('FFT processor', 64), A.content(ops[2], geoms[1], g)) + tuple(M.scal(o) for o in ops[3:])
    A.set_cells(ops[1], geoms[0], g, lambda e: pa(atom('call', (base, args, 0, (), e), geoms[0][0]), geoms[0][0]))
    return None


def h_permute(M, A, ins, base, targs, params, ops, g):
    """randen: the 256-byte state becomes a function of itself (and of the 240 absorbed bytes)"""
    geom = (64, ((32, 8),))
    args = (A.content(ops[-1], geom, g),)
    if 'Absorb' in base:
        args += (A.content(ops[0], (32, ((60, 4),)), g),)
    A.set_cells(ops[-1], geom, g, lambda e: pa(atom('call', (base, args, 0, (), e), 64)))
    return None


def span(A, a, b):
    p, q = A.split(A.coerce(a, 64)), A.split(A.coerce(b, 64))
    if p is None or q is None or p[0] is not q[0]:
        return None
    n = (q[1] - p[1]).const()
    return n // 4 if n is not None and n > 0 and n % 4 == 0 else None


def h_seedseq(M, A, ins, base, targs, params, ops, g):
    """std::seed_seq: built from a range of words, a function of those words; fills a range with a function of itself"""
    gen = base.endswith('generate')
    n = span(A, ops[1], ops[2]) if len(ops) >= 3 else None
    if n is None:
        A.havoc(ops[0], g, 'seed_seq')
        return None
    if not gen:
        v = atom('call', ('seed_seq', (A.content(ops[1], (32, ((n, 4),)), g), n), 0, (), None), 64)
        A.set_cells(ops[0], (64, ((1, 8),)), g, lambda e: pa(v))
        return None
    me = A.load(A.coerce(ops[0], 64), 64, g)
    A.set_cells(ops[1], (32, ((n, 4),)), g, lambda e: pa(atom('call', (base, (me, n), 0, (), e), 32)))
    return None


def h_device(M, A, ins, base, targs, params, ops, g):
    w = tyw(ins['ty'])
    ctx = () if A.erase is True else (ins['id'],) + A.ctxvals()
    s = A.split(A.coerce(ops[0], 64))
    at = atom('rnd', (ctx, const(w, 0), const(w, 0xffffffff), s[0] if s else addr('unknown', 'device')), w)
    A.record(kind='rnd', val=pa(at), vals=A.ctxvals(), site=ins['id'], lo=0, hi=0xffffffff, eng=s and s[0], guard=g, line=ins.get('line'), file=ins.get('file'), w=w)
    return pa(at)


def h_iteration(M, A, ins, base, targs, params, ops, g):
    """the number of one iteration of a worksharing loop"""
    w = tyw(ins['ty'])
    last = ops[0].const()
    if last is None or last < 0 or last >> 63:
        last = (1 << 31) - 2
    at = atom('arg', ('<iteration>', 0, last), w, 0, last, selfvar=True)
    A.iteration = at
    return pa(at)


def standard_models():
    return Models([
        (re.compile(r'^__vf_iteration_[48]$'), h_iteration),
        (re.compile(r'uniform_int_distribution(<.*>)?::operator\(\)'), h_uniform),
        (re.compile(r'ModularGaussian$|CenteredBinomial$'), h_noise),
        (re.compile(r'^std::(__cxx11::)?to_string(\[abi:cxx11\])?$'), h_to_string),
        (re.compile(r'^std::operator\+$'), h_strcat),
        (re.compile(r'^std::(__cxx11::)?basic_string<.*>::~?basic_string$'), h_strctor),
        (re.compile(r'^std::__shared_count(<.*>)?::'), h_refcount),
        (re.compile(r'^std::unordered_map<.*>::~?unordered_map$'), lambda *a: None),
        (re.compile(r'^std::unordered_map<.*>::(operator\[\]|at)$'), h_map),
        (re.compile(r'^TFHEpp::EvalKey::get(sub)?privksk$'), h_getkey),
        (re.compile(r'^TFHEpp::EvalKey::emplace(sub)?privksk$'), h_putkey),
        (re.compile(r'^FFT_Processor_\w+::execute_(reverse|direct)_'), h_fft),
        (re.compile(r'^randen::Internal::(Generate|Absorb)$'), h_permute),
        (re.compile(r'^std::seed_seq::(seed_seq|generate)(<.*>)?$'), h_seedseq),
        (re.compile(r'^std::seed_seq::~seed_seq$'), lambda *a: None),
        (re.compile(r'^std::random_device::operator\(\)$'), h_device),
        (re.compile(r'TFHEpp::MulInFD$'), h_mulfd(False)),
        (re.compile(r'TFHEpp::FMAInFD$'), h_mulfd(True)),
        (re.compile(r'cuHEpp::INTorus::operator[*+-]=?$|raintt::(AddMod|SubMod|MulSREDC)$'), h_fold),
    ])
