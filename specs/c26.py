"""Memory discipline: ownership and release form of every allocation, alignment and size of the FFT kernels' buffers."""
import copy
import re
import astrules
import c12
import runner
import vlib

PAIR = {'new': 'delete', 'new[]': 'delete[]', 'malloc': 'free', 'calloc': 'free', 'realloc': 'free', 'aligned_alloc': 'free', 'memalign': 'free',
        'posix_memalign': 'free', '_mm_malloc': '_mm_free', 'fftw_malloc': 'fftw_free', 'mmap': 'munmap'}


def split_args(t):
    """template arguments of a printed type"""
    i = t.find('<')
    if i < 0 or not t.rstrip().endswith('>'):
        return []
    out, d, cur = [], 0, ''
    for ch in t[i + 1:t.rstrip().rfind('>')]:
        if ch == '<':
            d += 1
        if ch == '>':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + [cur.strip()]


def smart_rule(a):
    """None when the smart pointer releases the allocation as it was obtained"""
    t = a['sink'].get('type', '')
    m = re.match(r'^(const )?std::(unique_ptr|shared_ptr|__shared_ptr|auto_ptr)<', t)
    if not m:
        return None if not t.startswith('std::') else False
    ta = split_args(t)
    el = ta[0]
    if m.group(2) == 'unique_ptr' and len(ta) > 1 and not ta[1].startswith('std::default_delete<'):
        return None
    if a['sink'].get('args', 1) > 1:
        return None          # explicit deleter
    arr = el.endswith(']')
    obj = re.sub(r'\[\d*\]$', '', el).strip()
    if a['kind'] not in ('new', 'new[]'):
        return 'memory obtained by %s is owned by %s, which releases it with delete' % (a['kind'], t[:100])
    if arr != (a['kind'] == 'new[]'):
        return 'memory obtained by %s is released by %s' % (a['kind'], 'delete[]' if arr else 'delete')
    if obj.replace('const ', '') != a['type'].replace('const ', '') and 'std::align_val_t' in ' '.join(a.get('params', [])):
        return 'over-aligned object of type %s is deleted as %s' % (a['type'][:100], obj[:100])
    if not a['overaligned'] and 'std::align_val_t' in ' '.join(a.get('params', [])):
        return 'memory obtained by aligned operator new is released by unaligned operator delete (type %s needs no extended alignment)' % a['type'][:100]
    return None


def ownership(f, bad):
    A = [a for a in astrules.uniq(f, 'allocs', key=lambda o: (o['at'], o['function'], o['type'], o['kind']))]
    F = astrules.uniq(f, 'frees', key=lambda o: (o['at'], o['function'], str(o['operand'])))
    W = astrules.uniq(f, 'flows', key=lambda o: (o['at'], o['function'], o['to'], o['name'], str(o['from']), o.get('index')))
    n = {'allocations': len(A), 'owned_by_smart_pointer': 0, 'owned_raw': 0, 'releases': len(F), 'unclassified': 0}

    def hold(o):
        return (o['kind'], o['name']) if o.get('kind') in ('var', 'field') else None
    nxt = {}            # holder -> holders it flows to
    params = {}         # (function, index) -> local names of the parameter
    for w in W:
        fr = w['from']
        h = hold(fr)
        if fr['kind'] == 'var' and 'param' in fr:
            params.setdefault((w['qual'], fr['param']), set()).add(h)
        if h and w['to'] in ('var', 'field'):
            nxt.setdefault(h, []).append((w['to'], w['name']))
        elif h and w['to'] == 'return':
            nxt.setdefault(h, []).append(('return', w['qual']))
        elif h and w['to'] == 'arg':
            nxt.setdefault(h, []).append(('arg', (w['name'], w['index'])))
        elif h and w['to'] == 'unknown':
            nxt.setdefault(h, []).append(('unknown', ''))
        elif fr['kind'] == 'call':
            nxt.setdefault(('return', fr['name']), []).append((w['to'] if w['to'] != 'arg' else 'arg', w['name'] if w['to'] not in ('arg', 'return') else w['qual'] if w['to'] == 'return' else (w['name'], w['index'])))
    for x in F:
        o = x['operand']
        if o.get('kind') == 'var' and 'param' in o:
            params.setdefault((x['qual'], o['param']), set()).add(hold(o))
    for k, hs in params.items():
        nxt.setdefault(('arg', k), []).extend(hs)
    freed = {}
    for x in F:
        h = hold(x['operand'])
        if h:
            freed.setdefault(h, []).append(x)

    def closure(h):
        seen, st = set(), [h]
        while st:
            y = st.pop()
            if y in seen:
                continue
            seen.add(y)
            st += nxt.get(y, [])
        return seen
    reached = set()
    dtor = {r['name']: r for r in astrules.uniq(f, 'records', key=lambda o: o['name'])}
    owners = set()
    for a in A:
        s = a['sink']
        where = '%s at %s (%s)' % (a['kind'] + (' ' + a['type'][:80] if a['type'] else ''), a['at'], a['function'][:100])
        if a['qual'].endswith('::allocate'):
            # an allocator class: its deallocate must be the counterpart
            cls = a['qual'][:-len('::allocate')]
            rel = [x for x in F if x['qual'] == cls + '::deallocate']
            n['owned_raw'] += 1
            for x in rel:
                reached.add(id(x))
                if x['kind'] != PAIR[a['kind']]:
                    bad('pair:' + cls, '%s is released with %s at %s' % (where, x['kind'], x['at']))
            if not rel:
                bad('leak:' + cls, '%s: deallocate of %s releases nothing' % (where, cls))
            continue
        if s.get('kind') == 'smart':
            n['owned_by_smart_pointer'] += 1
            e = smart_rule(a)
            if e:
                bad('smart:%s:%s' % (a['qual'], a['type'][:60]), '%s: %s' % (where, e))
            continue
        if s.get('kind') == 'discarded':
            bad('leak:%s' % a['qual'], '%s is never stored' % where)
            continue
        start = ('return', a['qual']) if s.get('kind') == 'return' else hold(s)
        if start is None:
            n['unclassified'] += 1
            continue
        n['owned_raw'] += 1
        cl = closure(start)
        rel = [x for h in cl for x in freed.get(h, [])]
        for x in rel:
            reached.add(id(x))
        owners |= {h[1].rsplit('::', 1)[0] for h in cl if h[0] == 'field'}
        if not rel:
            # a pointer handed to code outside the library, or stored in an unresolved place, is not judged
            if any(h[0] == 'unknown' for h in cl):
                n['unclassified'] += 1
                continue
            bad('leak:%s:%s' % (a['qual'], s.get('name', '')), '%s is never released (held by %s)' % (where, ', '.join(sorted(h[1] if isinstance(h[1], str) else '%s argument %d' % h[1] for h in cl))[:300]))
        for x in rel:
            if x['kind'] != PAIR[a['kind']]:
                bad('pair:%s:%s' % (a['qual'], x['qual']), '%s is released with %s at %s' % (where, x['kind'], x['at']))
            elif x['kind'].startswith('delete') and x['type'].replace('const ', '') != a['type'].replace('const ', ''):
                bad('type:%s:%s' % (a['qual'], x['qual']), '%s is deleted as %s at %s' % (where, x['type'], x['at']))
    for x in F:
        if x['operand'].get('kind') == 'inner' and x['operand'].get('name') != 'release':
            bad('owned:%s' % x['qual'], 'memory owned by another object is released with %s at %s (%s)' % (x['kind'], x['at'], x['function']))
        elif x['operand'].get('kind') == 'inner':
            pass
        elif id(x) not in reached and x['kind'].startswith('delete') and x['type'] == 'void':
            bad('void:%s' % x['qual'], 'delete of an untyped pointer at %s (%s)' % (x['at'], x['function']))
    # twice on the same path
    seen = {}
    releaser = {}
    for x in F:
        if x['always'] and hold(x['operand']):
            seen.setdefault((x['function'], hold(x['operand'])), []).append(x['at'])
        o = x['operand']
        for h in [hold(o)] if hold(o) else []:
            for k, hs in params.items():
                if any(h in closure(y) for y in hs) and h[0] == 'var' and k[0] == x['qual']:
                    releaser[k] = x
    for w in W:
        if w['to'] == 'arg' and (w['name'], w['index']) in releaser and w.get('always') and hold(w['from']):
            seen.setdefault((w['function'], hold(w['from'])), []).append(w['at'])
    for (fn, h), at in seen.items():
        if len(at) > 1:
            bad('twice:%s:%s' % (fn.split('<')[0], h[1]), '%s is released %d times in %s (%s)' % (h[1], len(at), fn, ', '.join(at)))
    for c in astrules.uniq(f, 'copies', key=lambda o: (o['type'], o['at'])):
        r = dtor.get(c['type'])
        if c['type'] in owners and r and r['user_dtor']:
            bad('copy:%s' % c['type'], 'object of type %s, whose destructor releases memory, is copied at %s (%s)' % (c['type'], c['at'], c['function']))
    return n


def alignment(tier):
    es = []
    for e in c12.entries(tier):
        if e.cfg not in ('default', 'ternary') and tier != 'thorough':
            continue
        e = copy.copy(e)
        e.ref, e.alts, e.alias, e.align = None, [], [], 32
        es.append(e)
    return es, runner.run_entries(es, tier, what=runner.w_align)


def check(tier):
    fs = []

    def bad(key, text, detail=()):
        if not any(x['key'] == key for x in fs):
            fs.append({'key': key, 'text': text, 'detail': list(detail)})
    with vlib.Work() as d:
        f, other, skipped = astrules.library_facts(d, tier, tuple(vlib.CONFIGS))
    f.update(other)
    n = ownership(f, bad)
    degree = {}
    for v in astrules.uniq({k: f[k] for k in f if not re.match(r'\w+:', k)}, 'statics', key=lambda o: (o['name'], o['at'])):
        if 'FFT_Processor' in v['type'] and v.get('ctor_args'):
            degree[v['name'].split('::')[-1]] = v['ctor_args'][0]
    es, res = alignment(tier)
    tot = {'proved': 0, 'caller': 0, 'unknown': 0, 'refuted': 0}
    fft = 0
    for r in res:
        for k, v in r.get('counts', {}).items():
            tot[k] += v
        if r['status'] == 'refuted':
            for where, o in r['outs'].items():
                if o['status'] == 'refuted':
                    bad('align:%s:%s' % (r['fn'], where), '%s [%s]: buffer given to the vector kernels at %s: %s, needed is %s' % (r['fn'], r['cfg'], where, o['got'], o['expected']))
        for obj, sizes, name, where in r.get('fft', ()):
            if r['cfg'] != 'default':
                continue
            N = degree.get(str(obj).split('::')[-1]) if obj else None
            if N is None:
                continue
            fft += 1
            if min(sizes) < N:
                bad('size:%s:%s' % (r['fn'], where), '%s: %s for ring degree %d is given buffers of %s elements at %s' % (r['fn'], name, N, sizes, where))
    r = astrules.report(fs, {**n, 'alignment_obligations': tot, 'fft_buffer_sizes_checked': fft, 'fft_processors': degree, 'not_compiling_under_option': skipped},
                        'allocations followed to their release, kernel buffers', f,
                        'Every new-expression and allocation call is followed through variables, members, returns and arguments to its owner; smart pointers must release the '
                        'form and type that was allocated, raw memory must reach a release of the matching form, no release may happen twice on a path or on memory owned '
                        'elsewhere, owners are not copied. Every buffer that reaches a kernel storing with aligned vector instructions must be 32-byte aligned (alignment of the '
                        'object plus every offset), and at least as long as the degree its FFT processor was constructed with.',
                        ['a buffer that is itself a reference parameter of element type is the caller\'s obligation and checked at the callers covered',
                         'FFT tables inside the spqlios kernels (hand-written assembly) are not bounded'])
    r['summary'] = '%s, alignment %s, %d FFT buffer sizes' % (n, tot, fft)
    if n['allocations'] < 10 or tot['proved'] < 20:
        r['too_small'] = r['summary']
    return r
