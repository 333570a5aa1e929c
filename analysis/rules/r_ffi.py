"""C32: what the foreign library allocates is released exactly once, and no pointer outlives what it points to.

Everything here is read off the compiler's own control-flow graphs: each call of
the foreign library that hands out an object is followed, block by block and
path by path, until the object has been put into a value whose destructor
releases it, has been released, or has been handed to the caller (whose call is
then followed in the same way)."""
from common import *
from r_store import succs

ALLOC = re.compile(r'(_new|_fetch|_dup|_new_[a-z_]+|_load|^d2i_\w+|_load_ex|_secure_new|_dup\w*|_new_ex|_to_param)$')
NOALLOC = ()
# object type handed out through a pointer argument
OUT = {'EVP_PKEY_generate': 1, 'EVP_PKEY_keygen': 1, 'EVP_PKEY_paramgen': 1, 'EVP_PKEY_fromdata': 1, 'EVP_PKEY_Q_keygen': None,
       'OSSL_PARAM_get_BN': 1, 'EVP_PKEY_todata': 2, 'EVP_PKEY_get_bn_param': 2}
UPREF = re.compile(r'_up_ref$')
FREE = re.compile(r'(_free|_free_all|_clear_free|_unload)$')
STEM = {'BIO': 'BIO', 'OSSL_PARAM': 'OSSL_PARAM'}
NULLT = re.compile(r'::is_null$')


def cn(fr):
    x = fr.get('fn') if isinstance(fr, dict) else None
    return (x.get('r') or x.get('p') or '') if x else ''


def ffi(n):
    return n.split('::', 1)[1] if n.startswith('ossl_sys::') else None


def opl(o):
    """(local, projections) of an operand"""
    p = o.get('c') or o.get('m') if isinstance(o, dict) else None
    return (p[0], p[1:]) if p else (None, None)


def ptrto(t):
    m = re.match(r'^\*(mut|const) (.*)$', t)
    return m.group(2) if m else None


def rvops(rv):
    """operands of an rvalue"""
    k = rv[0]
    if k == 'use':
        return [rv[1]]
    if k == 'cast':
        return [x for x in rv[1:] if isinstance(x, dict)]
    if k == 'agg':
        return rv[-1] if isinstance(rv[-1], list) else []
    return [x for x in rv[1:] if isinstance(x, dict)]


class Fn(object):
    def __init__(self, P, f):
        self.P, self.f = P, f
        self.d = P.fns[f]
        self.loc = self.d['locals']
        self.blocks = self.d['blocks']
        self.assigned = collections.defaultdict(list)
        for b in self.blocks:
            if b is None:
                continue
            for s in b['s']:
                if s[0] != 'dead' and len(s[0]) == 1:
                    self.assigned[s[0][0]].append(s[1])
            t = b['t']
            if t[0] == 'call' and len(t[3]) == 1:
                self.assigned[t[3][0]].append(['call', t])

    def outlocal(self, o):
        """the local whose address an argument is"""
        l, pr = opl(o)
        seen = set()
        while l is not None and not pr and l not in seen:
            seen.add(l)
            a = self.assigned.get(l, [])
            if len(a) != 1:
                return None
            rv = a[0]
            if rv[0] in ('ref', 'raw'):
                p = rv[-1]
                if len(p) == 1:
                    return p[0]
                if len(p) == 2 and p[1] == '*':
                    l, pr = p[0], []
                    continue
                return None
            if rv[0] in ('use', 'cast'):
                ops = rvops(rv)
                l, pr = opl(ops[0]) if ops else (None, None)
                continue
            return None
        return None


class Owners(object):
    """types whose destructor releases a foreign object, and with which function"""

    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        P = self.P
        self.drops = {}
        for f, d in P.fns.items():
            if (d.get('impl_tr') or '').endswith('ops::drop::Drop') and d['crate'] in ('ossl', LIB):
                self.drops[base(d.get('self') or '')] = f
        self.ptrs = collections.defaultdict(list)     # owner type -> [(field, pointee)]
        for t, a in P.adts.items():
            if t.split('::')[0] not in ('ossl', LIB):
                continue
            for vn, fl in a['v']:
                for x, y in fl:
                    for m in re.finditer(r'\*(?:mut|const) (ossl_sys::[\w:]+)', y):
                        self.ptrs[t].append((x, m.group(1)))


def base(t):
    return re.sub(r"<.*$", '', t or '').strip()


class Trail(object):
    """follow one object through one function.
    start: (block, statement index) of the first thing after it came into being, with the locals that hold it."""

    def __init__(self, P, fn, own, frees, consume, okret=None):
        self.P, self.fn, self.own = P, fn, own
        self.frees = frees            # names of the functions that release it
        self.consume = consume        # (callee, arg index) -> True / False
        self.okret = okret            # local holding the status of the call which made it
        self.out = []                 # (kind, line, detail)
        self.owner = set()
        self.returned = False
        self.released = set()
        self.lines = set()

    def run(self, bb, held, line, zero=False):
        st = (bb, frozenset(held), frozenset(), frozenset(([(self.okret, 1)] if self.okret is not None else [])), 'raw')
        work, seen = [st], set()
        while work:
            st = work.pop()
            if st in seen:
                continue
            seen.add(st)
            if len(seen) > 4000:
                self.out.append(('deep', line, 'too many states'))
                return self
            for n in self.step(st):
                work.append(n)
        return self

    def step(self, st):
        bb, held, nt, ks, status = st
        blk = self.fn.blocks[bb]
        if blk is None:
            return
        held, nt, ks = set(held), dict(nt), dict(ks)
        for s in blk['s']:
            if s[0] == 'dead':
                if status != 'raw' or s[1] not in held or len(held) > 1:
                    held.discard(s[1])
                    continue
                held.discard(s[1])
                if not held:
                    self.out.append(('lost', self.last(bb), ''))
                    return
                continue
            pl, rv, ln = s[0], s[1], s[2] if len(s) > 2 else 0
            self.lines.add(ln)
            ops = rvops(rv)
            hit = [o for o in ops if opl(o)[0] in held]
            d = pl[0]
            if hit and rv[0] in ('use', 'cast', 'agg'):
                if rv[0] == 'agg' and isinstance(rv[1], list) and rv[1][0] == 'adt':
                    t = base(rv[1][1])
                    if t in self.own.ptrs:
                        self.owner.add((t, self.fieldof(rv, hit)))
                        if status == 'freed':
                            self.out.append(('uaf', ln, 'stored in a %s after its release' % t))
                        return
                own = self.ownfield(pl)
                if own:
                    self.owner.add(own)
                    if status == 'freed':
                        self.out.append(('uaf', ln, 'stored in a %s after its release' % own[0]))
                    return
                if '*' in pl[1:]:
                    # written through a pointer or a reference of the caller: the caller has it
                    self.returned = True
                    return
                for o in hit:
                    if o.get('m') and len(o['m']) == 1 and opl(o)[0] != d:
                        held.discard(opl(o)[0])
                held.add(d)
                continue
            if len(pl) == 1:
                if d in held and not hit:
                    held.discard(d)
                    if not held and status == 'raw':
                        self.out.append(('lost', ln, 'overwritten'))
                        return
                nt.pop(d, None)
                v = self.const(rv, ks, nt)
                ks.pop(d, None)
                if isinstance(v, tuple):
                    nt[d] = v[1]
                elif v is not None:
                    ks[d] = v
        t = blk['t']
        fz = lambda h, n, k, s, b: (b, frozenset(h), frozenset(n.items()), frozenset(k.items()), s)
        k = t[0]
        if k == 'call':
            n = cn(t[1])
            ln = t[5] if len(t) > 5 else 0
            self.lines.add(ln)
            args, dest, nx = t[2], t[3], t[4]
            ai = [i for i, o in enumerate(args) if opl(o)[0] in held]
            d = dest[0] if len(dest) == 1 else None
            if ai:
                x = ffi(n)
                if NULLT.search(n):
                    if d is not None:
                        nt[d] = True
                    if nx is not None:
                        yield fz(held, nt, ks, status, nx)
                    return
                if x is not None:
                    if x in self.frees:
                        if status == 'freed':
                            self.out.append(('double', ln, x))
                            return
                        self.released.add(x)
                        status = 'freed'
                    elif FREE.search(x) and ai[0] == 0 and status == 'raw' and len(args) <= 2:
                        self.out.append(('wrongfree', ln, x))
                        return
                    elif status == 'freed':
                        self.out.append(('uaf', ln, x))
                        return
                    if d is not None and ptrto(self.fn.loc[d]) and x not in self.frees and self.sametype(d, held):
                        # functions which return their own argument
                        if len(held) and RETARG.search(x):
                            held.add(d)
                elif n in self.P.fns and self.P.fns[n]['crate'] in ('ossl', LIB):
                    c = self.consume(n, ai[0])
                    if c == 'consumed':
                        if status == 'freed':
                            self.out.append(('uaf', ln, n))
                        self.owner.add(('call', n))
                        return
                    if c == 'freed':
                        if status == 'freed':
                            self.out.append(('double', ln, n))
                            return
                        status = 'freed'
                    elif d is not None and carries(self.fn.loc[d]):
                        held.add(d)
                    if status == 'freed' and c == 'used':
                        self.out.append(('uaf', ln, n))
                        return
                else:
                    tail = n.split('::')[-1]
                    if tail in ('push', 'insert', 'push_back') or tail.startswith('set'):
                        self.owner.add(('coll', n))
                        return
                    if d is not None and (carries(self.fn.loc[d]) or d == 0):
                        held.add(d)
                for i in ai:
                    if args[i].get('m') and len(args[i]['m']) == 1 and d != opl(args[i])[0] and status != 'freed' and len(held) > 1 and False:
                        held.discard(opl(args[i])[0])
            elif d is not None:
                if d in held:
                    held.discard(d)
                    if not held and status == 'raw':
                        self.out.append(('lost', ln, 'overwritten'))
                        return
                nt.pop(d, None)
                ks.pop(d, None)
            if nx is not None:
                yield fz(held, nt, ks, status, nx)
            return
        if k == 'sw':
            l, pr = opl(t[1])
            if l is not None and not pr and l in nt:
                isnull = nt[l]                    # value of l when the pointer is null
                want = 0 if isnull else 1         # value when it is not null
                yield fz(held, nt, ks, status, self.pick(t, want))
                return
            if l is not None and not pr and l in ks:
                yield fz(held, nt, ks, status, self.pick(t, ks[l]))
                return
            for b in succs(blk):
                yield fz(held, nt, ks, status, b)
            return
        if k == 'ret':
            if 0 in held:
                self.returned = True
                if status == 'freed' and carries(self.fn.loc[0]):
                    self.out.append(('uaf', self.last(bb), 'returned after its release'))
                return
            if status == 'raw':
                self.out.append(('leak', self.last(bb), ''))
            return
        for b in succs(blk):
            yield fz(held, nt, ks, status, b)

    def pick(self, t, val):
        for v, b in t[2]:
            if int(v) == val or int(v) == val % (1 << 32):
                return b
        return t[3]

    def const(self, rv, ks, nt):
        """value of an rvalue when the status of the call is 1; ('null', pol) for tests of the pointer"""
        def val(o):
            if 'k' in o:
                try:
                    return int(o['k'].get('v'))
                except (TypeError, ValueError):
                    return None
            l, pr = opl(o)
            return ks.get(l) if not pr else None
        if rv[0] == 'use':
            l, pr = opl(rv[1])
            if l in nt and not pr:
                return ('null', nt[l])
            return val(rv[1])
        if rv[0] == 'cast':
            return val(rvops(rv)[0])
        if rv[0] == 'un' or rv[0] == 'not':
            o = rvops(rv)
            if o:
                l, pr = opl(o[0])
                if l in nt and not pr:
                    return ('null', not nt[l])
                v = val(o[0])
                return None if v is None else int(not v)
        if rv[0] == 'bin':
            a, b = val(rv[2]), val(rv[3])
            if a is None or b is None:
                return None
            f = {'Eq': lambda: a == b, 'Ne': lambda: a != b, 'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b, 'Ge': lambda: a >= b}.get(rv[1])
            return int(f()) if f else None
        return None

    def last(self, bb):
        b = self.fn.blocks[bb]
        l = [s[2] for s in b['s'] if s[0] != 'dead' and len(s) > 2]
        return l[-1] if l else (max(self.lines) if self.lines else 0)

    def fieldof(self, rv, hit):
        names = rv[1][4] if len(rv[1]) > 4 else []
        for i, o in enumerate(rv[2]):
            if any(o is h for h in hit):
                return names[i] if i < len(names) else str(i)
        return '?'

    def ownfield(self, pl):
        for p in pl[1:]:
            if isinstance(p, list) and p[0] == 'f' and len(p) > 3:
                o = base(str(p[3]))
                if o in self.own.ptrs:
                    return (o, p[2])
        return None

    def sametype(self, d, held):
        return any(ptrto(self.fn.loc[d]) and ptrto(self.fn.loc[h]) == ptrto(self.fn.loc[d]) for h in held)


RETARG = re.compile(r'^(BN_bin2bn|BN_mod_inverse|BN_copy|d2i_\w+)$')


def carries(t):
    """can a value of type t hold a raw pointer of the foreign library?"""
    return '*mut ' in t or '*const ' in t or 'NonNull' in t


class Ffi(object):
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.own = Owners(ctx)
        self.fns = {}
        self.memo = {}
        self.accmemo = {}

    def fn(self, f):
        r = self.fns.get(f)
        if r is None:
            r = self.fns[f] = Fn(self.P, f)
        return r

    # ---- where a pointer comes from
    def sources(self, f, o, depth=0):
        """terms ('field', owner, field) ('param', i) ('call', name, local) ('out', name) ('null',) ('other',)"""
        fn = self.fn(f)
        l, pr = opl(o)
        if l is None:
            return {('null',)}
        return self.placesrc(f, [l] + list(pr), depth, set())

    def placesrc(self, f, p, depth, seen):
        fn = self.fn(f)
        for x in reversed(p[1:]):
            if isinstance(x, list) and x[0] == 'f' and len(x) > 3 and base(str(x[3])) in self.own.ptrs:
                return {('field', base(str(x[3])), x[2])}
        l = p[0]
        if (f, l) in seen or depth > 6:
            return {('other',)}
        seen = seen | {(f, l)}
        r = set()
        if 1 <= l <= fn.d['argc']:
            return {('param', l)}
        for rv in fn.assigned.get(l, []):
            if rv[0] == 'call':
                t = rv[1]
                n = cn(t[1])
                if ffi(n) is not None:
                    r.add(('call', ffi(n), l))
                elif n.endswith('ptr::null_mut') or n.endswith('ptr::null'):
                    r.add(('null',))
                elif n in self.P.fns and self.P.fns[n]['crate'] in ('ossl', LIB):
                    for s in self.rets(n, depth + 1):
                        r.add(s if s[0] != 'param' else ('other',))
                elif t[2]:
                    for o in t[2][:1]:
                        ol, opr = opl(o)
                        r |= self.placesrc(f, [ol] + list(opr), depth, seen) if ol is not None else {('other',)}
                else:
                    r.add(('other',))
            elif rv[0] in ('use', 'cast'):
                for o in rvops(rv):
                    ol, opr = opl(o)
                    r |= self.placesrc(f, [ol] + list(opr), depth, seen) if ol is not None else {('null',)}
            elif rv[0] in ('ref', 'raw'):
                r |= self.placesrc(f, rv[-1], depth, seen)
            elif rv[0] == 'agg':
                for o in rvops(rv):
                    ol, opr = opl(o)
                    r |= self.placesrc(f, [ol] + list(opr), depth, seen) if ol is not None else {('null',)}
            else:
                r.add(('other',))
        # filled in by a call through its address
        for b, fr, a, d, ln in self.P.calls.get(f, ()):
            x = ffi(cn(fr))
            if x in OUT and OUT[x] is not None and len(a) > OUT[x] and fn.outlocal(a[OUT[x]]) == l:
                r.add(('out', x, l))
        return r or {('other',)}

    def rets(self, f, depth):
        k = (f, 'r')
        if k not in self.accmemo:
            self.accmemo[k] = {('other',)}
            self.accmemo[k] = self.placesrc(f, [0], depth, set())
        return self.accmemo[k]

    # ---- what a function does with a pointer it is given
    def consume(self, n, i, stack=()):
        k = (n, i)
        if k in self.memo:
            return self.memo[k]
        if k in stack or len(stack) > 6:
            return 'used'
        self.memo[k] = 'used'
        fn = self.fn(n)
        if i + 1 > fn.d['argc'] or not carries(fn.loc[i + 1]):
            return 'used'
        t = Trail(self.P, fn, self.own, ANYFREE, lambda a, b: self.consume(a, b, stack + (k,))).run(0, [i + 1], 0)
        r = 'used'
        kinds = set(x[0] for x in t.out)
        if t.owner:
            r = 'consumed'
        elif t.released:
            r = 'freed'
        if r != 'used' and ('leak' in kinds or 'lost' in kinds):
            self.partial.append((n, i, t))
        self.memo[k] = r
        return r

    partial = None


class AnyFree(object):
    def __contains__(self, x):
        return bool(FREE.search(x))


ANYFREE = AnyFree()


def stem(x):
    return re.sub(r'(_CTX)?_?(secure_)?(new|fetch|dup|load)(_\w+)?$', r'\1', x)


def releases(x, pointee, own):
    """names of the functions which release what x hands out"""
    p = pointee.split('::')[-1]
    return {'bio_st': ('BIO_free', 'BIO_free_all', 'BIO_vfree'), 'bignum_st': ('BN_free', 'BN_clear_free'), 'bignum_ctx': ('BN_CTX_free',),
            'evp_pkey_st': ('EVP_PKEY_free',), 'evp_pkey_ctx_st': ('EVP_PKEY_CTX_free',), 'evp_cipher_st': ('EVP_CIPHER_free',),
            'evp_cipher_ctx_st': ('EVP_CIPHER_CTX_free',), 'evp_md_st': ('EVP_MD_free',), 'evp_md_ctx_st': ('EVP_MD_CTX_free',),
            'evp_mac_st': ('EVP_MAC_free',), 'evp_mac_ctx_st': ('EVP_MAC_CTX_free',), 'evp_kdf_st': ('EVP_KDF_free',), 'evp_kdf_ctx_st': ('EVP_KDF_CTX_free',),
            'evp_rand_st': ('EVP_RAND_free',), 'evp_rand_ctx_st': ('EVP_RAND_CTX_free',), 'evp_signature_st': ('EVP_SIGNATURE_free',),
            'ossl_lib_ctx_st': ('OSSL_LIB_CTX_free',), 'ossl_provider_st': ('OSSL_PROVIDER_unload',), 'ossl_param_st': ('OSSL_PARAM_free', 'OSSL_PARAM_clear_free'),
            'ossl_param_bld_st': ('OSSL_PARAM_BLD_free',)}.get(p, ())


def allocs(P):
    """(fn, block, foreign name, local that holds the object, status local or None, line)"""
    for f, cs in P.calls.items():
        if P.fns[f]['crate'] not in ('ossl', LIB):
            continue
        fn = None
        for b, fr, a, d, ln in cs:
            x = ffi(cn(fr))
            if x is None:
                continue
            if x in OUT:
                i = OUT[x]
                fn = fn or Fn(P, f)
                l = fn.outlocal(a[i]) if i is not None and len(a) > i else None
                yield f, b, x, l, d[0] if len(d) == 1 else None, ln
            elif not RETARG.search(x) or x.startswith('d2i_'):
                t = P.fns[f]['locals'][d[0]] if len(d) == 1 else ''
                if t.startswith('*mut ossl_sys::') and (ALLOC.search(x) or x.startswith('d2i_')):
                    yield f, b, x, d[0], None, ln


def owned(ctx, F_):
    P = ctx.P
    n = 0
    used = collections.Counter()
    F_.partial = []
    work = [z + (None,) for z in allocs(P)]
    done = set()
    while work:
        f, b, x, l, st, ln, fr = work.pop(0)
        if (f, b, l) in done:
            continue
        done.add((f, b, l))
        ctx.analysed.add(f)
        n += 1
        key = '%s|%s' % (short(f), x)
        if l is None:
            ctx.ob('object|' + key, True, ctx.where(f, ln), '')
            continue
        fn = F_.fn(f)
        pt = ptrto(fn.loc[l]) or ''
        fr = fr or releases(x, pt, F_.own) or ANYFREE
        t = fn.blocks[b]['t']
        if t[4] is None:
            continue
        tr = Trail(P, fn, F_.own, fr, F_.consume, st).run(t[4], [l], ln)
        for k in ('leak', 'lost', 'double', 'uaf', 'wrongfree'):
            bad = sorted(set((z[1], z[2]) for z in tr.out if z[0] == k))
            txt = {'leak': 'is not released on a path that ends', 'lost': 'is no longer held by anything, and has not been released', 'double': 'is released twice',
                   'uaf': 'is used after it has been released', 'wrongfree': 'is released by a function for another kind of object'}[k]
            ctx.ob('%s|%s' % (k, key), not bad, ctx.where(f, bad[0][0] if bad else ln),
                   'what %s (line %s) hands out %s%s' % (x, ln, txt, ' (%s)' % ', '.join('line %s %s' % z for z in bad) if bad else ''))
        for o in tr.owner:
            used[o] += 1
        if tr.returned:
            for g in P.callers.get(f, ()):
                for b2, fr2, a2, d2, l2 in P.calls.get(g, ()):
                    if cn(fr2) == f and len(d2) == 1 and carries(P.fns[g]['locals'][d2[0]]):
                        work.append((g, b2, x, d2[0], None, l2, fr))
    for n_, i, tr in F_.partial:
        bad = [z for z in tr.out if z[0] in ('leak', 'lost')]
        ctx.ob('takes|%s|%d' % (short(n_), i), False, ctx.where(n_, bad[0][1]),
               'takes over the object of argument %d on some paths (%s) but neither keeps nor releases it on the one that ends here' % (i + 1, ', '.join(sorted(set('%s' % (o,) for o in tr.owner))) or 'released'))
    ctx.floor('places where the foreign library hands out an object', n, 20)
    ctx.stats['allocation sites'] = n
    return used


def destructors(ctx, F_, used):
    """the destructor of a type that keeps a foreign object releases it on every path"""
    P = ctx.P
    n = 0
    types = set((o, fld) for (o, fld) in used if o not in ('call', 'coll'))
    for t in sorted(F_.own.drops):
        for fld, pt in F_.own.ptrs.get(t, ()):
            types.add((t, fld))
    for t, fld in sorted(types):
        if t not in F_.own.ptrs:
            continue
        pts = [pt for x, pt in F_.own.ptrs[t] if x == fld]
        if not pts:
            continue
        f = F_.own.drops.get(t)
        holds = (t, fld) in used
        if f is None:
            ctx.ob('drop|%s.%s' % (short(t), fld), not holds, t, 'a %s keeps a foreign object in `%s` but has no destructor' % (short(t), fld))
            continue
        n += 1
        ctx.analysed.add(f)
        rel = releases('', pts[0], F_.own)
        bad = missing_release(F_, f, t, fld, rel, P)
        ctx.ob('drop|%s.%s' % (short(t), fld), bad is None, ctx.where(f, bad), 'the destructor of %s can end without releasing `%s` (%s)' % (short(t), fld, ' or '.join(rel)))
    ctx.floor('destructors of types that keep foreign objects', n, 10)


def missing_release(F_, f, t, fld, rel, P):
    """a line where the destructor ends without having called one of rel on the field; None if there is none.
    Branches on a flag of the value itself (objects it does not own) are not taken into account unless no path releases."""
    fn = F_.fn(f)
    seen, work = set(), [(0, False, None)]
    bad = None
    any_ = False
    while work:
        b, ok, nul = work.pop()
        if (b, ok, nul) in seen:
            continue
        seen.add((b, ok, nul))
        blk = fn.blocks[b]
        if blk is None:
            continue
        tt = blk['t']
        if tt[0] == 'ret':
            if not ok and nul != 'null':
                l = [s[2] for s in blk['s'] if s[0] != 'dead' and len(s) > 2]
                bad = l[-1] if l else fn.d['line']
            continue
        nk = ok
        if tt[0] == 'call':
            n = cn(tt[1])
            x = ffi(n)
            if x in rel and tt[2] and any(s[0] == 'field' and s[1] == t and s[2] == fld for s in F_.sources(f, tt[2][0])):
                nk = any_ = True
            elif n in P.fns and P.fns[n]['crate'] in ('ossl', LIB) and any(ffi(cn(c[1])) in rel for c in P.calls.get(n, ())):
                nk = any_ = True
            if tt[4] is not None:
                work.append((tt[4], nk, nul))
            continue
        if tt[0] == 'sw':
            lo, pr = opl(tt[1])
            nt = nulltest(F_, fn, lo, t, fld)
            if nt is not None:
                want = 0 if nt else 1
                for v, tb in list(tt[2]) + [[None, tt[3]]]:
                    isn = None
                    if v is None:
                        isn = want not in [int(q[0]) for q in tt[2]]
                    else:
                        isn = int(v) == want
                    if tb is not None:
                        work.append((tb, nk, nul if isn else 'null'))
                continue
            if popped(F_, fn, lo, t):
                # a loop that takes the elements one by one: the end of the loop is the empty collection
                for v, tb in list(tt[2]) + [[None, tt[3]]]:
                    end = (0 not in [int(q[0]) for q in tt[2]]) if v is None else int(v) == 0
                    if tb is not None:
                        work.append((tb, nk or end, nul))
                continue
        for s in succs(blk):
            work.append((s, nk, nul))
    if not any_:
        return bad or fn.d['line']
    return bad


def nulltest(F_, fn, l, t, fld):
    """True when l is `field.is_null()`, False when its negation"""
    for rv in fn.assigned.get(l, []):
        if rv[0] == 'call' and NULLT.search(cn(rv[1][1])) and any(s[0] == 'field' and s[1] == t and s[2] == fld for s in F_.sources(fn.f, rv[1][2][0])):
            return True
        if rv[0] == 'un':
            o = opl(rvops(rv)[0])[0]
            x = nulltest(F_, fn, o, t, fld) if o is not None else None
            if x is not None:
                return not x
    return None


def popped(F_, fn, l, t):
    for rv in fn.assigned.get(l, []):
        if rv[0] == 'disc':
            p = rv[1] if isinstance(rv[1], list) else rv[-1]
            for r2 in fn.assigned.get(p[0], []):
                if r2[0] == 'call' and cn(r2[1][1]).split('::')[-1] in ('pop', 'next', 'pop_front'):
                    return True
    return False


def rebuilt(ctx, F_):
    """an owner is never made from the object of another owner unless a reference of its own has been taken"""
    P = ctx.P
    n = 0
    for f, d in P.fns.items():
        if d['crate'] not in ('ossl', LIB):
            continue
        fn = None
        for bi, b in enumerate(d['blocks']):
            if b is None:
                continue
            for s in b['s']:
                if s[0] == 'dead' or s[1][0] != 'agg' or not isinstance(s[1][1], list) or s[1][1][0] != 'adt':
                    continue
                t = base(s[1][1][1])
                if t not in F_.own.ptrs or t not in F_.own.drops:
                    continue
                names = s[1][1][4]
                flds = set(x for x, y in F_.own.ptrs[t])
                for i, o in enumerate(s[1][2]):
                    if i >= len(names) or names[i] not in flds:
                        continue
                    n += 1
                    src = F_.sources(f, o)
                    sh = [x for x in src if x[0] == 'field']
                    ok = True
                    if sh:
                        ok = upref_before(F_, f, bi)
                    ctx.ob('shared|%s|%s' % (short(f), short(t)), ok, ctx.where(f, s[2]),
                           'a second %s is made from the object another %s keeps in `%s`, without taking a reference: both destructors release it' % (short(t), short(sh[0][1]) if sh else '', sh[0][2] if sh else ''))
                    for x in src:
                        if x[0] == 'param':
                            # a constructor that takes a pointer: not from another owner
                            for g in P.callers.get(f, ()):
                                for b2, fr2, a2, d2, l2 in P.calls.get(g, ()):
                                    if cn(fr2) == f and len(a2) >= x[1]:
                                        s2 = [y for y in F_.sources(g, a2[x[1] - 1]) if y[0] == 'field']
                                        if s2:
                                            ctx.ob('shared|%s|%s' % (short(g), short(t)), upref_before(F_, g, b2), ctx.where(g, l2),
                                                   '%s is given the object a %s already keeps in `%s`, without taking a reference' % (short(f), short(s2[0][1]), s2[0][2]))
    ctx.floor('places where a value takes over a foreign object', n, 15)


def upref_before(F_, f, bi):
    """every path to block bi has called an *_up_ref function"""
    fn = F_.fn(f)
    seen, work = set(), [0]
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        if b == bi:
            return False
        blk = fn.blocks[b]
        if blk is None:
            continue
        t = blk['t']
        if t[0] == 'call' and UPREF.search(ffi(cn(t[1])) or ''):
            continue
        work.extend(succs(blk))
    return True


def frees(ctx, F_):
    """what a value owns is released by its destructor only; a field is not replaced while it still owns something; nothing escapes its destructor"""
    P = ctx.P
    n = 0
    for f, cs in P.calls.items():
        d = P.fns[f]
        if d['crate'] not in ('ossl', LIB):
            continue
        indrop = f in F_.own.drops.values()
        for b, fr, a, dd, ln in cs:
            x = ffi(cn(fr))
            if x is not None and FREE.search(x) and a:
                n += 1
                src = F_.sources(f, a[0])
                for s in src:
                    if s[0] == 'field' and s[1] in F_.own.drops and not indrop and not only_from_drop(P, f, F_.own.drops.values()):
                        ok = replaced_after(F_, f, b, s[1], s[2])
                        ctx.ob('release|%s|%s' % (short(f), x), ok, ctx.where(f, ln), '%s releases the object a %s keeps in `%s`, which its destructor releases again' % (x, short(s[1]), s[2]))
            nm = cn(fr)
            tail = nm.split('::')[-1]
            if (nm.endswith('mem::forget') or nm.endswith('ManuallyDrop::new') or nm.endswith('ManuallyDrop::<T>::new') or tail in ('into_raw', 'leak')):
                ta = ' '.join(fr['fn'].get('ta') or []) + ' ' + ' '.join(F_.fn(f).loc[opl(o)[0]] for o in a if opl(o)[0] is not None)
                hit = [t for t in F_.own.drops if re.search(r'\b%s\b' % re.escape(t), ta)]
                ctx.ob('forget|%s' % short(f), not hit, ctx.where(f, ln), 'a %s is taken away from its destructor by %s' % (', '.join(map(short, hit)), nm))
            if nm.endswith('ptr::read') or nm.endswith('mem::zeroed') or nm.endswith('transmute_copy'):
                ta = ' '.join(fr['fn'].get('ta') or [])
                hit = [t for t in F_.own.ptrs if t in F_.own.drops and re.search(r'\b%s\b' % re.escape(t), ta)]
                ctx.ob('copy|%s' % short(f), not hit, ctx.where(f, ln), 'a %s is copied bit by bit by %s: both copies have a destructor' % (', '.join(map(short, hit)), nm))
        fn = None
        for bi, blk in enumerate(d['blocks']):
            if blk is None:
                continue
            for s in blk['s']:
                if s[0] == 'dead' or len(s[0]) < 2:
                    continue
                l = s[0][-1]
                if isinstance(l, list) and l[0] == 'f' and len(l) > 3 and base(str(l[3])) in F_.own.drops and (base(str(l[3])), l[2]) in [(t, x) for t in F_.own.ptrs for x, y in F_.own.ptrs[t]]:
                    t, fld = base(str(l[3])), l[2]
                    ok = released_before(F_, f, bi, t, fld)
                    src = set()
                    for o in rvops(s[1]):
                        src |= F_.sources(f, o)
                    ctx.ob('replace|%s|%s.%s' % (short(f), short(t), fld), ok or src == {('null',)} and ok, ctx.where(f, s[2]),
                           '`%s` of a %s is replaced while it may still keep an object: nothing releases that one' % (fld, short(t)))
    ctx.floor('releases of foreign objects', n, 20)


def only_from_drop(P, f, drops):
    cs = P.callers.get(f, ())
    return bool(cs) and all(c in drops for c in cs)


def replaced_after(F_, f, b, t, fld):
    fn = F_.fn(f)
    seen, work = set(), [s for s in succs(fn.blocks[b])]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        blk = fn.blocks[x]
        if blk is None:
            continue
        if any(s[0] != 'dead' and len(s[0]) > 1 and isinstance(s[0][-1], list) and s[0][-1][0] == 'f' and s[0][-1][2] == fld for s in blk['s']):
            continue
        if blk['t'][0] == 'ret':
            return False
        work.extend(succs(blk))
    return True


def released_before(F_, f, bi, t, fld):
    """every path to bi has released the field (or seen that it is null)"""
    fn = F_.fn(f)
    seen, work = set(), [0]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == bi:
            return False
        blk = fn.blocks[x]
        if blk is None:
            continue
        tt = blk['t']
        if tt[0] == 'call' and FREE.search(ffi(cn(tt[1])) or '') and tt[2] and any(s[0] == 'field' and s[1] == t and s[2] == fld for s in F_.sources(f, tt[2][0])):
            continue
        if tt[0] == 'sw':
            lo, pr = opl(tt[1])
            nt = nulltest(F_, fn, lo, t, fld) if lo is not None else None
            if nt is not None:
                want = 0 if nt else 1
                for v, tb in list(tt[2]) + [[None, tt[3]]]:
                    isn = (want not in [int(q[0]) for q in tt[2]]) if v is None else int(v) == want
                    if isn and tb is not None:
                        work.append(tb)
                continue
        work.extend(succs(blk))
    return True


def C32(ctx):
    ctx.rule('each object the foreign library hands out is followed along every path: it ends in a value whose destructor releases it, or is released once by the function for its kind, and is not used after that')
    F_ = Ffi(ctx)
    used = owned(ctx, F_)
    destructors(ctx, F_, used)
    rebuilt(ctx, F_)
    frees(ctx, F_)
    dangling(ctx, F_)


SAFEREF = re.compile(r'^(core::mem::(size_of|align_of|discriminant)|core::cmp::|core::fmt::)')


def pointy(t):
    return t.startswith('&') or t.startswith('*') or '(&' in t or '<&' in t or '<*' in t or rawish(t)


def rawish(t):
    """types that hold pointers nothing checks"""
    return t.startswith('*mut ') or t.startswith('*const ') or '<*mut ' in t or '<*const ' in t or bool(re.search(r'\b(ossl_param_st|CK_ATTRIBUTE|CK_MECHANISM|ck_attribute)\b', t)) or '(*mut ' in t or '(*const ' in t


def noref(t):
    return not (t.startswith('&') or t.startswith('*'))


class Derive(object):
    """which locals hold a pointer into which other locals of a function"""

    def __init__(self, D, f):
        self.D, self.f = D, f
        self.P = D.P
        d = self.d = D.P.fns[f]
        self.loc, self.argc = d['locals'], d['argc']
        self.der = collections.defaultdict(set)      # local -> {(L, own memory?)}
        # a reference handed in points into the thing of that parameter
        for i in range(1, self.argc + 1):
            if not noref(self.loc[i]):
                self.der[i].add((('p', i), False))
        ch = True
        n = 0
        while ch and n < 20:
            ch = False
            n += 1
            for b in d['blocks']:
                if b is None:
                    continue
                for s in b['s']:
                    if s[0] == 'dead':
                        continue
                    ch |= self.flow(s[0], self.rv(s[1]))
                t = b['t']
                if t[0] == 'call':
                    ch |= self.callflow(t)

    def flow(self, place, src):
        """True when something new is known"""
        l = place[0]
        if '*' in place[1:]:
            return False
        t = self.loc[l]
        src = set(x for x in src if x[0] != l)
        if not src or not (pointy(t) or len(place) > 1 or t.startswith('(') or '<' in t):
            return False
        if src <= self.der[l]:
            return False
        self.der[l] |= src
        return True

    def rv(self, rv):
        k = rv[0]
        if k in ('ref', 'raw'):
            p = rv[-1]
            if '*' in p[1:]:
                return self.der.get(p[0], set())
            if isinstance(p[0], int):
                return {(p[0], True)} | self.der.get(p[0], set())
            return set()
        r = set()
        if k in ('use', 'cast', 'agg'):
            for o in rvops(rv):
                l, pr = opl(o)
                if l is not None and (pointy(self.loc[l]) or '<' in self.loc[l] or self.loc[l].startswith('(') or self.loc[l].startswith('[')):
                    r |= self.der.get(l, set())
        return r

    def callflow(self, t):
        n = cn(t[1])
        dest = t[3]
        if SAFEREF.search(n) or len(dest) < 1:
            return False
        ty = self.loc[dest[0]]
        ch = False
        tail = n.split('::')[-1]
        if tail in ('push', 'insert', 'push_back', 'extend_from_slice', 'extend') and len(t[2]) > 1:
            src = set()
            for o in t[2][1:]:
                l, pr = opl(o)
                if l is not None and rawish(self.loc[l]):
                    src |= self.der.get(l, set())
            rl, rp = opl(t[2][0])
            for (R, own) in list(self.der.get(rl, ())):
                if isinstance(R, int):
                    new = set(x for x in src if x[0] != R)
                    if new - self.der[R]:
                        self.der[R] |= new
                        ch = True
        if not pointy(ty):
            return ch
        src = set()
        which = self.D.through(n)
        for i, o in enumerate(t[2]):
            if which is not None and i + 1 not in which:
                continue
            l, pr = opl(o)
            if l is None:
                continue
            for (L, own) in self.der.get(l, ()):
                # what a function gives out of a value with a destructor is what the value keeps
                if isinstance(L, int) and own and self.hasdrop(L):
                    own = False
                src.add((L, own))
        return self.flow(dest, src) or ch

    def hasdrop(self, L):
        return bool(DROPTY.search(self.loc[L])) or base(self.loc[L]) in self.D.own.drops or base(self.loc[L]) in self.D.owndrop


DROPTY = re.compile(r'^(alloc::(vec::Vec|string::String|boxed::Box|ffi::\S*CString|sync::Arc|rc::Rc|borrow::Cow)|std::ffi\S*CString|zeroize::Zeroizing|core::option::Option<alloc|core::result::Result<alloc)')


class Dangling(object):
    def __init__(self, F_):
        self.P, self.own = F_.P, F_.own
        self.thr = {}
        self.der = {}
        # types with a destructor of their own or in one of their fields
        self.owndrop = set(t for t, a in self.P.adts.items() if a.get('drop') or any(DROPTY.search(y) for vn, fl in a['v'] for x, y in fl))
        self.owndrop |= set(F_.own.drops)
        while True:
            more = set(t for t, a in self.P.adts.items() if t not in self.owndrop and any(base(y) in self.owndrop for vn, fl in a['v'] for x, y in fl))
            if not more:
                break
            self.owndrop |= more

    def derive(self, f):
        r = self.der.get(f)
        if r is None:
            r = self.der[f] = Derive(self, f)
        return r

    def through(self, n):
        """parameters whose pointee the result points into; None: unknown (all)"""
        if n not in self.P.fns:
            return None
        if n not in self.thr:
            self.thr[n] = None
            d = self.derive(n)
            self.thr[n] = set(L[1] for (L, own) in d.der.get(0, ()) if isinstance(L, tuple))
        return self.thr[n]


def dangling(ctx, F_):
    """a raw pointer into a local value is not used, and nothing keeps it, once that value is gone"""
    P = ctx.P
    D = Dangling(F_)
    n = 0
    for f, d in P.fns.items():
        if d['crate'] not in ('ossl', LIB) or not any(rawish(t) for t in d['locals']):
            continue
        dv = D.derive(f)
        roots = collections.defaultdict(lambda: (set(), set()))
        for x, ds in dv.der.items():
            if not rawish(d['locals'][x]) and not holderof(dv, x):
                continue
            for L, own in ds:
                if isinstance(L, int) and noref(d['locals'][L]) and L != x:
                    roots[L][0 if own and not dv.hasdrop(L) else 1].add(x)
        for L, (mem, heap) in sorted(roots.items()):
            if not dv.hasdrop(L) and re.search(r"&|'_", d['locals'][L]):
                continue      # it only holds references, which the compiler checks
            if not any(rawish(d['locals'][x]) for x in mem | heap):
                continue
            n += 1
            bad = gone(dv, D, f, L, mem, heap)
            nm = local_name(d, L)
            ctx.ob('dangling|%s|%s' % (short(f), nm), bad is None, ctx.where(f, bad[0] if bad else None),
                   'a raw pointer into a `%s` that no longer exists is %s here' % (d['locals'][L], bad[1] if bad else ''))
    ctx.floor('local values raw pointers point into', n, 40)
    ctx.stats['values pointed into'] = n


def holderof(dv, x):
    return '<' in dv.loc[x] and ('ossl_param_st' in dv.loc[x] or 'CK_ATTRIBUTE' in dv.loc[x])


def local_name(d, L):
    return re.sub(r'[^\w<>:]', '', d['locals'][L])[:60]


def gone(dv, D, f, L, mem, heap):
    """(line, what) of a use of a pointer into L after its end"""
    d = dv.d
    blocks = d['blocks']
    ptrs = mem | heap
    argL = L <= dv.argc
    # state: block, L state (live / moved / ended), pointers currently valid-derived, escaped
    work = [(0, 'live' if argL else 'un', frozenset(), None)]
    seen = set()
    while work:
        st = work.pop()
        if st in seen:
            continue
        seen.add(st)
        if len(seen) > 20000:
            return None
        bb, ls, cur, esc = st
        blk = blocks[bb]
        if blk is None:
            continue
        cur = set(cur)
        line = d['line']
        stop = False
        for s in blk['s']:
            if s[0] == 'dead':
                if s[1] == L:
                    if ls == 'live' and not dv.hasdrop(L):
                        if esc and esc[1]:
                            return esc[0], 'kept by something that lives on'
                        ls = 'ended'
                    elif ls == 'live':
                        ls = 'ended' if (mem & cur) else ls
                cur.discard(s[1])
                continue
            pl, rv = s[0], s[1]
            line = s[2] if len(s) > 2 else line
            rd = places_read(rv)
            if ls == 'ended':
                for p in rd:
                    if p[0] in cur and '*' in p[1:] and rv[0] not in ('ref',):
                        return line, 'read through'
                if pl[0] in cur and '*' in pl[1:]:
                    return line, 'written through'
            src = [p[0] for p in rd if p[0] in cur]
            if rv[0] in ('ref', 'raw'):
                src = [p[0] for p in rd if p[0] in cur or p[0] == L]
            for o in rvops(rv) if rv[0] in ('use', 'cast', 'agg') else ():
                if o.get('m') == [L]:
                    ls = 'moved' if ls == 'live' else ls
            if pl == [L]:
                ls, cur, esc = 'live', set(x for x in cur if False), None
                continue
            if '*' in pl[1:]:
                if src and rv[0] in ('use', 'agg') and any(rawish(d['locals'][x]) for x in src) and is_ref_out(dv, pl[0]):
                    esc = (line, any(x in mem for x in src))
                    if ls == 'ended':
                        return line, 'stored'
                continue
            if src and pl[0] in ptrs:
                if len(pl) == 1 or True:
                    cur.add(pl[0])
            elif len(pl) == 1:
                cur.discard(pl[0])
        t = blk['t']
        k = t[0]
        if k == 'call':
            nme = cn(t[1])
            line = t[5] if len(t) > 5 else line
            args = t[2]
            al = [opl(o)[0] for o in args]
            if ls == 'ended' and any(a in cur and rawish(d['locals'][a]) for a in al if a is not None) and not NULLT.search(nme):
                if ffi(nme) is not None or nme in D.P.fns or USES.search(nme):
                    return line, 'given to %s' % nme.split('::')[-1]
            tail = nme.split('::')[-1]
            if tail in ('push', 'insert', 'push_back', 'extend_from_slice') and any(a in cur and rawish(d['locals'][a]) for a in al[1:] if a is not None):
                R = dv.der.get(al[0], ())
                if any(isinstance(r, tuple) for r, o in R):
                    esc = (line, any(a in mem for a in al[1:]))
                    if ls == 'ended':
                        return line, 'kept'
                for r, o in R:
                    if isinstance(r, int) and r in ptrs:
                        cur.add(r)
            for o in args:
                if o.get('m') == [L] and ls == 'live':
                    if nme.endswith('mem::drop'):
                        if esc and not esc[1]:
                            return esc[0], 'kept by something that lives on'
                        ls = 'ended' if heap & cur else 'moved'
                    else:
                        ls = 'moved'
            dl = t[3][0] if len(t[3]) == 1 else None
            if dl == L:
                ls, cur, esc = 'live', set(), None
            elif dl is not None:
                if dl in ptrs and any(a in cur or L in [r for r, o in dv.der.get(a, ())] for a in al if a is not None):
                    if ls != 'ended' or any(a in cur for a in al if a is not None):
                        cur.add(dl)
                else:
                    cur.discard(dl)
            if t[4] is not None:
                work.append((t[4], ls, frozenset(cur), esc))
            continue
        if k == 'drop':
            pl = t[1]
            if pl == [L] and ls == 'live':
                if esc and not esc[1]:
                    return esc[0], 'kept by something that lives on'
                ls = 'ended' if dv.hasdrop(L) else ls
                cur = set(x for x in cur if x in heap or x in mem)
            elif len(pl) == 1:
                cur.discard(pl[0])
        if k == 'ret':
            if ls == 'ended' and 0 in cur:
                return line, 'returned'
            if 0 in mem and 0 in cur and rawish(d['locals'][0]) and not dv.hasdrop(L):
                return line, 'returned'
            if argL and esc and esc[1] and ls == 'live' and not dv.hasdrop(L):
                return esc[0], 'kept by something that lives on'
            continue
        for s2 in succs(blk):
            work.append((s2, ls, frozenset(cur), esc))
    return None


USES = re.compile(r'(from_raw_parts(_mut)?|copy(_nonoverlapping)?|ptr::(read|write)\w*|from_ptr|offset|add|from_raw)$')


def is_ref_out(dv, l):
    return any(isinstance(r, tuple) for r, o in dv.der.get(l, ()))


def places_read(rv):
    k = rv[0]
    if k in ('ref', 'raw'):
        return [rv[-1]]
    if k in ('disc', 'len'):
        return [rv[1]] if isinstance(rv[1], list) else []
    r = []
    for o in rvops(rv):
        p = o.get('c') or o.get('m')
        if p:
            r.append(p)
    return r
