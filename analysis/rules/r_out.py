"""C18: what is written through pointers of the application stays within the length it stated."""
from common import *
from r_life import rootof
from r_ffi import Fn, opl, cn, rvops

SLICE = re.compile(r'(from_raw_parts_mut|bytes_to_slice_mut)$')
COPY = re.compile(r'(copy_nonoverlapping|ptr::copy|intrinsics::copy)$')
WRITE = re.compile(r'(ptr::write|write_unaligned|write_volatile)$')
OFFS = ('offset', 'add', 'wrapping_add', 'wrapping_offset', 'byte_add')
CONV = ('try_from', 'from', 'into', 'try_into', 'unwrap', 'map_err', 'cast', 'cast_mut', 'ok_or', 'ok', 'expect', 'unwrap_or', 'clone')


def strip(v):
    while True:
        if v.k in ('ok', 'S', 'addr', 'new') and v.a and isinstance(v.a[0], E.V) and v.k != 'new':
            v = v.a[0]
        elif v.k == 'call' and v.a[0].split('::')[-1] in CONV and v.a[1]:
            v = v.a[1][0]
        else:
            return v


def target(v):
    """(base, [offsets]) of a pointer"""
    offs = []
    while True:
        v = strip(v)
        if v.k == 'call' and v.a[0].split('::')[-1] in OFFS and len(v.a[1]) > 1:
            offs.append(v.a[1][1])
            v = v.a[1][0]
        elif v.k == 'idx' and len(v.a) > 1 and isinstance(v.a[1], E.V):
            offs.append(v.a[1])
            v = v.a[0]
        else:
            return v, offs


def atleast(fs, same):
    """[(x, strict)] with stated >= x, for the stated lengths `same` recognises"""
    r = []
    for a, o in fs:
        if a.k != 'bin' or a.a[0] not in ('Lt', 'Le', 'Gt', 'Ge') or o not in (0, 1):
            continue
        op, x, y = a.a[0], a.a[1], a.a[2]
        if op in ('Gt', 'Ge'):
            op, x, y = {'Gt': 'Lt', 'Ge': 'Le'}[op], y, x
        # x < y or x <= y
        if same(x) and o == 0:
            r.append((y, op == 'Le'))
        if same(y) and o == 1:
            r.append((x, op == 'Lt'))
    return r


def addends(v):
    """multiset of the terms of a sum, constants summed"""
    out, const = collections.Counter(), 0
    work = [v]
    while work:
        x = strip(work.pop())
        if x.k == 'bin' and x.a[0].startswith('Add'):
            work += [x.a[1], x.a[2]]
        elif x.k == 'f' and x.a[0].k == 'bin' and x.a[0].a[0].startswith('Add'):
            work += [x.a[0].a[1], x.a[0].a[2]]
        elif cval(x) is not None:
            const += cval(x)
        else:
            out[x] += 1
    return out, const


def within(small, big):
    """small <= big, by their terms"""
    a, ac = small
    b, bc = big
    return all(b[k] >= n for k, n in a.items()) and ac <= bc


def lenof(v):
    """the thing v is the length of"""
    v = strip(v)
    if v.k == 'len':
        return strip(v.a[0])
    if v.k == 'call' and v.a[0].split('::')[-1] == 'len' and v.a[1]:
        return strip(v.a[1][0])
    return None


def inloopof(idx, x):
    """idx counts the elements of what x is the length of, or is an index of a range that ends at x"""
    c = lenof(x)
    core = strip(x)
    if any(s.k == 'call' and 'RangeInclusive' in s.a[0] for s in subs(idx)):
        return False
    for s in subs(idx):
        if c is not None and s is c:
            return True
        if s is core:
            return True
    return False


class Out(E.Rule):
    name = 'out'
    lens = True
    rawderef = True
    keep_old = True
    K, KS = 48, 96

    def __init__(self, P, roots):
        self.P, self.roots = P, roots
        self.seen = {}

    def field(self, o, n):
        return n == '*' or n in ('pValue', 'ulValueLen')

    def wfield(self, o, n):
        return n == '*'

    def atom(self, n):
        return n.endswith('_len') or n.endswith('_num')

    def inline(self, f):
        return checker(self.P, f, (LIB,)) and ('::fns::' in f or '::misc::' in f)

    def sink(self, n, a=(), f=None):
        return bool(SLICE.search(n) or COPY.search(n) or WRITE.search(n))

    def ok(self, n, args, facts):
        return self.judge(n, args, list(facts.items())) is None

    def stated(self, i, facts):
        return lambda v: (lambda s: s.k == 'p' and s.a[0] == i + 1)(strip(v))

    def judge(self, n, args, facts):
        """None when the write is fine, otherwise what is wrong"""
        if not args:
            return None
        if n == 'deref':
            return None
        if SLICE.search(n):
            base, offs = target(args[0])
            ln = args[1]
            if base.k == 'p':
                same = self.stated(base.a[0], facts)
                if same(ln) and not offs:
                    return None
                if bounded(ln, same, facts) and not offs:
                    return None
                return 'a slice over parameter %d whose length is not the length stated with it' % base.a[0]
            return self.inner(base, offs, ln, facts)
        if n.startswith('write:') or WRITE.search(n) or COPY.search(n):
            d = args[1] if COPY.search(n) else args[0]
            base, offs = target(d)
            if base.k == 'p':
                if COPY.search(n):
                    same = self.stated(base.a[0], facts)
                    if not offs and (same(args[2]) or bounded(args[2], same, facts)):
                        return None
                    q = lenof(args[2])
                    if not offs and q is not None and q.k == 'call' and any(same(z) for z in q.a[1][1:]):
                        return None         # elements of something that was asked for at most the stated number
                    return 'a copy to parameter %d of a length that was not compared with the one stated' % base.a[0]
                if not offs:
                    return None
                same = self.stated(base.a[0], facts)
                lower = atleast(facts, same)
                for o in offs:
                    if any(x.k == '...' for x in subs(o)):
                        return None         # a later round of a loop whose first rounds were judged
                    if any(inloopof(o, x) for x, s in lower):
                        return None
                    if any(strictly(strip(o), strip(x)) for x, s in lower):
                        return None
                    # elements of something that was asked for at most the stated number
                    for a, oc in facts:
                        if a.k == 'bin' and a.a[0] == 'Lt' and oc == 1 and strip(a.a[1]) is strip(o):
                            c = lenof(a.a[2])
                            if same(a.a[2]) or c is not None and c.k == 'call' and any(same(z) for z in c.a[1][1:]):
                                return None
                            if any(strip(x) is strip(a.a[2]) for x, s in lower):
                                return None
                    if fromquery(o, same):
                        return None
                    if self.ranged(o, lower, same):
                        return None
                return 'an element of parameter %d is written at a position that was not compared with the number stated' % base.a[0]
            if COPY.search(n):
                return self.inner(base, offs, args[2], facts)
        return None

    def ranged(self, o, lower, same):
        """the index comes out of `a..b` where b is a length, and the number stated is at least that"""
        for s in subs(o):
            if s.k != 'cell' or s.a[0] not in self.P.fns:
                continue
            fn = Fn(self.P, s.a[0])
            l, seen = s.a[1], set()
            while l is not None and l not in seen:
                seen.add(l)
                a = fn.assigned.get(l, [])
                if len(a) != 1:
                    break
                rv = a[0]
                if rv[0] == 'use':
                    l = opl(rv[1])[0]
                elif rv[0] == 'call' and rv[1][2]:
                    l = opl(rv[1][2][0])[0]
                elif rv[0] == 'agg' and rv[1][0] == 'adt' and rv[1][1].split('::')[-1].split('<')[0] == 'Range' and len(rv[2]) > 1:
                    e, pr = opl(rv[2][1])
                    d = fn.assigned.get(e, []) if e is not None and not pr else []
                    while len(d) == 1 and d[0][0] == 'use' and len(seen) < 40:
                        e, pr = opl(d[0][1])
                        seen.add(('e', e))
                        d = fn.assigned.get(e, []) if e is not None and not pr else []
                    if len(d) == 1 and d[0][0] == 'call' and cn(d[0][1][1]).split('::')[-1] == 'len':
                        if any(lenof(x) is not None for x, st in lower):
                            return True
                        # the length of what a call returned that was given the number stated
                        src = feeds(fn, [opl(x)[0] for x in d[0][1][2]])
                        return any(same(E.mk('p', j)) for j in src if isinstance(j, int) and 0 < j <= fn.d['argc'])
                    break
                else:
                    break
        return False

    def inner(self, base, offs, ln, facts):
        """pointers found in structures of the application"""
        if base.k == 'f' and base.a[1] == 'pValue':
            own = base.a[0]
            same = lambda v: (lambda s: s.k == 'f' and s.a[1] == 'ulValueLen' and s.a[0] is own)(strip(old(v)))
            if not offs and (same(ln) or bounded(ln, same, facts)):
                return None
            # the same attribute, looked up again in the same template
            tm = templates(own)
            again = lambda v: (lambda s: s.k == 'f' and s.a[1] == 'ulValueLen' and tm and templates(s.a[0]) & tm)(strip(old(v)))
            if not offs and bounded(ln, again, facts):
                return None
            return 'the value of an attribute is written with a length that was not compared with ulValueLen'
        return None


def feeds(fn, ls, depth=14):
    """the locals that a local is computed from"""
    out, work = set(), [(l, 0) for l in ls]
    while work:
        l, n = work.pop()
        if l is None or l in out or n > depth:
            continue
        out.add(l)
        for rv in fn.assigned.get(l, []):
            if rv[0] == 'call':
                work += [(opl(x)[0], n + 1) for x in rv[1][2]]
            elif rv[0] in ('ref', 'raw'):
                work.append((rv[-1][0], n + 1))
            else:
                work += [(opl(x)[0], n + 1) for x in rvops(rv)]
    return out


def templates(v):
    """the slices over parameters a value was found in"""
    return ({str(strip(s.a[1][0])) for s in subs(v) if s.k == 'call' and SLICE.search(s.a[0]) and s.a[1]}
            | {str(s) for s in subs(v) if s.k == 'cell'})


def checker(P, f, crates):
    """a small function that only says yes or no"""
    d = P.fns.get(f)
    return bool(d) and d['crate'] in crates and bool(re.match(r'^(bool|core::result::Result<\(\), .*)$', d['locals'][0])) and len(d['blocks']) < 40


def strictly(i, x):
    """i < x by form: x - 1, or the same sum with a smaller constant"""
    a, b = addends(i), addends(x)
    return a[0] == b[0] and a[1] < b[1]


def fromquery(o, same):
    """the index counts the elements of a call that was given the stated number"""
    return any(s.k == 'call' and s.a[1] and any(same(z) for z in s.a[1][1:]) and not s.a[0].split('::')[-1] in CONV + OFFS for s in subs(o))


def old(v):
    v = strip(v)
    return v.a[0] if v.k == 'old' else v


def bounded(ln, same, facts):
    """ln is at most the stated length"""
    s = strip(ln)
    if s.k == 'call' and s.a[0].split('::')[-1] == 'min' and any(same(x) for x in s.a[1]):
        return True
    if s.k == 'call' and s.a[0].split('::')[-1] == 'clamp' and len(s.a[1]) > 2 and same(s.a[1][2]):
        return True
    mine = addends(ln)
    if any(strip(x) is s for x, strict in atleast(facts, lambda v: cval(strip(v)) == 0)):
        return True
    for x, strict in atleast(facts, same):
        if strip(x) is s or within(mine, addends(x)):
            return True
    # equal to the stated length
    for a, o in facts:
        if a.k == 'bin' and a.a[0] == 'Eq' and o == 1 and (same(a.a[1]) and strip(a.a[2]) is s or same(a.a[2]) and strip(a.a[1]) is s):
            return True
    return False


def tgt(n, args):
    if not args:
        return ''
    b, o = target(args[1] if COPY.search(n) else args[0])
    return ('arg%d' % b.a[0] if b.k == 'p' else str(b.a[1]) if b.k == 'f' else b.k) + ('[]' if o else '')


# ---------------------------------------------------------------- foreign functions that write

# name -> (argument with the pointer, how the length is told)
#   ('len', n)   argument n is the size of the buffer
#   ('all', n)   nothing tells the size: the buffer was compared with a bound before; n: the argument with the
#                length of the input which the bound has to contain
#   ('inout', n) argument n points at the size on input
WRITES = {
    'EVP_CipherUpdate': (1, 'all', 4), 'EVP_CipherFinal_ex': (1, 'all', None), 'EVP_DigestFinal_ex': (1, 'all', None),
    'EVP_EncryptUpdate': (1, 'all', 4), 'EVP_DecryptUpdate': (1, 'all', 4), 'EVP_EncryptFinal_ex': (1, 'all', None), 'EVP_DecryptFinal_ex': (1, 'all', None),
    'EVP_MAC_final': (1, 'len', 3), 'EVP_KDF_derive': (1, 'len', 2), 'EVP_RAND_generate': (1, 'len', 2), 'RAND_bytes': (0, 'len', 1), 'RAND_priv_bytes': (0, 'len', 1),
    'EVP_DigestFinalXOF': (1, 'len', 2),
    'EVP_PKEY_encrypt': (1, 'inout', 2), 'EVP_PKEY_decrypt': (1, 'inout', 2), 'EVP_PKEY_derive': (1, 'inout', 2), 'EVP_PKEY_encapsulate': (1, 'inout', 2), 'EVP_PKEY_decapsulate': (1, 'inout', 2),
    'EVP_PKEY_sign': (1, 'inout', 2), 'EVP_DigestSign': (1, 'inout', 2), 'EVP_DigestSignFinal': (1, 'inout', 2),
    'BN_bn2nativepad': (1, 'len', 2), 'BN_bn2binpad': (1, 'len', 2), 'EVP_CIPHER_CTX_ctrl': (3, 'len', 2), 'EVP_MD_CTX_serialize': (1, 'inout', 2),
    'EVP_PKEY_CTX_ctrl': None,
}
PTR = ('as_mut_ptr', 'as_ptr', 'as_mut', 'as_mut_slice', 'deref_mut', 'deref', 'index_mut', 'index', 'borrow_mut')


def buffer(v):
    """(the slice or vector a pointer is the start of, [offsets])"""
    b, offs = target(v)
    while b.k == 'call' and b.a[0].split('::')[-1] in ('as_mut_ptr', 'as_ptr', 'as_mut_slice') and b.a[1]:
        b = strip(b.a[1][0])
    return b, offs


def isnull(v):
    v = strip(v)
    return cval(v) == 0 or v.k == 'isnull' or v.k == 'call' and v.a[0].split('::')[-1] in ('null_mut', 'null')


def sized(v, buf):
    """v is the length of buf"""
    return lenof(v) is buf


def shrunk(x):
    x = strip(x)
    if x.k == 'f' and x.a[0].k == 'bin':
        x = x.a[0]
    return x.k == 'bin' and (x.a[0] in ('Div', 'Shr', 'BitAnd') or x.a[0].startswith('Sub'))


class Foreign(Out):
    name = 'ffiout'

    def inline(self, f):
        return checker(self.P, f, ('ossl',))

    def field(self, o, n):
        return n in ('size', 'outlen', 'pValue', 'ulValueLen')

    def wfield(self, o, n):
        return False

    def atom(self, n):
        return False

    def sink(self, n, a=(), f=None):
        return n.startswith('ossl_sys::') and WRITES.get(n[10:]) is not None

    def judge(self, n, args, facts):
        w = WRITES.get(n[10:] if n.startswith('ossl_sys::') else '')
        if not w or not args:
            return None
        pi, kind, li = w
        if pi >= len(args) or isnull(args[pi]):
            return None
        b, offs = buffer(args[pi])
        if b.k in ('cell', 'u') or b.k == 'call' and not b.a[1]:
            # a value of this function of which nothing is known
            return None
        fixed = b.k in ('rep', 'arr', 'adt')
        same = lambda v: sized(v, b)
        ln = args[li] if li is not None and li < len(args) else None
        if kind == 'len':
            if not offs and (same(ln) or bounded(ln, same, facts)):
                return None
            if b.k == 'call' and not offs and any(strip(ln) is strip(x) or strip(ln) is lenof(x) for x in b.a[1]):
                return None
            if b.k == 'call' and not offs and b.a[0].split('::')[-1] == 'from_elem' and len(b.a[1]) > 1 and addends(b.a[1][1]) == addends(ln):
                return None
            if fixed and cval(strip(ln)) is not None:
                return None
            return 'is told a size that is not the length of the buffer it writes to'
        low = [(x, st) for x, st in atleast(facts, same) if not shrunk(x)]
        if kind == 'all':
            inp = lenof(args[li]) if ln is not None else None
            for x, strict in low:
                if cval(strip(x)) is not None:
                    continue
                if inp is None or any(lenof(y) is inp for y in subs(x)):
                    return None
            if b.k == 'call':
                # a buffer made here, of a size that was computed
                src = [x for x in b.a[1] if cval(strip(x)) is None]
                if src and (inp is None or any(lenof(y) is inp for x in src for y in subs(x))):
                    return None
            return 'writes to a buffer whose length was not compared with what the function may write'
        # in/out size
        v = strip(ln)
        if cval(v) is None and (same(ln) or bounded(ln, same, facts)):
            return None
        if b.k == 'call' or fixed:
            return None        # a buffer made by this function for the size the library asked for
        if any(cval(strip(x)) is None for x, strict in low):
            return None
        return 'is told a size that does not come from the length of the buffer it writes to'

    def ok(self, n, args, facts):
        return self.judge(n, args, list(facts.items())) is None


def foreign(ctx):
    P = ctx.P
    ctx.rule('a function of the crypto library that writes to a buffer is told the length of that buffer, or the length was compared with the bound on what it writes')
    own = set()
    for f, cs in P.calls.items():
        if P.fns.get(f, {}).get('crate') in ('ossl', LIB) and any(WRITES.get(nm(fr)[10:]) for b, fr, a, d, l in cs if nm(fr).startswith('ossl_sys::')):
            own.add(f)
    r = Foreign(P, {})
    eng = E.Engine(P, r)
    bad = {}

    def ask(roots):
        out = {}
        for root, sid, args, facts, tr in eng.run(sorted(roots)):
            w = r.judge(sid[1], args, list(facts) if not isinstance(facts, dict) else list(facts.items()))
            if w:
                out.setdefault((sid, root), w)
        return out
    fails = ask(own)
    n = 0
    for f in sorted(own):
        ctx.analysed.add(f)
        mine = {sid: w for (sid, root), w in fails.items() if root == f and sid[0] == f}
        for b, fr, a, d, l in P.calls[f]:
            nme = nm(fr)
            if not (nme.startswith('ossl_sys::') and WRITES.get(nme[10:])):
                continue
            n += 1
            w = next((w for sid, w in mine.items() if sid[1] == nme and sid[2] == l), None)
            if w:
                # a helper: what matters is what its callers establish
                up = {c for c in P.callers.get(f, ()) if c in P.fns and P.fns[c]['file'] == P.fns[f]['file']}
                if len(up) < len(P.callers.get(f, ())):
                    up = ()         # not a helper
                if up:
                    rest = ask(up)
                    if not any(sid[0] == f and sid[1] == nme and sid[2] == l for (sid, root), ww in rest.items()):
                        w = None
            ctx.ob('ffi|%s|%s' % (short(f), nme[10:]), w is None, ctx.where(f, l), '%s %s' % (nme[10:], w))
    ctx.floor('calls of writing library functions', n, 18)


def nm(fr):
    x = fr.get('fn') if isinstance(fr, dict) else None
    return (x.get('r') or x.get('p') or '') if x else ''


# ---------------------------------------------------------------- pointers inside mechanism parameters

COMP = {'pIv': ('ulIvLen',), 'pNonce': ('ulNonceLen',), 'pTag': ('ulTagBits',), 'pMAC': ('ulMACLen',)}
INNER = ('pIVClient', 'pIVServer', 'pIv', 'pNonce', 'pTag', 'pMAC', 'pValue', 'pData', 'pPublicData')


class Hand(E.Rule):
    name = 'hand'
    lens = True
    split_err = False
    K, KS = 64, 128

    def field(self, o, n):
        return any(n in c for c in COMP.values()) or n in ('taglen', 'buf')

    def wfield(self, o, n):
        return n in ('iv', 'buf', 'taglen')

    def atom(self, n):
        return False

    def on_write(self, st, base, fld, v, f):
        st.facts[E.mk('ev', 'W:' + fld[1], (base, v))] = 1


def handouts(ctx):
    P = ctx.P
    ctx.rule('a function which hands out a buffer found in a parameter block has taken, or compared with what it took before, the length that stands next to it')
    n = 0
    out = set()
    for f, d in sorted(P.fns.items()):
        if d['crate'] != LIB or not re.search(r'Result<\*mut u8|Result<\*mut .*BYTE|^\*mut u8$', d['locals'][0] if d['locals'] else ''):
            continue
        if not any(p == '*' or isinstance(p, list) and p and p[0] == 'f' and p[2] in COMP for b in d['blocks'] if b for st in b['s'] for p in flat(st)):
            continue
        eng = E.Engine(P, Hand())
        rets, _ = eng.summary(f)
        for ret, fs in rets:
            if ret.k == 'F':
                continue
            v = strip(ret)
            if v.k != 'f' or v.a[1] not in COMP:
                continue
            n += 1
            out.add(f)
            need = COMP[v.a[1]]
            owner = v.a[0]
            got = False
            for a, o in fs:
                hit = any(s.k == 'f' and s.a[1] in need and s.a[0] is owner for s in subs(a))
                if not hit:
                    continue
                if a.k == 'bin' and (a.a[0] == 'Eq' and o == 1 or a.a[0] == 'Ne' and o == 0):
                    both = [mentions(x, need, owner) for x in a.a[1:3]]
                    other = a.a[2] if both[0] else a.a[1]
                    got = got or cval(strip(other)) is None
                elif a.k == 'ev' and str(a.a[0]).startswith('W:'):
                    got = True
            ctx.ob('handout|%s|%s' % (short(f), v.a[1]), got, ctx.where(f, d['line']), '%s is handed out without its %s having been taken or compared' % (v.a[1], need[0]))
    ctx.stats['buffers handed out'] = n
    return out


def mentions(x, need, owner):
    return any(s.k == 'f' and s.a[1] in need and s.a[0] is owner for s in subs(x))


def flat(x):
    if isinstance(x, list):
        yield x
        for y in x:
            yield from flat(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from flat(y)


class Local(Out):
    name = 'local'
    hand = frozenset()

    def field(self, o, n):
        return n in ('*',) + INNER

    def judge(self, n, args, facts):
        if not args or n == 'deref':
            return None
        dst = args[1] if COPY.search(n) else args[0]
        ln = args[2] if COPY.search(n) and len(args) > 2 else args[1] if SLICE.search(n) and len(args) > 1 else None
        b, offs = target(dst)
        hand = b.k == 'call' and b.a[0] in self.hand
        if hand or b.k == 'f' and b.a[1] in INNER and not (b.a[1] == 'pValue'):
            if ln is None:
                return None
            t, const = addends(ln)
            if const == 0 and len(t) == 1 and list(t.values()) == [1] and not offs:
                x = list(t)[0]
                x = lenof(x) or x
                if x.k in ('f', 'cell', 'p', 'u') or x.k == 'call' and x.a[0].split('::')[-1] not in ('max', 'next_multiple_of', 'pow', 'wrapping_add'):
                    return None
            return 'the buffer %s of a parameter is written with a length that is not the one stored with it' % (b.a[1] if not hand else short(b.a[0]))
        if b.k in ('u', 'cell') and SLICE.search(n) and cval(strip(ln)) not in (None, 0):
            return 'a buffer of the application is written with a length that is a constant'
        # our own view of a slice: start + offset
        while b.k == 'f' and b.a[0].k != 'p' and not (b.a[0].k == 'f'):
            b2, o2 = target(b.a[0])
            offs += o2
            if b2 is b:
                break
            b = b2
        if b.k == 'call' and b.a[0].split('::')[-1] in ('as_mut_ptr', 'as_ptr') and b.a[1]:
            s = strip(b.a[1][0])
            if s.k != 'p':
                return None
            tot, tc = collections.Counter(), 0
            for x in offs + ([ln] if ln is not None else []):
                t, c = addends(x)
                tot += t
                tc += c
            for x, strict in atleast(facts, lambda v: lenof(v) is s):
                if within((tot, tc), addends(x)):
                    return None
            if not tot and not tc:
                # at the start: any bound will do
                if any(True for x, strict in atleast(facts, lambda v: lenof(v) is s)):
                    return None
            return 'a slice is written through its pointer at a place its length was not compared with'
        return None

    def ok(self, n, args, facts):
        return self.judge(n, args, list(facts.items())) is None


def locals_(ctx, hand):
    P = ctx.P
    ctx.rule('code that writes through the address of a slice, or through a pointer of a parameter block, stays within the length that was compared')
    r = Local(P, {})
    r.hand = hand
    roots = set()
    for f, cs in P.calls.items():
        if P.fns.get(f, {}).get('crate') == LIB and '::fns::' not in f and '::tests' not in f and '::misc::' not in f:
            for b, fr, a, d, l in cs:
                if r.sink(nm(fr)):
                    roots.add(f)
    for f, d in P.fns.items():
        # code that computes a writable address and writes through it
        if d['crate'] == LIB and '::fns::' not in f and '::tests' not in f and '::misc::' not in f and any(nm(fr).split('::')[-1] in OFFS and 'ptr' in nm(fr) for b, fr, a, dd, l in P.calls.get(f, ())):
            roots.add(f)
    eng = E.Engine(P, r)
    res = {}
    for root, sid, args, facts, tr in eng.run(sorted(roots)):
        if sid[0] != root and sid[0] in roots:
            continue
        w = r.judge(sid[1], args, list(facts))
        if w:
            res.setdefault((sid[0], sid[1].split('::')[-1], tgt(sid[1], args)), (sid[2], w))
    for f in roots:
        ctx.analysed.add(f)
        ctx.ob('local|%s' % short(f), True, ctx.where(f, P.fns[f]['line']), '')
    for (f, n, t), (line, w) in sorted(res.items()):
        ctx.ob('local|%s|%s|%s' % (short(f), n, t), False, ctx.where(f, line), w)
    ctx.stats['functions that write through addresses'] = len(roots)


class Units(E.Rule):
    name = 'units'
    K, KS = 48, 96

    def field(self, o, n):
        return n in ('ulIVSizeInBits', 'ulTagBits', 'ulKeySizeInBits', 'ulMacSizeInBits')

    def wfield(self, o, n):
        return n in ('taglen', 'ivlen')

    def atom(self, n):
        return False

    def on_write(self, st, base, fld, v, f):
        st.facts[E.mk('ev', 'W:' + fld[1], (base, v))] = 1


BITS = re.compile(r'(InBits|TagBits)$')


def units(ctx):
    """a length in bits is divided by eight before it becomes the length of a buffer"""
    P = ctx.P
    ctx.rule('a length the application gives in bits becomes a length in bytes only divided by eight')
    n = 0
    for f, d in sorted(P.fns.items()):
        if d['crate'] != LIB or '::tests' in f:
            continue
        if not any(isinstance(p, list) and len(p) > 2 and p[0] == 'f' and isinstance(p[2], str) and BITS.search(p[2]) for b in d['blocks'] if b for st in b['s'] for p in flat(st)):
            continue
        rets, _ = E.Engine(P, Units()).summary(f)
        for ret, fs in rets:
            vals = [('result', ret)] + [(a.a[0][2:], a.a[1][1]) for a, o in fs if a.k == 'ev' and str(a.a[0]).startswith('W:')]
            for what, v in vals:
                for fld, x in leaves(v):
                    if fld in ('ivlen', 'taglen') or what in ('ivlen', 'taglen'):
                        src = [s for s in subs(x) if s.k == 'f' and BITS.search(s.a[1])]
                        if not src:
                            continue
                        n += 1
                        div = any(s.k == 'bin' and (s.a[0] == 'Div' and cval(strip(s.a[2])) == 8 or s.a[0].startswith('Shr') and cval(strip(s.a[2])) == 3) or s.k == 'call' and s.a[0].split('::')[-1] in ('div_ceil', 'checked_div') for s in subs(x))
                        ctx.ob('units|%s|%s' % (short(f), src[0].a[1]), div, ctx.where(f, d['line']), '%s counts bits and is used as a number of bytes' % src[0].a[1])
    ctx.stats['lengths in bits'] = n


def leaves(v):
    """(field, value) of the structures a value is made of"""
    yield None, v
    for s in subs(v):
        if s.k == 'adt' and len(s.a) > 2:
            names = FN.get(s.a[0])
            for i, x in enumerate(s.a[2]):
                if names and i < len(names):
                    yield names[i], x


FN = {}


def results(ctx):
    """search results: never more than asked for"""
    P = ctx.P
    ctx.rule('the objects returned by a search are at most as many as asked for')
    impls = [m['m'][x] for m in P.impls if (m['tr'] or '').endswith('SearchOperation') for x in m['m'] if x.split('::')[-1] == 'results']
    impls = [f for f in impls if f in P.fns]
    for f in impls:
        ctx.analysed.add(f)
        rets, _ = E.Engine(P, Res()).summary(f)
        for ret, fs in rets:
            if ret.k == 'F':
                continue
            ctx.ob('results|%s' % short(f), atmost(ret, list(fs)), ctx.where(f, P.fns[f]['line']), 'more objects than asked for may be returned')
    ctx.floor('implementations of search results', len(impls), 1)


class Res(E.Rule):
    name = 'res'
    lens = True
    loops = True

    def field(self, o, n):
        return n == 'handles'

    def atom(self, n):
        return False


def atmost(ret, facts):
    """the collection has at most p(2) elements"""
    m = lambda v: strip(v).k == 'p' and strip(v).a[0] == 2
    v = strip(ret)
    for s in subs(v):
        if s.k == 'adt' and s.a[0].split('<')[0].split('::')[-1] in ('Range', 'RangeTo'):
            end = s.a[2][-1]
            if m(end) or bounded(end, m, facts):
                return True
            e = strip(end)
            # the length, which is not larger than what was asked for
            for a, o in facts:
                if a.k == 'bin' and a.a[0] == 'Lt' and o == 0 and m(a.a[1]) and strip(a.a[2]) is e:
                    return True
            return False
        if s.k == 'call' and s.a[0].split('::')[-1] in ('take', 'truncate', 'split_off', 'min') and any(m(x) for x in s.a[1]):
            return True
    if v.k == 'call' and v.a[0].split('::')[-1] in ('new', 'with_capacity', 'default'):
        return True
    # a shape that is not known: the number asked for has to matter
    return any(m(s) for s in subs(v)) or any(m(s) for a, o in facts for s in subs(a))


def margin(ctx):
    """the helper that bounds what a cipher writes returns at least the length it is given"""
    P = ctx.P
    for f, d in P.fns.items():
        if f.split('::')[-1] != 'buffer_size' or d['crate'] != 'ossl':
            continue
        rets, _ = E.Engine(P, Res()).summary(f)
        for ret, fs in rets:
            v, less = strip(ret), None
            if v.k == 'f' and v.a[0].k == 'bin':
                v = v.a[0]
            if v.k == 'bin' and v.a[0].startswith('Sub'):
                v, less = v.a[1], strip(v.a[2])
            t, c = addends(v)
            arg = [k for k in t if k.k == 'p' and k.a[0] == 2]
            if any(strip(x).k == 'p' and strip(x).a[0] == 2 and o == 0 for x, o in fs):
                good = True             # nothing goes in
            elif v.k in ('call', 'cell', 'u'):
                good = True             # not known (next_multiple_of, div_ceil)
            elif less is not None:
                good = bool(arg) and (len(t) > 1 or c > 0) and less.k == 'bin' and less.a[0] == 'Rem' and any(strip(less.a[2]) is k for k in t)
            else:
                good = bool(arg) or any(s.k == 'bin' and s.a[0].startswith('Mul') for s in subs(v))
            ctx.ob('bound|%s' % short(f), good, ctx.where(f, d['line']), 'the bound on the output of the cipher may be smaller than its input')


def C18(ctx):
    P = ctx.P
    ctx.rule('a slice over a buffer of the application has the length stated with the buffer, or one compared with it; an element written by index was compared with the number stated')
    ap = api(P)
    roots = {f: n for n, f in ap.items()}
    r = Out(P, roots)
    eng = E.Engine(P, r)
    for root, sid, args, facts, tr in eng.run(list(roots)):
        if sid[1] == 'deref':
            continue
        w = r.judge(sid[1], args, facts)
        key = 'write|%s|%s|%s' % (short(sid[0]), sid[1].split('::')[-1], tgt(sid[1], args))
        ctx.analysed.add(sid[0])
        ctx.ob(key, w is None, ctx.where(sid[0], sid[2]), '%s: %s' % (roots[root], w))
    sites = {s for s in eng.sites if s[1] != 'deref'}
    for f, n, l in sites:
        ctx.analysed.add(f)
        ctx.ob('write|%s|%s|%s' % (short(f), n.split('::')[-1], 'site'), True, ctx.where(f, l), '')
    ctx.floor('sites that write through pointers of the application', len(sites), 40)
    foreign(ctx)
    hand = handouts(ctx)
    for t, a in P.adts.items():
        if len(a['v']) == 1:
            FN[t] = [x for x, y in a['v'][0][1]]
    locals_(ctx, hand)
    units(ctx)
    results(ctx)
    margin(ctx)
