"""Rules about the crypto library binding and the cryptographic code."""
from common import *
from r_auth import errret
from r_store import Site, swallowed, resty, RES, INTS
import collections

FFI = 'ossl_sys::'
# answers, not outcomes: nothing can fail
ANSWER = ('ERR_set_mark', 'ERR_pop_to_mark', 'OSSL_PROVIDER_available', 'EVP_default_properties_is_fips_enabled', 'OSSL_PARAM_construct_BN', 'OSSL_PARAM_construct_end',
          'OSSL_PARAM_construct_int', 'OSSL_PARAM_construct_int64', 'OSSL_PARAM_construct_octet_string', 'OSSL_PARAM_construct_size_t', 'OSSL_PARAM_construct_uint',
          'OSSL_PARAM_construct_uint64', 'OSSL_PARAM_construct_utf8_string', 'BIO_s_mem', 'BN_num_bits')


def isffi(n):
    return n.startswith(FFI) and n.split('::')[-1][:1].isupper() or n.startswith(FFI) and n.split('::')[-1].split('_')[0] in ('d2i', 'i2d')


def ffi_sites(P):
    for f in sorted(P.calls):
        if P.fns[f]['crate'] == 'ossl_sys':
            continue
        for b, fr, a, d, l in P.calls[f]:
            n = E.Engine.cname(None, fr, f) or ''
            if isffi(n) and len(d) == 1:
                yield f, b, n.split('::')[-1], P.fns[f]['locals'][d[0]], l


class FSite(Site):
    """like Site; functions that take a raw pointer of the crypto library and check it are looked into"""
    params = True

    def __init__(self, P):
        Site.__init__(self)
        self.look = set(f for f in P.fns if P.fns[f]['crate'] == 'ossl' and (P.fns[f]['locals'][0].startswith(RES) or P.fns[f]['locals'][0] == 'bool') and
                        any(t.startswith('*') or t in INTS for t in P.fns[f]['locals'][1:P.fns[f]['argc'] + 1]) and len(P.fns[f]['blocks']) < 30)

    def opaque(self, n):
        return n not in self.look

    def inline(self, f):
        return f in self.look


SIZES = ('EVP_CIPHER_CTX_get_iv_length', 'EVP_CIPHER_CTX_get_block_size', 'EVP_MD_get_size', 'EVP_MAC_CTX_get_mac_size', 'EVP_PKEY_get_size', 'BN_bn2bin')


def unchecked(P, e, f, b, nm, ty):
    """a return of f reporting success although the call in block b may have failed"""
    ptr = ty.startswith('*')
    rule = e.R
    rule.at = (f, b)
    e.sums.clear()
    e.relc.clear()
    isbool = P.fns[f]['locals'][0] in ('bool', 'i32')
    for r, fs in e.summary(f)[0]:
        if not any(a.k == 'ev' for a, o in fs) or errret(r):
            continue
        if isbool and cval(r) == 0:
            continue                # "not available"
        if any(x.k == 'isnull' and x.a[0].k == 'call' and rule.atomv(x.a[0]) for x in allsubs((r,))):
            continue                # whether there is one is the answer
        ts = set(x for a, o in fs for x in subs(a) if x.k == 'call' and rule.atomv(x))
        if any(a.k == 'ev' and a.a[0] == 'done' for a, o in fs) and not any(a.k == 'ev' and a.a[0] == 'lost' for a, o in fs):
            continue
        for c in [0] if ptr or nm in FFI_BOOL else [-1] if nm in SIZES and ty != 'usize' else [] if nm in SIZES else [0, -1]:
            asg = {}
            for x in ts:
                asg[x] = c
                asg[mk('isnull', x)] = int(c == 0)
            if not consistent(fs, asg):
                continue
            if c < 0 and any(o == 'S' and a.k == 'call' and a.a[0].endswith('try_from') and a.a[1][0] in ts for a, o in fs):
                continue            # a negative number does not convert to a length
            return r, c
    return None


FFI_BOOL = ()


def carriers(P):
    """functions whose Result can carry a failure of the crypto library"""
    sites = collections.defaultdict(list)
    for f, cl in P.calls.items():
        if P.fns[f]['crate'] != 'ossl_sys':
            for b, fr, args, dest, line in cl:
                sites[f].append((b, E.Engine.cname(None, fr, f) or '', F.targets(P, fr), dest, line))
    res = [f for f in sites if P.fns[f]['locals'][0].startswith(RES)]
    car = set(f for f in res if P.fns[f]['crate'] == 'ossl')
    while True:
        new = [f for f in res if f not in car and any(g in car for b, n, t, d, l in sites[f] for g in t)]
        if not new:
            return car, sites
        car.update(new)


def C31(ctx):
    P = ctx.P
    ctx.rule('every status, pointer or size the crypto library returns has been compared with its success values on every path that reports success; every Result of the '
             'binding, and of each function that passes one on, is passed on as an error by every caller')
    e = E.Engine(P, FSite(P))
    n = 0
    todo = list(ffi_sites(P))
    seen = set()
    while todo:
        f, b, nm, ty, l = todo.pop(0)
        if ty == '()' or nm in ANSWER or (f, b) in seen:
            continue
        seen.add((f, b))
        n += 1
        if short(f).endswith('::drop') and nm == 'OSSL_PROVIDER_unload' or short(f).endswith('ossl_err_stack'):
            continue            # nothing to report to while dropping; text for the log
        bad = unchecked(P, e, f, b, nm, ty)
        if bad is not None and bad[0].k == 'call' and e.R.atomv(bad[0]):
            # the bare answer is handed on: the callers have to look at it
            for g in P.callers.get(f, ()):
                todo += [(g, b2, nm, ty, l2) for b2, fr, a, d, l2 in P.calls.get(g, ()) if f in F.targets(P, fr) and len(d) == 1]
            bad = None
        ctx.ob('ffi|%s|%s' % (short(f), nm), bad is None, ctx.where(f, l),
               '' if bad is None else '%s can return %s although %s answered %s' % (short(f), E.show(bad[0])[:40], nm, 'null' if ty.startswith('*') else bad[1]))
    ctx.floor('calls of the crypto library whose outcome matters', n, 130)
    car, sites = carriers(P)
    n = nd = 0
    for f in sorted(sites):
        isbool = P.fns[f]['locals'][0] in ('bool', 'i32')
        for b, name, t, d, l in sites[f]:
            if not resty(P.fns[f], d) or not any(g in car for g in t):
                continue
            n += 1
            nd += any(P.fns[g]['crate'] == 'ossl' for g in t)
            m = name.split('::')[-1]
            if (short(f), m) in HANDLED:
                continue
            bad = None
            for r, outc, lost, codes in swallowed(P, f, b):
                if isbool and cval(r) == 0:
                    continue            # reported as "no"
                if codes and all((m, o) in ok for a, o in codes for ok in (codeok(P),)):
                    continue
                bad = (r, codes)
            ctx.ob('swallow|%s|%s' % (short(f), m), bad is None, ctx.where(f, l), '' if bad is None else
                   '%s returns %s although %s failed%s' % (short(f), E.show(bad[0])[:40], m, ' with ' + ','.join('%s %s' % (a, hex(o)) for a, o in sorted(bad[1])) if bad[1] else ' or was not looked at'))
    ctx.floor('calls that can carry a failure of the crypto library', n, 850)
    ctx.floor('calls of the binding', nd, 350)


# a failure here is the answer "wrong PIN" (C25), and the limits of the generator are advisory (it checks them itself)
HANDLED = (('StorageACI::authenticate', 'decrypt_key'), ('HmacDrbg::new', 'get_ctx_params'))


def codeok(P):
    """(callee, code) pairs where an error code is an answer: parameter absent from the key data; no operation of that kind active, or one that can
    not be saved (one saved operation is enough); back end without that kind of user; public key not available in this OpenSSL version"""
    if not hasattr(P, '_codeok'):
        s = set()
        for v, (nm, fl) in enumerate(P.adts.get('ossl::ErrorKind', {'v': []})['v']):
            if nm == 'NullPtr':
                s.update((m, v) for m in ('get_bn', 'get_octet_string'))
        for m in ('op_state_save', 'op_state_size'):
            s.update((m, constval(P, c)) for c in ('CKR_OPERATION_NOT_INITIALIZED', 'CKR_STATE_UNSAVEABLE'))
        s.add(('set_pin', constval(P, 'CKR_USER_TYPE_INVALID')))
        s.add(('extract_public_key', constval(P, 'CKR_KEY_UNEXTRACTABLE')))
        P._codeok = s
    return P._codeok


# ---------------------------------------------------------------- C30
VERIFIERS = ('EVP_DigestVerify', 'EVP_DigestVerifyFinal', 'EVP_PKEY_verify')


def isverify(n):
    return n.startswith('constant_time_eq') and n.split('::')[-1] in ('constant_time_eq', 'constant_time_eq_n') or isffi(n) and n.split('::')[-1] in VERIFIERS


class Ver(E.Rule):
    name = 'verify'
    params = True
    K, KS = 64, 64

    def atom(self, n):
        return isverify(n)

    def opaque(self, n):
        return not (n.startswith(('kryoptic_lib::', 'ossl::', '<kryoptic_lib::', '<ossl::')))

    def forget(self, st, a, o):
        if a.k == 'call' and isverify(a.a[0]) and o == 1:
            st.facts[mk('ev', 'verified', (a,))] = 1

    def mergekey_facts(self, fs):
        return frozenset((a, o) for a, o in fs if a.k == 'call' and isverify(a.a[0]) or a.k == 'ev')


def base_of(v):
    """the value a view (slice, vector, pointer) is a view of; None when only a part is taken"""
    while True:
        if v.k in ('ok', 'addr'):
            v = v.a[0]
        elif v.k == 'call' and v.a[0].split('::')[-1] in ('as_ptr', 'as_mut_ptr', 'as_slice', 'as_mut_slice', 'deref', 'as_ref', 'to_vec', 'clone', 'as_deref', 'borrow', 'into', 'to_owned') and v.a[1]:
            v = v.a[1][0]
        else:
            return v


def lenfact(fs, v):
    """the length of v was compared for equality"""
    for a, o in fs:
        if a.k == 'bin' and a.a[0] == 'Eq' and o == 1 and any(x.k == 'len' and base_of(x.a[0]) is v or iscall(x, 'len') and base_of(x.a[1][0]) is v for x in (a.a[1], a.a[2])):
            return True
        if a.k in ('len', 'call') and (a.k == 'len' and base_of(a.a[0]) is v) and isinstance(o, int):
            return True
    return False


def is_sig(v, sig):
    return v is sig if sig is not None else v.k == 'f' and v.a[1] == 'signature'


def sound_compare(a, fs, sig):
    """the comparison a covers the whole signature"""
    args = a.a[1]
    if a.a[0].startswith('constant_time_eq'):
        m = [is_sig(base_of(x), sig) for x in args[:2]]
        return m.count(True) == 1 and not any(iscall(x, 'index', 'get', 'split_at', 'take', 'chunks', 'min') or x.k == 'idx' for x in allsubs(args[:2]))
    p = base_of(args[1])
    ln = args[2]
    lb = base_of(ln.a[0]) if ln.k == 'len' else base_of(ln.a[1][0]) if iscall(ln, 'len') else None
    if lb is not p:
        return False
    if is_sig(p, sig):
        return True
    # a conversion of the signature, whose length was checked
    cs = [x for x in subs(p) if is_sig(x, sig)]
    return p.k == 'call' and bool(cs) and lenfact(fs, cs[0])


def verify_impls(P):
    for f in sorted(P.fns):
        fn = P.fns[f]
        t = (fn.get('impl_tr') or '').split('<')[0].split('::')[-1]
        m = f.split('::')[-1]
        if fn['crate'] == LIB and t in ('Verify', 'VerifySignature') and m in ('verify', 'verify_final'):
            yield f, t, m


def C30(ctx):
    P = ctx.P
    ctx.rule('every success return of a verification follows a positive constant time comparison, or a positive answer of the crypto library, that covers the whole signature; '
             'authenticated decryption succeeds only after the tag was set and the final step succeeded; MAC lengths are never zero; no byte comparison that stops early is reachable from a verification')
    e = ctx.engine(Ver(), {short(f) + '|' + t: f for f, t, m in verify_impls(P)}, 'verify')
    n = nr = 0
    roots = []
    lens = {}
    for f, t, m in verify_impls(P):
        if P.fns[f].get('trait_default'):
            continue
        n += 1
        roots.append(f)
        key = '%s|%s' % (short(f), t)
        if f not in e.relevant:
            # an unimplemented stub: always an error
            class No(E.Rule):
                def opaque(s, n):
                    return True
            rl = E.Engine(P, No()).summary(f)[0]
            ctx.ob('positive|' + key, all(errret(r) for r, fs in rl), ctx.where(f), '%s succeeds without any comparison' % short(f))
            continue
        sig = mk('p', P.fns[f]['argc']) if t == 'Verify' else None
        bad = ''
        for r, fs in e.summary(f)[0]:
            if errret(r):
                continue
            nr += 1
            cmps = [a for a, o in fs if a.k == 'call' and isverify(a.a[0]) and o == 1] + [a.a[1][0] for a, o in fs if a.k == 'ev' and a.a[0] == 'verified']
            if not cmps:
                bad = bad or '%s succeeds (%s) without a positive comparison' % (short(f), E.show(r)[:40])
            for a in cmps:
                for x in allsubs(a.a[1][:2]):
                    if iscall(x, 'from_elem') and len(x.a[1]) > 1 and x.a[1][1].k == 'f':
                        lens[x.a[1][1].a[2]] = x.a[1][1].a[1]
            if cmps and not any(sound_compare(a, fs, sig) for a in cmps):
                bad = bad or '%s succeeds on %s, which does not cover the whole signature' % (short(f), E.show(cmps[0])[:120])
        ctx.ob('positive|' + key, not bad, ctx.where(f), bad)
    ctx.floor('verification functions', n, 18)
    ctx.floor('success paths of verification functions', nr, 20)
    maclens(ctx, lens)
    aead(ctx)
    # comparisons that stop at the first difference
    nb = 0
    for k in sorted(F.reach(P, roots)):
        if P.fns[k]['crate'] not in (LIB, 'ossl'):
            continue
        nb += 1
        for b, fr, a, d, l in P.calls.get(k, ()):
            nm = E.Engine.cname(None, fr, k) or ''
            if nm.split('::')[-1] in ('eq', 'ne', 'cmp', 'starts_with', 'ends_with', 'memcmp') and bytesarg(P.fns[k], a):
                ctx.ob('ctime|%s' % short(k), False, ctx.where(k, l), '%s compares bytes with %s while verifying' % (short(k), nm.split('::')[-1]))
    ctx.floor('functions reachable from verifications', nb, 60)


def bytesarg(fn, args):
    for a in args[:1]:
        p = a.get('c') or a.get('m')
        if p and len(p) == 1:
            t = fn['locals'][p[0]].replace('&', '').replace('mut ', '').replace("'_ ", '').strip()
            if t.startswith(('[u8', 'alloc::vec::Vec<u8', 'alloc::boxed::Box<[u8')):
                return True
    return False


class MacLen(E.Rule):
    name = 'maclen'
    params = True
    K, KS = 64, 64

    def __init__(self, look, sinks, P):
        self.look = look
        self.sinks = sinks          # builder -> argument number
        self.P = P

    def atom(self, n):
        return n.split('::')[-1] in ('get_parameters', 'get_attr_as_ulong', 'parse_single', 'from_raw_parts', 'from_raw_parts_mut', 'try_from')

    def opaque(self, n):
        return n not in self.look

    def inline(self, f):
        return f in self.look

    def sink(self, n, a=(), f=None):
        return n in self.sinks

    def field(self, o, n):
        return True

    def ok(self, sink, args, fs):
        return nonzero(self.P, args[self.sinks[sink]], fs.items() if isinstance(fs, dict) else fs)


def nonzero(P, v, fs):
    if v.k == 'c':
        return v.a[0] != 0
    if v.k == 'bin' and all(x.k == 'c' for x in v.a[1:3]) or v.k == 'call' and v.a[0].endswith('hmac_size'):
        return True
    if any(iscall(x, 'parse_single') for x in subs(v)):
        return True             # a saved state, authenticated (C34)
    if v.k == 'f' and v.a[0].k == 'p' and v.a[2] in P.adts and 'Mechanism' in v.a[2]:
        # a property of the mechanism, set where it is registered
        return all(int(x) != 0 for x in fieldconsts(P, v.a[2], v.a[1]))
    vs = set(x for x in subs(v) if x.k in ('ok', 'call', 'f', 'idx', 'p') or iscall(x, 'from_raw_parts')) | {v}
    if not consistent(fs, {x: 0 for x in vs if x is v or iscall(v, 'try_from')}):
        return True
    for a, o in fs:
        # not less than a limit of the mechanism, which is not zero
        if a.k == 'bin' and a.a[0] == 'Lt' and o == 0 and a.a[1] is v and a.a[2].k == 'f':
            return all(int(x) != 0 for x in fieldconsts(P, a.a[2].a[2], a.a[2].a[1]))
    return False


def fieldconsts(P, owner, name):
    """constants a field is built with"""
    out = []
    for f in P.fns:
        if P.fns[f]['crate'] != LIB:
            continue
        for blk in P.fns[f]['blocks']:
            for s in (blk or {'s': ()})['s']:
                if s[0] != 'dead' and s[1][0] == 'agg' and s[1][1][0] == 'adt' and s[1][1][1].split('<')[0] == owner.split('<')[0]:
                    fl = [n for n, t in P.adts[owner]['v'][s[1][1][2]][1]]
                    if name in fl:
                        o = s[1][2][fl.index(name)]
                        k = o.get('k') if isinstance(o, dict) else None
                        if isinstance(k, dict) and 'v' in k:
                            out.append(k['v'])
    return out


def lenparam(P, f, lens):
    """the parameter the length field of an operation built in f is copied from"""
    fn = P.fns[f]
    defs = collections.defaultdict(list)
    ops = []
    for blk in fn['blocks']:
        for s in (blk or {'s': ()})['s']:
            if s[0] == 'dead':
                continue
            if len(s[0]) == 1:
                defs[s[0][0]].append(s[1])
            if s[1][0] == 'agg' and s[1][1][0] == 'adt' and s[1][1][1].split('<')[0] in lens:
                o = s[1][1][1].split('<')[0]
                ops.append(s[1][2][[n for n, t in P.adts[o]['v'][s[1][1][2]][1]].index(lens[o])])
        if blk and blk['t'][0] == 'call' and len(blk['t'][3]) == 1:
            defs[blk['t'][3][0]].append(['call'])
    out = set()
    for o in ops:
        for _ in range(8):
            pl = o.get('c') or o.get('m')
            if not pl or len(pl) != 1:
                return None
            if pl[0] <= fn['argc'] and not defs[pl[0]]:
                out.add(pl[0])
                break
            d = defs[pl[0]]
            if len(d) != 1 or d[0][0] != 'use':
                return None
            o = d[0][1]
    return out.pop() if len(out) == 1 else None


def maclens(ctx, lens):
    P = ctx.P
    build = set()
    for f in P.fns:
        if P.fns[f]['crate'] != LIB:
            continue
        for blk in P.fns[f]['blocks']:
            for s in (blk or {'s': ()})['s']:
                if s[0] != 'dead' and s[1][0] == 'agg' and s[1][1][0] == 'adt' and s[1][1][1].split('<')[0] in lens:
                    build.add(f)
    sinks = {}
    look = set(f for f in P.fns if P.fns[f]['crate'] == LIB and P.fns[f]['locals'][0].startswith(RES + 'usize') and
               any(P.fns[f]['locals'][i].lstrip('&').endswith('CK_MECHANISM') for i in range(1, P.fns[f]['argc'] + 1)))
    e = E.Engine(P, MacLen(look | build, {}, P))
    n = 0
    for f in sorted(build):
        p = lenparam(P, f, lens)
        if p:
            n += 1
            sinks[f] = p - 1
            continue
        for r, fs in e.summary(f)[0]:
            for x in subs(r):
                if x.k != 'adt' or x.a[0] not in lens:
                    continue
                fl = [a for a, t in P.adts[x.a[0]]['v'][0][1]]
                v = x.a[2][fl.index(lens[x.a[0]])]
                n += 1
                if v.k == 'p':
                    sinks[f] = v.a[0] - 1
                    continue
                if x.a[0].endswith('HOTPOperation'):
                    continue        # the length attribute was checked when the object was made (6 to 8)
                ctx.ob('maclen|%s' % short(f), nonzero(P, v, fs), ctx.where(f), '%s can build an operation with MAC length zero (%s)' % (short(f), E.show(v)[:60]))
    ctx.floor('MAC operations built', n, 5)
    roots = {}
    for f in F.rreach(P, list(sinks)):
        fn = P.fns[f]
        if fn['crate'] == LIB and (fn.get('impl_tr') or '').split('<')[0].endswith('mechanism::Mechanism'):
            roots[short(f)] = f
    ctx.engine(MacLen(look | set(F.rreach(P, list(sinks))), sinks, P), roots, 'maclen')


# authenticated decryption
AEAD = ('CKM_AES_GCM', 'CKM_AES_CCM')


def cipherop(n, *m):
    return n.startswith('ossl::cipher::') and n.split('::')[-1] in m


class Dec(E.Rule):
    name = 'aead'
    params = True
    K, KS = 200, 200

    def __init__(self):
        self.writes = []

    def atom(self, n):
        return cipherop(n, 'set_tag', 'finalize', 'update')

    def opaque(self, n):
        return not n.startswith(('kryoptic_lib::ossl', '<kryoptic_lib::ossl'))

    def field(self, o, n):
        return True

    def forget(self, st, a, o):
        if a.k == 'call' and self.atom(a.a[0]) and o == 'S':
            st.facts[mk('ev', 'did', (a.a[0].split('::')[-1],))] = 1

    def wfield(self, o, n):
        return o.endswith('Operation')

    def on_write(self, st, base, fld, v, f):
        self.writes.append((f, fld, v, frozenset(st.facts.items())))

    def mergekey_facts(self, fs):
        return frozenset((a, o) for a, o in fs if a.k == 'ev' or a.k == 'call' and self.atom(a.a[0]) or a.k == 'f' and a.a[1] == 'mech')


def did(fs, m):
    return any(o == 'S' and a.k == 'call' and cipherop(a.a[0], m) or a.k == 'ev' and a.a[0] == 'did' and a.a[1] == (m,) for a, o in fs)


def mechs(fs, v):
    """the facts allow the mechanism field to be v"""
    for a, o in fs:
        if a.k == 'f' and a.a[1] == 'mech':
            if isinstance(o, int) and o != v or isinstance(o, tuple) and v in o[1]:
                return False
    return True


def aead(ctx):
    P = ctx.P
    vals = {m: constval(P, m) for m in AEAD}
    r_ = Dec()
    e = E.Engine(P, r_)
    n = 0
    for f in sorted(P.fns):
        fn = P.fns[f]
        t = (fn.get('impl_tr') or '').split('<')[0].split('::')[-1]
        m = f.split('::')[-1]
        if fn['crate'] != LIB or (t, m) not in (('Decryption', 'decrypt_final'), ('MsgDecryption', 'msg_decrypt_final')) or fn.get('trait_default') or f not in e.relevant:
            continue
        rl = e.summary(f)[0]
        if not any(a.k == 'f' and a.a[1] == 'mech' and o in vals.values() for r, fs in rl for a, o in fs):
            continue
        owner = fn['self'] if fn.get('self') else None
        for nm, val in sorted(vals.items()):
            bad = ''
            for r, fs in rl:
                if errret(r) or not mechs(fs, val):
                    continue
                n += 1
                if did(fs, 'set_tag') and did(fs, 'finalize' if nm == 'CKM_AES_GCM' else 'update'):
                    continue
                if nm == 'CKM_AES_CCM':
                    # the tag was checked by an earlier step, which left a mark
                    marks = set(x for a, o in fs for x in subs(a) if x.k == 'f' and x.a[0].k == 'p' and x.a[1] not in ('in_use', 'finalized') and not consistent([(a, o)], {x: 0}))
                    if any(marked(ctx, e, mk_, val, f) for mk_ in marks):
                        continue
                bad = '%s succeeds for %s although the tag was not verified [%s]' % (short(f), nm, '; '.join('%s=%s' % (E.show(a)[:50], o) for a, o in sorted(fs, key=str)[:8]))
            ctx.ob('aead|%s|%s' % (short(f), nm), not bad, ctx.where(f), bad)
    ctx.floor('success paths of authenticated decryption', n, 4)


def marked(ctx, e, fv, val, f):
    """every write of that field, other than with its initial value, that can happen for this mechanism follows a verified decryption"""
    P = ctx.P
    owner, name = fv.a[2], fv.a[1]
    if any(int(x) != 0 for x in fieldconsts(P, owner, name)):
        return False
    hits = 0
    for g in P.fns:
        if P.fns[g]['crate'] == LIB and any(s[0] != 'dead' and s[0][0] and any(isinstance(p, (list, tuple)) and p[0] == 'f' and p[2] == name and p[3] == owner for p in s[0][1:])
                                            for b in P.fns[g]['blocks'] if b for s in b['s']):
            e.R.writes = []
            e.sums.pop(g, None)
            e.summary(g)
            for (h, fld, v, fs) in e.R.writes:
                if fld != (owner, name) or cval(v) == 0 or (v.k == 'f' and (v.a[2], v.a[1]) == fld) or not mechs(fs, val):
                    continue
                hits += 1
                if not (did(fs, 'set_tag') and did(fs, 'update')):
                    return False
    return hits > 0
