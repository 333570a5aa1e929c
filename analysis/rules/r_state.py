"""C34, C33, C37: saved operation states, HOTP counters, advertised mechanisms."""
from common import *
from r_auth import errret
from r_rest import deep

MECH = 'kryoptic_lib::mechanism::Mechanism::'
KINDS = {'digest_restore': 'Digest', 'sign_restore': 'Sign', 'verify_restore': 'Verify'}


def leaf(n):
    return n.split('<')[0].split('::')[-1]


def sealed(v):
    """the decryptions a value is taken from: calls of aes_gcm_decrypt"""
    return [y for y in subs(v) if y.k == 'ok' and iscall(y.a[0], 'aes_gcm_decrypt')]


def statics(v):
    return set(y.a[0] for y in subs(v) if y.k == 'static')


@deep
def C34(ctx):
    P = ctx.P
    ctx.rule('whatever C_SetOperationState hands to a *_restore method of a mechanism was taken from data that an authenticated decryption with the process key '
             'and the label of saved states accepted, after its format version was compared')
    ctx.rule('an operation is made active only from the result of the *_restore method of its own kind')
    ctx.rule('C_GetOperationState writes only the encoding of the result of the authenticated encryption under the same key and label; '
             'the key is created at random when the process starts, has no other user, and the decryption succeeds only when the tag of the data was verified')
    A = api(P)

    class R(E.Rule):
        name = 'restored'
        K, KS = 64, 128
        keep_err = True

        def atom(s, n):
            return n.endswith('::aes_gcm_decrypt') or n.startswith(MECH) and leaf(n).endswith('_restore')

        def field(s, o, n):
            return n == 'version'

        def opaque(s, n):
            return n.startswith(MECH) or n.endswith(('::aes_gcm_decrypt', '::aes_gcm_encrypt', 'asn1::parse_single', 'asn1::write_single')) or n not in P.fns

        def sink(s, n, a=(), f=None):
            return (n.startswith(MECH) and leaf(n).endswith('_restore')) or n.endswith('::set_operation')

        def ok(s, n, args, fs):
            if not leaf(n).endswith('_restore'):
                r = [y for v in args for y in subs(v) if (y.k == 'call' and leaf(y.a[0]).endswith('_restore')) or (y.k == '...' and y.a and str(y.a[-1]).endswith('_restore'))]
                return bool(r)
            d = args[-1]
            for c in sealed(d):
                c = c.a[0]
                if fs.get(c) != 'S':
                    continue
                if not any(a.k == 'f' and a.a[1] == 'version' and o == 1 and c in subs(a) for a, o in fs.items()):
                    continue
                if c in subs(args[1]):
                    return True
            return False
    f = A.get('C_SetOperationState')
    if not f:
        return ctx.missing('C_SetOperationState')
    e = ctx.engine(R(), {'C_SetOperationState': f})
    got = ctx.reaching(e, {'C_SetOperationState': f})
    ctx.ob('root|C_SetOperationState', bool(got), '', 'no *_restore call found')
    # kinds
    kinds(ctx, f)
    keys(ctx, A)
    opener(ctx)


def kinds(ctx, f):
    P = ctx.P
    n = 0

    class K(E.Rule):
        name = 'kinds'
        K, KS = 64, 128
        typed = ('set_operation',)
        keep_err = True

        def event(s, n):
            return 'set_operation<' in n

        def opaque(s, n):
            return n.startswith(MECH) or n not in P.fns or n.endswith(('::aes_gcm_decrypt', 'asn1::parse_single', 'mechanism::Mechanisms::get'))
    e = E.Engine(P, K())
    for r, fs in e.summary(f)[0]:
        for a, o in fs:
            if a.k != 'ev' or 'set_operation<' not in a.a[0]:
                continue
            n += 1
            t = a.a[0].rsplit('<', 1)[1][:-1].rsplit('dyn ', 1)[-1].strip().split('::')[-1]
            src = [leaf(y.a[0]) for v in a.a[1] for y in subs(v) if y.k == 'call' and leaf(y.a[0]).endswith('_restore')]
            src += [leaf(str(y.a[-1])) for v in a.a[1] for y in subs(v) if y.k == '...' and y.a and str(y.a[-1]).endswith('_restore')]
            ctx.ob('kind|%s' % t, src and all(KINDS.get(x) == t for x in src), ctx.where(f), 'the operation of kind %s is restored with %s' % (t, ', '.join(src)))
    ctx.floor('restored operations', n, 3)


def keys(ctx, A):
    """the two sides use the same process key and label"""
    P = ctx.P
    uses = collections.defaultdict(list)

    class U(E.Rule):
        name = 'seal'
        K, KS = 64, 128
        keep_err = True

        def event(s, n):
            return n.endswith(('::aes_gcm_decrypt', '::aes_gcm_encrypt', 'slice::copy_from_slice', 'slice::clone_from_slice', '::copy_from_slice', '::clone_from_slice')) 

        def opaque(s, n):
            return n.startswith(MECH) or n not in P.fns or n.endswith(('::aes_gcm_decrypt', '::aes_gcm_encrypt', 'asn1::parse_single', 'asn1::write_single', 'op_state_save', 'op_state_size'))
    sides = {}
    for n, c in (('C_GetOperationState', 'aes_gcm_encrypt'), ('C_SetOperationState', 'aes_gcm_decrypt')):
        if n not in A:
            ctx.missing(n)
            return
        e = E.Engine(P, U())
        s = set()
        wr = ok = 0
        for r, fs in e.summary(A[n])[0]:
            calls = [a for a, o in fs if a.k == 'ev' and a.a[0].endswith('::' + c)]
            for a in calls:
                s.add((frozenset(statics(a.a[1][1])), frozenset(y.a[0] for v in a.a[1][2:-1] for y in subs(v) if y.k in ('static', 's'))))
            for a, o in fs:
                # the write to the caller's buffer
                if n == 'C_GetOperationState' and a.k == 'ev' and a.a[0].endswith('_from_slice') and any(y.k == 'p' and y.a[0] == 2 for y in subs(a.a[1][0])):
                    wr += 1
                    t = outside(a.a[1][1], 'aes_gcm_encrypt')
                    ok += any(iscall(y, 'aes_gcm_encrypt') for y in t) and sum(y.k == 'call' and leaf(y.a[0]) in ('write_single', 'op_state_save') for y in t) <= 1 and bool(calls)
        ctx.analysed |= set(e.sums)
        sides[n] = s
        if n == 'C_GetOperationState':
            ctx.ob('sealed|write', ok == wr and wr, ctx.where(A[n]), 'C_GetOperationState writes data to the caller that is not the encoding of the encrypted state')
    g, r = sides['C_GetOperationState'], sides['C_SetOperationState']
    w = ctx.where(A['C_SetOperationState'])
    ctx.ob('sealed|same', g == r and len(g) == 1, w, 'saved with key and label %s, restored with %s' % (sorted(map(str, g)), sorted(map(str, r))))
    if len(r) != 1:
        return
    key, label = list(r)[0]
    ctx.ob('sealed|label', bool(label), w, 'no constant label authenticated with the state')
    ctx.ob('sealed|key', len(key) == 1, w, 'the key of saved states is not one static of the process')
    for k in key:
        # created by a closure of that static, which generates a key
        init = [x for x in P.fns if x.startswith(k + '::{')] + [k]
        reach = F.reach(P, [x for x in init if x in P.fns])
        ctx.ob('sealed|random', all(any(x.endswith('::' + y) for x in reach) for y in ('generate_key', 'generate_random')),
               ctx.where(k), 'the key of saved states is not generated at random')
        others = set()
        for x, d in P.fns.items():
            if d['crate'] == LIB and not x.startswith(k) and names_static(d, k):
                others.add(x)
        seen = F.rreach(P, others)
        ctx.ob('sealed|users', all(leaf(x) in ('state_save', 'state_restore') or x in F.reach(P, [A['C_GetOperationState'], A['C_SetOperationState']]) for x in others) and others,
               ctx.where(k), 'the key of saved states is also used by %s' % ', '.join(sorted(short(x) for x in others)))


def outside(v, name):
    """the parts of a value, without the arguments of the calls of that function"""
    out, st = [], [v]
    while st:
        x = st.pop()
        if isinstance(x, (tuple, list)):
            st.extend(x)
        elif isinstance(x, E.V):
            out.append(x)
            if not iscall(x, name):
                st.extend(x.a)
    return out


def names_static(d, k):
    s = "'%s'" % k
    return any(b and s in repr(b) for b in d['blocks'])


def opener(ctx):
    """aes_gcm_decrypt succeeds only when the decryption of the mechanism did, over the parameters it was given"""
    P = ctx.P
    f = ctx.fn('encryption::aes_gcm_decrypt')
    if not f:
        return

    class O(E.Rule):
        name = 'opener'

        def atom(s, n):
            return n.endswith('MsgDecryption::msg_decrypt')
    n = 0
    for r, fs in E.Engine(P, O()).summary(f)[0]:
        if errret(r):
            continue
        n += 1
        c = [a for a, o in fs if iscall(a, 'msg_decrypt') and o == 'S']
        good = [a for a in c if mk('p', 4) in a.a[1] and mk('p', 5) in a.a[1]]
        ctx.ob('opener', bool(good), ctx.where(f), 'aes_gcm_decrypt succeeds without an authenticated decryption of the data and the label')
    ctx.floor('success returns of aes_gcm_decrypt', n, 1)


# ---- C33: HOTP counters
TR = 'kryoptic_lib::mechanism::'
LAST = tuple(TR + x for x in ('Sign::sign', 'Sign::sign_final', 'Verify::verify', 'Verify::verify_final', 'VerifySignature::verify', 'VerifySignature::verify_final'))
UPD = tuple(TR + x + '::updates_object' for x in ('Sign', 'Verify', 'VerifySignature'))
ERASE = ('fill', 'zeromem', 'zeroize', 'write_bytes')


class Upd(E.Rule):
    """the end of an operation and the update of its key"""
    name = 'upd'
    K, KS = 64, 200
    loops = True
    keep_err = True

    def __init__(self, P):
        self.P = P
        self.late = set()

    def atom(self, n):
        return n in LAST or n in UPD or n.endswith('Token::set_object_attrs')

    def event(self, n):
        return n.split('::')[-1] in ERASE

    def opaque(self, n):
        return n.startswith(TR) or n.endswith('Token::set_object_attrs')

    def on_call(self, st, name, args, ret, fn):
        if name in UPD and not any(a.k == 'call' and a.a[0] in LAST and o == 'S' and args and args[0] in a.a[1] for a, o in st.facts.items()):
            self.late.add(fn)


class Hot(E.Rule):
    """the counter an operation moves on"""
    name = 'hot'
    keep_old = keep_err = split_err = upvars = True
    K, KS = 96, 200

    def __init__(self, P, ty, fields):
        self.P, self.ty, self.fields = P, ty, fields

    def field(self, o, n):
        return n in self.fields and o.split('<')[0] == self.ty.split('<')[0]

    def wfield(self, o, n):
        return False

    def atom(self, n):
        return n.endswith('::checked_add') or n.endswith('::add_owned_slice')

    def opaque(self, n):
        return n not in self.P.fns or n.endswith('::add_owned_slice')

    def mergekey(self, st):
        return frozenset((a, o) for a, o in st.facts.items() if a.k in ('new', 'f', 'old', 'wr')), st.env.get(0) if isinstance(st.env.get(0), E.V) and st.env[0].k in ('S', 'F') else None

    def mergekey_facts(self, fs):
        return frozenset((a, o) for a, o in fs if a.k in ('new', 'f', 'old', 'wr'))


def moved(fs):
    """ordering of the new counter and the stored one: every element is known to be greater"""
    flat = list(fs)
    for a, o in fs:
        if a.k == 'all' and isinstance(o, tuple) and o[1] != 'top':
            flat += list(o[1])
    out = []
    for a, o in flat:
        if a.k == 'call' and leafm(a.a[0]) in ('le', 'lt', 'ge', 'gt') and len(a.a[1]) == 2:
            x, y = a.a[1]
            m = leafm(a.a[0])
        elif a.k == 'bin' and a.a[0] in ('Lt', 'Le', 'Gt', 'Ge'):
            x, y, m = a.a[1], a.a[2], a.a[0].lower()
        else:
            continue
        kx, ky = [any(iscall(z, 'get_object_by_handle') for z in subs(q)) and any(is_c(z, 'CKA_OTP_COUNTER') for z in subs(q)) for q in (x, y)]
        if kx == ky:
            continue
        if kx:
            m = {'le': 'ge', 'lt': 'gt', 'ge': 'le', 'gt': 'lt'}[m]
        # now: new m stored
        if (m == 'gt' and o == 1) or (m == 'le' and o == 0):
            out.append('greater')
        else:
            out.append('other')
    return out


def leafm(n):
    return n.split('::')[-1]


@deep
def C33(ctx):
    P = ctx.P
    ctx.rule('after the last step of a signature or verification succeeded, CKR_OK is answered only when the operation has no attribute to update or the update was stored; '
             'otherwise the signature in the caller\'s buffer is erased')
    ctx.rule('the counter is stored only after it was compared with the one the key has at that time and found greater')
    ctx.rule('an operation whose key has a counter moves it by a checked addition before it succeeds, and reports it for the update')
    A = api(P)
    n = nu = ns = 0
    e = E.Engine(P, Upd(P))
    roots = [x for x in ('C_Sign', 'C_SignFinal', 'C_Verify', 'C_VerifyFinal', 'C_VerifySignature', 'C_VerifySignatureFinal') if x in A]
    for name in roots:
        f = A[name]
        w = ctx.where(f)
        bad = ''
        hit = 0
        for r, fs in e.summary(f)[0]:
            for a, o in fs:
                if a.k != 'call' or a.a[0] not in LAST or o != 'S':
                    continue
                n += 1
                hit += 1
                op = a.a[1][0]
                tr = a.a[0].rsplit('::', 1)[0]
                u = [(b, q) for b, q in fs if b.k == 'call' and b.a[0] == tr + '::updates_object' and b.a[1] and b.a[1][0] is op]
                st = [(b, q) for b, q in fs if b.k == 'call' and b.a[0].endswith('Token::set_object_attrs') and any(x in subs(b) for x, q2 in u)]
                if cval(r) == 0:
                    if any(q == 'F' for b, q in u) or any(q == 'S' for b, q in st):
                        nu += 1
                    else:
                        bad = '%s answers CKR_OK though the attributes the operation changed were not stored' % name
                elif tr.endswith('Sign'):
                    out = a.a[1][-1]
                    if not any(b.k == 'ev' and b.a[1] and out in subs(b.a[1][0]) for b, q in fs):
                        bad = '%s fails after the signature was computed, without erasing it' % name
        ctx.ob('stored|%s' % name, not bad and hit, w, bad or 'no last step found')
    for f in sorted(e.R.late):
        # both in one function, the other way round
        if any(E.Engine.cname(None, f, fr) in LAST if False else (fr.get('fn', {}).get('p') in LAST or fr.get('fn', {}).get('r') in LAST) for bb, fr, aa, d, l in P.calls.get(f, []) if 'fn' in fr):
            ctx.ob('order|%s' % short(f), False, ctx.where(f), 'asks the operation for updated attributes before its last step')
    ctx.analysed |= set(e.sums)
    ctx.floor('successful last steps', n, 12)
    ctx.floor('answers after an update', nu, 10)

    # the functions that store the update
    class St(Upd):
        name = 'store'
        rawderef = False

        def atom(self, n):
            return n.endswith(('Token::set_object_attrs', 'Object::get_attr_as_bytes', '::to_buf')) or leafm(n) in ('le', 'lt', 'ge', 'gt')

        def event(self, n):
            return n.endswith('Token::set_object_attrs')

        def opaque(self, n):
            return Upd.opaque(self, n) or n.endswith(('Object::get_attr_as_bytes', '::to_buf', 'Token::get_object_by_handle'))
    reach = F.reach(P, [A[x] for x in roots], stop=lambda x: x.endswith('Token::set_object_attrs'))
    es = E.Engine(P, St(P))
    for f in sorted(reach):
        if not any((fr.get('fn', {}).get('r') or fr.get('fn', {}).get('p') or '').endswith('Token::set_object_attrs') for bb, fr, aa, d, l in P.calls.get(f, []) if 'fn' in fr):
            continue
        ns += 1

        def compares(g, up=0):
            """'' when the store is guarded in g, or wherever g is called"""
            refuses = 0
            for r, fs in es.summary(g)[0]:
                m = moved(fs)
                if any(a.k == 'ev' and a.a[0].endswith('set_object_attrs') for a, o in fs):
                    if 'other' in m:
                        return 'stores a counter that was not found greater than the stored one'
                elif 'other' in m:
                    refuses += 1
            if refuses:
                return ''
            cs = sorted(set(x[0] if isinstance(x, tuple) else x for x in P.callers.get(g, [])) & reach) if up < 4 and not (P.fns[g].get('abi') or '').startswith('C') else []
            if cs and all(not compares(c, up + 1) for c in cs):
                return ''
            return 'stores the counter of an operation without comparing it with the one the key has now'
        bad = compares(f)
        ctx.ob('monotone|%s' % short(f), not bad, ctx.where(f), bad)
    ctx.floor('functions that store updates', ns, 1)
    hotp(ctx)


def hotp(ctx):
    P = ctx.P
    n = 0
    for f, d in sorted(P.fns.items()):
        t = (d.get('impl_tr') or '')
        if d['crate'] != LIB or d['kind'] == 'closure' or not f.endswith('::updates_object') or not t.startswith(TR) or d.get('trait_default'):
            continue
        n += 1
        ty = d['self']
        tr = t.split('::')[-1]
        e = E.Engine(P, Hot(P, ty, set(x for v, fl in P.adts.get(ty.split('<')[0], {'v': []})['v'] for x, q in fl)))
        flag, cnt = set(), set()
        bad = ''
        rl = e.summary(f)[0]
        for r, fs in rl:
            if r is not None and r.k == 'S':
                c = [(a, o) for a, o in fs if any(x.k == 'f' and x.a[0].k == 'p' for x in subs(a)) and not iscall(a, 'add_owned_slice')]
                flag |= set(x.a[1] for a, o in c for x in subs(a) if x.k == 'f' and x.a[0].k == 'p')
                cnt |= set(x.a[1] for a, o in fs if iscall(a, 'add_owned_slice') for x in subs(a) if x.k == 'f' and x.a[0].k == 'p')
        for r, fs in rl:
            if r is not None and r.k == 'F':
                # nothing to report: the mark is not set
                if any(a.k == 'bin' and o == 1 and any(x.k == 'f' and x.a[1] in flag for x in subs(a)) for a, o in fs) and not any(iscall(a, 'add_owned_slice') and o == 'F' for a, o in fs):
                    bad = 'does not report the counter though it was moved'
        ctx.ob('report|%s|%s' % (short(f), tr), flag and cnt and not bad, ctx.where(f), bad or 'no marked counter found (%s, %s)' % (sorted(flag), sorted(cnt)))
        for m in ('sign', 'sign_final', 'verify', 'verify_final'):
            g = '<%s as %s%s>::%s' % (ty, TR, tr, m)
            if g not in P.fns:
                continue
            bad = ''
            k = 0
            for r, fs in e.summary(g)[0]:
                if errret(r):
                    continue
                k += 1
                new = dict((a.a[0].a[1], a.a[1]) for a, o in fs if a.k == 'new' and a.a[0].k == 'f' and a.a[0].a[0].k == 'p')
                off = any(o == 'F' and (a.k == 'f' and a.a[1] in flag or a.k == 'old' and a.a[0].a[1] in flag) for a, o in fs)
                if off and not any(x in new for x in cnt):
                    continue
                known = dict(fs)
                if not any(x in new and new[x].k == 'S' and (cval(new[x].a[0]) not in (0, None) or cval(new[x].a[0]) is None and (new[x].a[0].k not in ('bin', 'not', 'call', 'f', 'old') or known.get(new[x].a[0]) == 1)) for x in flag):
                    bad = 'succeeds without marking the counter of the key for the update'
                for x in cnt:
                    if x not in new or not any(iscall(y, 'checked_add') for y in subs(new[x])):
                        bad = bad or 'succeeds with a counter that was not moved by a checked addition'
            ctx.ob('moves|%s|%s' % (short(g), tr), not bad and k, ctx.where(g), bad or 'no successful return found')
    ctx.floor('operations that update their key', n, 2)


# ---- C37: advertised mechanisms
CKF = {'CKF_ENCRYPT': 'encryption_new', 'CKF_DECRYPT': 'decryption_new', 'CKF_DIGEST': 'digest_new', 'CKF_SIGN': 'sign_new', 'CKF_VERIFY': 'verify_new',
       'CKF_GENERATE': 'generate_key', 'CKF_GENERATE_KEY_PAIR': 'generate_keypair', 'CKF_WRAP': 'wrap_key', 'CKF_UNWRAP': 'unwrap_key', 'CKF_DERIVE': 'derive_operation',
       'CKF_MESSAGE_ENCRYPT': 'msg_encryption_op', 'CKF_MESSAGE_DECRYPT': 'msg_decryption_op', 'CKF_MESSAGE_SIGN': None, 'CKF_MESSAGE_VERIFY': None,
       'CKF_ENCAPSULATE': 'encapsulate', 'CKF_DECAPSULATE': 'decapsulate'}


ONESHOT = {'CKF_ENCRYPT': ('Encryption', 'encryption_len', 'encrypt'), 'CKF_DECRYPT': ('Decryption', 'decryption_len', 'decrypt'),
           'CKF_DIGEST': ('Digest', 'digest_len', 'digest'), 'CKF_SIGN': ('Sign', 'signature_len', 'sign'), 'CKF_VERIFY': ('Verify', 'signature_len', 'verify'),
           'CKF_DERIVE': ('Derive', 'derive'), 'CKF_MESSAGE_ENCRYPT': ('MsgEncryption', 'msg_encryption_len', 'msg_encrypt'),
           'CKF_MESSAGE_DECRYPT': ('MsgDecryption', 'msg_decryption_len', 'msg_decrypt')}


class Build(E.Rule):
    """what the mechanism tables are built of"""
    name = 'build'
    K, KS = 64, 200
    push = False

    def inline(self, f):
        return True

    def sink(self, n, args, fn):
        return n.endswith('Mechanisms::add_mechanism') or self.push and n.endswith('::push')

    def iteration(self, n):
        return True

    def ok(self, s, args, facts):
        return None


class Accept(E.Rule):
    """the mechanisms a method of a mechanism object accepts"""
    name = 'accept'
    K, KS = 96, 400
    split_err = params = True

    def __init__(self, P):
        self.P = P

    def inline(self, f):
        """functions that are given a mechanism identifier"""
        d = self.P.fns.get(f)
        return bool(d) and d['crate'] == LIB and any(t in ('u64', 'usize') for t in d['locals'][1:d['argc'] + 1]) and d['locals'][0].startswith('core::result::Result')

    def field(self, o, n):
        return o.endswith('CK_MECHANISM') and n == 'mechanism' or n in ('flags', 'info')

    def atom(self, n):
        return False

    def mergekey(self, st):
        return frozenset((a, o) for a, o in st.facts.items() if (a.k == 'p' or any(x.k == 'f' and x.a[1] in ('mechanism', 'flags') for x in subs(a))))

    def mergekey_facts(self, fs):
        return frozenset((a, o) for a, o in fs if (a.k == 'p' or any(x.k == 'f' and x.a[1] in ('mechanism', 'flags') for x in subs(a))))


class OpUse(Accept):
    """what an operation does depending on the identifiers it keeps"""
    name = 'opuse'
    K, KS = 128, 600

    def __init__(self, P, fields):
        self.P, self.fields = P, fields

    def field(self, o, n):
        return (o.split('<')[0], n) in self.fields

    def mergekey(self, st):
        return frozenset((a, o) for a, o in st.facts.items() if a.k == 'p' or any(x.k == 'f' and (x.a[2].split('<')[0], x.a[1]) in self.fields for x in subs(a)))

    def mergekey_facts(self, fs):
        return frozenset((a, o) for a, o in fs if a.k == 'p' or any(x.k == 'f' and (x.a[2].split('<')[0], x.a[1]) in self.fields for x in subs(a)))


def adts(v):
    return [x for x in subs(v) if x.k == 'adt']


class Tables:
    """evaluates the values the mechanism tables are made of"""

    def __init__(self, ctx):
        self.P = ctx.P
        self.cache = {}

    def static(self, name):
        if name in self.cache:
            return self.cache[name]
        f = name + '::{closure#0}' if name + '::{closure#0}' in self.P.fns else name
        out = None
        if f in self.P.fns:
            r = Build()
            e = E.Engine(self.P, r)
            for v, fs in e.summary(f)[0]:
                out = v
            if out is not None and out.k not in ('arr', 'adt'):
                r = Build()
                r.push = True
                e = E.Engine(self.P, r)
                el = []
                for root, sid, args, facts, tr in e.run([f]):
                    if len(args) > 1 and args[-1] not in el:
                        el.append(args[-1])
                out = E.mk('arr', tuple(el)) if el else out
        self.cache[name] = out
        return out

    def members(self, v):
        """the values an expression can have"""
        k = v.k
        if k == 'c':
            return [v]
        if k in ('S', 'ok', 'addr', 'some', 'elem') and v.a and isinstance(v.a[0], E.V):
            return self.members(v.a[0])
        if k == 'call' and leafm(v.a[0]) in ('next', 'iter', 'into_iter', 'deref', 'as_ref', 'index', 'get'):
            return self.members(v.a[1][0])
        if k == 'static':
            s = self.static(v.a[0])
            return self.members(s) if s is not None else []
        if k in ('arr', 'tuple') and k == 'arr':
            return [y for x in v.a[0] for y in self.members(x)]
        if k == 'adt' or k == 'tuple':
            return [v]
        if k == 'idx':
            b = v.a[0]
            i = v.a[1] if isinstance(v.a[1], int) else cval(v.a[1])
            s = self.static(b.a[0]) if b.k == 'static' else b
            if s is not None and s.k == 'arr' and isinstance(i, int) and i < len(s.a[0]):
                return [s.a[0][i]]
            return []
        if k == 'f':
            out = []
            for b in self.members(v.a[0]):
                n = v.a[1]
                if b.k == 'adt':
                    fl = b.a[2] if len(b.a) > 2 else ()
                    ix = None
                    for vn, fs in self.P.adts.get(b.a[0].split('<')[0], {'v': []})['v']:
                        names = [x for x, t in fs]
                        if n in names:
                            ix = names.index(n)
                    if ix is None or ix >= len(fl):
                        continue
                    out += self.members(fl[ix])
                elif b.k == 'tuple' and str(n).isdigit() and int(n) < len(b.a[0]):
                    out += self.members(b.a[0][int(n)])
            return out
        return []


def number(v):
    """a constant, through conversions"""
    x = cval(v)
    if x is not None:
        return x
    for y in subs(v):
        if y.k == 'call' and leafm(y.a[0]) in ('try_from', 'from', 'try_into', 'into') and y.a[1]:
            return cval(y.a[1][0])
    return None


def registrations(ctx):
    """(mechanism constant, description of the object, registering function)"""
    P = ctx.P
    T = Tables(ctx)
    roots = sorted(f for f, cs in P.calls.items() if P.fns[f]['crate'] == LIB and '::filter_copy' not in f and any(
        'fn' in fr and (fr['fn'].get('r') or fr['fn'].get('p') or '').endswith('Mechanisms::add_mechanism') for bb, fr, a, d, l in cs))
    e = E.Engine(P, Build())
    out, seen = [], set()
    for f in roots:
        for root, sid, args, facts, tr in e.run([f]):
            if (args[1], args[2]) in seen:
                continue
            seen.add((args[1], args[2]))
            ctx.analysed.add(f)
            # a table of pairs: key and object of one element
            k, o = args[1], args[2]
            if k.k == 'f' and o.k == 'f' and k.a[0] is o.a[0]:
                for b in T.members(k.a[0]):
                    if b.k == 'tuple':
                        ob = T.members(b.a[0][int(o.a[1])])
                        for c0 in T.members(b.a[0][int(k.a[1])]):
                            out.append((c0, ob[0] if len(ob) == 1 else None, f))
                continue
            ob = T.members(o)
            cs = T.members(k)
            if not cs:
                out.append((None, None, f))
            for c0 in cs:
                out.append((c0, ob[0] if len(ob) == 1 else None, f))
    return out


@deep
def C37(ctx):
    P = ctx.P
    ctx.rule('every mechanism identifier is registered together with an object whose type implements the method behind each flag the object advertises, '
             'and that method has a successful return for this identifier')
    ctx.rule('the minimum key size an object reports is not above its maximum')
    regs = registrations(ctx)
    n = nr = 0
    impl = {}
    for i in P.impls:
        if i['tr'].split('<')[0] == 'kryoptic_lib::mechanism::Mechanism':
            for m, f in i['m'].items():
                d = P.fns.get(f)
                if d:
                    impl.setdefault(d['self'].split('<')[0], {})[m.split('::')[-1]] = f
    bits = dict((k, constval(P, k)) for k in CKF)
    bits = dict((k, v) for k, v in bits.items() if v)
    e = E.Engine(P, Accept(P))
    # the identifiers operations keep
    opf = {}
    for i in P.impls:
        if i['tr'].split('<')[0] == TR + 'MechOperation':
            for f in i['m'].values():
                t = P.fns[f]['self'].split('<')[0] if f in P.fns else ''
                for v, fl in P.adts.get(t, {'v': []})['v']:
                    opf[t] = [x for x, y in fl]
    idf = set((t, x) for t in opf for v, fl in P.adts[t]['v'] for x, y in fl if y == 'u64')
    eo = E.Engine(P, OpUse(P, idf))
    orets = {}
    no = 0

    def steps(cn, name, num, r, asg):
        """the one shot functions of the operation the method returned"""
        nonlocal no
        if name not in ONESHOT or r is None or r.k != 'S':
            return
        for a in adts(r):
            t = a.a[0].split('<')[0]
            if t not in opf or len(a.a[2]) != len(opf[t]):
                continue
            have = {}
            for fld, val in zip(opf[t], a.a[2]):
                x = ev(val, asg)
                if (t, fld) in idf and x is not None:
                    have[fld] = x
            if not have:
                continue
            tr = ONESHOT[name][0]
            for m in ONESHOT[name][1:]:
                g = '<%s as %s%s>::%s' % (t, TR, tr, m)
                if g not in P.fns:
                    continue
                if g not in orets:
                    orets[g] = eo.summary(g)[0]
                    ctx.analysed.add(g)
                good = False
                for q, fs in orets[g]:
                    if errret(q):
                        continue
                    a2 = dict((x, have[x.a[1]]) for b, o in fs for x in subs(b) if x.k == 'f' and x.a[0].k == 'p' and x.a[0].a[0] == 1 and x.a[1] in have)
                    if consistent(fs, a2):
                        good = True
                        break
                no += 1
                ctx.ob('step|%s|%s|%s' % (cn, name, m), good, ctx.where(g), '%s is advertised with %s, but %s refuses it' % (cn, name, short(g)))
            return
    seen = set()
    rets = {}
    for c0, o, f in regs:
        w = ctx.where(f)
        if c0 is None or cval(c0) is None:
            continue
        cn = c0.a[1] if len(c0.a) > 1 and c0.a[1] else '%#x' % cval(c0)
        nr += 1
        if o is None or o.k != 'adt':
            continue
        ty = o.a[0].split('<')[0]
        if (cval(c0), o) in seen:
            continue
        seen.add((cval(c0), o))
        inf = [x for x in adts(o) if x.a[0].endswith('CK_MECHANISM_INFO')]
        if len(inf) != 1 or len(inf[0].a[2]) != 3:
            continue
        lo, hi, fl = [number(x) for x in inf[0].a[2]]
        if lo is not None and hi is not None:
            ctx.ob('range|%s' % cn, lo <= hi, w, '%s reports a minimum key size of %d and a maximum of %d' % (cn, lo, hi))
        if fl is None:
            continue
        some = False
        for name, bit in sorted(bits.items()):
            if not fl & bit:
                continue
            m = CKF[name]
            g = impl.get(ty, {}).get(m)
            n += 1
            some = True
            if g is None:
                ctx.ob('flag|%s|%s' % (cn, name), False, w, '%s is advertised with %s, but %s has no %s' % (cn, name, short(ty), m))
                continue
            ctx.analysed.add(g)
            if g not in rets:
                rets[g] = e.summary(g)[0]
            good = False
            for r, fs in rets[g]:
                if errret(r):
                    continue
                asg = {}
                for a in [r] + [a for a, q in fs]:
                    for x in subs(a):
                        if x.k != 'f':
                            continue
                        if x.a[1] == 'mechanism' and x.a[0].k == 'p':
                            asg[x] = cval(c0)
                        elif x.a[1] == 'flags' and x.a[0].k == 'f' and x.a[0].a[1] == 'info' and x.a[0].a[0].k == 'p' and x.a[0].a[0].a[0] == 1:
                            asg[x] = fl
                if consistent(fs, asg):
                    good = True
                    steps(cn, name, cval(c0), r, asg)
                    break
            ctx.ob('flag|%s|%s' % (cn, name), good, ctx.where(g), '%s is advertised with %s, but %s refuses it' % (cn, name, short(g)))
        ctx.ob('some|%s' % cn, some, w, '%s is registered without any function' % cn)
    ctx.floor('registered mechanisms', nr, 100)
    ctx.floor('advertised functions', n, 150)
    ctx.floor('one shot functions of operations', no, 100)
    ctx.floor('types of mechanism objects', len(impl), 15)

    # applications reach a method only for mechanisms that advertise it
    meth = dict((MECH + m, (k, bits[k])) for k, m in CKF.items() if m and k in bits)
    if 'CKF_VERIFY' in bits:
        meth[MECH + 'verify_signature_new'] = ('CKF_VERIFY', bits['CKF_VERIFY'])

    class Use(E.Rule):
        name = 'use'
        K, KS = 64, 200

        def field(self, o, n):
            return n in ('flags', 'mechanism')

        def atom(self, n):
            return n == MECH + 'info' or n.endswith('Mechanisms::get')

        def opaque(self, n):
            return n.startswith(MECH) or n.endswith('Mechanisms::get')

        def sink(self, n, args, fn):
            return n in meth and '::fns::' in fn

        def ok(self, sink, args, facts):
            k, bit = meth[sink]
            for a, o in facts.items():
                for x in subs(a):
                    if x.k == 'f' and x.a[1] == 'flags' and iscall(x.a[0], 'info'):
                        if not consistent([(a, o)], {x: ~bit & 0xffffffff}):
                            return True
            return False
    A = api(P)
    u = ctx.engine(Use(), A)
    ctx.floor('uses of mechanism objects by the API', len(u.sites), 14)
