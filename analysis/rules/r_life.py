"""C19, C50, C18: operations of a session, their end, and their output buffers."""
from common import *
from r_auth import errret

# the kind of operation each function works on
NEEDS = {
    'C_Encrypt': ['Encryption'], 'C_EncryptUpdate': ['Encryption'], 'C_EncryptFinal': ['Encryption'],
    'C_Decrypt': ['Decryption'], 'C_DecryptUpdate': ['Decryption'], 'C_DecryptFinal': ['Decryption'],
    'C_Digest': ['Digest'], 'C_DigestUpdate': ['Digest'], 'C_DigestKey': ['Digest'], 'C_DigestFinal': ['Digest'],
    'C_Sign': ['Sign'], 'C_SignUpdate': ['Sign'], 'C_SignFinal': ['Sign'],
    'C_Verify': ['Verify'], 'C_VerifyUpdate': ['Verify'], 'C_VerifyFinal': ['Verify'],
    'C_VerifySignature': ['VerifySignature'], 'C_VerifySignatureUpdate': ['VerifySignature'], 'C_VerifySignatureFinal': ['VerifySignature'],
    'C_EncryptMessage': ['MsgEncryption'], 'C_EncryptMessageBegin': ['MsgEncryption'], 'C_EncryptMessageNext': ['MsgEncryption'],
    'C_MessageEncryptFinal': ['MsgEncryption'],
    'C_DecryptMessage': ['MsgDecryption'], 'C_DecryptMessageBegin': ['MsgDecryption'], 'C_DecryptMessageNext': ['MsgDecryption'],
    'C_MessageDecryptFinal': ['MsgDecryption'],
    'C_FindObjects': ['SearchOperation'], 'C_FindObjectsFinal': ['SearchOperation'],
    'C_DigestEncryptUpdate': ['Digest', 'Encryption'], 'C_DecryptDigestUpdate': ['Digest', 'Decryption'],
    'C_SignEncryptUpdate': ['Sign', 'Encryption'], 'C_DecryptVerifyUpdate': ['Verify', 'Decryption'],
}
CANCELS = {'CKF_MESSAGE_ENCRYPT': 'MsgEncryption', 'CKF_MESSAGE_DECRYPT': 'MsgDecryption', 'CKF_FIND_OBJECTS': 'SearchOperation', 'CKF_ENCRYPT': 'Encryption',
           'CKF_DECRYPT': 'Decryption', 'CKF_DIGEST': 'Digest', 'CKF_SIGN': 'Sign', 'CKF_VERIFY': 'Verify'}
TRAITS = ('Sign', 'Verify', 'VerifySignature', 'Encryption', 'Decryption', 'Digest')
ENDS = {'Sign': ('sign', 'sign_final'), 'Verify': ('verify', 'verify_final'), 'VerifySignature': ('verify', 'verify_final'),
        'Encryption': ('encrypt', 'encrypt_final'), 'Decryption': ('decrypt', 'decrypt_final'), 'Digest': ('digest', 'digest_final')}
STEPS = {'Sign': ('sign_update',), 'Verify': ('verify_update',), 'VerifySignature': ('verify_update',),
         'Encryption': ('encrypt_update',), 'Decryption': ('decrypt_update',), 'Digest': ('digest_update',)}


def impls(P):
    """operation type -> {trait: {method: fn}}"""
    im = collections.defaultdict(lambda: collections.defaultdict(dict))
    for f, d in P.fns.items():
        t = d.get('impl_tr') or ''
        if t.startswith('kryoptic_lib::mechanism::') and d.get('self') and d['kind'] != 'closure' and d['crate'] == 'kryoptic_lib':
            im[d['self']][t.split('::')[-1]][f.split('::')[-1]] = f
    return im


def kind(n, *names):
    """X of a name m<X> with m in names"""
    m = n.rsplit('<', 1)
    if len(m) == 2 and n.endswith('>'):
        if m[0].rsplit('::', 1)[-1] in names:
            return m[1][:-1].rsplit('dyn ', 1)[-1].strip()
    return None


class Slots(E.Rule):
    name = 'slots'
    keep_err = True
    typed = ('check_no_op', 'set_operation', 'get_operation', 'cancel_operation', 'check_op')
    K, KS = 64, 128

    def __init__(self, P, sinks=True):
        self.P = P
        self.sinks = sinks

    def atom(self, n):
        return kind(n, 'check_no_op', 'get_operation', 'check_op') is not None

    def sink(self, n, a=(), f=None):
        return self.sinks and kind(n, 'set_operation') is not None

    def ok(self, n, args, facts):
        return kind(n, 'set_operation') in kindfacts(facts.items(), 'check_no_op')

    def event(self, n):
        return kind(n, 'cancel_operation') is not None

    def mergekey_facts(self, fs):
        return frozenset((a, o) for a, o in fs if a.k in ('call', 'ev'))


def kindfacts(fs, *names):
    return set(kind(a.a[0], *names) for a, o in fs if a.k == 'call' and o == 'S') - {None}



class Cancel(Slots):
    """one flag of C_SessionCancel"""
    name = 'cancel'
    K, KS = 128, 256

    def __init__(self, P, t, v):
        Slots.__init__(self, P, False)
        self.t, self.v = t, v

    def atom(self, n):
        return False

    def event(self, n):
        return kind(n, 'cancel_operation') == self.t

    def flagfact(self, a, o):
        """whether the fact says the flag is not set"""
        m = lambda y: y.k == 'bin' and y.a[0] == 'BitAnd' and any(cval(x) == self.v for x in y.a[1:])
        if m(a):
            return isinstance(o, int) and o == 0
        if a.k == 'bin' and a.a[0] in ('Eq', 'Ne') and any(m(y) for y in a.a[1:]):
            eq = o == (1 if a.a[0] == 'Eq' else 0)
            return eq if any(cval(x) == 0 for x in a.a[1:]) else (not eq if any(cval(x) == self.v for x in a.a[1:]) else None)
        return None

    def mergekey_facts(self, fs):
        return frozenset((a, o) for a, o in fs if a.k == 'ev' or self.flagfact(a, o) is not None)


class Mop(E.Rule):
    name = 'mop'
    keep_err = True

    def __init__(self, P):
        self.P = P

    def atom(self, n):
        return n.endswith('::finalized') or n.split('::')[-1] in ('check_no_op', 'get_op', 'check_op')

    def field(self, o, n):
        return o.endswith('SessionOperations')

    def opaque(self, n):
        return n not in self.P.fns


class Fin(E.Rule):
    """value of the field that finalized() returns at every return"""
    name = 'fin'
    keep_old = True
    keep_err = True
    split_err = upvars = True
    K, KS = 96, 200

    def __init__(self, P, fields, ty):
        self.P = P
        self.fields = fields
        self.ty = ty

    def opaque(self, n):
        return n not in self.P.fns or n.split('::')[-1] in ('finalized', 'state_save')

    def field(self, o, n):
        return n in self.fields and o.split('<')[0] == self.ty.split('<')[0]

    def mergekey_facts(self, fs):
        return frozenset((a, o) for a, o in fs if a.k in ('new', 'f'))

    def wfield(self, o, n):
        return False

    def atom(self, n):
        return n.endswith('::buf_too_small')


def mop(ctx):
    """the slots of a session"""
    P = ctx.P
    by = collections.defaultdict(dict)
    for f, d in P.fns.items():
        if (d.get('impl_tr') or '').endswith('session::ManageOperation') and d['kind'] != 'closure':
            by[d['self']][f.split('::')[-1]] = f
    ctx.floor('kinds of operations', len(by), 9)
    e = E.Engine(P, Mop(P))
    slot = {}
    for ty in sorted(by):
        t = ty.split('::')[-1].split(' ')[0]
        used = set()
        for m in ('check_op', 'check_no_op', 'get_op'):
            f = by[ty].get(m)
            if f is None:
                ctx.ob('slot|%s|%s' % (t, m), False, '', 'method %s is missing' % m)
                continue
            bad = []
            for r, fs in e.summary(f)[0]:
                fl = set((x.a[1], o) for x, o in fs if x.k == 'f' and o in ('S', 'F'))
                used |= set(x for x, o in fl)
                active = any(o == 'S' for x, o in fl) and any(iscall(a, 'finalized') and o == 0 for a, o in fs)
                idle = any(o == 'F' for x, o in fl) or any(iscall(a, 'finalized') and o == 1 for a, o in fs)
                if r is None or r.k == 'F':
                    continue
                if not (idle if m == 'check_no_op' else active):
                    bad.append('may succeed %s' % ('with an active operation' if m == 'check_no_op' else 'without an active operation'))
            ctx.ob('slot|%s|%s' % (t, m), not bad, ctx.where(f), '; '.join(sorted(set(bad))))
        w = set()
        for m in ('set_op', 'cancel_operation'):
            f = by[ty].get(m)
            for blk in P.fns[f]['blocks'] if f else ():
                for s in blk['s'] if blk else ():
                    if s[0] != 'dead':
                        w |= set(x[2] for x in s[0][1:] if isinstance(x, list) and x[0] == 'f' and str(x[3]).endswith('SessionOperations')) if isinstance(s[0], list) else set()
                        w |= deepfields(s)
        used |= w
        ctx.ob('slot|%s|own' % t, len(used) == 1 and not (used & set(slot)), ctx.where(by[ty].get('set_op')), 'the slot of %s is not its own: %s' % (t, sorted(used)))
        for u in used:
            slot[u] = t
    for m, inner in (('check_no_op', 'check_no_op'), ('get_operation', 'get_op'), ('check_op', 'check_op')):
        f = ctx.fn('session::Session::' + m)
        if not f:
            continue
        ok = True
        for r, fs in e.summary(f)[0]:
            if r is None or r.k == 'F' or iscall(r, inner):
                continue
            ok &= any(iscall(a, inner) and o == 'S' for a, o in fs)
        ctx.ob('session|%s' % m, ok, ctx.where(f), 'may succeed without %s of the operation kind' % inner)


def deepfields(j):
    out = set()
    if isinstance(j, list):
        if len(j) == 4 and j[0] == 'f' and isinstance(j[3], str) and j[3].endswith('SessionOperations'):
            out.add(j[2])
        for x in j:
            out |= deepfields(x)
    elif isinstance(j, dict):
        for x in j.values():
            out |= deepfields(x)
    return out


def inits(ctx):
    P = ctx.P
    A = api(P)
    S = Slots(P)
    roots = {n: f for n, f in A.items() if n != 'C_SetOperationState'}
    e = ctx.engine(S, roots, 'slots')
    n = len(e.sites)
    ctx.floor('init functions', n, 9)


def needs(ctx):
    P = ctx.P
    A = api(P)
    e = E.Engine(P, Slots(P, False))
    for n, want in sorted(NEEDS.items()):
        f = A.get(n)
        if f is None:
            ctx.missing(n)
            continue
        bad = None
        for r, fs in e.summary(f)[0]:
            if r is None or not (cval(r) == 0 or r.k in ('u', '...')):
                continue
            got = kindfacts(fs, 'get_operation', 'check_op')
            if set(want) - got:
                bad = sorted(set(want) - got)
        ctx.ob('needs|%s' % n, bad is None, ctx.where(f), 'may succeed without an active operation of kind %s' % bad)
    f = A.get('C_SessionCancel')
    for flag, t in sorted(CANCELS.items()):
        v = constval(P, flag)
        bad = False
        rule = Cancel(P, t, v)
        for r, fs in E.Engine(P, rule).summary(f)[0]:
            if r is None or not (cval(r) == 0 or r.k in ('u', '...')):
                continue
            if not any(rule.flagfact(a, o) for a, o in fs) and not any(a.k == 'ev' for a, o in fs):
                bad = True
        ctx.ob('cancel|%s' % flag, not bad, ctx.where(f), 'may succeed without cancelling the operation of kind %s' % t)


def finrets(e, V, f):
    """(return value, whether the operation is ended at that return)"""
    for r, fs in e.summary(f)[0]:
        end = None
        for a, o in fs:
            if a.k == 'new' and a.a[0] is V:
                end = cval(a.a[1])
        if end is None:
            for a, o in fs:
                if a is V:
                    end = o if isinstance(o, int) else None
        yield r, end == 1, fs


def errs(P, r):
    """name of the error, for the two that leave the operation as it is"""
    if r is None or r.k != 'F':
        return None
    x = r.a[0]
    while x is not None and x.k in ('err', 'F') and x.a and not isinstance(x.a[0], str):
        if iscall(x, 'buf_too_small'):
            break
        x = x.a[0]
    return x


def excused(e, r):
    P = e.P
    x = errs(P, r)
    if x is None:
        return False
    if is_c(x, 'CKR_BUFFER_TOO_SMALL', 'CKR_OPERATION_NOT_INITIALIZED') or iscall(x, 'buf_too_small'):
        return True
    if x.k == 'call' and x.a[0] in P.fns:
        l = e.summary(x.a[0])[0]
        return bool(l) and all(q is None or q.k == 'S' or (q.k == 'F' and q is not r and excused(e, q)) for q, fs in l)
    return False


def ends(ctx):
    P = ctx.P
    im = impls(P)
    n = 0
    for ty in sorted(im):
        if not set(im[ty]) & set(TRAITS):
            continue
        t = ty.split('::')[-1]
        ff = im[ty].get('MechOperation', {}).get('finalized')
        if ff is None:
            ctx.ob('end|%s' % t, False, '', 'no finalized method')
            continue
        fld = set()
        for blk in P.fns[ff]['blocks']:
            for s in blk['s'] if blk else ():
                fld |= allfields(s)
        e = E.Engine(P, Fin(P, fld, ty))
        l = e.summary(ff)[0]
        if len(l) != 1 or l[0][0] is None or l[0][0].k != 'f':
            ctx.ob('end|%s' % t, False, ctx.where(ff), 'finalized does not return a field of the operation')
            continue
        V = l[0][0]
        for tr in TRAITS:
            for m, f in sorted(im[ty].get(tr, {}).items()):
                if m in ENDS[tr]:
                    bad = set()
                    for r, end, fs in finrets(e, V, f):
                        if not end and (r is None or r.k != 'F'):
                            bad.add('succeeds and stays active')
                    ctx.ob('done|%s|%s::%s' % (t, tr, m), not bad, ctx.where(f), '; '.join(bad))
                if m in ENDS[tr] or m in STEPS[tr]:
                    n += 1
                    bad = set()
                    for r, end, fs in finrets(e, V, f):
                        if not end and r is not None and r.k == 'F' and not excused(e, r):
                            bad.add('fails with %s and stays active' % E.show(r)[2:90])
                    ctx.ob('fail|%s|%s::%s' % (t, tr, m), not bad, ctx.where(f), '; '.join(sorted(bad)[:3]))
    ctx.floor('operation methods', n, 70)


def allfields(j):
    out = set()
    if isinstance(j, list):
        if len(j) == 4 and j[0] == 'f' and isinstance(j[2], str):
            out.add(j[2])
        for x in j:
            out |= allfields(x)
    elif isinstance(j, dict):
        for x in j.values():
            out |= allfields(x)
    return out


def C19(ctx):
    ctx.rule('an operation is set only after a check that none of its kind is active; update, final and one-shot functions succeed only with an active operation of their '
             'kind; each kind has a slot of its own')
    ctx.rule('every one-shot and final method of every operation type that succeeds, and every method that fails with another error than a too small buffer '
             '(or a call out of sequence), leaves the operation finalized')
    mop(ctx)
    inits(ctx)
    needs(ctx)
    ends(ctx)


# ---- C50: buffers that are too small
OUTOPS = ('Encryption', 'Decryption', 'MsgEncryption', 'MsgDecryption', 'Digest', 'Sign', 'Mechanism')
NOCHANGE = ('encryption_len', 'decryption_len', 'msg_encryption_len', 'msg_decryption_len', 'digest_len', 'signature_len', 'fips_approved', 'busy',
            'mechanism', 'finalized', 'state_size', 'encapsulate_ciphertext_len')


def outops(P):
    """trait methods that take an output slice and return how much of it was used; those that take an output slice of a fixed size"""
    var, fix = set(), set()
    for f, d in P.fns.items():
        t = (d.get('impl_tr') or '').rsplit('::', 1)
        if len(t) == 2 and t[0] == 'kryoptic_lib::mechanism' and t[1] in OUTOPS and d['kind'] != 'closure':
            args = d['locals'][1:d['argc'] + 1]
            if '&mut [u8]' in args:
                (var if 'usize' in d['locals'][0] else fix).add(d['impl_m'])
    return var, fix


def pairs(P):
    """API function -> (buffer parameter, length parameter)"""
    out = {}
    for n, f in api(P).items():
        d = P.fns[f]
        a = d['locals'][1:d['argc'] + 1]
        for i in range(1, len(a)):
            if a[i] == '*mut u64' and a[i - 1].startswith('*mut ') and a[i - 1].split('::')[-1] in ('*mut u8', 'CK_INTERFACE'):
                out[n] = (i, i + 1)
        if n in ('C_GetSlotList', 'C_GetMechanismList'):
            out[n] = (len(a) - 1, len(a))
    return out


class Small(E.Rule):
    """writes of the length and results of the operations"""
    name = 'small'
    keep_err = True
    split_err = True
    K, KS = 96, 300

    def __init__(self, P, ops):
        self.P = P
        self.ops = ops
        self.w = set(k for k, d in P.fns.items() if d['crate'] == LIB and any(
            isinstance(s[0], list) and len(s[0]) == 2 and s[0][1] == '*' and d['locals'][s[0][0]] == '*mut u64'
            for blk in d['blocks'] if blk for s in blk['s'] if len(s) > 1))

    def atom(self, n):
        return n in self.ops or n.endswith(('Error::rv', 'Error::reqsize')) or n.split('::')[-1] in ('state_save',)

    def opaque(self, n):
        return n.split('::')[-1] in NOCHANGE or n not in self.P.fns or n.startswith('kryoptic_lib::mechanism::Mechanisms::')

    def atomv(self, v):
        # what a length is computed from, so that comparisons with it are kept
        return v.a[0].split('::')[-1] in self.LENS

    lens = True
    LENS = ('digest_len', 'signature_len', 'encapsulate_ciphertext_len', 'get_slots_ids', 'list', 'len')

    def inline(self, k):
        return k in self.w

    def wfield(self, o, n):
        return n == '*'

    def event(self, n):
        return n in self.ops

    def on_write(self, st, base, fld, v, f):
        if base.k == 'p':
            st.facts[mk('ev', 'W', (base, v))] = 1

    def mergekey_facts(self, fs):
        return frozenset((a, o) for a, o in fs if a.k in ('ev', 'isnull') or a.k == 'call' or a.k == 'bin')


def unwrap_err(x):
    while x is not None and x.k in ('err', 'F', 'ok', 'S') and x.a and isinstance(x.a[0], E.V):
        x = x.a[0]
    return x


def toosmall(r, fs, ops):
    """the error of this return can be CKR_BUFFER_TOO_SMALL: 'const', 'op' or None"""
    if r is None:
        return None
    if is_c(r, 'CKR_BUFFER_TOO_SMALL'):
        return 'const'
    if not iscall(r, 'rv'):
        return None
    x = unwrap_err(r.a[1][0])
    if x is None:
        return None
    if is_c(x, 'CKR_BUFFER_TOO_SMALL'):
        return 'const'
    if x.k == 'call' and (x.a[0] in ops or x.a[0].endswith('::state_save')):
        for a, o in fs:
            if a.k == 'call' and a.a[0].endswith('Error::rv') and unwrap_err(a.a[1][0]) is x and isinstance(o, tuple) and o[0] == 'ne' and 0x150 in o[1]:
                return None
            if a.k == 'bin' and a.a[0] in ('Eq', 'Ne') and o == (0 if a.a[0] == 'Eq' else 1) and any(is_c(y, 'CKR_BUFFER_TOO_SMALL') for y in a.a[1:]) and \
                    any(y.k == 'call' and y.a[0].endswith('Error::rv') and unwrap_err(y.a[1][0]) is x for y in a.a[1:]):
                return None
        return 'op'
    return None


def cores(v):
    """the values a stored length is a conversion of"""
    return [y for y in subs(v) if (y.k == 'call' and not y.a[0].endswith(('try_from', 'try_into'))) or y.k == 'len']


def lengths(ctx):
    P = ctx.P
    A = api(P)
    var, fix = outops(P)
    pr = pairs(P)
    outidx = {d['impl_m']: d['locals'][1:d['argc'] + 1].index('&mut [u8]') for d in P.fns.values() if d.get('impl_m') in var}
    e = E.Engine(P, Small(P, var | fix))
    nsm = nnull = 0
    for n, (ib, il) in sorted(pr.items()):
        f = A[n]
        w = ctx.where(f)
        pb, pl = mk('p', ib), mk('p', il)
        rets = [(r, fs) for r, fs in e.summary(f)[0] if r is not None]
        ctx.analysed |= set(e.sums)
        live = any(cval(r) == 0 for r, fs in rets)
        if not live:
            continue
        bad, badq, seen, seenq = set(), set(), 0, 0
        for r, fs in rets:
            ws = [a.a[1][1] for a, o in fs if a.k == 'ev' and a.a[0] == 'W' and a.a[1][0] is pl]
            ts = toosmall(r, fs, var)
            x = unwrap_err(r.a[1][0]) if ts == 'op' else None
            if x is not None and pb not in subs(x.a[1][outidx[x.a[0]]] if x.a[0] in outidx else x):
                continue        # the output of this step is a buffer of the library
            if ts:
                # a length that does not fit the type of the caller's variable
                if any(o == 'F' and a.k == 'call' and a.a[0].endswith('try_from') and any(iscall(y, 'reqsize') for y in subs(a)) for a, o in fs):
                    continue
                seen += 1
                if not ws:
                    bad.add('returns CKR_BUFFER_TOO_SMALL without storing the required length')
                elif ts == 'const' and not any(a.k == 'bin' and pl in subs(a) and any(y in subs(a) for v in ws for y in cores(v)) for a, o in fs):
                    bad.add('returns CKR_BUFFER_TOO_SMALL and stores a length (%s) the buffer was not compared with' % E.show(ws[0])[:60])
                elif ts == 'op' and not any(iscall(y, 'reqsize') for v in ws for y in subs(v)):
                    bad.add('returns CKR_BUFFER_TOO_SMALL of the operation and stores another length: %s' % E.show(ws[0])[:60])
                if [a for a, o in fs if a.k == 'call' and a.a[0] in var | fix and o == 'S' and '::Mechanism::' not in a.a[0]]:
                    bad.add('returns CKR_BUFFER_TOO_SMALL after an operation processed data')
            if cval(r) == 0 and any(a.k == 'isnull' and a.a[0] is pb and o == 1 for a, o in fs):
                seenq += 1
                if not ws or all(v.k == 'c' for v in ws):
                    badq.add('succeeds for a null buffer without storing the length')
                for a, o in fs:
                    if a.k == 'ev' and a.a[0] in var | fix and '::Mechanism::' not in a.a[0]:
                        badq.add('calls %s for a null buffer' % short(a.a[0]))
                fin = 0 if n.endswith(('Update', 'Next', 'Message')) else 1
                for v in ws:
                    for y in subs(v):
                        if iscall(y, 'encryption_len', 'decryption_len') and cval(y.a[1][-1]) not in (None, fin):
                            badq.add('computes the length of %s part' % ('a final' if not fin else 'an intermediate'))
        nsm += seen
        nnull += seenq
        ctx.ob('small|%s' % n, not bad, w, '; '.join(sorted(bad)))
        ctx.ob('query|%s' % n, not badq and seenq, w, '; '.join(sorted(badq)) or 'no path answers a query with a null buffer')
    ctx.floor('returns with a too small buffer', nsm, 20)
    ctx.floor('answers to queries of the length', nnull, 20)


class Early(E.Rule):
    """what an operation changed before it reports a too small buffer"""
    name = 'early'
    keep_old = True
    keep_err = True
    split_err = True
    K, KS = 128, 300
    CH = ('extend_from_slice', 'clear', 'drain', 'resize', 'truncate', 'push', 'append', 'zeromem')

    def __init__(self, P, ty, fields):
        self.P = P
        self.ty = ty.split('<')[0]
        self.fields = fields

    def opaque(self, n):
        return n not in self.P.fns or n.split('::')[-1] in NOCHANGE or n.startswith('ossl::')

    def atom(self, n):
        return n.endswith('::buf_too_small') or n.split('::')[-1] in ('encryption_len', 'decryption_len')

    def event(self, n):
        m = n.split('::')[-1]
        return m in self.CH or (n.startswith('ossl::') and m in ('update', 'finalize', 'sign_final', 'sign_update', 'digest_final', 'reset', 'init', 'new', 'get_tag'))

    def field(self, o, n):
        return o.split('<')[0] == self.ty and n in self.fields

    def mergekey_facts(self, fs):
        return frozenset((a, o) for a, o in fs if a.k in ('ev', 'wr', 'bin') or (a.k == 'f' and a.a[1] == 'mech'))


def early(ctx):
    P = ctx.P
    im = impls(P)
    n = m = 0
    for ty in sorted(im):
        for tr in ('Encryption', 'Decryption', 'MsgEncryption', 'MsgDecryption'):
            for meth, f in sorted(im[ty].get(tr, {}).items()):
                d = P.fns[f]
                if '&mut [u8]' not in d['locals'][1:d['argc'] + 1]:
                    continue
                m += 1
                fld = set(x for v, fl in P.adts.get(ty.split('<')[0], {'v': []})['v'] for x, t in fl) - {'fips_approval'}
                e = E.Engine(P, Early(P, ty, fld))
                out = mk('p', d['locals'][1:d['argc'] + 1].index('&mut [u8]') + 1)
                bad = set()
                for r, fs in e.summary(f)[0]:
                    x = unwrap_err(r) if r is not None and r.k == 'F' else None
                    if x is None or not (is_c(x, 'CKR_BUFFER_TOO_SMALL') or iscall(x, 'buf_too_small')):
                        continue
                    n += 1
                    ch = ['writes the field %s' % a.a[0].a[1] for a, o in fs if a.k == 'wr' and a.a[0].k == 'f' and rootof(a.a[0]) == 1] + \
                         ['calls %s' % short(a.a[0]) for a, o in fs if a.k == 'ev' and any(rootof(y) == 1 for y in a.a[1][:1])]
                    if not ch:
                        continue
                    # the whole output was known to fit before anything was done
                    if any(a.k == 'bin' and mk('len', out) in subs(a) and any(
                            (iscall(y, 'encryption_len', 'decryption_len') and cval(y.a[1][-1]) == 1) or
                            (tr.startswith('Msg') and y.k == 'len' and y.a[0].k == 'p' and y.a[0] is not out) for y in subs(a)) and o in (0, 1) for a, o in fs):
                        continue
                    bad.add('%s before it reports a too small buffer' % ', '.join(sorted(set(ch))[:3]))
                ctx.ob('early|%s|%s::%s' % (ty.split('::')[-1], tr, meth), not bad, ctx.where(f), '; '.join(sorted(bad)[:2]))
    ctx.floor('methods with output', m, 14)
    ctx.floor('too small returns of operations', n, 10)


def rootof(v):
    while v.k in ('f', 'ok', 'wr', 'old', 'S', 'addr'):
        v = v.a[0]
    return v.a[0] if v.k == 'p' else None


def C50(ctx):
    ctx.rule('each return of CKR_BUFFER_TOO_SMALL is preceded by the store of the length the buffer was compared with (or the one the operation reports) to the caller\'s length variable; '
             'a null buffer stores the length, succeeds, and calls no operation')
    ctx.rule('an operation that reports a too small buffer has written none of its fields and fed no data to the crypto library before')
    old, E.MAXD = E.MAXD, 24
    try:
        lengths(ctx)
    finally:
        E.MAXD = old
    early(ctx)
