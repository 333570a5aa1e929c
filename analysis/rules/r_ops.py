"""Key usage: wrap rules, usage attributes, allowed mechanisms, mechanism flags."""
from common import *

GETB = 'get_attr_as_bool'
# mechanism interface method -> (usage attribute, mechanism flag, index of the key among the arguments)
KEYED = {
    'encryption_new': ('CKA_ENCRYPT', 'CKF_ENCRYPT', 2),
    'decryption_new': ('CKA_DECRYPT', 'CKF_DECRYPT', 2),
    'sign_new': ('CKA_SIGN', 'CKF_SIGN', 2),
    'verify_new': ('CKA_VERIFY', 'CKF_VERIFY', 2),
    'verify_signature_new': ('CKA_VERIFY', 'CKF_VERIFY', 2),
    'msg_encryption_op': ('CKA_ENCRYPT', 'CKF_MESSAGE_ENCRYPT', 2),
    'msg_decryption_op': ('CKA_DECRYPT', 'CKF_MESSAGE_DECRYPT', 2),
    'sign_restore': ('CKA_SIGN', None, 2),
    'verify_restore': ('CKA_VERIFY', None, 2),
    'wrap_key': ('CKA_WRAP', 'CKF_WRAP', 2),
    'unwrap_key': ('CKA_UNWRAP', 'CKF_UNWRAP', 2),
    'encapsulate': ('CKA_ENCAPSULATE', 'CKF_ENCAPSULATE', 2),
    'decapsulate': ('CKA_DECAPSULATE', 'CKF_DECAPSULATE', 2),
    'digest_new': (None, 'CKF_DIGEST', None),
    'generate_key': (None, 'CKF_GENERATE', None),
    'generate_keypair': (None, 'CKF_GENERATE_KEY_PAIR', None),
    'derive_operation': (None, 'CKF_DERIVE', None),
}
DERIVE = 'kryoptic_lib::mechanism::Derive::derive'
INIMPL = ('encryption_new', 'decryption_new', 'sign_new', 'verify_new', 'verify_signature_new', 'msg_encryption_op',
          'msg_decryption_op', 'sign_restore', 'verify_restore', 'encapsulate', 'decapsulate')


def is_attr(v, obj, ckas):
    """v is the boolean value of one of the attributes of obj, absence counting as false"""
    if v.k == 'ok':
        return is_attr(v.a[0], obj, ckas)
    if v.k != 'call':
        return False
    n = v.a[0].split('::')[-1]
    if n == GETB:
        return v.a[1][0] is obj and any(is_c(v.a[1][1], x) for x in ckas)
    if n in ('or', 'unwrap_or') and len(v.a[1]) == 2 and is_attr(v.a[1][0], obj, ckas):
        d = v.a[1][1]
        while d.k in ('S', 'ok', 'adt') and d.a and isinstance(d.a[0], E.V):
            d = d.a[0]
        return cval(d) == 0 or d.k == 'F'
    if n in ('unwrap_or_default', 'is_ok_and', 'is_some_and', 'or_else', 'map_err', 'ok', 'map', 'and_then', 'unwrap_or_else') and v.a[1]:
        return is_attr(v.a[1][0], obj, ckas)
    return False


def attr_true(fs, obj, *ckas):
    return any(o == 1 and is_attr(a, obj, ckas) for a, o in fs.items())


def attr_known(fs, obj, cka, val):
    return any(o == val and is_attr(a, obj, (cka,)) for a, o in fs.items())


class Attrs(E.Rule):
    """boolean attributes of objects as atoms"""
    def __init__(self, name, extra=()):
        self.name = name
        self.extra = extra

    def atom(self, n):
        return n.endswith('::' + GETB) or (bool(self.extra) and n.endswith(self.extra))


def impls_of(P, tr, meths):
    """(impl type, method, fn) of every overriding implementation of the trait"""
    out = []
    for im in P.impls:
        if im['tr'].endswith(tr):
            for m, f in im['m'].items() if isinstance(im['m'], dict) else im['m']:
                m = m.split('::')[-1]
                if m in meths and f in P.fns:
                    out.append((im.get('self'), m, f))
    return out


def api_level(P):
    """functions called from the C_ functions without passing through the mechanism interfaces"""
    tr = set(k for k in P.fns if P.fns[k].get('impl_tr') and
             P.fns[k]['impl_tr'].split('::')[-1].split('<')[0] in
             ('Mechanism', 'MechOperation', 'Sign', 'Verify', 'Encryption', 'Decryption', 'Digest', 'Mac', 'Derive', 'VerifySignature',
              'MessageOperation', 'MsgEncryption', 'MsgDecryption', 'DRBG', 'ObjectFactory', 'KeyFactory', 'SecretKeyFactory',
              'Storage', 'StorageRaw', 'StorageDBInfo'))
    roots = [f for n, f in api(P).items() if n not in ('C_Initialize', 'C_Finalize', 'C_InitToken')]
    rs = F.reach(P, roots, stop=lambda f: f in tr)
    out = set(f for f in rs if f not in tr and not f.split('::')[0].startswith('<'))
    enc = set(k for k in P.fns if '::encryption::' in k and '::fns::' not in k)     # the library's own use of its keys
    return out - enc


def meth(n):
    if n.startswith(MECH):
        return n[len(MECH):]
    if n == DERIVE:
        return 'derive'
    return None


def key_of(n, a):
    m = meth(n)
    if m == 'derive':
        return a[1]
    return a[KEYED[m][2]]


def C06(ctx):
    P = ctx.P
    ctx.rule('In every implementation of a mechanism interface method that starts an operation with a key, each success path established that the usage '
             'attribute of that operation is true on that very key (absence counts as false).')
    ctx.rule('On every path from a C_ function to wrap_key, unwrap_key and derive, the usage attribute is true on the key passed; derivation is exempt for '
             'CKM_PUB_KEY_FROM_PRIV_KEY and for HKDF from a data object, as documented in the code.')
    n = 0
    r = Attrs('usage')
    e = E.Engine(P, r)
    for t, m, f in impls_of(P, 'mechanism::Mechanism', INIMPL):
        n += 1
        key = mk('p', 3)
        at = KEYED[m][0]
        rl = e.summary(f)[0]
        bad = None
        for ret, fs in rl:
            if ret.k == 'F':
                continue
            if not attr_true(dict(fs), key, at):
                bad = fs
        ctx.ob('impl|%s::%s' % (short(t), m), bad is None, ctx.where(f),
               '%s of %s can succeed with a key whose %s is not known to be true [%s]' % (
                   m, short(t), at, '; '.join('%s=%s' % (E.show(a), o) for a, o in list(bad or ())[:8])))
    ctx.floor('operation starting mechanism implementations', n, 14)
    ctx.analysed |= set(e.sums)
    ctx.stats['functions_interpreted'] += e.stats['functions']
    lvl = api_level(P)
    pub = c(ctx, 'CKM_PUB_KEY_FROM_PRIV_KEY')
    hkdf = (c(ctx, 'CKM_HKDF_DERIVE'), c(ctx, 'CKM_HKDF_DATA'))
    data = c(ctx, 'CKO_DATA')

    class R(Attrs):
        K = 200

        def sink(s, n, a=(), f=None):
            return n in (MECH + 'wrap_key', MECH + 'unwrap_key', DERIVE) and f in lvl

        def opaque(s, n):
            return n.startswith(MECH)

        def field(s, o, n):
            return n == 'mechanism' and 'CK_MECHANISM' in o or n == 'class'

        def mergekey(s, st):
            return frozenset((a, o) for a, o in st.facts.items() if isinstance(o, int) and
                             (has_call(a, GETB) or iscall(a, 'get_class') or a.k == 'f' and a.a[1] in ('mechanism', 'class')))

        def ok(s, sink, args, fs):
            key = key_of(sink, args)
            if sink == DERIVE:
                ms = [o for a, o in fs.items() if a.k == 'f' and a.a[1] == 'mechanism' and isinstance(o, int)]
                if pub in ms:
                    return True
                if any(m in ms for m in hkdf) and any(o == data and key in subs(a) and (iscall(a, 'get_class') or a.k == 'f' and a.a[1] == 'class') for a, o in fs.items()):
                    return True
                return attr_true(fs, key, 'CKA_DERIVE')
            return attr_true(fs, key, KEYED[meth(sink)][0])
    roots = dict((n, f) for n, f in api(P).items() if n in ('C_WrapKey', 'C_UnwrapKey', 'C_DeriveKey'))
    e = ctx.engine(R('usage', ('Object::get_class', 'get_object_by_handle')), roots)
    got = ctx.reaching(e, roots)
    for n in ('C_WrapKey', 'C_UnwrapKey', 'C_DeriveKey'):
        ctx.ob('root|%s' % n, n in got, '', '%s does not reach the mechanism any more: the rule lost this instance' % n)


def C05(ctx):
    P = ctx.P
    ctx.rule('Each implementation of export_for_wrapping succeeds only on paths where the key is extractable.')
    ctx.rule('Each implementation of wrap_key of a mechanism succeeds only after export_for_wrapping of the key to be wrapped succeeded, and reads no '
             'attribute value of that key directly.')
    ctx.rule('C_WrapKey calls the mechanism only with CKA_WRAP true on the wrapping key and, unless CKA_WRAP_WITH_TRUSTED of the wrapped key is false, CKA_TRUSTED '
             'true on the wrapping key; the objects come from the respective handle parameters.')
    r = Attrs('extractable', ('Object::is_extractable',))
    e = E.Engine(P, r)
    n = 0
    for t, m, f in impls_of(P, 'object::factory::KeyFactory', ('export_for_wrapping',)) + impls_of(P, 'object::key::KeyFactory', ('export_for_wrapping',)):
        n += 1
        key = mk('p', 2)
        bad = None
        for ret, fs in e.summary(f)[0]:
            d = dict(fs)
            if ret.k != 'F' and not attr_true(d, key, 'CKA_EXTRACTABLE') and \
                    not any(o == 1 and iscall(a, 'Object::is_extractable') and a.a[1][0] is key for a, o in d.items()):
                bad = fs
        ctx.ob('export|%s' % short(t), bad is None, ctx.where(f),
               'export_for_wrapping of %s can succeed on a key that is not known to be extractable' % short(t))
    ctx.floor('export_for_wrapping implementations', n, 5)

    EXP = ('export_for_wrapping',)

    class R2(E.Rule):
        name = 'wrap-impl'

        def atom(s, n):
            return n.endswith('::export_for_wrapping')

        def sink(s, n, a=(), f=None):
            return n.startswith(OBJ) and n.split('::')[-1] in ('get_attr', 'get_attr_as_bytes', 'get_attributes')

        def ok(s, sink, args, fs):
            if sink.endswith('get_attributes'):
                return False
            cka = args[1] if len(args) > 1 else None
            if cka is None or cka.k != 'c':
                return args[0].k != 'p'
            return not is_c(cka, *SECRETS)
    SECRETS = ('CKA_VALUE', 'CKA_PRIVATE_EXPONENT', 'CKA_PRIME_1', 'CKA_PRIME_2', 'CKA_EXPONENT_1', 'CKA_EXPONENT_2', 'CKA_COEFFICIENT')
    e2 = E.Engine(P, R2())
    n = 0
    for t, m, f in impls_of(P, 'mechanism::Mechanism', ('wrap_key',)):
        n += 1
        key = mk('p', 4)
        rl, pends = e2.summary(f)
        bad = None
        for ret, fs in rl:
            if ret.k != 'F' and not any(o == 'S' and iscall(a, *EXP) and key in a.a[1] for a, o in fs):
                bad = fs
        ctx.ob('wrap|%s' % short(t), bad is None, ctx.where(f),
               'wrap_key of %s can succeed without export_for_wrapping of the wrapped key' % short(t))
        for (sid, a, fs), tr in pends.items():
            if a and a[0] is key:
                ctx.ob('wrap-direct|%s' % short(t), False, ctx.where(sid[0], sid[2]), 'wrap_key of %s reads a secret of the wrapped key directly' % short(t))
    ctx.floor('wrap_key implementations', n, 2)
    for x in (e, e2):
        ctx.analysed |= set(x.sums)
        ctx.stats['functions_interpreted'] += x.stats['functions']
    lvl = api_level(P)

    class R3(Attrs):
        def sink(s, n, a=(), f=None):
            return n == MECH + 'wrap_key' and f in lvl

        def opaque(s, n):
            return n.startswith(MECH)

        def ok(s, sink, args, fs):
            w, k = args[2], args[3]
            if not attr_true(fs, w, 'CKA_WRAP'):
                return False
            if not (attr_known(fs, k, 'CKA_WRAP_WITH_TRUSTED', 0) or attr_true(fs, w, 'CKA_TRUSTED')):
                return False
            hw = [q.a[1][-1] for q in subs(w) if iscall(q, 'get_object_by_handle')]
            hk = [q.a[1][-1] for q in subs(k) if iscall(q, 'get_object_by_handle')]
            if hw and hk and hw[0].k == 'p' and hk[0].k == 'p':
                return hw[0].a[0] == 3 and hk[0].a[0] == 4
            return True
    root = api(P).get('C_WrapKey')
    e = ctx.engine(R3('wrap', ('get_object_by_handle',)), {'C_WrapKey': root} if root else {})
    ctx.floor('C_WrapKey calls of the mechanism', len(e.sites), 1)
    K = set(x for x in (constval(P, n) for n in ('CKO_PRIVATE_KEY', 'CKO_SECRET_KEY', 'CKO_OTP_KEY')) if x is not None)
    def_accessor(ctx, 'is_extractable', 'CKA_EXTRACTABLE', 0, (K, 1))


def def_allowed(ctx):
    """check_allowed_mechs returns CKR_OK only without the attribute or for a listed mechanism"""
    P = ctx.P
    fs = [k for k in P.fns if P.fns[k]['crate'] == LIB and P.fns[k]['kind'] != 'closure' and 'CKA_ALLOWED_MECHANISMS' in const_names(P, k)
          and any('CK_MECHANISM' in t for t in P.fns[k]['locals'][1:1 + P.fns[k]['argc']])]
    if not fs:
        ctx.missing('allowed mechanism check')
        return []
    for f in fs:
        class R(E.Rule):
            name = 'allowed-def'
            loops = True

            def field(s, o, n):
                return n == 'mechanism'

            def atom(s, n):
                return n.endswith('Object::get_attr') or n.endswith('::contains')
        e = E.Engine(P, R())
        rl = e.summary(f)[0]
        ok = False
        for ret, facts in rl:
            v = 0 if ret.k == 'S' else cval(ret)
            if ret.k == 'F' or (v is not None and v != 0):
                ok = True
                continue
            if v is None:
                ok = True
                continue
            d = dict(facts)
            absent = any(iscall(a, 'get_attr') and o == 'F' for a, o in d.items())
            def same(x):
                # the mechanism itself is compared, not a part of it
                return x.k == 'bin' and x.a[0] == 'Eq' and any(y.k == 'f' and y.a[1] == 'mechanism' for y in x.a[1:]) and \
                    not any(y.k == 'bin' and y.a[0] in ('BitAnd', 'Shr', 'Shl', 'BitXor', 'Rem', 'Div') for y in x.a[1:])
            listed = any((o == 1 and same(a)) or
                         (o == 1 and a.k == 'call' and a.a[0].split('::')[-1] in ('contains', 'any')) or
                         (a.k == 'f' and a.a[1] == 'mechanism' and isinstance(o, int)) or
                         (a.k == 'some' and any(same(x) and y == 1 or x.k == 'f' and isinstance(y, int) for x, y in o[1]))
                         for a, o in d.items())
            ctx.ob('def|allowed|%s' % ('absent' if absent else 'listed'), absent or listed, ctx.where(f),
                   'the allowed mechanism check succeeds though the list is present and no element was found equal to the mechanism [%s]' %
                   '; '.join('%s=%s' % (E.show(a), o) for a, o in facts))
        ctx.ob('def|allowed|refuses', ok, ctx.where(f), 'the allowed mechanism check never refuses')
    return fs


def C07(ctx):
    P = ctx.P
    ctx.rule('On every path from a C_ function to a mechanism interface call that uses a key, the allowed-mechanism check succeeded for that very key and the '
             'same mechanism; the check itself accepts only keys without the list or mechanisms found in it.')
    chk = set(def_allowed(ctx))
    lvl = api_level(P) - chk
    names = set(m for m in KEYED if KEYED[m][2] is not None)

    class R(E.Rule):
        name = 'allowed'
        K = 200

        def atom(s, n):
            return n in chk

        def sink(s, n, a=(), f=None):
            m = meth(n)
            return (m in names or m == 'derive') and f in lvl

        def opaque(s, n):
            return n.startswith(MECH)

        def ok(s, sink, args, fs):
            key = key_of(sink, args)
            m = meth(sink)
            mech = args[1]
            for a, o in fs.items():
                if a.k == 'call' and a.a[0] in chk and o in (0, 'S') and key in subs(mk('tuple', a.a[1])):
                    if m == 'derive':
                        d = [q for q in subs(args[0]) if iscall(q, MECH + 'derive_operation')]
                        if d and not (subs(d[0].a[1][1]) & set(a.a[1])):
                            continue
                        return True
                    x = a.a[1][0]
                    if x is mech or mech in subs(x) or x in subs(mech):
                        return True
            return False
    roots = dict((n, f) for n, f in api(P).items() if n not in ('C_Initialize', 'C_InitToken', 'C_Finalize'))
    e = ctx.engine(R(), roots)
    got = ctx.reaching(e, roots)
    for n in ('C_EncryptInit', 'C_DecryptInit', 'C_SignInit', 'C_VerifyInit', 'C_WrapKey', 'C_UnwrapKey', 'C_DeriveKey', 'C_MessageEncryptInit',
              'C_MessageDecryptInit', 'C_VerifySignatureInit', 'C_SetOperationState', 'C_EncapsulateKey', 'C_DecapsulateKey'):
        ctx.ob('root|%s' % n, n in got, '', '%s does not reach a key using mechanism call any more: the rule lost this instance' % n)


def flag_known(fs, mech, flag):
    """the facts exclude that info(mech).flags & flag is 0"""
    for a, o in fs.items():
        for t in subs(a):
            if t.k == 'bin' and t.a[0] == 'BitAnd':
                x, y = t.a[1], t.a[2]
                if x.k == 'c':
                    x, y = y, x
                if cval(y) is None or (cval(y) & ~flag) or not cval(y) & flag:
                    continue
                if not (x.k == 'f' and x.a[1] == 'flags' and any(iscall(q, MECH + 'info') and (mech is None or q.a[1][0] is mech) for q in subs(x))):
                    continue
                if not consistent([(a, o)], {t: 0}):
                    return True
    return False


def C08(ctx):
    P = ctx.P
    ctx.rule('Every mechanism interface call on a path from a C_ function uses the mechanism looked up in the token\'s (filtered) list under the type of the mechanism '
             'argument, and that path tested the flag of the function in the information of that mechanism.')
    ctx.rule('The token hands out the filtered list whenever one is set, and the deny list keeps exactly the mechanisms not listed.')
    lvl = api_level(P)
    MSG = {'msg_encrypt_begin': 'CKF_MULTI_MESSAGE', 'msg_decrypt_begin': 'CKF_MULTI_MESSAGE'}
    flags = dict((m, c(ctx, v[1])) for m, v in KEYED.items() if v[1])
    multi = c(ctx, 'CKF_MULTI_MESSAGE')

    class R(E.Rule):
        name = 'mechanism-flag'
        K = 200

        def atom(s, n):
            return n == MECH + 'info'

        def field(s, o, n):
            return n == 'flags' and 'CK_MECHANISM_INFO' in o

        def sink(s, n, a=(), f=None):
            return f in lvl and (meth(n) in flags or n.split('::')[-1] in MSG and n.startswith('kryoptic_lib::mechanism::Msg'))

        def opaque(s, n):
            return n.startswith(MECH)

        def ok(s, sink, args, fs):
            if sink.split('::')[-1] in MSG:
                return flag_known(fs, None, multi)
            m, mech = args[0], args[1]
            if not flag_known(fs, m, flags[meth(sink)]):
                return False
            g = [q for q in subs(m) if iscall(q, 'mechanism::Mechanisms::get')]
            if not g:
                return not any(iscall(q, 'BTreeMap::get') for q in subs(m))
            for q in g:
                tree, typ = q.a[1][0], q.a[1][1]
                if not has_call(tree, 'Token::get_mechanisms') and tree.k != 'p':
                    return False
                if typ.k == 'f' and typ.a[1] == 'mechanism' and not (typ.a[0] is mech or typ.a[0] in subs(mech) or mech in subs(typ)):
                    return False
            return True
    roots = dict((n, f) for n, f in api(P).items() if n not in ('C_Initialize', 'C_InitToken', 'C_Finalize'))
    e = ctx.engine(R(), roots)
    got = ctx.reaching(e, roots)
    for n in ('C_EncryptInit', 'C_DecryptInit', 'C_DigestInit', 'C_SignInit', 'C_VerifyInit', 'C_WrapKey', 'C_UnwrapKey', 'C_DeriveKey', 'C_MessageEncryptInit',
              'C_MessageDecryptInit', 'C_VerifySignatureInit', 'C_GenerateKey', 'C_GenerateKeyPair', 'C_EncryptMessageBegin', 'C_DecryptMessageBegin',
              'C_EncapsulateKey', 'C_DecapsulateKey'):
        ctx.ob('root|%s' % n, n in got, '', '%s does not reach a mechanism call any more: the rule lost this instance' % n)
