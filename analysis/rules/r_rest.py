"""C23, C24: what is written to and read from the database."""
from common import *
from r_auth import errret
from r_store import swallowed, Site

STORE = 'kryoptic_lib::storage::'


def deep(fn):
    """the terms of the storage formats nest deeper than the default"""
    def run(ctx):
        d = E.MAXD
        E.MAXD = d + 6
        try:
            fn(ctx)
        finally:
            E.MAXD = d
    run.__name__ = fn.__name__
    return run


def closure_fields(P, v):
    """names of the fields a closure term reads"""
    out = set()
    for x in subs(v):
        if x.k == 'clo' and x.a[0] in P.fns:
            for blk in P.fns[x.a[0]]['blocks']:
                if not blk:
                    continue
                pl = []

                def walk(j):
                    if isinstance(j, list):
                        if len(j) == 4 and j[0] == 'f' and isinstance(j[2], str):
                            pl.append(j[2])
                        for y in j:
                            walk(y)
                    elif isinstance(j, dict):
                        for y in j.values():
                            walk(y)
                walk(blk['s'])
                walk(blk['t'])
                out |= set(pl)
    return out


class Rest(E.Rule):
    """loops over the sensitive, ephemeral and authenticated attributes"""
    name = 'rest'
    loops = True
    strs = ('nssPrivate', 'nssPublic')
    params = True
    K, KS = 96, 200
    ATOMS = ('StorageACI::encrypt_value', 'StorageACI::decrypt_value', 'StorageACI::encrypts', 'ci::encrypt_data', 'ci::decrypt_data', 'ci::check_signature',
             'ci::make_signature', '::store_signature', '::fetch_signature', 'Object::get_attr', '::find_attr', 'KeysWithCaching::available', '::fetch_by_uid', '::fetch_by_nssid')

    def __init__(self, P, look, sinks=()):
        self.P = P
        self.look = look
        self.sinks = sinks
        self.kinds = {}
        self.iters = []

    def atom(self, n):
        return n.endswith(self.ATOMS)

    def opaque(self, n):
        return n not in self.look

    def field(self, o, n):
        return n in ('sensitive', 'authenticated')

    def sink(self, n, a=(), f=None):
        return n in self.sinks

    def event(self, n):
        return n.endswith('Object::del_attr')

    def mergekey_facts(self, fs):
        return frozenset((a, o if not isinstance(o, tuple) else o[0]) for a, o in fs if a.k in ('all', 'f', 'bin') or iscall(a, 'encrypts', 'available', 'eq', 'ne'))

    def kind(self, f, it, el, st):
        k = set()
        if has_call(it, 'get_sensitive'):
            k.add('sensitive')
        if has_call(it, 'get_ephemeral'):
            k.add('ephemeral')
        if any(x.k == 'static' and x.a[0].endswith('ALL_ATTRIBUTES') for x in subs(it)):
            fl = closure_fields(self.P, it)
            k |= fl & {'sensitive', 'authenticated'}
            if st is not None:
                for a, o in st.facts.items():
                    if a.k == 'f' and a.a[1] in ('sensitive', 'authenticated') and el in subs(a):
                        k.add(a.a[1])
        return k

    def iteration(self, f, b, it, el, st):
        k = self.kinds.setdefault((f, it), set())
        k |= self.kind(f, it, el, st)
        if st is None or not k:
            return
        self.iters.append((f, it, el, frozenset(k), frozenset(st.facts.items())))


def skipped(el, fs, kind):
    """the attribute is not there, or not of that kind"""
    for a, o in fs:
        if o == 'F' and iscall(a, 'get_attr', 'find_attr') and el in subs(a):
            return True
        if a.k == 'f' and a.a[1] == kind and o == 0 and el in subs(a):
            return True
    return False


def done(el, fs, step, put):
    """step succeeded on this attribute and its result was put back"""
    for a, o in fs:
        if o == 'S' and iscall(a, *step) and (el in allsubs(a.a[1])):
            for x, y in fs:
                if x.k == 'call' and x is not a and iscall(x, *put) and y == 'S' and mk('ok', a) in allsubs(x.a[1]):
                    return True
    return False


def closed(e, fs, kind, f=None):
    for a, o in fs:
        if a.k == 'all' and isinstance(o, tuple) and o[0] == 'all':
            for (g, it), k in e.R.kinds.items():
                if it is a.a[0] and kind in k:
                    return True
    return False


def storage_impls(P, m):
    return sorted(f for f in P.fns if (P.fns[f].get('impl_tr') or '').split('<')[0] == 'kryoptic_lib::storage::Storage' and f.split('::')[-1] == m)


def storefns(P):
    return set(f for f in P.fns if f.startswith((STORE, '<' + STORE)))


def private_table(fs, want):
    """do the facts (and terms) say the table is the private one? None unknown"""
    for a, o in fs:
        if a.k == 'bin' and a.a[0] == 'Eq' and any(x.k == 's' and x.a[0] == 'nssPrivate' for x in a.a[1:3]) and o in (0, 1):
            return bool(o)
        if a.k == 'bin' and a.a[0] == 'Ne' and any(x.k == 's' and x.a[0] == 'nssPrivate' for x in a.a[1:3]) and o in (0, 1):
            return not o
        if a.k == 'call' and a.a[0].split('::')[-1] in ('eq', 'ne') and any(x.k == 's' and x.a[0] == 'nssPrivate' for x in allsubs(a.a[1])) and o in (0, 1):
            return bool(o) == (a.a[0].split('::')[-1] == 'eq')
    return None


def rawsinks(P):
    return [f for f in P.fns if f.startswith((STORE, '<' + STORE)) and f.split('::')[-1] in ('store_object', 'store_attributes')] + ['kryoptic_lib::storage::StorageRaw::store_obj', 'kryoptic_lib::storage::format::StorageRaw::store_obj']


@deep
def C23(ctx):
    P = ctx.P
    ctx.rule('An object is handed to the raw database layer only after a completed loop over its sensitive attributes, each iteration of which replaced the value by its encrypted form or found none, '
             'or when the back end does not encrypt by design (memory) or the table is the public one; ephemeral attributes are deleted first.')
    ctx.rule('The encrypting functions return only data that came out of the cipher; the PIN record holds only the wrapped key; persistent back ends are built with encryption on.')
    sinks = set(rawsinks(P))
    for tm in list(sinks):
        sinks |= set(P.dispatch.get(tm, ()))
    names = sinks | {s for s in rawsinks(P)}
    users = {f for f in storefns(P) if any((E.Engine.cname(None, fr, f) or '') in names for b, fr, a, d, l in P.calls.get(f, ()))} - sinks
    look = (set(F.rreach(P, [f for f in sinks if f in P.fns])) | users) & storefns(P)
    look |= set(c for f in look for c in P.closures.get(f, ()))
    look -= sinks
    n = 0
    e = E.Engine(P, Rest(P, look, names))
    fails = {}
    sites = {}

    def ok(sink, args, fs):
        fs = fs.items() if isinstance(fs, dict) else fs
        enc = any(iscall(a, 'encrypts') and o == 0 for a, o in fs) or closed(e, fs, 'sensitive')
        nss = not sink.endswith('store_obj')
        if nss and not enc:
            tb = args[1] if len(args) > 1 else None
            enc = private_table(fs, 0) is False or tb is not None and tb.k == 's' and tb.a[0] != 'nssPrivate'
        eph = sink.endswith('store_attributes') or closed(e, fs, 'ephemeral')
        return enc and eph
    e.R.ok = ok
    roots = {short(f): f for f in storage_impls(P, 'store') + storage_impls(P, 'update') + storage_impls(P, 'store_token_info') + storage_impls(P, 'reinit') + storage_impls(P, 'set_user_pin')}
    pend = e.run(sorted(set(roots.values())))
    inv = {v: k for k, v in roots.items()}
    for (root, sid, args, fs, tr) in pend:
        ctx.ob('stored|%s|%s' % (inv.get(root, root), short(sid[1])), False, ctx.where(sid[0], sid[2]),
               '%s hands an object to %s without having encrypted its sensitive attributes and removed the ephemeral ones' % (short(sid[0]), short(sid[1])))
    for (f, nme, l) in sorted(e.sites, key=str):
        n += 1
        ctx.ob('site|%s|%s' % (short(f), short(nme)), True, ctx.where(f, l), '')
    ctx.floor('places that write objects to the database', n, 4)
    # every iteration
    m = 0
    for f, it, el, kinds, fs in e.R.iters:
        if 'sensitive' in kinds:
            m += 1
            good = skipped(el, fs, 'sensitive') or done(el, fs, ('encrypt_value', 'encrypt_data'), ('set_attr', 'insert_unique_vec', 'add_vec'))
            ctx.ob('iter|%s|sensitive' % short(f), good, ctx.where(f), '%s leaves a sensitive attribute without replacing it by its encrypted value [%s]' % (
                short(f), '; '.join('%s=%s' % (E.show(a)[:60], o) for a, o in fs if el in subs(a))[:300]))
        if 'ephemeral' in kinds:
            good = any(a.k == 'ev' and 'del_attr' in str(a.a[0]) and el in subs(a) for a, o in fs)
            ctx.ob('iter|%s|ephemeral' % short(f), good, ctx.where(f), '%s does not remove an ephemeral attribute' % short(f))
    ctx.floor('iterations over sensitive attributes', m, 6)
    ctx.analysed |= set(e.sums)
    # after the loop nothing may put caller values back
    for f in sorted(look):
        if f not in roots.values():
            continue
        tpl = [i for i in range(1, P.fns[f]['argc'] + 1) if 'CK_ATTRIBUTE]' in P.fns[f]['locals'][i]]
        if not tpl:
            continue
        class Put(E.Rule):
            name = 'put'
            params = True

            def opaque(self, nn):
                return nn not in look

            def sink(self, nn, a=(), ff=None):
                return nn.endswith('Object::set_attr')

            def ok(self, s, args, fs):
                return not any(x.k == 'p' and x.a[0] in tpl and not has_call(args[1], 'CkAttrs') and not any(y.k == 'call' and 'CkAttrs' in y.a[0] for y in subs(args[1])) for x in subs(args[1]))
        pe = E.Engine(P, Put())
        bad = pe.run([f])
        ctx.ob('put|%s' % short(f), not bad, ctx.where(f), '%s puts attributes of the caller\'s template into the stored object past the encryption' % short(f))
    encout(ctx)
    # the flag tables
    nsstable(ctx)
    # PIN records
    pinrecords(ctx)
    # which back ends encrypt
    k = 0
    for f in sorted(P.fns):
        for b, fr, a, d, l in P.calls.get(f, ()):
            if (E.Engine.cname(None, fr, f) or '').endswith('StorageACI::new'):
                v = a[0].get('k') if isinstance(a[0], dict) else None
                val = v.get('v') if isinstance(v, dict) else None
                mem = 'memory' in f.lower()
                k += 1
                ctx.ob('backend|%s' % short(f), mem or val == '1' or val is None, ctx.where(f, l), '%s opens a persistent database without encryption' % short(f))
    ctx.floor('storage back ends', k, 1)


def encout(ctx):
    """what leaves the encrypting functions is what the cipher returned"""
    P = ctx.P
    STRUCTS = {'KProtectedData': 'data', 'NSSEncryptedDataInfo': 'enc_or_sig_data'}
    CI = ('aes_gcm_encrypt', 'aes_cbc_encrypt', 'hmac_sign')
    n = 0
    for f in sorted(storefns(P)):
        sites = []
        for bi, blk in enumerate(P.fns[f]['blocks']):
            for s in (blk or {'s': ()})['s']:
                if s[0] != 'dead' and s[1][0] == 'agg' and s[1][1][0] == 'adt' and s[1][1][1].split('<')[0].split('::')[-1] in STRUCTS:
                    sites.append((bi, s))
        if not sites or 'parse' in f or (P.fns[f].get('impl_tr') or '').startswith('asn1'):
            continue

        class Out(E.Rule):
            name = 'out'
            K, KS = 64, 64

            def atom(self, nn):
                return nn.endswith(CI)

            def opaque(self, nn):
                return True

            def field(self, o, nn):
                return False

            def sink(self, nn, a=(), ff=None):
                return nn.endswith('write_single')

            def ok(self, s, args, fs):
                v = args[0]
                for x in subs(v):
                    if x.k == 'adt' and x.a[0].split('<')[0].split('::')[-1] in STRUCTS:
                        ow = x.a[0].split('<')[0]
                        fl = [q for q, t in P.adts[ow]['v'][0][1]]
                        y = x.a[2][fl.index(STRUCTS[ow.split('::')[-1]])]
                        return any(has_call(y, q) for q in CI)
                return True
        e = E.Engine(P, Out())
        bad = e.run([f])
        if not e.sites:
            continue
        n += 1
        ctx.ob('cipher-output|%s' % short(f), not bad, ctx.where(f), '%s writes data that is not the output of the cipher: %s' % (
            short(f), '; '.join(E.show(a)[:200] for q in bad for a in q[2][:1])))
    ctx.floor('functions that build protected records', n, 4)
    # and the cipher wrappers return what the operation produced, on success only
    for nm, ops in (('aes_gcm_encrypt', ('msg_encrypt',)), ('aes_gcm_decrypt', ('msg_decrypt',)), ('aes_cbc_encrypt', ('encrypt',)), ('aes_cbc_decrypt', ('decrypt',)),
                    ('hmac_sign', ('sign_final', 'sign')), ('hmac_verify', ('verify_final', 'verify'))):
        for f in fns(P, '::' + nm):
            opsucc(ctx, f, ops)


def fns(P, suffix):
    return sorted(f for f in P.fns if f.endswith(suffix) and P.fns[f]['crate'] == 'kryoptic_lib' and '{' not in f)


def opsucc(ctx, f, ops):
    P = ctx.P

    class Op(E.Rule):
        name = 'op'
        K, KS = 64, 64

        def atom(self, nn):
            return 'mechanism::' in nn and nn.split('::')[-1] in ops

        def opaque(self, nn):
            return not nn.startswith((STORE, '<' + STORE, 'kryoptic_lib::encryption'))
    rl = E.Engine(P, Op()).summary(f)[0]
    bad = [r for r, fs in rl if not errret(r) and not any(o == 'S' and a.k == 'call' and a.a[0].split('::')[-1] in ops for a, o in fs) and not
           (r.k == 'call' and r.a[0].split('::')[-1] in ops)]
    ctx.ob('op|%s' % short(f), not bad, ctx.where(f), '%s succeeds although %s did not' % (short(f), '/'.join(ops)))


SECRETS = ('CKA_VALUE', 'CKA_PRIVATE_EXPONENT', 'CKA_PRIME_1', 'CKA_PRIME_2', 'CKA_EXPONENT_1', 'CKA_EXPONENT_2', 'CKA_COEFFICIENT')


def nsstable(ctx):
    """the NSS attribute table flags the secret components"""
    P = ctx.P
    rows = {}
    # entries are aggregates (in the body or the promoteds of the static)
    for f in P.fns:
        if not f.startswith('kryoptic_lib::storage::nssdb::attrs'):
            continue
        bodies = [P.fns[f]['blocks']] + [x.get('blocks', x) if isinstance(x, dict) else x for x in (P.fns[f].get('promoted') or [])]
        for bl in bodies:
            for blk in bl or ():
                for s in (blk or {'s': ()})['s'] if isinstance(blk, dict) else ():
                    if s[0] == 'dead' or s[1][0] != 'agg' or s[1][1][0] != 'adt':
                        continue
                    ow = s[1][1][1].split('<')[0]
                    fl = [q for q, t in P.adts.get(ow, {'v': [['', []]]})['v'][0][1]]
                    if not {'sensitive', 'authenticated', 'attr_type'} <= set(fl):
                        continue
                    d = {}
                    for q, o in zip(fl, s[1][2]):
                        k = o.get('k') if isinstance(o, dict) else None
                        d[q] = k
                    t = d['attr_type']
                    if t and 'd' in t:
                        rows[t['d'].split('::')[-1]] = {q: (d[q] or {}).get('v') for q in ('sensitive', 'authenticated')}
    if not rows:
        ctx.note('NSS attribute table not recognised') if hasattr(ctx, 'note') else None
        return
    for nme in SECRETS:
        r = rows.get(nme)
        ctx.ob('nss-flag|%s' % nme, r is not None and r['sensitive'] == '1', 'src/storage/nssdb/attrs.rs', '%s is not flagged sensitive in the NSS attribute table' % nme)
    for nme in ('CKA_MODULUS', 'CKA_PUBLIC_EXPONENT', 'CKA_NAME_HASH_ALGORITHM'):
        r = rows.get(nme)
        ctx.ob('nss-auth|%s' % nme, r is not None and r['authenticated'] == '1', 'src/storage/nssdb/attrs.rs', '%s is not flagged authenticated in the NSS attribute table' % nme)
    ctx.floor('rows of the NSS attribute table', len(rows), 40)


def pinrecords(ctx):
    """StorageAuthInfo.user_data only ever holds a wrapped key or what was read from the database"""
    P = ctx.P
    n = 0

    class Pin(E.Rule):
        name = 'pin'
        K, KS = 64, 64

        def __init__(self):
            self.w = []

        def opaque(self, nn):
            return not nn.startswith((STORE + 'aci', '<' + STORE + 'aci')) or nn.endswith(('encrypt_key', 'decrypt_key'))

        def atom(self, nn):
            return nn.endswith('encrypt_key')

        def wfield(self, o, nn):
            return nn == 'user_data'

        def on_write(self, st, base, fld, v, f):
            self.w.append((f, v))
    r = Pin()
    e = E.Engine(P, r)
    for f in sorted(storefns(P)):
        if any(s[0] != 'dead' and any(isinstance(p, list) and p[0] == 'f' and p[2] == 'user_data' for p in s[0][1:]) for blk in P.fns[f]['blocks'] if blk for s in blk['s']):
            e.summary(f)
    for f, v in r.w:
        n += 1
        good = has_call(v, 'encrypt_key') or any(x.k == 'call' and ('rusqlite' in x.a[0] or 'to_vec' in x.a[0] and 'format' not in x.a[0] or 'as_' in x.a[0].split('::')[-1] or 'get_attr' in x.a[0]) for x in subs(v)) \
            or not any(x.k in ('p', 's') for x in subs(v))
        pins = [x for x in subs(v) if x.k == 'p' and 'u8]' in P.fns[f]['locals'][x.a[0]]]
        ctx.ob('pinrec|%s' % short(f), good and (has_call(v, 'encrypt_key') or not pins), ctx.where(f), '%s stores %s in the PIN record' % (short(f), E.show(v)[:80]))
    ctx.floor('writes of PIN records', n, 1)


@deep
def C24(ctx):
    P = ctx.P
    ctx.rule('A fetch returns only after every encrypted attribute was decrypted with success and every authenticated one had its signature verified; the decrypting functions '
             'succeed only with the success of the authenticated cipher; the associated data and the signed data bind the record to its object; the tag and the signature have full length.')
    look = storefns(P)
    atoms = set(f for f in P.fns if f.endswith(Rest.ATOMS))
    look = (set(F.rreach(P, list(atoms))) & look) - atoms
    look |= set(c for f in look for c in P.closures.get(f, ()))
    n = m = 0
    for f in storage_impls(P, 'fetch'):
        e = E.Engine(P, Rest(P, look))
        nss = 'nssdb' in f
        bad = ''
        for r, fs in e.summary(f)[0]:
            if errret(r):
                continue
            n += 1
            if not nss:
                if not any(iscall(a, 'encrypts') and o == 0 for a, o in fs) and not closed(e, fs, 'sensitive'):
                    bad = bad or '%s returns an object without having decrypted its sensitive attributes' % short(f)
                continue
            if any(iscall(a, 'available') and o == 0 for a, o in fs):
                continue
            if private_table(fs, 1) is not False and not closed(e, fs, 'sensitive'):
                bad = bad or '%s returns a private object without having decrypted its sensitive attributes' % short(f)
            if not closed(e, fs, 'authenticated'):
                bad = bad or '%s returns an object without having verified its authenticated attributes' % short(f)
        ctx.ob('fetch|%s' % short(f), not bad, ctx.where(f), bad)
        for g, it, el, kinds, fs in e.R.iters:
            m += 1
            if 'sensitive' in kinds:
                good = skipped(el, fs, 'sensitive') or done(el, fs, ('decrypt_value', 'decrypt_data'), ('set_attr',))
                ctx.ob('iter|%s|sensitive' % short(g), good, ctx.where(g), '%s leaves a sensitive attribute without decrypting it' % short(g))
            if 'authenticated' in kinds:
                good = skipped(el, fs, 'authenticated') or any(o == 'S' and iscall(a, 'check_signature') and any(iscall(x, 'get_attr') and el in subs(x) for x in allsubs(a.a[1]))
                                                              and any(iscall(x, 'fetch_signature') and el in subs(x) for x in allsubs(a.a[1])) for a, o in fs)
                ctx.ob('iter|%s|authenticated' % short(g), good, ctx.where(g), '%s accepts an authenticated attribute without checking its stored signature' % short(g))
        ctx.analysed |= set(e.sums)
    ctx.floor('success paths of fetch', n, 2)
    ctx.floor('iterations checked', m, 4)
    # decrypt chain
    for nm, ops in (('aes_gcm_decrypt', ('msg_decrypt',)), ('aes_cbc_decrypt', ('decrypt',)), ('hmac_verify', ('verify_final', 'verify'))):
        for f in fns(P, '::' + nm):
            opsucc(ctx, f, ops)
    chain(ctx)
    sigchain(ctx)


def chain(ctx):
    """decrypt_value -> decrypt_data -> aes_gcm_decrypt: success and associated data"""
    P = ctx.P
    n = 0

    class Ch(E.Rule):
        name = 'aad'
        K, KS = 64, 64
        params = True

        def atom(self, nn):
            return nn.endswith(('aes_gcm_decrypt', 'aes_gcm_encrypt', 'hkdf_expand', 'pbkdf2_derive', 'parse_single', 'handles::get', 'msg_decrypt', 'msg_encrypt'))

        def opaque(self, nn):
            return not nn.startswith((STORE + 'aci', '<' + STORE + 'aci'))

        def sink(self, nn, a=(), f=None):
            return nn.endswith(('encryption::aes_gcm_decrypt', 'encryption::aes_gcm_encrypt')) or 'mechanism::Msg' in nn and nn.split('::')[-1] in ('msg_decrypt', 'msg_encrypt')

        def ok(self, s, args, fs):
            aad = args[3]
            if any(iscall(x, 'parse_single') for x in subs(aad)):
                return False
            return any(x.k in ('p', 's') or x.k == 'call' and x.a[0].endswith('as_bytes') for x in subs(aad)) and not any(x.k == 'kc' and x.a == () for x in subs(aad))
    for f in fns(P, 'aci::decrypt_data') + fns(P, 'aci::decrypt_key') + fns(P, 'aci::encrypt_data') + fns(P, 'aci::encrypt_key') + fns(P, 'encryption::aes_gcm_decrypt') + fns(P, 'encryption::aes_gcm_encrypt'):
        e = E.Engine(P, Ch())
        bad = e.run([f])
        n += len(e.sites)
        # parameters may be promised by callers: only terms over stored data are wrong
        ctx.ob('aad|%s' % short(f), not bad, ctx.where(f), '%s does not bind the ciphertext to the identity it was given (associated data %s)' % (short(f), '; '.join(E.show(q[2][3])[:60] for q in bad)))
        if 'decrypt' in f and 'aci' in f:
            rl = e.summary(f)[0]
            bad = [r for r, fs in rl if not errret(r) and not any(o == 'S' and iscall(a, 'aes_gcm_decrypt') for a, o in fs) and not iscall(r, 'aes_gcm_decrypt')]
            ctx.ob('decrypts|%s' % short(f), not bad, ctx.where(f), '%s succeeds without the authenticated decryption: %s' % (short(f), '; '.join(E.show(r)[:60] for r in bad)))
    ctx.floor('uses of associated data', n, 6)
    v = constval(P, 'AES_GCM_TAG_LEN')
    ctx.ob('taglen', v is None or v >= 8, 'src/encryption.rs', 'the authentication tag of stored data is shorter than 64 bits')


def sigchain(ctx):
    """check_signature succeeds only if the HMAC over object id, attribute type and value verified in full length"""
    P = ctx.P
    for f in fns(P, 'ci::check_signature'):
        class Sg(E.Rule):
            name = 'sig'
            K, KS = 200, 200
            params = True

            def atom(self, nn):
                return nn.endswith(('derive_key_internal', 'parse_single', 'get_key', 'invalidate_cached_key')) or 'mechanism::' in nn

            def opaque(self, nn):
                return not (nn.startswith(STORE + 'nssdb::ci::') and nn.split('::')[-1] not in ('derive_key_internal', 'get_key', 'invalidate_cached_key'))
        rl = E.Engine(P, Sg()).summary(f)[0]
        n = 0
        names = [x for x in range(1, P.fns[f]['argc'] + 1)]
        tys = P.fns[f]['locals']
        slices = [i for i in names if 'u8]' in tys[i]]
        ints = [i for i in names if tys[i] in ('u32', 'u64', 'usize')]
        bad = ''
        for r, fs in rl:
            if errret(r):
                continue
            n += 1
            fin = [a for a, o in fs if o == 'S' and iscall(a, 'verify_final', 'Verify::verify')] + [x for x in subs(r) if iscall(x, 'verify_final', 'Verify::verify')]
            if not fin:
                bad = bad or 'check_signature succeeds without a verified HMAC'
                continue
            upd = [a for a, o in fs if iscall(a, 'verify_update') and o == 'S']
            got = set(x.a[0] for a in upd for x in allsubs(a.a[1]) if x.k == 'p')
            need = set(ints) | {slices[0]} if slices else set(ints)
            if upd and not need <= got and not iscall(fin[0], 'Verify::verify'):
                bad = bad or 'the signature does not cover the object id, the attribute type and the value'
            full = any(a.k == 'bin' and a.a[0] in ('Eq', 'Ne') and any(x.k == 'len' or iscall(x, 'len') for x in a.a[1:3]) and any(x.k == 'c' and x.a[0] >= 16 for x in a.a[1:3]) and o == (1 if a.a[0] == 'Eq' else 0)
                       for a, o in fs) or any((a.k == 'len' or iscall(a, 'len')) and isinstance(o, int) and o >= 16 for a, o in fs)
            gen = any(x.k == 'c' and x.a[1] and str(x.a[1]).endswith('_HMAC_GENERAL') for a, o in fs for x in subs(a))
            if gen and not full:
                bad = bad or 'a shortened signature is accepted: its length comes from the stored record'
        ctx.ob('signature|%s' % short(f), not bad, ctx.where(f), bad)
        ctx.floor('success paths of the signature check', n, 1)
    encr = [i for n, d in P.adts.items() if n.endswith('ci::KeyOp') for i, v in enumerate(d['v']) if v[0].startswith('Enc')]
    for f in fns(P, 'ci::derive_key_internal'):
        class Kl(E.Rule):
            name = 'kl'
            K, KS = 200, 200
            params = True

            def atom(self, nn):
                return nn.endswith(('pbkdf2_derive', 'get_cached_key', 'set_cached_key', 'get_key', 'try_from', 'try_into'))

            def opaque(self, nn):
                return True

            def field(self, o, nn):
                return nn == 'key_length'
        rl = E.Engine(P, Kl()).summary(f)[0]
        bad = [1 for r, fs in rl if not errret(r) and any(iscall(a, 'pbkdf2_derive') and o == 'S' for a, o in fs) and not any(
            a.k == 'disc' and str(a.a[1]).endswith('KeyOp') and o in encr or
            a.k == 'bin' and any(x.k == 'f' and x.a[1] == 'key_length' for x in subs(a)) or
            isinstance(o, int) and any(x.k == 'f' and x.a[1] == 'key_length' for x in subs(a)) for a, o in fs)]
        ctx.ob('keylen|%s' % short(f), not bad, ctx.where(f), 'the length of the derived integrity or encryption key comes unchecked from the stored record')
