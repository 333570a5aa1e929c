"""Access control: read-only sessions, login, visibility."""
from common import *

ASSUME_C01 = ['mechanisms and object factories only give an object CKA_TOKEN from the template they are passed']
CREATE = ('C_CreateObject', 'C_CopyObject', 'C_GenerateKey', 'C_GenerateKeyPair', 'C_UnwrapKey', 'C_DeriveKey')
STORES = (STO + 'store', STO + 'update', STO + 'remove')


def any_token(v):
    """an any()/all() over a template whose closure looks at CKA_TOKEN"""
    return v.k == 'call' and v.a[0].split('::')[-1] in ('any', 'all', 'find', 'position') and v.a[0].startswith('core::iter')


def C01(ctx):
    P = ctx.P
    guards = set(template_guards(P))
    if not guards:
        ctx.missing('a template check rejecting CKA_TOKEN in read-only sessions')
    ctx.rule('On every path from a session function to a write of persistent storage (store, update, remove), the session is writable, '
             'or the written object is not a token object, or every template the object is built from passed a check that rejects CKA_TOKEN=true '
             '(for copies the source object must also not be a token object unless the template overrides CKA_TOKEN; HOTP counters updated by the '
             'operation itself and the roll back of objects the same call just inserted are exempt).')
    ctx.rule('The predicates used (session writable, object is token, template check) are themselves decided to mean what they say.')
    anyclo = {}

    def mentions_token(v):
        for s in v.a[1]:
            for q in subs(s):
                if q.k == 'clo' and q.a[0] in P.fns and 'CKA_TOKEN' in const_names(P, q.a[0]):
                    return True
        return False

    class R(E.Rule):
        name = 'ro-session'
        loops = True
        K = 80

        def atom(s, n):
            return n in (SES + 'is_writable', OBJ + 'is_token') or n in guards

        def atomv(s, v):
            return any_token(v) and mentions_token(v)

        def sink(s, n, a=(), f=None):
            return n in STORES

        def opaque(s, n):
            return n.startswith(STO)

        def on_call(s, st, n, args, ret, fn):
            if attradd(n) and any(is_c(x, 'CKA_TOKEN') for x in args):
                st.facts[mk('ev', n, args)] = 1

        def ok(s, sink, args, fs):
            fs = dict((a, o) for a, o in fs.items() if not (o == 0 and iscall(a, 'Object::is_token') and not known(a, fs, 'CKA_TOKEN')))
            if true(fs, 'Session::is_writable'):
                return True
            tgt = args[2] if len(args) > 2 else None
            if tgt is None:
                return False
            if sink == STORES[0]:
                for a, o in fs.items():
                    if o == 0 and iscall(a, 'Object::is_token') and (a.a[1][0] is tgt or a.a[1][0] in subs(tgt)):
                        return True
                if E.forall(fs, tgt, lambda x, y: iscall(x, 'Object::is_token') and y == 0):
                    return True
            if sink == STORES[2]:
                # objects this very call inserted may be rolled back: only a
                # handle given by the application counts
                if tgt.k != 'p':
                    return True
                return any(o == 0 and iscall(a, 'Object::is_token') and tgt in subs(a) for a, o in fs.items())
            if sink == STORES[1]:
                if has_call(tgt, 'updates_object'):
                    return True
                if any(o == 0 and iscall(a, 'Object::is_token') and tgt in subs(a) for a, o in fs.items()):
                    return True
            return False
    r = R()
    roots = dict((n, f) for n, f in api(P).items() if n not in ('C_Initialize', 'C_InitToken'))

    def fuzzy(v):
        return any(q.k in ('cell', 'u', '...') for q in subs(v))

    def by_template(root, sid, args, fs):
        """decided where the API parameters are known: every template parameter passed the check"""
        if sid[1] == STORES[2] or root == roots.get('C_SetAttributeValue'):
            return False
        fs = dict(fs)
        fn = P.fns[root]
        tp = [i for i in range(1, fn['argc'] + 1) if 'CK_ATTRIBUTE' in fn['locals'][i]]
        if not tp or root == roots.get('C_DeriveKey'):
            return False
        chk = [a.a[1][0] for a, o in fs.items() if o == 'S' and a.k == 'call' and a.a[0] in guards]
        for i in tp:
            if not any(mk('p', i) in subs(x) or fuzzy(x) for x in chk) and \
                    not any(o == 1 and a is mk('isnull', mk('p', i)) for a, o in fs.items()):
                return False
        if has_call(args[2], 'ObjectFactories::copy') or root == roots.get('C_CopyObject'):
            return any((iscall(a, 'Object::is_token') and o == 0) or
                       (r.atomv(a) and o == (1 if a.a[0].endswith('any') else 0)) for a, o in fs.items())
        return True
    # objects with templates beyond the function's own parameter (C_DeriveKey) need the object check
    e = ctx.engine(r, roots, ignore=by_template)
    # every template parameter is checked
    got = ctx.reaching(e, roots)
    for n in CREATE + ('C_SetAttributeValue', 'C_DestroyObject'):
        ctx.ob('root|%s' % n, n in got, '', '%s does not reach a storage write any more: the rule lost this instance' % n)
    def_is_writable(ctx)
    import r_auth
    r_auth.ro_stays(ctx)
    def_accessor(ctx, 'is_token', 'CKA_TOKEN', 0)
    for g in guards:
        def_template_guard(ctx, g)


ASSUME_C02 = ['the login state field of the token is only changed by the functions C11 and C10 look at']


def C02(ctx):
    P = ctx.P
    ctx.rule('On every path from a session function to a write of persistent storage (store, update), the token is logged in, or the '
             'object written is not a token object (HOTP counters updated by the operation itself are exempt). The login predicate and the '
             'token predicate are decided to mean what they say.')

    class R(E.Rule):
        name = 'login-to-write'
        loops = True

        def atom(s, n):
            return n in (TOK + 'is_logged_in', OBJ + 'is_token')

        def sink(s, n, a=(), f=None):
            return n in STORES[:2]

        def opaque(s, n):
            return n.startswith(STO)

        def ok(s, sink, args, fs):
            if true(fs, 'Token::is_logged_in'):
                return True
            tgt = args[2] if len(args) > 2 else None
            if tgt is None:
                return False
            if sink == STORES[1] and has_call(tgt, 'updates_object'):
                return True
            return any(o == 0 and iscall(a, 'Object::is_token') and a.a[1][0] in subs(tgt) for a, o in fs.items()) or \
                E.forall(fs, tgt, lambda x, y: iscall(x, 'Object::is_token') and y == 0)
    roots = dict((n, f) for n, f in api(P).items() if n not in ('C_Initialize', 'C_InitToken'))
    e = ctx.engine(R(), roots)
    got = ctx.reaching(e, roots)
    for n in CREATE + ('C_SetAttributeValue',):
        ctx.ob('root|%s' % n, n in got, '', '%s does not reach a storage write any more: the rule lost this instance' % n)
    def_is_logged_in(ctx)
    def_accessor(ctx, 'is_token', 'CKA_TOKEN', 0)


def guarded_fetch(ctx, label, base, extra_atoms, good):
    """bottom up: functions whose success implies the guard on the object fetched by `base`;
    reports API functions that succeed on an unguarded one. good(facts, call) -> bool"""
    P = ctx.P
    inv = {f: n for n, f in api(P).items()}
    unguarded = {base}
    guarded = {}
    done = set()
    while True:
        todo = []
        for k, fn in P.fns.items():
            if k in done or fn['crate'] != LIB or (fn.get('impl_m') or '').startswith(STO):
                continue
            if any(E.Engine.cname(None, fr, k) in unguarded for (_, fr, _, _, _) in P.calls[k]):
                todo.append(k)
        if not todo:
            break
        names = set(unguarded)

        class R(E.Rule):
            name = label
            params = True

            def atom(s, n):
                return n in names or n in guarded or n in extra_atoms

            def event(s, n):     # attributes put in a fetch template
                return n.split('::')[-1].startswith('add_') and 'CkAttrs' in n
        e = E.Engine(P, R())
        for k in todo:
            done.add(k)
            fn = P.fns[k]
            if fn['kind'] == 'closure':
                par = fn['parent']
                if par in done:
                    done.discard(par)
            rl, _ = e.summary(k)
            bad = None
            for r, fs in rl:
                if r.k == 'F':
                    continue
                d = dict(fs)
                for a, o in fs:
                    if o == 'S' and a.k == 'call' and a.a[0] in names and not good(d, a, guarded):
                        bad = a
            name = e.canon(k)
            if bad is None:
                guarded[name] = k
                ctx.ob('%s|%s' % (label, short(k)), True, ctx.where(k))
            else:
                unguarded.add(name)
                if k in inv:
                    ctx.ob('%s|%s' % (label, inv[k]), False, ctx.where(k),
                           '%s can succeed on a stored object without the required check (%s)' % (inv[k], E.show(bad)))
        ctx.stats['functions_interpreted'] += e.stats['functions']
        ctx.analysed |= set(e.sums)
    return guarded, unguarded


def C03(ctx):
    P = ctx.P
    ctx.rule('Bottom-up over all callers of the storage fetch: a function is guarded if each of its success returns on which an object was fetched '
             'also established that the token is logged in, or that this very object is not private or not a token object, or that a guarded function '
             'succeeded on the same handle; every API function must be guarded.')
    ctx.rule('Every storage search runs logged in or with a template to which CKA_PRIVATE=false was added; every removal or update of a stored object '
             'runs logged in or after a guarded access to the same handle.')
    LOG = TOK + 'is_logged_in'
    PRIV = (OBJ + 'is_private', OBJ + 'is_token')

    def good(d, call, guarded):
        h = None
        for x in call.a[1]:
            pass
        for a, o in d.items():
            if o == 1 and iscall(a, LOG):
                return True
            if o == 0 and a.k == 'call' and a.a[0] == PRIV[0] and call in subs(a):
                return True
            if o == 0 and a.k == 'call' and a.a[0] == PRIV[1] and call in subs(a):
                # absence reads as "not a token object": the attribute must have been asked for
                if asked(call, d, 'CKA_TOKEN'):
                    return True
            if o == 'S' and a.k == 'call' and a.a[0] in guarded and \
                    set(x for x in a.a[1] if x.k not in ('c', 'static')) & set(call.a[1][2:3] if len(call.a[1]) > 2 else call.a[1][1:]):
                return True
        return False
    guarded, unguarded = guarded_fetch(ctx, 'private-fetch', STO + 'fetch', {LOG} | set(PRIV), good)
    ctx.floor('guarded accessors of stored objects', len([g for g in guarded if g.startswith(TOK)]), 4)

    wr = F.rreach(P, {STO + 'search', STO + 'remove', STO + 'update'})
    guarded = dict((g, k) for g, k in guarded.items() if k not in wr)

    class R(E.Rule):
        name = 'private-search'

        def atom(s, n):
            return n == LOG or n in PRIV or n in guarded

        def event(s, n):
            return n.split('::')[-1].startswith('add_') and 'CkAttrs' in n

        def sink(s, n, a=(), f=None):
            return n in (STO + 'search', STO + 'remove', STO + 'update')

        def opaque(s, n):
            return n.startswith(STO)

        def ok(s, sink, args, fs):
            if true(fs, LOG):
                return True
            tgt = args[2] if len(args) > 2 else None
            if sink == STO + 'search':
                for a, o in fs.items():
                    if a.k == 'ev' and any(is_c(x, 'CKA_PRIVATE') for x in a.a[1]) and \
                            any(x.k == 'c' and x.a[0] == 0 and not is_c(x, 'CKA_PRIVATE') for x in a.a[1]):
                        return True
                return False
            if tgt.k != 'p' and not any(iscall(q, 'updates_object') for q in subs(tgt)):
                return True
            if any(iscall(q, 'updates_object') for q in subs(tgt)):
                return True
            return any(o == 'S' and a.k == 'call' and a.a[0] in guarded and tgt in a.a[1] for a, o in fs.items())
    roots = dict((n, f) for n, f in api(P).items() if n not in ('C_Initialize', 'C_InitToken'))
    e = ctx.engine(R(), roots)
    got = ctx.reaching(e, roots)
    for n in ('C_FindObjectsInit', 'C_DestroyObject', 'C_SetAttributeValue'):
        ctx.ob('root|%s' % n, n in got, '', '%s does not reach storage any more: the rule lost this instance' % n)
    def_is_logged_in(ctx)
    def_accessor(ctx, 'is_token', 'CKA_TOKEN', 0)
    def_accessor(ctx, 'is_private', 'CKA_PRIVATE', 1)


SECRET_ATTRS = ('CKA_VALUE', 'CKA_PRIVATE_EXPONENT', 'CKA_PRIME_1', 'CKA_PRIME_2', 'CKA_EXPONENT_1', 'CKA_EXPONENT_2',
                'CKA_COEFFICIENT', 'CKA_SEED')
ISATTR = 'object::factory::ObjectAttr::is'


def key_factories(ctx):
    """factories of private, secret and OTP keys: the ones with a CKA_SENSITIVE attribute"""
    s = c(ctx, 'CKA_SENSITIVE')
    fac = factories(ctx)
    ctx.floor('object factories', len(fac), 12)
    return dict((t, d) for t, d in fac.items() if s in d['rows'])


def ck_sensitive_flags(ctx):
    P = ctx.P
    fl = oaflags(ctx)['Sensitive']
    kf = key_factories(ctx)
    ctx.floor('key factories with a sensitive attribute table', len(kf), 6)
    sec = dict((c(ctx, n), n) for n in SECRET_ATTRS if constval(P, n) is not None)
    for t, d in kf.items():
        hit = 0
        for cka, (flags, dv, ct, f) in d['rows'].items():
            if cka in sec:
                hit += 1
                ctx.ob('flags|%s|%s' % (short(t), sec[cka]), flags is None or bool(flags & fl), ctx.where(f),
                       '%s of %s is not marked as a secret value (flags %#x)' % (sec[cka], short(t), flags or 0))
        ctx.ob('flags|%s' % short(t), hit > 0 or None in d['rows'], ctx.where(d['new'][0]) if d['new'] else '', '%s has no secret attribute' % short(t))


def is_flag(ctx, a, name):
    """atom ObjectAttr::is(_, <name>) (or membership in the list finalized from it)"""
    v = oaflags(ctx)[name]
    if iscall(a, ISATTR) and len(a.a[1]) > 1:
        return flagval(a.a[1][1]) == v
    if name == 'Sensitive' and iscall(a, 'contains') and has_call(a, 'get_sensitive'):
        return True
    return False


def nonsecret_object(fs):
    return any(o == 0 and iscall(a, 'Object::is_sensitive') for a, o in fs.items()) and \
        any(o == 1 and iscall(a, 'Object::is_extractable') for a, o in fs.items())


ASSUME_C04 = ['the NSS database back end keeps secret attributes encrypted, so its search can not match them (C23)']


def C04(ctx):
    P = ctx.P
    ctx.rule('Every secret component of every private, secret and OTP key factory carries the sensitive flag in the attribute table built by the factory.')
    ctx.rule('Every copy of bytes through the value pointer of a caller template reachable from C_GetAttributeValue happens on a path where the attribute is not '
             'flagged sensitive or the object is both not sensitive and extractable.')
    ctx.rule('Every object added to a search result is not sensitive and extractable, or passed the check that the search template contains no sensitive attribute.')
    ck_sensitive_flags(ctx)
    COPY = ('copy_nonoverlapping', 'copy', 'copy_from_slice', 'clone_from_slice', 'write', 'copy_to', 'copy_to_nonoverlapping', 'copy_from')

    class R(E.Rule):
        name = 'reveal'

        def atom(s, n):
            return n.endswith(('Object::is_sensitive', 'Object::is_extractable', ISATTR))

        def atomv(s, v):
            return iscall(v, 'contains') and has_call(v, 'get_sensitive')

        def sink(s, n, a=(), f=None):
            if n.split('::')[-1] not in COPY or not (n.startswith('core::') or n.startswith('alloc::') or n.startswith('std::')):
                return False
            if a is None:
                return True
            return any(q.k == 'f' and q.a[1] == 'pValue' and 'CK_ATTRIBUTE' in q.a[2] for x in a for q in subs(x)) and \
                any(has_call(x, 'get_value', 'Attribute::get_value') or term(x, lambda q: q.k == 'f' and q.a[1] == 'value') for x in a)

        def ok(s, sink, args, fs):
            return any(o == 0 and is_flag(ctx, a, 'Sensitive') for a, o in fs.items()) or nonsecret_object(fs)
    root = api(P).get('C_GetAttributeValue')
    if not root:
        return ctx.missing('C_GetAttributeValue')
    e = ctx.engine(R(), {'C_GetAttributeValue': root})
    ctx.floor('copies of attribute values to the caller', len(e.sites), 1)

    froot = api(P).get('C_FindObjectsInit')
    reach = F.reach(P, [froot])
    cand = set(k for k in reach if P.fns[k]['crate'] == LIB and any('object::Object' in t for t in P.fns[k]['locals'])
               and any('Vec<u64' in t or 'Vec<CK_OBJECT_HANDLE' in t for t in P.fns[k]['locals']))

    class R2(E.Rule):
        name = 'search-oracle'

        def atom(s, n):
            return n.endswith(('Object::is_sensitive', 'Object::is_extractable', 'ObjectFactories::check_sensitive'))

        def sink(s, n, a=(), f=None):
            return f in cand and n.startswith('alloc::vec::Vec') and n.split('::')[-1] == 'push'

        def ok(s, sink, args, fs):
            return nonsecret_object(fs) or any(o == 'S' and iscall(a, 'check_sensitive') for a, o in fs.items()) or \
                not any(iscall(q, 'get_handle', 'get_by_uid', 'next') for x in args for q in subs(x))
    e2 = E.Engine(P, R2())
    for k in sorted(cand):
        if k not in e2.relevant:
            continue
        for (sid, a, fs), tr in e2.summary(k)[1].items():
            ctx.ob('search-oracle|%s' % short(k), False, ctx.where(k, sid[2]),
                   'an object can be added to the search result without the sensitivity check of the template')
    for (f, n, l) in e2.sites:
        ctx.ob('search-oracle|%s' % short(f), True, ctx.where(f, l))
        ctx.sites.append(('search-oracle', f, n, l))
    ctx.ob('search-oracle', any('check_sensitive' in x for k in reach for x in P.ext[k]), ctx.where(froot),
           'searching no longer checks templates for sensitive attributes')
    cs = ctx.fn('ObjectFactories::check_sensitive')
    if cs:
        class R3(E.Rule):
            name = 'check-sensitive'
            loops = True
            atom = R.atom
            atomv = R.atomv
        e3 = E.Engine(P, R3())
        for r, fs in e3.summary(cs)[0]:
            if r.k == 'F':
                continue
            d = dict(fs)
            ok = any(a.k == 'all' and o[0] == 'all' and (o[1] == 'top' or any(is_flag(ctx, x, 'Sensitive') and y == 0 for x, y in o[1]))
                     for a, o in d.items() if isinstance(o, tuple)) or not any(a.k == 'all' for a in d)
            ctx.ob('check_sensitive', ok, ctx.where(cs), 'the template check succeeds without having tested every attribute for the sensitive flag')
    K = set(x for x in (constval(P, n) for n in ('CKO_PRIVATE_KEY', 'CKO_SECRET_KEY', 'CKO_OTP_KEY')) if x is not None)
    def_accessor(ctx, 'is_sensitive', 'CKA_SENSITIVE', 1, (K, 0))
    def_accessor(ctx, 'is_extractable', 'CKA_EXTRACTABLE', 0, (K, 1))
