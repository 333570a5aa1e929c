"""Object templates, permissions and provenance attributes."""
from common import *
from r_access import ISATTR, is_flag, key_factories

FACT = 'kryoptic_lib::object::factory::ObjectFactory::'


def table(ctx, label, want, fac):
    """want: [(CKA name, must flags, must-not flags, which(factory dict) or None, reason)]"""
    fl = oaflags(ctx)
    n = 0
    for t, d in sorted(fac.items()):
        for (name, must, mustnot, which, why) in want:
            v = constval(ctx.P, name)
            if v is None or v not in d['rows'] or (which and not which(t, d)):
                continue
            flags, dv, ct, f = d['rows'][v]
            n += 1
            if flags is None:
                continue
            bad = [m for m in must if flags & fl[m] != fl[m]] + ['not ' + m for m in mustnot if flags & fl[m] == fl[m]]
            ctx.ob('%s|%s|%s' % (label, short(t), name), not bad, ctx.where(f),
                   'attribute table of %s: %s should be %s (%s), flags are %#x' % (short(t), name, ', '.join(bad), why, flags))
    return n


def flag(fs, ctx, name, o):
    return any(y == o and iscall(a, ISATTR) and is_flag(ctx, a, name) for a, y in fs.items())


def bval(fs):
    """value of the template boolean on this path"""
    for a, o in fs.items():
        if a.k == 'ok' and iscall(a.a[0], 'to_bool') and o in (0, 1):
            return o
    return None


def def_is(ctx):
    """ObjectAttr::is(flags) is a test of the flags of the attribute; 'contains' if every bit has to be there, else 'intersects'"""
    f = ctx.fn(ISATTR)
    if not f:
        return 'contains'

    class R(E.Rule):
        name = 'flag-test'

        def field(s, o, n):
            return n == 'flags'

        def atom(s, n):
            return n.split('::')[-1] in ('contains', 'intersects', 'is_empty')

        def opaque(s, n):
            return s.atom(n)
    sem, bad = 'contains', None
    for r, fs in E.Engine(ctx.P, R()).summary(f)[0]:
        calls = [q for q in [r] + [a for a, o in fs] for q in subs(q) if q.k == 'call' and q.a[0].split('::')[-1] in ('contains', 'intersects')]
        for q in calls:
            if q.a[0].endswith('intersects'):
                sem = 'intersects'
            elif not (term(q.a[1][0], lambda t: t.k == 'f' and t.a[1] == 'flags') and mk('p', 2) in subs(q.a[1][1])):
                bad = E.show(q)
        if cval(r) == 0 and (any(iscall(a, 'is_empty') and o == 1 for a, o in fs) or any(a in calls and o == 0 for a, o in fs)):
            continue
        if cval(r) == 1 and any(a in calls and o == 1 for a, o in fs):
            continue
        if r in calls or cval(r) is None and mk('p', 2) in subs(r) and term(r, lambda t: t.k == 'f' and t.a[1] == 'flags'):
            continue
        bad = E.show(r)
    ctx.ob('def|ObjectAttr::is', bad is None, ctx.where(f), '%s does not return whether the attribute has the flags: %s' % (f, bad))
    return sem


def def_check_set(ctx):
    f = ctx.fn('ObjectFactory::check_set_attributes')
    if not f:
        return
    els, rl = per_element(ctx, f, (ISATTR, 'to_bool', 'get_attrtype'), ('type_', 'ulValueLen', 'pValue'))
    ctx.ob('set|elements', bool(els) or not any(r.k == 'S' for r, _ in rl), ctx.where(f),
           'check_set_attributes does not look at the attributes of the template')
    for coll, fs in els:
        bad = None
        if not flag(fs, ctx, 'NeverSettable', 0):
            bad = 'without having tested that the attribute is settable'
        elif not flag(fs, ctx, 'Unchangeable', 0):
            b = bval(fs)
            if not (b == 1 and flag(fs, ctx, 'ChangeToTrue', 1) or b == 0 and flag(fs, ctx, 'ChangeToFalse', 1)):
                bad = 'although it may not change in this direction'
        ctx.ob('set|element|%s' % ('ok' if bad is None else bad), bad is None, ctx.where(f),
               'C_SetAttributeValue: an attribute is accepted %s' % bad)
    ctx.ob('set|fails', any(r.k == 'F' for r, _ in rl), ctx.where(f), 'check_set_attributes never fails')


def overrides(P, method):
    """implementations of an ObjectFactory method other than the default"""
    return [k for k, fn in P.fns.items() if fn['crate'] == LIB and fn.get('impl_m') == FACT + method]


def def_copy(ctx):
    f = ctx.fn('ObjectFactory::default_copy')
    if not f:
        return
    els, rl = per_element(ctx, f, (ISATTR,), ('type_', 'ulValueLen', 'pValue'), lambda n: n.endswith('::set_attr'))
    # the loop that applies the template comes after the one that checks it
    chk = [(c_, fs) for c_, fs in els if not any(a.k == 'ev' for a in fs)]
    ctx.ob('copy|elements', bool(chk), ctx.where(f), 'default_copy does not look at the attributes of the template')
    for coll, fs in chk:
        bad = None
        if not flag(fs, ctx, 'NeverSettable', 0):
            bad = 'without having tested that the attribute is settable'
        elif not flag(fs, ctx, 'Unchangeable', 0) and not flag(fs, ctx, 'ChangeOnCopy', 1):
            bad = 'although it may not change on copies'
        ctx.ob('copy|element|%s' % ('ok' if bad is None else bad), bad is None, ctx.where(f),
               'C_CopyObject: an attribute is accepted %s' % bad)
    ctx.ob('copy|fails', any(r.k == 'F' for r, _ in rl), ctx.where(f), 'default_copy never fails')
    for k in overrides(ctx.P, 'copy'):
        ctx.ob('copy|override|%s' % short(ctx.P.fns[k]['self']), f in F.reach(ctx.P, [k]) or ctx.P.fns[k].get('trait_default') or
               not any(iscall_name(fr, k, 'blind_copy', 'set_attr') for (_, fr, _, _, _) in ctx.P.calls[k]), ctx.where(k),
               '%s copies objects without the common checks' % k)


def iscall_name(fr, k, *names):
    return E.Engine.cname(None, fr, k).split('::')[-1] in names


ASSUME_C12 = ['de-duplication of stored objects (an opt-in slot configuration) replaces the whole object and is not a modification by template']


def C12(ctx):
    P = ctx.P
    fac = factories(ctx)
    ctx.floor('object factories', len(fac), 12)
    ctx.rule('The attribute table of every object factory gives the one-way and read-only attributes the flags that enforce it.')
    ctx.rule('check_set_attributes and default_copy accept an attribute only after testing these flags, for every element of the template.')
    ctx.rule('Every change of an object reachable from C_SetAttributeValue follows a positive CKA_MODIFIABLE check of that object and the template check; every copy '
             'follows a positive CKA_COPYABLE check and every removal reachable from C_DestroyObject a positive CKA_DESTROYABLE check.')
    kf = key_factories(ctx)
    sec = set(x for x in (constval(P, 'CKO_SECRET_KEY'), constval(P, 'CKO_OTP_KEY')) if x is not None)
    n = table(ctx, 'flags', [
        ('CKA_CLASS', ['Unchangeable'], ['ChangeOnCopy', 'ChangeToTrue', 'ChangeToFalse'], None, 'the class of an object never changes'),
        ('CKA_KEY_TYPE', ['Unchangeable'], ['ChangeOnCopy', 'ChangeToTrue', 'ChangeToFalse'], None, 'the key type never changes'),
        ('CKA_SENSITIVE', ['ChangeToTrue'], ['ChangeToFalse', 'ChangeOnCopy'], None, 'may only become true'),
        ('CKA_WRAP_WITH_TRUSTED', ['ChangeToTrue'], ['ChangeToFalse', 'ChangeOnCopy'], None, 'may only become true'),
        ('CKA_EXTRACTABLE', ['ChangeToFalse'], ['ChangeToTrue', 'ChangeOnCopy'], None, 'may only become false'),
        ('CKA_COPYABLE', ['ChangeToFalse'], ['ChangeToTrue', 'ChangeOnCopy'], None, 'may only become false'),
        ('CKA_TOKEN', ['Unchangeable'], ['ChangeToTrue', 'ChangeToFalse'], None, 'may only differ on a copy'),
        ('CKA_PRIVATE', ['Unchangeable'], ['ChangeToTrue', 'ChangeToFalse'], None, 'may only differ on a copy'),
        ('CKA_MODIFIABLE', ['Unchangeable'], ['ChangeToTrue', 'ChangeToFalse'], None, 'may only differ on a copy'),
        ('CKA_VALUE', ['Unchangeable'], [], lambda t, d: t in kf, 'key values never change'),
        ('CKA_MODULUS', ['Unchangeable'], [], lambda t, d: t in kf, 'key values never change'),
        ('CKA_PRIVATE_EXPONENT', ['Unchangeable'], [], lambda t, d: t in kf, 'key values never change'),
    ], fac)
    ctx.floor('rows of one-way attributes', n, 70)
    for t, d in kf.items():
        for name in ('CKA_SENSITIVE', 'CKA_EXTRACTABLE', 'CKA_WRAP_WITH_TRUSTED', 'CKA_CLASS', 'CKA_KEY_TYPE'):
            ctx.ob('row|%s|%s' % (short(t), name), constval(P, name) in d['rows'] or None in d['rows'], ctx.where(d['new'][0]) if d['new'] else '',
                   'the attribute table of %s has no %s' % (short(t), name))
    def_check_set(ctx)
    def_copy(ctx)
    def_is(ctx)

    class R(E.Rule):
        name = 'modify'

        def atom(s, n):
            return n.endswith(('Object::is_modifiable', 'ObjectFactory::check_set_attributes'))

        def sink(s, n, a=(), f=None):
            if n == STO + 'update':
                return True
            if n == OBJ + 'set_attr':
                return a is None or not a or any(has_call(x, 'from_ck_attr') for x in a)
            return False

        def opaque(s, n):
            return n.startswith(STO)

        def event(s, n):
            return attradd(n)

        def ok(s, sink, args, fs):
            return any(o == 1 and iscall(a, 'Object::is_modifiable') and known(a, fs, 'CKA_MODIFIABLE') for a, o in fs.items()) and any(
                o == 'S' and iscall(a, 'check_set_attributes') for a, o in fs.items())
    A_ = api(P)
    e = ctx.engine(R(), {'C_SetAttributeValue': A_['C_SetAttributeValue']})
    ctx.floor('modifications of objects', len(e.sites), 2)

    class R2(E.Rule):
        name = 'copy'

        def atom(s, n):
            return n.endswith('Object::is_copyable')

        def sink(s, n, a=(), f=None):
            return n == FACT + 'copy'

        def ok(s, sink, args, fs):
            return any(o == 1 and iscall(a, 'is_copyable') and known(a, fs, 'CKA_COPYABLE') and (a.a[1][0] is args[1] or a.a[1][0] in subs(args[1]) or args[1] in subs(a.a[1][0]))
                       for a, o in fs.items())
    e = ctx.engine(R2(), {'C_CopyObject': A_['C_CopyObject']})
    ctx.floor('copies of objects', len(e.sites), 1)

    class R3(E.Rule):
        name = 'destroy'

        def atom(s, n):
            return n.endswith('Object::is_destroyable')

        def sink(s, n, a=(), f=None):
            if n == STO + 'remove':
                return True
            if n.split('::')[-1] in ('remove', 'retain', 'drain', 'clear', 'remove_entry') and 'HashMap' in n:
                return a is None or not a or any(term(x, lambda q: q.k == 'f' and q.a[1] == 'session_objects') for x in a[:1])
            return False

        def opaque(s, n):
            return n.startswith(STO)

        def ok(s, sink, args, fs):
            return true(fs, 'Object::is_destroyable')
    e = ctx.engine(R3(), {'C_DestroyObject': A_['C_DestroyObject']})
    ctx.floor('removals of objects', len(e.sites), 2)
    def_accessor(ctx, 'is_modifiable', 'CKA_MODIFIABLE', 1)
    def_accessor(ctx, 'is_copyable', 'CKA_COPYABLE', 1)
    def_accessor(ctx, 'is_destroyable', 'CKA_DESTROYABLE', 0)


def C14(ctx):
    P = ctx.P
    fac = factories(ctx)
    ctx.floor('object factories', len(fac), 12)
    ctx.rule('Attributes reserved to the token carry the never-settable flag in the attribute table of every factory that has them.')
    ctx.rule('internal_object_create accepts an attribute only if the table of the factory has it without any of the unacceptable flags, and every call of it that takes '
             'an application template passes the never-settable flag among them; modifications and copies test the flag too.')
    ns = ['NeverSettable']
    n = table(ctx, 'flags', [
        ('CKA_UNIQUE_ID', ns, [], None, 'set by the token'),
        ('CKA_LOCAL', ns, [], None, 'set by the token'),
        ('CKA_KEY_GEN_MECHANISM', ns, [], None, 'set by the token'),
        ('CKA_ALWAYS_SENSITIVE', ns, [], None, 'set by the token'),
        ('CKA_NEVER_EXTRACTABLE', ns, [], None, 'set by the token'),
        ('CKA_OBJECT_VALIDATION_FLAGS', ns, [], None, 'set by the token'),
        ('CKA_TRUSTED', ns, [], lambda t, d: constval(P, 'CKA_KEY_TYPE') in d['rows'], 'only the SO may mark a wrapping key trusted'),
    ], fac)
    ctx.floor('rows of reserved attributes', n, 60)
    def_check_set(ctx)
    def_copy(ctx)
    f = ctx.fn('ObjectFactory::internal_object_create')
    if not f:
        return
    # parameters: self, template, unacceptable, required
    els, rl = per_element(ctx, f, (ISATTR,), ('type_', 'ulValueLen', 'pValue'))
    tm = els
    ctx.ob('create|elements', bool(tm), ctx.where(f), 'internal_object_create does not look at the attributes of the template')
    for coll, fs in tm:
        ok = any(o == 0 and iscall(a, ISATTR) and len(a.a[1]) > 1 and (mk('p', 3) in subs(a.a[1][1]) or coll.k == 'clo')
                 for a, o in fs.items())
        ctx.ob('create|element', ok, ctx.where(f), 'a template attribute is accepted without testing it for the unacceptable flags')
    ns_v = oaflags(ctx)['NeverSettable']
    sem = def_is(ctx)

    class R(E.Rule):
        name = 'never-settable'

        def sink(s, n, a=(), fn=None):
            return n == FACT + 'internal_object_create'

        def ok(s, sink, args, fs):
            v = flagval(args[2])
            return v is not None and v & ns_v == ns_v and (v == ns_v or sem == 'intersects')
    built = set(k for k in P.fns if P.fns[k].get('impl_m') == FACT + 'builtin_create')

    def ign(root, sid, args, fs):
        return sid[0] in built
    roots = dict((n, x) for n, x in api(P).items() if n not in ('C_Initialize', 'C_InitToken'))
    e = ctx.engine(R(), roots, ignore=ign)
    ctx.floor('calls of internal_object_create', len(e.sites), 2)
    got = ctx.reaching(e, roots)
    for n in ('C_CreateObject', 'C_GenerateKey', 'C_GenerateKeyPair', 'C_UnwrapKey', 'C_DeriveKey'):
        ctx.ob('root|%s' % n, n in got, '', '%s does not reach internal_object_create any more' % n)
    # attributes are built from raw template entries only where the checks above apply
    okfn = set(with_closures(P, f)) | set(with_closures(P, ctx.fn('ObjectFactory::default_copy') or f)) | \
        set(with_closures(P, ctx.fn('ObjectFactory::set_object_attributes') or f))
    for k, fn in P.fns.items():
        if fn['crate'] != LIB or '/storage/' in fn['file']:
            continue
        if any(iscall_name(fr, k, 'from_ck_attr') for (_, fr, _, _, _) in P.calls[k]):
            base = k
            callers = P.callers.get(k, set())
            ok = k in okfn or (callers and all(x in okfn or short(x) == short(k) for x in callers))
            ctx.ob('raw|%s' % short(k), ok, ctx.where(k),
                   '%s builds an object attribute from a raw template entry outside of the checked functions' % k)


def gen_only(P, k, seen=None):
    """every way to k leads through an implementation of a key generation method"""
    seen = seen or set()
    if k in seen:
        return True
    seen.add(k)
    if (P.fns[k].get('impl_m') or '') in (MECH + 'generate_key', MECH + 'generate_keypair'):
        return True
    up = set(P.callers.get(k, ()))
    if P.fns[k]['kind'] == 'closure':
        up.add(P.fns[k]['parent'])
    up -= {k}
    return bool(up) and all(gen_only(P, x, seen) for x in up)


ASSUME_C13 = ['objects already in a database keep the attributes they were stored with']


def C13(ctx):
    P = ctx.P
    ctx.rule('CKA_LOCAL is set true only in functions reachable from the key generation functions alone, and no factory has a true default for the provenance attributes.')
    ctx.rule('CKA_ALWAYS_SENSITIVE and CKA_NEVER_EXTRACTABLE are set to a value that can be true only there, or depending on the same attribute of the origin key.')
    ctx.rule('Every other function that builds a key from a template sets both attributes before it succeeds.')
    fac = factories(ctx)
    fl = oaflags(ctx)
    V3 = dict((n, c(ctx, n)) for n in ('CKA_LOCAL', 'CKA_ALWAYS_SENSITIVE', 'CKA_NEVER_EXTRACTABLE'))
    nv = dict((v, n) for n, v in V3.items())
    n = table(ctx, 'flags', [(x, ['NeverSettable'], [], None, 'set by the token only') for x in V3] +
              [('CKA_KEY_GEN_MECHANISM', ['NeverSettable'], [], None, 'set by the token only')], fac)
    ctx.floor('rows of provenance attributes', n, 30)
    for t, d in fac.items():
        for name, v in V3.items():
            if v in d['rows']:
                flags, dv, ct, f = d['rows'][v]
                ctx.ob('default|%s|%s' % (short(t), name), not (dv is not None and cval(dv) == 1 and (flags is None or flags & fl['Defval'])),
                       ctx.where(f), '%s defaults to true in %s' % (name, short(t)))
    ACC = {'CKA_ALWAYS_SENSITIVE': 'is_always_sensitive', 'CKA_NEVER_EXTRACTABLE': 'is_never_extractable'}

    def origin(name, fs, v):
        """v depends on the origin's value of the same attribute"""
        def is_read(q):
            if q.k == 'ok':
                q = q.a[0]
            if q.k != 'call':
                return False
            m = q.a[0].split('::')[-1]
            return m == ACC[name] or (m.startswith('get_attr') and any(cval(x) == V3[name] for x in q.a[1]))
        return any(is_read(q) for q in subs(v)) or any(o == 1 and is_read(a) for a, o in fs.items())

    OWN = {'CKA_ALWAYS_SENSITIVE': ('is_sensitive', constval(P, 'CKA_SENSITIVE'), 0), 'CKA_NEVER_EXTRACTABLE': ('is_extractable', constval(P, 'CKA_EXTRACTABLE'), 1)}

    def unprotected(name, fs, v):
        """v is not true where the key itself is unprotected, nor where the same attribute of the origin is false"""
        acc, own, bad = OWN[name]
        asg = ({}, {})
        org = False
        allq = [v] + list(fs)
        for q in set(y for x in allq for y in subs(x)):
            r = q.a[0] if q.k == 'ok' else q
            if r.k != 'call':
                continue
            m = r.a[0].split('::')[-1]
            isown = m == acc or (m.startswith('get_attr') and any(cval(x) == own for x in r.a[1]))
            isorg = m == ACC[name] or (m.startswith('get_attr') and any(cval(x) == V3[name] for x in r.a[1]))
            if not (isown or isorg) or q.k == 'call' and m.startswith('get_attr'):
                continue
            org = org or isorg
            asg[0][q] = bad if isown else 1
            asg[1][q] = 1 - bad if isown else 0
        return not any(consistent(fs.items(), a) and ev(v, a) == 1 for a in (asg if org else asg[:1]))

    class R(E.Rule):
        name = 'provenance'
        keep_err = False
        K = 80

        def atom(s, n):
            return n.split('::')[-1] in ('get_attr_as_bool', 'is_always_sensitive', 'is_never_extractable')

        def field(s, o, n):
            return n in ('always_sensitive', 'never_extractable')

        def sink(s, n, a=(), fn=None):
            if n.split('::')[-1] not in ('from_bool', 'ensure_bool') or 'ttribute' not in n and 'Object' not in n:
                return False
            return a is None or not a or any(cval(x) in nv for x in a[:2])

        def ok(s, sink, args, fs):
            i = [j for j, x in enumerate(args[:2]) if cval(x) in nv][0]
            name, v = nv[cval(args[i])], args[i + 1] if len(args) > i + 1 else None
            if v is None or cval(v) == 0:
                return True
            if s.gen and name == 'CKA_LOCAL':
                return True
            if name == 'CKA_LOCAL':
                return False
            if term(v, lambda q: q.k == 'f' and q.a[1] == ACC[name][3:]):
                return True
            return unprotected(name, fs, v) and (s.gen or origin(name, fs, v))
    nsite = 0
    for k, fn in P.fns.items():
        if fn['crate'] != LIB:
            continue
        if not any(iscall_name(fr, k, 'from_bool', 'ensure_bool') for (_, fr, _, _, _) in P.calls[k]):
            continue
        if not (set(nv.values()) & const_names(P, k)):
            continue
        if k in attr_rows(ctx):
            continue
        r = R()
        r.gen = gen_only(P, k)
        e = E.Engine(P, r)
        rl, pend = e.summary(k)
        nsite += len([x for x in e.sites if x[0] == k])
        for (sid, args, fs), tr in pend.items():
            if sid[0] != k:
                continue
            nm = [nv[cval(x)] for x in args[:2] if cval(x) in nv]
            ctx.ob('write|%s|%s' % (short(k), ','.join(nm)), False, ctx.where(k, sid[2]),
                   '%s sets %s to %s, which does not depend on the origin key, outside of key generation' % (
                       k, ','.join(nm), ', '.join(E.show(x) for x in args)))
        for x in e.sites:
            ctx.ob('write|%s' % short(x[0]), True, ctx.where(x[0], x[2]))
        ctx.analysed |= set(e.sums)
        ctx.sites += [('provenance', f, n_, l) for f, n_, l in e.sites]
    ctx.floor('writes of provenance attributes', nsite, 8)
    # every non-generated key has them set
    KC = set(x for x in (constval(P, n) for n in ('CKO_PRIVATE_KEY', 'CKO_SECRET_KEY', 'CKO_OTP_KEY')) if x is not None)
    base = ctx.fn('KeyFactory::internal_key_create')
    if not base:
        return
    E0 = E.Engine(P, E.Rule())
    open_ = {E0.canon(base)}
    done = set()
    nd = 0
    while True:
        todo = [k for k, fn in P.fns.items() if k not in done and fn['crate'] == LIB and
                any(E.Engine.cname(None, fr, k) in open_ for (_, fr, _, _, _) in P.calls[k])]
        if not todo:
            break
        names = set(open_)

        class R2(E.Rule):
            name = 'provenance-set'
            K = 80

            def atom(s, n):
                return n in names or n.endswith(('Object::get_class', 'get_attr_as_bool'))

            def event(s, n):
                return n == OBJ + 'set_attr'
        e = E.Engine(P, R2())
        for k in todo:
            done.add(k)
            if gen_only(P, k):
                continue
            fn = P.fns[k]
            bad = None
            for r, fs in e.summary(k)[0]:
                if r.k == 'F':
                    continue
                made = [a for a, o in fs if o == 'S' and a.k == 'call' and a.a[0] in names]
                if not made:
                    continue
                seen = set(cval(x) for a, o in fs if a.k == 'ev' for q in subs(a) if q.k == 'call' and q.a[0].endswith('from_bool')
                           for x in q.a[1][:1])
                cls = [o for a, o in fs if iscall(a, 'Object::get_class')]
                if any((isinstance(o, int) and o not in KC) or (isinstance(o, tuple) and o[0] == 'ne' and KC <= set(o[1])) for o in cls):
                    continue
                miss = [x for x in ('CKA_ALWAYS_SENSITIVE', 'CKA_NEVER_EXTRACTABLE') if V3[x] not in seen]
                if miss:
                    bad = miss
            name = e.canon(k)
            if bad is None:
                nd += 1
                ctx.ob('set|%s' % short(k), True, ctx.where(k))
                continue
            im = (fn.get('impl_m') or '')
            top = k in api(P).values() or im.startswith((MECH, 'kryoptic_lib::mechanism::Derive')) or im == FACT + 'create' or not P.callers.get(k)
            if top:
                ctx.ob('set|%s' % short(k), False, ctx.where(k), '%s returns a key built from a template without setting %s' % (k, ', '.join(bad)))
            else:
                open_.add(name)
        ctx.analysed |= set(e.sums)
    ctx.floor('functions building keys outside of generation', nd, 2)


# --------------------------------------------------------------------------- protection of derived copies
ASSUME_C27 = ['the protection of keys derived through a one-way function is C13',
              'the accessors of the protection attributes are checked by C04 and C13']


def C27(ctx):
    P = ctx.P
    ctx.rule('Where SimpleKDFOperation::derive stores the bytes of the new key, on every path and for every protection of the base keys: CKA_SENSITIVE was set if a base key is sensitive, '
             'CKA_EXTRACTABLE was cleared if a base key is unextractable, and CKA_ALWAYS_SENSITIVE / CKA_NEVER_EXTRACTABLE are not set unless every base key has them.')
    DER = 'kryoptic_lib::mechanism::Derive::derive'
    ty = [im for im in P.impls if im['tr'] == DER[:-8] and im['self'].endswith('SimpleKDFOperation')]
    if not ty or ty[0]['m'].get(DER) not in P.fns:
        return ctx.missing('SimpleKDFOperation::derive')
    f = ty[0]['m'][DER]
    AK = dict((x, c(ctx, 'CKA_' + x)) for x in ('SENSITIVE', 'EXTRACTABLE', 'ALWAYS_SENSITIVE', 'NEVER_EXTRACTABLE'))
    ACC = {'SENSITIVE': 'is_sensitive', 'EXTRACTABLE': 'is_extractable', 'ALWAYS_SENSITIVE': 'is_always_sensitive', 'NEVER_EXTRACTABLE': 'is_never_extractable'}
    FLD = {'SENSITIVE': 'sensitive', 'EXTRACTABLE': 'extractable', 'ALWAYS_SENSITIVE': 'always_sensitive', 'NEVER_EXTRACTABLE': 'never_extractable'}
    BK = c(ctx, 'CKM_CONCATENATE_BASE_AND_KEY')
    counts = collections.Counter()

    class R(E.Rule):
        name = 'protection'
        K, KS = 400, 400

        def atom(s, n):
            return n.endswith(tuple('Object::' + x for x in ACC.values()))

        def field(s, o, n):
            return n in FLD.values() or n in ('mech', 'key_info')

        def inline(s, g):
            return P.fns[g]['file'].endswith('simplekdf.rs')

        def opaque(s, n):
            return n.endswith(('::key_derive', '::set_attr', '::set_key', 'Object::check_key_ops', '::recommend_key_size')) or n.startswith('kryoptic_lib::object::factory')

        def event(s, n):
            return n.endswith('Object::set_attr')

        def sink(s, n, a=(), g=None):
            return n.endswith('::set_key') and 'Factory' in n

        def ok(s, sink, args, fs):
            counts['sink'] += 1
            obj = args[1]
            wr = {}
            for x in fs:
                if x.k == 'ev' and x.a[0].endswith('Object::set_attr') and len(x.a[1]) > 1 and x.a[1][0] is obj:
                    at = x.a[1][1]
                    if iscall(at, 'from_bool'):
                        wr.setdefault(cval(at.a[1][0]), []).append(at.a[1][1])
            alls = set(y for x in list(fs) + [z for v in wr.values() for z in v] for y in subs(x))
            base, oth = {}, {}
            for nm in ACC:
                base[nm] = [y for y in alls if iscall(y, 'Object::' + ACC[nm])] + [mk('call', 'kryoptic_lib::object::Object::' + ACC[nm], (mk('p', 2),), ())]
                oth[nm] = [y for y in alls if y.k == 'f' and y.a[1] == FLD[nm]]
            mech = [y for y in alls if y.k == 'f' and y.a[1] == 'mech']
            two = consistent(fs.items(), dict((y, BK) for y in mech))
            other = consistent(fs.items(), dict((y, -5) for y in mech)) or not mech
            for m2 in ([1] if two and mech else []) + ([0] if not mech or any(consistent(fs.items(), dict((y, v) for y in mech)) for v in NOTBK) else []):
                for bits in range(256 if m2 else 16):
                    b = dict((nm, bits >> i & 1) for i, nm in enumerate(sorted(ACC)))
                    o = dict((nm, bits >> (4 + i) & 1) for i, nm in enumerate(sorted(ACC)))
                    # possible keys only
                    bad = False
                    for q in (b, o) if m2 else (b,):
                        if q['ALWAYS_SENSITIVE'] and not q['SENSITIVE'] or q['NEVER_EXTRACTABLE'] and q['EXTRACTABLE']:
                            bad = True
                    if bad:
                        continue
                    asg = dict((y, b[nm]) for nm in ACC for y in base[nm])
                    if m2:
                        asg.update(dict((y, o[nm]) for nm in ACC for y in oth[nm]))
                        asg.update(dict((y, BK) for y in mech))
                    if not consistent(fs.items(), asg):
                        continue
                    counts['cases'] += 1
                    qs = (b, o) if m2 else (b,)
                    need = {}
                    if any(q['SENSITIVE'] for q in qs):
                        need['SENSITIVE'] = 1
                    if not all(q['EXTRACTABLE'] for q in qs):
                        need['EXTRACTABLE'] = 0
                    if not all(q['ALWAYS_SENSITIVE'] for q in qs):
                        need['ALWAYS_SENSITIVE'] = 0
                    if not all(q['NEVER_EXTRACTABLE'] for q in qs):
                        need['NEVER_EXTRACTABLE'] = 0
                    for nm, v in need.items():
                        vals = [ev(x, asg) for x in wr.get(AK[nm], ())]
                        if not vals or any(x is not None and x != v for x in vals) or all(x is None for x in vals):
                            s.why = '%s must be %d for base key %s%s, set to %s' % (nm, v, b, ' and second key %s' % o if m2 else '', vals)
                            return False
            return True
    NOTBK = [c(ctx, x) for x in ('CKM_CONCATENATE_BASE_AND_DATA', 'CKM_CONCATENATE_DATA_AND_BASE', 'CKM_XOR_BASE_AND_DATA', 'CKM_EXTRACT_KEY_FROM_KEY')]
    r = R()
    e = ctx.engine(r, {short(f): f})
    ctx.floor('places where the derived key is stored', counts['sink'], 1)
    ctx.floor('cases of base key protection', counts['cases'], 30)
    # what is remembered of the second key
    class N(E.Rule):
        def atom(s, n):
            return R.atom(s, n)
    for g in P.fns:
        fn = P.fns[g]
        if fn['crate'] != LIB or not fn['file'].endswith('simplekdf.rs'):
            continue
        for b in fn['blocks']:
            for x in (b['s'] if b else ()):
                if len(x) > 1 and isinstance(x[1], list) and x[1][0] == 'agg' and x[1][1][0] == 'adt' and set(FLD.values()) <= set(x[1][1][4]):
                    for rt, fs in E.Engine(P, N()).summary(g)[0]:
                        ad = [y for y in subs(rt) if y.k == 'adt' and len(y.a) > 2 and y.a[0] == x[1][1][1]]
                        for y in ad:
                            vals = dict(zip(x[1][1][4], y.a[2]))
                            for nm in ACC:
                                v = vals.get(FLD[nm])
                                okv = v is not None and any(iscall(z, 'Object::' + ACC[nm]) for z in (v,))
                                ctx.ob('key info|%s' % nm, okv, ctx.where(g), 'the %s field of the key information is %s' % (FLD[nm], E.show(v) if v is not None else None))
                                counts['info'] += 1
    ctx.floor('fields of the key information', counts['info'], 4)
