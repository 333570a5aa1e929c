"""login, PINs, sessions: C09 C10 C11 C25 C26 C38"""
from common import *

LIBP = 'kryoptic_lib::'
TOKT, SEST, STATET = 'kryoptic_lib::token::Token', 'kryoptic_lib::session::Session', 'kryoptic_lib::State'


def assigned(fs, terms, val):
    return consistent(fs, {t: val for t in terms})


def fterms(fs, name, args=()):
    out = set()
    for v in [a for a, o in fs] + list(args):
        for s in subs(v):
            if s.k == 'f' and s.a[1] == name:
                out.add(s)
    return out


def field_of(v, name):
    """value of the named field of a symbolic struct (through Ok and nested structs)"""
    for s in subs(v):
        if s.k == 'adt':
            pass
    return None


def struct_fields(P, v):
    """{field name: value} of all the structs inside the term"""
    out = {}
    for s in subs(v):
        if s.k == 'adt' and len(s.a) > 2:
            ad = P.adts.get(s.a[0])
            if not ad:
                continue
            for vr in ad.get('variants', []):
                names = vr['fields'] if isinstance(vr, dict) else vr[1]
                if len(names) == len(s.a[2]):
                    for n, x in zip(names, s.a[2]):
                        out.setdefault(n[0] if isinstance(n, (list, tuple)) else n, x)
    return out


def struct_of(P, v, ty):
    """{field: value} of the struct ty inside the term"""
    for s in subs(v):
        if s.k == 'adt' and s.a[0] == ty:
            for vn, fl in P.adts[ty]['v']:
                if vn == s.a[1] and len(fl) == len(s.a[2]):
                    return dict((n, x) for (n, t), x in zip(fl, s.a[2]))
    return None


ROLES = ('KRY_UNSPEC', 'CKU_SO', 'CKU_USER')


def state_for(role, rw):
    """PKCS#11 session state of a login state, None where there is none"""
    return {('KRY_UNSPEC', 0): 'CKS_RO_PUBLIC_SESSION', ('KRY_UNSPEC', 1): 'CKS_RW_PUBLIC_SESSION',
            ('CKU_USER', 0): 'CKS_RO_USER_FUNCTIONS', ('CKU_USER', 1): 'CKS_RW_USER_FUNCTIONS',
            ('CKU_SO', 1): 'CKS_RW_SO_FUNCTIONS'}.get((role, rw))


def C38(ctx):
    P = ctx.P
    ctx.rule('The session stored by C_OpenSession has, for each login state of the token and each read-write flag, exactly the state the standard names; there is none for '
             'a read-only session while the SO is logged in.')
    ctx.rule('change_session_state maps every (state, role) pair to the state with the same read-write flag; C_Login applies it to every session of the slot with the role '
             'that logged in, C_Logout and failed context logins that lock the PIN reset every session.')
    ctx.rule('The SO logs in only after no session of the slot was found in a read-only state.')
    K = dict((n, c(ctx, n)) for n in ROLES + STATES + ('CKF_RW_SESSION', 'CKF_SERIAL_SESSION', 'CK_UNAVAILABLE_INFORMATION'))
    rwbit = K['CKF_RW_SESSION']
    INFO = [k for k in P.adts if k.endswith('::CK_SESSION_INFO')][0]
    snew = [k for k in P.fns if P.fns[k]['crate'] == LIB and P.fns[k].get('self') == SEST and P.fns[k]['kind'] != 'closure' and
            any(x[1][0] == 'adt' and INFO in str(x[1]) for b in P.fns[k]['blocks'] if b for x in b['s'] if x[0] != 'dead')]

    class New(FieldRule):
        name = 'session-state'
        K = 100

        def inline(s, f):
            return P.fns[f].get('self') == SEST and SEST in P.fns[f]['locals'][0]

        def sink(s, n, a=(), f=None):
            return 'Map' in n and n.endswith('::insert') and f is not None and any('Map<' in t and SEST in t for t in P.fns[f]['locals'])

        def ok(s, sink, args, fs):
            st = None
            for x in args:
                st = st or struct_of(P, x, INFO)
            if st is None:
                return False
            lt = fterms(fs.items(), 'logged')
            if not lt or st['flags'].k != 'p':
                return False
            for ln in ROLES:
                for fl in (K['CKF_SERIAL_SESSION'], K['CKF_SERIAL_SESSION'] | rwbit):
                    asg = {x: K[ln] for x in lt}
                    asg[st['flags']] = fl
                    if not consistent(fs.items(), asg):
                        continue
                    want = state_for(ln, int(bool(fl & rwbit)))
                    got = ev(st['state'], asg)
                    if want is None or got is None or got != K[want]:
                        return False
            return True
    a = api(P)
    e = ctx.engine(New('logged'), {'C_OpenSession': a['C_OpenSession']})
    ctx.floor('session insertions', len([1 for x in e.sites]), 1)
    ctx.ob('root|C_OpenSession', 'C_OpenSession' in ctx.reaching(e, {'C_OpenSession': a['C_OpenSession']}), '', 'C_OpenSession stores no session')


ITERS = ('iter', 'iter_mut', 'values', 'values_mut', 'into_iter', 'keys', 'drain', 'into_values', 'into_keys')


def plain_iter(v):
    """the collection behind a plain iterator over all of it"""
    while v.k == 'call' and v.a[0].split('::')[-1] in ITERS and v.a[1]:
        v = v.a[1][0]
    return v


def every(fs, pred, coll):
    """a loop over all of a collection satisfying coll(term) established pred(atom, outcome) per element, or it was empty"""
    for a, o in (fs.items() if isinstance(fs, dict) else fs):
        if a.k == 'all' and isinstance(o, tuple) and o[0] == 'all' and coll(plain_iter(a.a[0])):
            if o[1] == 'top' or any(pred(x, y) for x, y in o[1]):
                return True
    return False


def map_fields(P, *types):
    """(owner, field) of the collections in structs of the library whose type mentions all of types"""
    out = set()
    for k, ad in P.adts.items():
        if not k.startswith(LIBP):
            continue
        for vn, fl in ad['v']:
            for n, t in fl:
                if ('Map<' in t or 'Vec<' in t) and all(x in t for x in types):
                    out.add((k, n))
    return out


def is_field(v, fset):
    return v.k == 'f' and (v.a[2], v.a[1]) in fset


def errret(r):
    """the return code of a function of the interface is an error"""
    if r.k == 'F':
        return True
    if r.k == 'call' and r.a[0].split('::')[-1] == 'rv':
        return True
    return cval(r) not in (0, None)


def state_writers(ctx, INFO):
    """Session functions that write the state of an existing session"""
    P = ctx.P
    out = []
    for k, fn in P.fns.items():
        if fn['crate'] != LIB or fn['kind'] == 'closure':
            continue
        for b in fn['blocks']:
            for x in (b['s'] if b else ()):
                if x[0] != 'dead' and len(x[0]) > 1 and isinstance(x[0][-1], list) and x[0][-1][0] == 'f' and x[0][-1][2] == 'state' and x[0][-1][3] == INFO:
                    out.append(k)
                    break
            else:
                continue
            break
    return out


def ro_stays(ctx):
    """no change of the login state makes a read-only session writable"""
    P = ctx.P
    K = dict((n, c(ctx, n)) for n in ROLES + STATES + ('CK_UNAVAILABLE_INFORMATION',))
    INFO = [k for k in P.adts if k.endswith('::CK_SESSION_INFO')][0]
    rw = dict((K[s], s) for s in STATES if '_RW_' in s)

    class W(FieldRule):
        name = 'state-change'
        keep_old = True
        K = 100

        def wfield(s, o, n):
            return n == 'state' and o == INFO

        def on_write(s, st, base, fld, v, f):
            st.facts[mk('ev', 'W', (v,))] = 1
    n = 0
    for f in state_writers(ctx, INFO):
        n += 1
        for r, fs in E.Engine(P, W('state')).summary(f)[0]:
            w = [x for x, o in fs if x.k == 'ev' and x.a[0] == 'W']
            t = fterms(fs, 'state') | set(x for q, o in fs for x in subs(q) if x.k == 'old')
            for sn in STATES:
                if '_RO_' not in sn or not t:
                    continue
                asg = dict((x, K[sn]) for x in t)
                if consistent(fs, asg):
                    for x in w:
                        ctx.ob('state|%s|%s' % (short(f), sn), ev(x.a[1][0], asg) not in rw, ctx.where(f),
                               '%s() makes a session in %s writable (%s)' % (short(f), sn, rw.get(ev(x.a[1][0], asg))))
    ctx.floor('functions changing the state of a session', n, 1)


def C38_rest(ctx, K, INFO, a):
    P = ctx.P
    ws = state_writers(ctx, INFO)
    ctx.floor('functions changing the state of a session', len(ws), 1)

    class W(FieldRule):
        name = 'state-change'
        keep_old = True
        K = 100

        def wfield(s, o, n):
            return n == 'state' and o == INFO

        def on_write(s, st, base, fld, v, f):
            st.facts[mk('ev', 'W', (v,))] = 1
    for f in ws:
        if P.fns[f]['argc'] != 2:
            continue
        rl = E.Engine(P, W('state')).summary(f)[0]
        for sn in STATES:
            for rn, rv in (('none', K['CK_UNAVAILABLE_INFORMATION']), ('CKU_USER', K['CKU_USER']), ('CKU_SO', K['CKU_SO'])):
                want = state_for({'none': 'KRY_UNSPEC'}.get(rn, rn), int('_RW_' in sn))
                good = 0
                for r, fs in rl:
                    w = [x for x, o in fs if x.k == 'ev' and x.a[0] == 'W']
                    t = fterms(fs, 'state')
                    t |= set(x for q, o in fs for x in subs(q) if x.k == 'old')
                    asg = dict((x, K[sn]) for x in t)
                    asg[mk('p', 2)] = rv
                    if not consistent(fs, asg):
                        continue
                    isok = r.k == 'S' or r.k not in ('F',) and cval(r) in (0, None)
                    got = set(ev(x.a[1][0], asg) for x in w) or {K[sn]}
                    if isok:
                        ctx.ob('change|%s|%s' % (sn, rn), got == {K[want]} if want else False, ctx.where(f),
                               'state change of a session in %s for role %s succeeds with state %s, expected %s' % (sn, rn, sorted(map(str, got)), want))
                        good += 1
                    else:
                        ctx.ob('change|%s|%s' % (sn, rn), not w, ctx.where(f), 'a failing state change of a session in %s for role %s still changes the state' % (sn, rn))
                if rn == 'none' or (want and 'PUBLIC' in sn):
                    ctx.ob('change|%s|%s|possible' % (sn, rn), good > 0, ctx.where(f), 'a session in %s can not change for role %s' % (sn, rn))
    sm = map_fields(P, SEST)
    # functions that change every session
    names = set(E.Engine.cname(None, {'fn': {'p': f, 'r': f}}, f) for f in ws)

    class A(E.Rule):
        name = 'all-sessions'
        loops = True

        def atom(s, n):
            return n in names

        def event(s, n):
            return n in names
    allst, allinv = set(), set()
    for g in sorted(set(x for f in ws for x in P.callers.get(f, ()))):
        while P.fns[g]['kind'] == 'closure':
            g = P.fns[g]['parent']
        rl = E.Engine(P, A()).summary(g)[0]
        ok = [(r, fs) for r, fs in rl if r.k != 'F']

        def arg2(x, val):
            q = x.a[1] if x.k in ('ev', 'call') else ()
            return len(q) == 2 and (q[1] is val or q[1].k == 'c' and q[1].a[0] == val)
        if ok and all(every(fs, lambda x, o: x.k == 'call' and x.a[0] in names and o == 0 and arg2(x, mk('p', 2)), lambda t: is_field(t, sm)) for r, fs in ok):
            allst.add(g)
        elif ok and all(every(fs, lambda x, o: x.k == 'ev' and arg2(x, K['CK_UNAVAILABLE_INFORMATION']), lambda t: is_field(t, sm)) for r, fs in ok):
            allinv.add(g)
    ctx.ob('change all sessions', bool(allst), '', 'no function changes the state of every session of a slot and reports a failure to do so')
    ctx.ob('reset all sessions', bool(allinv), '', 'no function resets the state of every session of a slot')

    # read-only sessions
    class RO(FieldRule):
        name = 'ro-sessions'
        loops = True
    hasro = set()
    for k, fn in P.fns.items():
        if fn['crate'] == LIB and fn['kind'] != 'closure' and fn['locals'][0] == 'bool' and any(is_sessmap(P, fn, sm) for _ in (0,)):
            rl = E.Engine(P, RO('state', loops=True)).summary(k)[0]
            if not fieldterms(rl, 'state') and not any(x.k == 'f' and x.a[1] == 'state' for r, fs in rl for q, o in fs
                                                       if isinstance(o, tuple) and not isinstance(o[1], str) and o[0] in ('all', 'some')
                                                       for y, _ in o[1] for x in subs(y)):
                continue
            bad = [fs for r, fs in rl if cval(r) == 0 and not every(fs, lambda x, o: x.k == 'f' and x.a[1] == 'state' and ro_excluded(K, x, o), lambda t: is_field(t, sm))]
            ctx.ob('def|%s' % short(k), not bad and any(cval(r) in (0, None) for r, fs in rl), ctx.where(k),
                   '%s() reports no read-only session though one may exist' % short(k))
            hasro.add(k)
    ctx.floor('read-only session tests', len(hasro), 1)

    class L(E.Rule):
        name = 'login-states'
        K = 120

        def atom(s, n):
            return n in allst or n in hasro or n == STO + 'auth_user' or slotget(P, n)

        def pure(s, n):
            return slotget(P, n)

        def event(s, n):
            return n in allinv or n in allst

        def sink(s, n, a=(), f=None):
            return n == STO + 'auth_user'

        def ok(s, n, args, fs):
            # (self, facilities, user, pin, flags, check_only)
            if cval(args[5]) == 1 or not consistent(fs.items(), {args[5]: 0}):
                return True
            if not consistent(list(fs.items()), {args[2]: K['CKU_SO']}) or cval(args[2]) not in (None, K['CKU_SO']):
                return True
            return any(x.k == 'call' and x.a[0] in hasro and o == 0 for x, o in fs.items())
    roots = {'C_Login': a['C_Login']}
    r = L()
    e = ctx.engine(r, roots)
    ctx.ob('root|C_Login', 'C_Login' in ctx.reaching(e, roots), '', 'C_Login does not authenticate')
    ctxs = constval(P, 'CKU_CONTEXT_SPECIFIC')
    for ret, fs in e.summary(a['C_Login'])[0]:
        if errret(ret):
            continue
        moved = any(x.k == 'call' and x.a[0] in allst and o == 'S' for x, o in fs)
        ctx.ob('login without states', moved or not any(iscall(x, STO + 'auth_user') and o == 'S' and cval(x.a[1][5]) == 0 for x, o in fs), ctx.where(a['C_Login']),
               'C_Login logs a role in to the token without changing the state of the sessions')
        if not consistent(fs, {mk('p', 2): K['CKU_USER']}) and not consistent(fs, {mk('p', 2): K['CKU_SO']}):
            continue
        okd = any(x.k == 'call' and x.a[0] in allst and o == 'S' and any(y is mk('p', 2) for y in x.a[1]) for x, o in fs)
        ctx.ob('login changes states', okd, ctx.where(a['C_Login']), 'C_Login succeeds without changing the state of every session to that of the role [%s]' %
               '; '.join('%s=%s' % (E.show(x), o) for x, o in fs))
    e2 = E.Engine(P, r)
    for ret, fs in e2.summary(a['C_Logout'])[0]:
        if not errret(ret):
            ctx.ob('logout resets states', any(x.k == 'ev' and x.a[0] in allinv for x, o in fs), ctx.where(a['C_Logout']),
                   'C_Logout succeeds without resetting the state of every session')
    # every other place where the token login state is reset while sessions exist


def slotget(P, n):
    """functions that find a slot: the slot stays while the library lock is held"""
    f = P.fns.get(n)
    return f is not None and f['locals'][0].startswith('core::result::Result<&') and 'slot::Slot,' in f['locals'][0]


def is_sessmap(P, fn, sm):
    return any(SEST in t and ('Map<' in t or 'map::' in t) for t in fn['locals'])


def ro_excluded(K, x, o):
    return all(not consistent([(x, o)], {x: K[s]}) for s in ('CKS_RO_PUBLIC_SESSION', 'CKS_RO_USER_FUNCTIONS'))


_c38 = C38


def C38(ctx):
    _c38(ctx)
    P = ctx.P
    K = dict((n, c(ctx, n)) for n in ROLES + STATES + ('CKF_RW_SESSION', 'CKF_SERIAL_SESSION', 'CK_UNAVAILABLE_INFORMATION'))
    INFO = [k for k in P.adts if k.endswith('::CK_SESSION_INFO')][0]
    C38_rest(ctx, K, INFO, api(P))


def leaves(fs, name):
    """the terms standing for the (initial or current) content of a field"""
    out = set()
    for v, o in fs:
        for s in subs(v):
            if s.k == 'f' and s.a[1] == name and not any(a.k == 'wr' and a.a[0] is s for a, _ in fs):
                out.add(s)
            if s.k == 'old' and s.a[0].a[1] == name:
                out.add(s)
    return out


def removal(ctx, f, omap, kept_ok):
    """Does f remove from the object map every object unless kept_ok(facts)?  Returns None if f removes nothing there,
    else a list of fact sets under which an object stays although kept_ok does not say so"""
    P = ctx.P
    fn = P.fns[f]
    REM = ('::remove', '::remove_entry')
    kept, seen = [], {'coll': 0, 'rem': 0}

    class R(E.Rule):
        name = 'removal'
        K = 60
        event_site = True

        def atom(s, n):
            return n.endswith(('Object::is_private', 'Object::get_session')) or n == NEXT

        def field(s, o, n):
            return n == 'session' and o.endswith('object::Object')

        def opaque(s, n):
            return n in P.fns and P.fns[n]['kind'] != 'closure' and P.fns[n].get('self') != fn.get('self')

        def event(s, n):
            return n == NEXT or n.endswith(('::push', '::retain')) or (n.endswith(REM) and 'Map' in n)

        def sink(s, n, a=(), fn=None):
            return n == NEXT or n.endswith('::retain')

        def ok(s, sink, args, fs):
            coll = plain_iter(args[0])
            if sink.endswith('::retain'):
                if is_field(coll, omap) and args[1].k == 'clo' and args[1].a[0] in P.fns:
                    seen['rem'] += 1
                    for r, cf in E.Engine(P, s).summary(args[1].a[0])[0]:
                        if cval(r) == 0:
                            continue
                        cf = dict(cf)
                        if cval(r) is None and not E.Engine.assume_eq(None, E.St({}, cf), r, 1):
                            continue
                        if not kept_ok(cf):
                            kept.append(cf)
                return True
            it = mk('ev', NEXT, (mk('k', s.site[0], s.site[1]),))
            if it not in fs:
                return True
            evs = [a.a[0] for a in fs if a.k == 'ev' and a is not it]
            if is_field(coll, omap):
                seen['coll'] += 1
                if not any(n.endswith(('::push',) + REM) for n in evs) and not kept_ok(fs):
                    kept.append(dict(fs))
            elif any(n.endswith(REM) for n in evs):
                seen['rem'] += 1
            return True
    if not any('Map<' in t and 'object::Object' in t for t in fn['locals']):
        return None
    e = E.Engine(P, R())
    rl = e.summary(f)[0]
    if not seen['rem']:
        return None
    for r, fs in rl:
        # every return comes after the loops (or retain) ran to their end
        if not any(x.k == 'ev' and x.a[0].endswith('::retain') for x, o in fs) and (
                any(o == 'S' and iscall(x, NEXT) for x, o in fs) or not any(o == 'F' and iscall(x, NEXT) for x, o in fs)):
            kept.append(dict(fs))
    return kept


def C10(ctx):
    P = ctx.P
    K = dict((n, c(ctx, n)) for n in ROLES)
    ctx.rule('C_Logout succeeds, and C_CloseSession of the last session and C_CloseAllSessions return, only after the login state was reset, the private session objects '
             'were removed and the storage back end was told to drop its keys; closing a session removes it and its objects.')
    ctx.rule('The removal functions keep only objects that are not private (or belong to no session), respectively objects of other sessions; every storage back end '
             'clears the key it holds when told so.')
    a = api(P)
    omap = map_fields(P, 'object::Object')
    smap = map_fields(P, SEST)
    sfun = ('Object::get_session',)

    def sess_terms(fs):
        return [x for x in fs for y in subs(x) if iscall(y, 'Object::get_session') or (y.k == 'f' and y.a[1] == 'session')]

    def keep_priv(fs):
        if any(iscall(x, 'Object::is_private') and o == 0 for x, o in fs.items()):
            return True
        t = set(y for x in fs for y in subs(x) if iscall(y, 'Object::get_session') or (y.k == 'f' and y.a[1] == 'session'))
        return any(not consistent(fs.items(), {y: 1}) and consistent(fs.items(), {y: 0}) for y in t)

    def keep_sess(fs):
        t = set(y for x in fs for y in subs(x) if iscall(y, 'Object::get_session') or (y.k == 'f' and y.a[1] == 'session'))
        for p in (mk('p', 2),):
            for y in t:
                if not consistent(fs.items(), {y: 7, p: 7}) and consistent(fs.items(), {y: 7, p: 8}):
                    return True
        return False
    clrpriv, clrsess = set(), set()
    for k, fn in sorted(P.fns.items()):
        if fn['crate'] != LIB or fn['kind'] == 'closure' or 'token::Token' not in ''.join(fn['locals'][1:2]):
            continue
        r = removal(ctx, k, omap, keep_priv)
        if r is not None and not r:
            clrpriv.add(k)
        if fn['argc'] == 2:
            r = removal(ctx, k, omap, keep_sess)
            if r is not None and not r:
                clrsess.add(k)
    ctx.ob('def|clear private session objects', bool(clrpriv), '', 'no function removes every private session object')
    ctx.ob('def|clear session objects', bool(clrsess), '', 'no function removes every object of a session')

    def sesscall(f):
        return f is not None and is_sessmap(P, P.fns[f], smap)

    class R(E.Rule):
        name = 'logout'
        K = 150
        KS = 150
        keep_old = True
        loops = True

        def field(s, o, n):
            return n == 'logged' and o == TOKT

        def wfield(s, o, n):
            return n == 'logged' and o == TOKT

        def on_write(s, st, base, fld, v, f):
            st.facts[mk('ev', 'W', (v,))] = 1

        def atom(s, n):
            return n == STO + 'unauth_user' or slotget(P, n)

        def atomv(s, v):
            return 'Map' in v.a[0] and v.a[0].endswith(('::len', '::is_empty')) and v.a[1] and is_field(v.a[1][0], smap)

        def inline(s, f):
            return sesscall(f)

        def on_call(s, st, n, args, ret, fn):
            if args and n.endswith(('::remove', '::clear', '::drain', 'mem::take')) and is_field(args[0], smap):
                st.facts[mk('ev', n, args)] = 1

        def pure(s, n):
            return slotget(P, n)

        def event(s, n):
            return n in clrpriv or n in clrsess or n == STO + 'unauth_user'

        def sink(s, n, a=(), f=None):
            return 'Map' in n and n.endswith(('::len', '::is_empty')) and sesscall(f) and f is not None

        def ok(s, n, args, fs):
            if not is_field(args[0], smap):
                return True
            return any(x.k == 'ev' and x.a[0].endswith(('::remove', '::clear', '::drain')) and is_field(x.a[1][0], smap) for x in fs)

    def loggedout(fs, strict):
        """facts exclude that somebody was logged in, or the logout steps were done"""
        t = leaves(fs, 'logged')
        if t and not any(consistent(fs, dict((x, K[r]) for x in t)) for r in ('CKU_SO', 'CKU_USER')):
            return []
        bad = []
        if not any(x.k == 'ev' and x.a[0] == 'W' and cval(x.a[1][0]) == K['KRY_UNSPEC'] for x, o in fs):
            bad.append('the login state is not reset')
        if not any(x.k == 'ev' and x.a[0] in clrpriv for x, o in fs):
            bad.append('private session objects are not removed')
        if not any(iscall(x, STO + 'unauth_user') and o == 'S' for x, o in fs) and \
                (strict or not any(x.k == 'ev' and x.a[0] == STO + 'unauth_user' for x, o in fs)):
            bad.append('the storage keys are not dropped')
        return bad
    r = R()
    e = E.Engine(P, r)

    def check(n, cond):
        k = 0
        for ret, fs in e.summary(a[n])[0]:
            if errret(ret):
                continue
            k += 1
            for b in cond(fs):
                ctx.ob('%s|%s' % (n, b), False, ctx.where(a[n]), '%s returns success although %s [%s]' % (n, b, '; '.join('%s=%s' % (E.show(x), o) for x, o in fs)[:600]))
        ctx.ob('%s|analysed' % n, k > 0, ctx.where(a[n]), '%s has no success path' % n)
        ctx.stats['paths'] += k
    check('C_Logout', lambda fs: loggedout(fs, True))

    def evs(fs, pred):
        return any(x.k == 'ev' and pred(x) for x, o in fs)

    def allclosed(fs):
        b = loggedout(fs, False)
        if not evs(fs, lambda x: x.a[0].endswith(('::clear', '::drain', 'take')) and is_field(x.a[1][0], smap)):
            b.append('the sessions are not removed')
        if not every(fs, lambda x, o: x.k == 'ev' and x.a[0] in clrsess, lambda t: True):
            b.append('the objects of the closed sessions are not removed')
        return b
    check('C_CloseAllSessions', allclosed)

    def oneclosed(fs):
        b = []
        if not evs(fs, lambda x: x.a[0].endswith('::remove') and is_field(x.a[1][0], smap) and x.a[1][1] is mk('p', 1)):
            b.append('the session is not removed')
        if not evs(fs, lambda x: x.a[0] in clrsess and mk('p', 1) in x.a[1]):
            b.append('the objects of the closed session are not removed')
        more = False
        for x, o in fs:
            for y in subs(x):
                if y.k == 'call' and 'Map' in y.a[0] and is_field(y.a[1][0], smap) and y.a[0].endswith(('::len', '::is_empty')):
                    v = 0 if y.a[0].endswith('::len') else 1
                    more = more or not consistent([(x, o)], {y: v})
        if not more:
            b += loggedout(fs, False)
        return b
    check('C_CloseSession', oneclosed)
    # the emptiness test counts only after the session was removed
    ctx.engine(r, {'C_CloseSession': a['C_CloseSession']}, 'last-session test after removal')
    ctx.analysed |= set(e.sums)
    keydrop(ctx)


def logout_drops(ctx):
    """C_Logout succeeds for a role that is logged in only if storage was told to drop its keys"""
    P = ctx.P
    K = dict((n, c(ctx, n)) for n in ROLES)

    class R(E.Rule):
        name = 'logout-keys'
        keep_old = True
        K, KS = 150, 150

        def field(s, o, n):
            return n == 'logged' and o == TOKT

        def wfield(s, o, n):
            return n == 'logged' and o == TOKT

        def atom(s, n):
            return n == STO + 'unauth_user'
    f = api(P)['C_Logout']
    e = E.Engine(P, R())
    n = 0
    for ret, fs in e.summary(f)[0]:
        if errret(ret):
            continue
        n += 1
        t = leaves(fs, 'logged')
        none = t and not any(consistent(fs, dict((x, K[r]) for x in t)) for r in ('CKU_SO', 'CKU_USER'))
        ctx.ob('C_Logout|drops', bool(none) or any(iscall(x, STO + 'unauth_user') and o == 'S' for x, o in fs), ctx.where(f),
               'C_Logout returns success although the storage keys of the role that was logged in are not dropped [%s]' % facts_of(fs))
    ctx.ob('C_Logout|analysed', n > 0, ctx.where(f), 'C_Logout has no success path')
    ctx.analysed |= set(e.sums)


def key_holders(ctx):
    """(owner, field) of the fields that keep a storage key: Option fields of key material set by storage authentication"""
    P = ctx.P
    out = set()
    for k, ad in P.adts.items():
        if '::storage::' not in k:
            continue
        for vn, fl in ad['v']:
            for n, t in fl:
                if 'key' in n and t.startswith('core::option::Option<') and ('object::Object' in t or 'Vec<u8>' in t):
                    out.add((k, n))
    return out


def keydrop(ctx, label='unauth'):
    P = ctx.P
    hold = key_holders(ctx)
    ctx.floor('fields keeping a storage key', len(hold), 1)

    class R(E.Rule):
        name = 'unauth'
        keep_old = True

        def wfield(s, o, n):
            return (o, n) in hold

        def field(s, o, n):
            return (o, n) in hold

        def on_write(s, st, base, fld, v, f):
            st.facts[mk('ev', 'W', (mk('s', fld[1]), mk('c', 0, '') if v.k == 'F' else mk('c', 1, '')))] = 1

        def event(s, n):
            return n == 'core::option::Option::<T>::take' or n == 'core::mem::take'
    n = 0
    for im in P.impls:
        if not im['tr'].endswith('storage::Storage'):
            continue
        f = im['m'].get(STO + 'unauth_user')
        f = f if f in P.fns else None
        if not f:
            continue
        reach = F.reach(P, [f])
        owners = [(o, x) for (o, x) in hold if any((o, x) in fieldset(P, g) for g in reach)]
        n += 1
        for ret, fs in E.Engine(P, R()).summary(f)[0]:
            if ret.k == 'F':
                continue
            okd = any(x.k == 'ev' and x.a[0] == 'W' and cval(x.a[1][1]) == 0 for x, o in fs) or \
                any(x.k == 'ev' and x.a[0].endswith('take') and any(is_field(y, hold) for y in x.a[1]) for x, o in fs) or \
                any((is_field(x, hold) or x.k == 'old') and o == 'F' for x, o in fs)
            ctx.ob('%s|%s' % (label, short(f)), okd, ctx.where(f), '%s returns without clearing the storage key' % short(f))
    ctx.floor('storage back ends', n, 2)


def fieldset(P, g):
    E_ = E.Engine
    if not hasattr(P, 'fieldidx'):
        class R(E.Rule):
            def field(s, o, n):
                return False
        E.Engine(P, R())
    return P.fieldidx[g]


def excluded(fs, terms, K, only):
    """the facts exclude every login state but those in only"""
    return bool(terms) and not any(consistent(fs, dict((x, K[r]) for x in terms)) for r in ROLES if r not in only)


ASSUME_C11 = ['that a PIN verification answers truthfully is C25 and C30']


def C11(ctx):
    P = ctx.P
    a = api(P)
    K = dict((n, c(ctx, n)) for n in ROLES)
    ctx.rule('C_InitPIN writes only the user PIN and only while the SO is logged in; C_SetPIN writes the PIN of the role whose old PIN was verified, in a writable session; '
             'C_InitToken writes the SO PIN after wiping the token; no other function writes a PIN.')
    ctx.rule('The token is wiped only by C_InitToken, with no session open, and if it was initialized only after the SO PIN was verified.')
    ctx.rule('The login state is set to a role only after the PIN of that role was verified by the storage back end, and C_SetPIN does not leave anybody logged in who was not.')
    smap = map_fields(P, SEST)
    AUTH, SETPIN, REINIT = STO + 'auth_user', STO + 'set_user_pin', STO + 'reinit'

    class R(E.Rule):
        K = 120
        keep_old = True

        def field(s, o, n):
            return n == 'logged' and o == TOKT

        def wfield(s, o, n):
            return n == 'logged' and o == TOKT

        def atom(s, n):
            return n == AUTH or n == SES + 'is_writable' or slotget(P, n) or n.endswith('Token::is_initialized')

        def atomv(s, v):
            return 'Map' in v.a[0] and v.a[0].endswith(('::len', '::is_empty')) and v.a[1] and is_field(v.a[1][0], smap)

        def inline(s, f):
            return is_sessmap(P, P.fns[f], smap)

        def pure(s, n):
            return slotget(P, n)

        def event(s, n):
            return n == REINIT

        def opaque(s, n):
            return n.startswith(STO)

    def proved(args, fs):
        """the PIN of the role args[2] was verified, against another value than the new PIN"""
        return any(iscall(x, AUTH) and o == 'S' and x.a[1][2] is args[2] and x.a[1][3] is not args[3] for x, o in fs.items())

    class Pin(R):
        name = 'pin-write'

        def sink(s, n, a=(), f=None):
            return n == SETPIN

        def ok(s, sink, args, fs):
            if sink.startswith('write:'):
                return True
            t = leaves(fs.items(), 'logged')
            if s.root == 'C_InitPIN':
                return cval(args[2]) == K['CKU_USER'] and excluded(fs.items(), t, K, ('CKU_SO',))
            if s.root == 'C_SetPIN':
                return true(fs, 'Session::is_writable') and proved(args, fs)
            if s.root == 'C_InitToken':
                return cval(args[2]) == K['CKU_SO'] and any(x.k == 'ev' and x.a[0] == REINIT for x in fs)
            return False

    class Wipe(R):
        name = 'token-wipe'

        def sink(s, n, a=(), f=None):
            return n == REINIT

        def ok(s, sink, args, fs):
            if sink.startswith('write:'):
                return True
            if s.root != 'C_InitToken':
                return False
            sess = [x for q in fs for x in subs(q) if x.k == 'call' and s.atomv(x)]
            if not any(not consistent(fs.items(), {x: 1 if x.a[0].endswith('::len') else 0}) for x in sess):
                return False
            return any(iscall(x, AUTH) and o == 'S' and cval(x.a[1][2]) == K['CKU_SO'] for x, o in fs.items()) or \
                any(iscall(x, 'Token::is_initialized') and o == 0 for x, o in fs.items())
    for cls, need in ((Pin, ('C_InitPIN', 'C_SetPIN', 'C_InitToken')), (Wipe, ('C_InitToken',))):
        for n in need:
            r = cls()
            r.root = n
            e = ctx.engine(r, {n: a[n]}, '%s in %s' % (r.name, n))
            ctx.ob('root|%s|%s' % (r.name, n), n in ctx.reaching(e, {n: a[n]}), '', '%s reaches no %s' % (n, r.name))
        r = cls()
        r.root = None
        ctx.engine(r, dict((n, x) for n, x in a.items() if n not in need), '%s elsewhere' % r.name)
    def_is_writable(ctx)
    # is_initialized
    TI = c(ctx, 'CKF_TOKEN_INITIALIZED')
    f = ctx.fn('Token::is_initialized')
    if f:
        rl = E.Engine(P, FieldRule('flags')).summary(f)[0]
        for v in (0, TI):
            t = fieldterms(rl, 'flags')
            got = returns(rl, dict((x, v) for x in t))
            ctx.ob('def|is_initialized|%x' % v, got == {int(bool(v))} or (got == {None} and not t), ctx.where(f), 'is_initialized() gives %s for token flags %x' % (got, v))

    class W(R):
        name = 'login-state'

        def sink(s, n, a=(), f=None):
            return n == 'write:' + TOKT + '.logged'

        def ok(s, sink, args, fs):
            v = args[1]
            if cval(v) == K['KRY_UNSPEC']:
                return True
            other = max(K.values()) - 7
            for x, o in fs.items():
                if iscall(x, AUTH) and o == 'S' and x.a[1][2] is v and (
                        cval(x.a[1][5]) == 0 or cval(x.a[1][5]) is None and not consistent(fs.items(), {x.a[1][5]: 1})):
                    if cval(v) is not None:
                        return cval(v) in (K['CKU_SO'], K['CKU_USER'])
                    return not consistent(fs.items(), {v: other}) and not consistent(fs.items(), {v: K['KRY_UNSPEC']})
            return False
    e = ctx.engine(W(), a)
    ctx.floor('writes of the login state', len(e.sites), 3)
    nn = 0
    for k, fn in P.fns.items():
        for b in fn['blocks']:
            for x in (b['s'] if b and fn['crate'] == LIB else ()):
                if len(x) > 1 and isinstance(x[1], list) and x[1][0] == 'agg' and x[1][1][0] == 'adt' and x[1][1][1] == TOKT and 'logged' in x[1][1][4]:
                    nn += 1
                    o = x[1][2][x[1][1][4].index('logged')].get('k')
                    ctx.ob('new token', o is None or int(o.get('v', -1)) == K['KRY_UNSPEC'], ctx.where(k), 'a token starts in a login state other than nobody')
    ctx.floor('constructors of tokens', nn, 1)

    class T(R):
        name = 'transient-login'
        keep_err = True
        KS = 150

        def on_write(s, st, base, fld, v, f):
            st.facts[mk('ev', 'W', (v,))] = 1

        def on_call(s, st, n, args, ret, fn):
            # carry the one value written by a callee back into the field
            w = [x.a[1][0] for x in st.facts if x.k == 'ev' and x.a[0] == 'W']
            t = [x.a[0] for x in st.facts if x.k == 'wr']
            if len(w) == 1 and len(t) == 1 and cval(w[0]) is not None:
                st.env[('m', t[0].a[0], t[0].a[1])] = w[0]
    e = E.Engine(P, T())
    for r, fs in e.summary(a['C_SetPIN'])[0]:
        w = [x.a[1][0] for x, o in fs if x.k == 'ev' and x.a[0] == 'W']
        t = leaves(fs, 'logged')
        if t and not any(consistent(fs, dict((x, K[n]) for x in t)) for n in ROLES):
            continue
        if any(cval(v) != K['KRY_UNSPEC'] for v in w):
            ctx.ob('transient login', any(cval(v) == K['KRY_UNSPEC'] for v in w), ctx.where(a['C_SetPIN']), 'C_SetPIN may leave a user logged in [%s] [%s]' % (E.show(r), '; '.join('%s=%s' % (E.show(x), o) for x, o in fs)))
    ctx.analysed |= set(e.sums)


# --------------------------------------------------------------------------- always authenticate
ASSUME_C09 = ['a context specific login answers truthfully: C11, C25, C30',
              'message decryption, unwrapping and derivation are not "sign or decrypt" uses, PKCS#11 does not let an application log in between their steps']
OPST = LIBP + 'session::OpLoginStatus'
MOP = LIBP + 'session::ManageOperation::'


def C09(ctx):
    P = ctx.P
    a = api(P)
    ctx.rule('An operation created from a key for signing or decryption is stored in the session together with the CKA_ALWAYS_AUTHENTICATE value of that key; storing an operation always resets its login status.')
    ctx.rule('A stored operation is handed out only while its own login status is NotRequired or LoginOk, and no other code touches the stored operations.')
    ctx.rule('A login status becomes LoginOk only from Required, in the session of the call, and only after the PIN was verified by the storage back end in C_Login.')
    def_accessor(ctx, 'always_auth', 'CKA_ALWAYS_AUTHENTICATE', 0)
    SETOP = fns(P, 'Session::set_operation')
    if not SETOP or OPST not in P.adts:
        return ctx.missing('Session::set_operation / OpLoginStatus')
    SETOP = SETOP[0]
    VAR = dict((x[0], i) for i, x in enumerate(P.adts[OPST]['v']))
    for x in ('NotRequired', 'Required', 'LoginOk'):
        if x not in VAR:
            return ctx.missing('OpLoginStatus::' + x)
    OPNEW = (MECH + 'sign_new', MECH + 'decryption_new', MECH + 'sign_restore')
    OPALL = OPNEW + (MECH + 'verify_new', MECH + 'verify_restore', MECH + 'encryption_new', MECH + 'digest_new', MECH + 'digest_restore',
                     MECH + 'msg_encryption_op', MECH + 'msg_decryption_op', MECH + 'verify_signature_new')
    seen = set()

    class S(E.Rule):
        name = 'requirement'
        K, KS = 100, 100

        def atom(s, n):
            return n in OPALL or n.endswith('Object::always_auth')

        def sink(s, n, a_=(), f=None):
            return n == SETOP

        def ok(s, sink, args, fs):
            cut = [x.a[1] for x in subs(args[1]) if x.k == '...' and x.a[1] in OPALL]      # abbreviated term
            if cut:
                seen.update(cut)
                need = [y for y in list(fs) + list(subs(args[2])) if iscall(y, 'Object::always_auth')]
                return cval(args[2]) == 1 or not set(cut) & set(OPNEW) or bool(need) and ev(args[2], dict((y, 1) for y in need)) == 1
            op = [x for x in subs(args[1]) if x.k == 'call' and x.a[0] in OPALL]
            if not op and not any('search' in str(x.a[0]).lower() for x in subs(args[1]) if x.k in ('call', 'adt')):
                return False
            for x in op:
                if x.a[0] not in OPNEW:
                    continue
                seen.add(x.a[0])
                need = [y for y in list(fs) + list(subs(args[2])) if iscall(y, 'Object::always_auth') and any(y.a[1][0] is z for z in x.a[1])]
                if cval(args[2]) == 1:
                    continue
                if not consistent(fs.items(), dict((y, 1) for y in need)) and need:
                    continue
                if not need or ev(args[2], dict((y, 1) for y in need)) != 1:
                    return False
            return True
    e = ctx.engine(S(), a)
    ctx.floor('places where an operation is stored', len(e.sites), 9)
    # where both happen in one function, with full terms
    loc = dict((short(s_[0]), s_[0]) for s_ in e.sites if any(E.Engine.cname(None, x[1], s_[0]) in OPNEW for x in P.calls[s_[0]]))
    ctx.engine(S(), loc, 'requirement in')
    for x in OPNEW:
        ctx.ob('covered|%s' % short(x), x in seen, '', 'no operation created by %s is stored in a session' % short(x))
    # stored only through Session, status reset
    class T(E.Rule):
        name = 'status'
        keep_old = True

        def field(s, o, n):
            return n == 'login_status'

        def event(s, n):
            return n.endswith('Map::<K, V, S, A>::insert') or n.endswith('Map::<K, V, A>::insert')

        def atom(s, n):
            return n == MOP + 'set_op'
    w = ctx.where(SETOP)
    for v, want in ((1, 'Required'), (0, 'NotRequired')):
        for r, fs in E.Engine(P, T()).summary(SETOP)[0]:
            if not consistent(fs, {mk('p', 3): v}):
                continue
            ins = [x for x, o in fs if x.k == 'ev' and any(y.k == 'f' and y.a[1] == 'login_status' for y in subs(x))]
            vals = set(y.a[1] for x in ins for y in x.a[1] if y.k == 'adt' and y.a[0] == OPST)
            ctx.ob('def|set_operation|%s' % want, vals == {want} or (ins and not vals), w, 'set_operation(needs_login=%d) records %s' % (v, sorted(vals) or 'nothing'))
    inner = set(k for im in P.impls if im['tr'] == MOP[:-2] for k in im['m'].values())
    inner |= set(k for im in P.impls if im['tr'].endswith('session::ManageOperationState') for k in im['m'].values())
    SO = LIBP + 'session::SessionOperations'
    nacc = 0
    for k, fn in P.fns.items():
        if fn['crate'] != LIB:
            continue
        if any(o == SO for o, x in fieldset(P, k)) and fn.get('impl_tr') != 'core::fmt::Debug':
            nacc += 1
            ctx.ob('operations|%s' % short(k), k in inner or any(k in (x,) or fn.get('parent') == x for x in inner), ctx.where(k), '%s uses the stored operations directly' % short(k))
    ctx.floor('functions on the stored operations', nacc, 20)
    # handing out
    nget = 0
    for k in P.fns:
        cs = [(fr, l) for bb, fr, a_, d, l in P.calls[k] if E.Engine.cname(None, fr, k) == MOP + 'get_op']
        if not cs or k in inner:
            continue
        nget += 1

        class G(E.Rule):
            name = 'use'

            def field(s, o, n):
                return n == 'login_status'

            def atom(s, n):
                return n.endswith(('Map::<K, V, S, A>::get', 'Map::<K, V, A>::get', 'Map::<K, V, S, A>::get_mut')) or n == MOP + 'get_op'

            def sink(s, n, a_=(), f=None):
                return n == MOP + 'get_op'

            def ok(s, sink, args, fs):
                d = [x for x in fs if x.k == 'disc' and x.a[1] == OPST and any(y.k == 'f' and y.a[1] == 'login_status' for y in subs(x))]
                return bool(d) and not any(consistent(fs.items(), {x: VAR['Required']}) for x in d)
        ctx.engine(G(), {short(k): k}, 'use')
        of = [fr['fn'].get('ta') for bb, fr, a_, d, l in P.calls[k] if E.Engine.cname(None, fr, k).endswith('TypeId::of')]
        ctx.ob('use|%s|own status' % short(k), all(x == fr['fn'].get('ta') for x in of for fr, l in cs), ctx.where(k), '%s checks the login status of another type of operation' % short(k))
    ctx.floor('functions handing out operations', nget, 1)
    of = [fr['fn'].get('ta') for bb, fr, a_, d, l in P.calls[SETOP] if E.Engine.cname(None, fr, SETOP).endswith('TypeId::of')]
    own = [fr['fn'].get('ta') for bb, fr, a_, d, l in P.calls[SETOP] if E.Engine.cname(None, fr, SETOP) == MOP + 'set_op']
    ctx.ob('def|set_operation|own status', all(x in own for x in of), w, 'set_operation records the login status of another type of operation')

    # becoming LoginOk
    def login_ok(v):
        return v.k == 'adt' and v.a[0] == OPST and v.a[1] == 'LoginOk'

    class M(E.Rule):
        name = 'login-ok'

        def field(s, o, n):
            return n == 'login_status'

        def inline(s, f):
            return f == s.cur

        def wfield(s, o, n):
            return n == '*'

        def sink(s, n, a_=(), f=None):
            return n.endswith('::insert') or n == 'write:.*' or n.endswith('mem::replace')

        def ok(s, sink, args, fs):
            if not any(login_ok(x) for x in args if x is not None):
                return True
            marks.add(s.cur)
            d = [x for x in fs if x.k == 'disc' and x.a[1] == OPST and x.a[0] in subs(args[0]) | frozenset((args[0],))]
            return bool(d) and not any(consistent(fs.items(), {x: VAR[y]}) for x in d for y in ('NotRequired', 'LoginOk'))
    marks = set()
    for k, fn in P.fns.items():
        if fn['crate'] != LIB or not fn['blocks']:
            continue
        if any(len(x) > 1 and isinstance(x[1], list) and 'LoginOk' in str(x[1]) and OPST in str(x[1]) for b in fn['blocks'] for x in (b['s'] if b else ())):
            r = M()
            r.cur = k
            ctx.engine(r, {short(k): k}, 'login-ok')
    ctx.floor('functions marking an operation as logged in', len(marks), 1)
    for k in sorted(set(P.fns[m].get('parent') or m for m in marks)):
        class L(E.Rule):
            name = 'mark'
            K, KS = 120, 150

            keep_old = True

            def field(s, o, n):
                return n == 'logged' and o == TOKT

            def wfield(s, o, n):
                return False

            def atom(s, n):
                return n == STO + 'auth_user'

            def opaque(s, n):
                return n.startswith(STO)

            def sink(s, n, a_=(), f=None):
                return n == k

            def ok(s, sink, args, fs):
                auth = [x for x, o in fs.items() if iscall(x, STO + 'auth_user') and o == 'S']
                return bool(auth) and s.root == 'C_Login' and any(y.k == 'p' and y.a[0] == 1 for y in subs(args[0]))
        n = 0
        for rn in a:
            if k not in F.reach(P, [a[rn]]):
                continue
            r = L()
            r.root = rn
            e = ctx.engine(r, {rn: a[rn]}, 'mark in %s' % rn)
            n += 1
        ctx.floor('calls of %s' % short(k), n, 1)


# --------------------------------------------------------------------------- PIN counters
RAW = LIBP + 'storage::format::StorageRaw::'
ASSUME_C25 = ['aci::decrypt_key fails for every key derived from a wrong PIN (authenticated encryption, OpenSSL)',
              'a committed SQLite transaction is durable (checked separately for the order of the statements in C21)',
              'the NSS DB format has no attempt counter, the property is about the back ends built on StdStorageFormat']


def C25(ctx):
    P = ctx.P
    ctx.rule('Storage::auth_user, for every initial attempt counter: it reports success only after the PIN unwrapped the stored key, with the counter below the maximum before, '
             'and with the counter reset and stored if it was not zero; every failed unwrapping adds one to the counter and stores it before the result is reported, '
             'and success is never reported when storing the counter failed.')
    ctx.rule('The back ends store and load the counter; nothing else but these functions and the creation of a new PIN writes it.')
    SU, FU = RAW + 'store_user', RAW + 'fetch_user'

    class R(E.Rule):
        name = 'pin-counter'
        K, KS = 250, 500
        keep_old = keep_err = True

        def field(s, o, n):
            return n in ('cur_attempts', 'max_attempts')

        def wfield(s, o, n):
            return n == 'cur_attempts'

        def atom(s, n):
            return n in (SU, FU) or n.endswith('aci::decrypt_key')
    n = 0
    for im in P.impls:
        if not im['tr'].endswith('storage::Storage'):
            continue
        f = im['m'].get(STO + 'auth_user')
        if f not in P.fns or not any('fetch_user' in x for x in F.reach(P, [f])):
            continue
        n += 1
        e = E.Engine(P, R())
        rl = e.summary(f)[0]
        ctx.analysed |= set(e.sums)
        w = ctx.where(f)
        cnt = collections.Counter()
        for old in (0, 1, 9, 10):
            for r, fs in rl:
                fd = dict(fs)
                every_t = set(x for q in list(fd) + [r] for x in subs(q) if x.k == 'f' and x.a[1] in ('cur_attempts', 'max_attempts'))
                wr = set(x.a[0] for x in fd if x.k == 'wr')
                asg = {}
                for x in every_t:
                    if x.a[1] == 'max_attempts':
                        asg[x] = 10
                    elif x in wr:
                        asg[mk('old', x)] = old
                    else:
                        asg[x] = old
                new = None
                for x in fd:
                    if x.k == 'new' and x.a[0].a[1] == 'cur_attempts':
                        new = ev(x.a[1], asg)
                        new = 'unknown' if new is None else new
                        if isinstance(new, int):
                            asg[x.a[0]] = new
                if not consistent(fs, asg):
                    continue
                dk = [o for x, o in fs if iscall(x, 'aci::decrypt_key')]
                plain = [o for x, o in fs if x.k == 'bin' and x.a[0] == 'Eq' and any(iscall(y, 'aci::decrypt_key') for y in subs(x)) and
                         any(y.k == 's' for y in subs(x))]
                enc = [o for x, o in fs if x.k == 'f' and x.a[1] == 'encrypt']
                st = [o for x, o in fs if iscall(x, SU)]
                good = dk == ['S'] and (enc == [1] or plain == [1])
                bad = dk == ['F'] or plain == [0]
                okret = r.k != 'F'
                cnt[(okret, bool(good), bool(bad))] += 1
                if okret:
                    ctx.ob('success|only with the right PIN', good, w, 'with %d failed attempts before, auth_user reports success on a path where the PIN did not unwrap the stored key [%s]' % (old, facts_of(fs)))
                    ctx.ob('success|not when locked', old < 10, w, 'auth_user reports success although the attempt counter has reached the maximum [%s]' % facts_of(fs))
                    ctx.ob('success|resets the counter', old == 0 or new in (0, 'unknown'), w, 'auth_user reports success without resetting the attempt counter')
                    ctx.ob('success|stores the counter', old == 0 or st == ['S'], w, 'auth_user reports success although the reset counter was not stored')
                if bad:
                    ctx.ob('failure|counted', new in (old + 1, 'unknown'), w, 'a failed PIN verification leaves the attempt counter at %s (was %d) [%s]' % (new, old, facts_of(fs)))
                    ctx.ob('failure|stored', bool(st), w, 'a failed PIN verification is reported before the attempt counter is stored (counter %d) [%s]' % (old, facts_of(fs)))
                    ctx.ob('failure|reported', not okret, w, 'a failed PIN verification is reported as success')
                if old >= 10:
                    ctx.ob('locked|no verification', not dk, w, 'the PIN is still verified although the attempt counter has reached the maximum')
        ctx.ob('all outcomes|%s' % short(f), cnt[(True, True, False)] > 0 and cnt[(False, False, True)] > 0, w,
               'auth_user has no path for %s' % ('success' if not cnt[(True, True, False)] else 'a counted failure'))
        # what is stored is the record that was fetched and changed
        for r, fs in rl:
            for x, o in fs:
                if iscall(x, SU) and any(y.k == 'wr' for y, _ in fs):
                    base = [y.a[0].a[0] for y, _ in fs if y.k == 'wr']
                    ctx.ob('failure|the changed record is stored', any(b is z or b in subs(z) for b in base for z in x.a[1]), w, 'store_user is given another record than the one with the new counter')
                    fu = [y.a[1][1] for y, _ in fs if iscall(y, FU)]
                    ctx.ob('failure|stored for the same user', not fu or x.a[1][1] in fu, w, 'the counter is stored for another user than the one whose PIN was verified')
    ctx.floor('back ends with attempt counters', n, 1)
    # writers of the counter
    allowed = set()
    for k, fn in P.fns.items():
        if fn['crate'] != LIB:
            continue
        for b in fn['blocks']:
            for x in (b['s'] if b else ()):
                if len(x) > 1 and isinstance(x[0], list) and any(isinstance(p, list) and p[0] == 'f' and p[2] == 'cur_attempts' for p in x[0][1:]):
                    allowed.add(k)
    roots = [im['m'].get(STO + 'auth_user') for im in P.impls if im['tr'].endswith('storage::Storage')]
    raws = [im['m'].get(FU) for im in P.impls if im['tr'] == RAW[:-2]]
    inside = F.reach(P, [x for x in roots + raws if x in P.fns])
    for k in sorted(allowed):
        ctx.ob('writer|%s' % short(k), k in inside, ctx.where(k), '%s writes the attempt counter outside of the PIN verification' % short(k))
    ctx.floor('functions writing the attempt counter', len(allowed), 1)
    # persistence in the back ends
    m = 0
    for im in P.impls:
        if im['tr'] != RAW[:-2]:
            continue
        f, g = im['m'].get(SU), im['m'].get(FU)
        if f not in P.fns or g not in P.fns or f.startswith(RAW):
            continue
        m += 1

        class S(E.Rule):
            name = 'store'
            keep_old = True

            def field(s, o, n):
                return n == 'cur_attempts'

            def wfield(s, o, n):
                return n == 'cur_attempts'

            def on_write(s, st, base, fld, v, f):
                st.facts[mk('ev', 'W', (v,))] = 1

            def event(s, n):
                return n.endswith(('::store_meta', 'Transaction::<\'conn>::commit', 'Transaction::commit')) or n.endswith('::execute')
        e = E.Engine(P, S())
        for r, fs in e.summary(f)[0]:
            if r.k == 'F':
                continue
            ctx.ob('store|%s' % short(f), any(x.k == 'ev' and any(y.k == 'f' and y.a[1] == 'cur_attempts' for y in subs(x)) for x, o in fs), ctx.where(f),
                   '%s succeeds without storing the attempt counter' % short(f))
        rd = fieldset(P, g) if hasattr(P, 'fieldidx') or fieldset(P, g) is not None else set()
        ctx.ob('load|%s' % short(g), any(x[1] == 'cur_attempts' for h in [g] + all_closures(P, g) for x in fieldset(P, h)) or
               any(any(y[1] == 'cur_attempts' for y in fieldset(P, h)) for h in F.reach(P, [g]) if h in P.fns and 'aci' not in h), ctx.where(g), '%s does not load the attempt counter' % short(g))
    ctx.floor('raw back ends', m, 1)
    # the limit
    lim = [x for f in P.fns if f.endswith('StorageAuthInfo as core::default::Default>::default') for b in P.fns[f]['blocks'] for x in (b['s'] if b else ())
           if len(x) > 1 and isinstance(x[1], list) and x[1][0] == 'agg' and x[1][1][0] == 'adt' and 'max_attempts' in x[1][1][4]]
    for x in lim:
        o = x[1][2][x[1][1][4].index('max_attempts')].get('k')
        z = x[1][2][x[1][1][4].index('cur_attempts')].get('k')
        ctx.ob('limit', not o or 'v' not in o or 0 < int(o['v']) <= 100, '', 'the number of attempts is not limited: %s' % o)
        ctx.ob('limit|start', not z or 'v' not in z or int(z['v']) == 0, '', 'the counter does not start at 0')
    # Token: the flag and result of the back end are passed on; C_Login reports an error for every error of the back end is C11


def facts_of(fs):
    return '; '.join('%s=%s' % (E.show(a)[:80], o) for a, o in fs if a.k not in ('wr', 'new', 'u'))[:400]


# --------------------------------------------------------------------------- cached keys
def rootp(v):
    """the parameter a place starts from (not through calls), or None"""
    while v.k in ('f', 'ok', 'wr', 'old', 'S'):
        v = v.a[0]
    return v.a[0] if v.k == 'p' else None


def C26(ctx):
    P = ctx.P
    a = api(P)
    ctx.rule('Logout clears every field of a storage back end that keeps a key; a PIN check that does not log in (check_only) writes none of these fields, and a failed authentication leaves no new key in them.')
    ctx.rule('Every function that changes the key the cached keys are derived from also clears the cache, before it returns; cached keys are handed out only while that key is set.')
    ctx.rule('Changing the PIN or re-initializing replaces or clears a key derived from the PIN. Only PIN checks that do not log in are made while somebody is logged in.')
    keydrop(ctx)
    logout_drops(ctx)
    hold = key_holders(ctx)
    otypes = set(o for o, x in hold)
    cont = set(hold)
    for k, ad in P.adts.items():
        for vn, fl in ad['v']:
            for n, t in fl:
                if t in otypes and k.startswith(LIBP):
                    cont.add((k, n))

    class R(E.Rule):
        name = 'keys'
        K, KS = 250, 500
        keep_old = keep_err = True

        def wfield(s, o, n):
            return (o, n) in cont

        def field(s, o, n):
            return (o, n) in cont or n == 'cur_attempts'

        def atom(s, n):
            return n.startswith(RAW)

        def on_write(s, st, base, fld, v, f):
            st.facts[mk('ev', 'W', (mk('f', base, fld[1], fld[0]), v))] = 1

        def mergekey_facts(s, fs):
            return frozenset((x, o) for x, o in fs if x.k != 'call')

    def writes(fs):
        out = []
        for x, o in fs:
            if x.k == 'ev' and x.a[0] == 'W' and x.a[1][0].a[1] != 'cur_attempts' and rootp(x.a[1][0]) == 1:
                out.append(x)
        return out
    n = 0
    for im in P.impls:
        if not im['tr'].endswith('storage::Storage'):
            continue
        f = im['m'].get(STO + 'auth_user')
        if f not in P.fns:
            continue
        n += 1
        e = E.Engine(P, R())
        rl = e.summary(f)[0]
        ctx.analysed |= set(e.sums)
        CO = mk('p', 6)
        w = ctx.where(f)
        nset = 0
        for r, fs in rl:
            ws = writes(fs)
            if ws and consistent(fs, {CO: 1}):
                ctx.ob('check only|%s' % short(f), False, w, 'a PIN check that does not log in writes %s [%s]' % (E.show(ws[0]), facts_of(fs)))
            if r.k == 'F' and ws:
                for x in ws:
                    new = [y.a[1] for y, _ in fs if y.k == 'new' and y.a[0] is x.a[1][0]]
                    ctx.ob('failed|%s' % short(f), any(v.k == 'F' for v in new), w, 'a failed authentication leaves a key in %s [%s]' % (E.show(x.a[1][0]), facts_of(fs)))
            if r.k != 'F' and ws:
                nset += 1
        ctx.ob('check only|%s' % short(f), True, w)
        ctx.ob('login sets the key|%s' % short(f), nset > 0, w, 'no successful authentication sets the key')
    ctx.floor('back ends', n, 2)

    # the cache goes with the key
    caches = set((o, x) for o in otypes for vn, fl in P.adts[o]['v'] for x, t in fl if 'Map<' in t)
    ctx.floor('caches of derived keys', len(caches), 1)

    def from_cache(v):
        return any(is_field(y, caches) for y in subs(v))

    class Q(R):
        def atom(s, n):
            return False

        def event(s, n):
            return n.endswith(('Map::<K, V, A>::clear', 'Map::<K, V, S>::clear', 'mem::take', 'mem::replace', 'Map::<K, V, A>::retain')) or n.endswith('::clear')

        def wfield(s, o, n):
            return (o, n) in cont or (o, n) in caches

        def field(s, o, n):
            return (o, n) in cont or (o, n) in caches
    owners = set(o for o, x in caches)
    nw = 0
    writers = set()
    for k, fn in P.fns.items():
        if fn['crate'] != LIB or not fn['blocks'] or fn.get('impl_tr', '') == 'core::ops::drop::Drop':
            continue
        for b in fn['blocks']:
            for x in (b['s'] if b else ()):
                if len(x) > 1 and isinstance(x[0], list):
                    for p in x[0][1:]:
                        if isinstance(p, list) and p[0] == 'f' and (p[3], p[2]) in hold and p[3] in owners:
                            writers.add(k)
                if len(x) > 1 and isinstance(x[1], list) and x[1][0] == 'ref' and x[1][1] and isinstance(x[1][2][-1], list) and \
                        x[1][2][-1][0] == 'f' and (x[1][2][-1][3], x[1][2][-1][2]) in hold and x[1][2][-1][3] in owners:
                    writers.add(k)
    for k in sorted(writers):
        e = E.Engine(P, Q())
        for r, fs in e.summary(k)[0]:
            ws = [x for x, o in fs if x.k == 'ev' and x.a[0] == 'W' and is_field(x.a[1][0], hold) and x.a[1][0].a[2] in owners] + \
                 [x for x, o in fs if x.k == 'ev' and x.a[0].endswith(('take', 'replace')) and x.a[1] and is_field(x.a[1][0], hold)]
            if not ws:
                continue
            nw += 1
            cl = [x for x, o in fs if x.k == 'ev' and x.a[0] != 'W' and any(from_cache(y) for y in x.a[1])] + \
                 [x for x, o in fs if x.k == 'ev' and x.a[0] == 'W' and is_field(x.a[1][0], caches)]
            ctx.ob('cache|%s' % short(k), bool(cl), ctx.where(k), '%s changes the key without clearing the keys derived from it [%s]' % (short(k), facts_of(fs)))
    ctx.floor('paths changing a key with a cache', nw, 2)
    # handing out
    m = 0
    for k, fn in P.fns.items():
        if fn['crate'] != LIB or fn.get('self') not in owners or fn.get('parent') or fn.get('impl_tr'):
            continue
        if not any(x in caches for x in fieldset(P, k)) or not str(fn['locals'][0]).startswith(('core::option::Option<', 'core::result::Result<')) or '()' in fn['locals'][0]:
            continue
        m += 1
        for r, fs in E.Engine(P, Q()).summary(k)[0]:
            if r.k != 'S':
                continue
            h = [(x, o) for x, o in fs if is_field(x, hold) and rootp(x) == 1]
            ctx.ob('hand out|%s' % short(k), any(o == 'S' for x, o in h), ctx.where(k), '%s hands out a cached key although the key it was derived from is not set' % short(k))
    ctx.floor('functions handing out cached keys', m, 1)

    # PIN change and re-initialization
    for im in P.impls:
        if not im['tr'].endswith('storage::Storage'):
            continue
        for meth in ('set_user_pin', 'reinit'):
            f = im['m'].get(STO + meth)
            if f not in P.fns:
                continue
            derived = any(o == x[0] for o in owners for x in fieldset(P, f)) or any(x in fieldset(P, f) for x in cont if x not in hold)
            if meth == 'set_user_pin' and not any('enckey' in g or (g in writers) for g in F.reach(P, [f])):
                continue        # the key is random, the PIN only wraps it
            for r, fs in E.Engine(P, R()).summary(f)[0]:
                if r.k == 'F':
                    continue
                ws = writes(fs)
                enc = any(x.k == 'f' and x.a[1] == 'encrypt' and o == 0 for x, o in fs)
                ctx.ob('%s|%s' % (meth, short(f)), bool(ws) or enc, ctx.where(f), '%s succeeds and leaves the former key in memory [%s]' % (short(f), facts_of(fs)))

    # PIN checks while logged in
    K = dict((x, c(ctx, x)) for x in ROLES)

    class L(E.Rule):
        name = 'login-check'
        K, KS = 120, 150

        def field(s, o, n):
            return n == 'logged' and o == TOKT

        def wfield(s, o, n):
            return n == 'logged' and o == TOKT

        def atom(s, n):
            return slotget(P, n)

        def pure(s, n):
            return slotget(P, n)

        def opaque(s, n):
            return n.startswith(STO)

        def sink(s, n, a_=(), f=None):
            return n == STO + 'auth_user'

        def ok(s, sink, args, fs):
            if sink.startswith('write:') or cval(args[5]) == 1:
                return True
            if cval(args[5]) is None and not consistent(fs.items(), {args[5]: 0}):
                return True
            t = leaves(fs.items(), 'logged')
            return excluded(fs.items(), t, K, ('KRY_UNSPEC',))
    e = ctx.engine(L(), dict((x, y) for x, y in a.items() if x != 'C_InitToken'), 'login while logged in')
    ctx.floor('PIN checks', len([s_ for s_ in e.sites if s_[1] == STO + 'auth_user']), 1)
