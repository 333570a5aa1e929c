"""Predicates and tables shared by the rules."""
import os, sys, collections
import facts as F
import engine as E
from engine import iscall, is_c, cval, subs, mk
from lib import *

STO = 'kryoptic_lib::storage::Storage::'
TOK = 'kryoptic_lib::token::Token::'
SES = 'kryoptic_lib::session::Session::'
OBJ = 'kryoptic_lib::object::Object::'
MECH = 'kryoptic_lib::mechanism::Mechanism::'
NEXT = 'core::iter::traits::iterator::Iterator::next'

CKA = {'CLASS': 0, 'TOKEN': 1, 'PRIVATE': 2}


def ev(v, assign):
    """evaluate a symbolic value under an assignment of some terms; None if unknown"""
    if v in assign:
        return assign[v]
    k = v.k
    if k == 'c':
        return v.a[0]
    if k == 'not':
        x = ev(v.a[0], assign)
        return None if x is None else 1 - x if x in (0, 1) else None
    if k == 'bin':
        x, y = ev(v.a[1], assign), ev(v.a[2], assign)
        if x is None or y is None:
            return None
        o = v.a[0]
        if o == 'Eq':
            return int(x == y)
        if o == 'Lt':
            return int(x < y)
        if o == 'BitAnd':
            return x & y
        if o == 'BitOr':
            return x | y
        if o == 'Add':
            return x + y
        if o == 'Sub':
            return x - y
    return None


def consistent(fs, assign):
    """facts do not contradict the assignment"""
    for a, o in fs:
        x = ev(a, assign)
        if x is None:
            continue
        if isinstance(o, tuple):
            if o[0] == 'ne' and x in o[1]:
                return False
        elif isinstance(o, int) and x != o:
            return False
    return True


def returns(rl, assign):
    """set of possible return values (None = unknown) under the assignment"""
    out = set()
    for r, fs in rl:
        if not consistent(fs, assign):
            continue
        out.add(r.k if r.k in ('S', 'F') else ev(r, assign))
    return out


def fieldterms(rl, name):
    """terms reading a field of that name in returns and facts"""
    out = set()
    for r, fs in rl:
        for v in [r] + [a for a, o in fs]:
            for s in subs(v):
                if s.k == 'f' and s.a[1] == name:
                    out.add(s)
    return out


class FieldRule(E.Rule):
    """fields as atoms, nothing else"""
    def __init__(self, *fields, atoms=(), loops=False):
        self.fields = fields
        self.atoms = atoms
        self.loops = loops

    def field(self, o, n):
        return n in self.fields

    def atom(self, n):
        return bool(self.atoms) and n.endswith(self.atoms)


STATES = ('CKS_RO_PUBLIC_SESSION', 'CKS_RO_USER_FUNCTIONS', 'CKS_RW_PUBLIC_SESSION',
          'CKS_RW_USER_FUNCTIONS', 'CKS_RW_SO_FUNCTIONS')


def c(ctx, name):
    v = constval(ctx.P, name)
    if v is None:
        ctx.missing('constant ' + name)
    return v


def def_is_writable(ctx):
    """Session::is_writable is true exactly in the three R/W states"""
    f = ctx.fn('Session::is_writable')
    if not f:
        return
    e = E.Engine(ctx.P, FieldRule('state'))
    rl = e.summary(f)[0]
    t = fieldterms(rl, 'state')
    for s in STATES:
        v = c(ctx, s)
        r = returns(rl, {x: v for x in t})
        want = {1} if '_RW_' in s else {0}
        ctx.ob('def|is_writable|%s' % s, r == want or (None in r and not t), ctx.where(f),
               'is_writable() returns %s in state %s' % (r, s))


def def_is_logged_in(ctx):
    f = ctx.fn('Token::is_logged_in')
    if not f:
        return
    e = E.Engine(ctx.P, FieldRule('logged'))
    rl = e.summary(f)[0]
    t = fieldterms(rl, 'logged')
    names = {'KRY_UNSPEC': c(ctx, 'KRY_UNSPEC'), 'CKU_SO': c(ctx, 'CKU_SO'), 'CKU_USER': c(ctx, 'CKU_USER')}
    for un, u in names.items():
        for ln, l in names.items():
            asg = {x: l for x in t}
            asg[mk('p', 2)] = u
            want = l != names['KRY_UNSPEC'] and (un == 'KRY_UNSPEC' or l == u)
            r = returns(rl, asg)
            # an undecided result is tolerated only if it is computed from the login state
            und = all(any(x in t or x == mk('p', 2) for x in subs(v)) for v, fs in rl if v.k not in ('S', 'F') and consistent(fs, asg) and ev(v, asg) is None)
            ctx.ob('def|is_logged_in|%s|%s' % (un, ln), r == {int(want)} or None in r and int(not want) not in r and und, ctx.where(f),
                   'is_logged_in(%s) returns %s when the login state is %s' % (un, r, ln))


def asked(call, fs, *cka):
    """the fetch `call` asks for all attributes, or for these: an attribute that was not asked for reads as its default"""
    t = call.a[1][-1]
    if t.k == 'arr' and not t.a[0]:
        return True
    d = list(fs)
    return all(any(is_c(q, n) for q in subs(t)) or any(x.k == 'ev' and any(is_c(q, n) for q in x.a[1]) for x in d) for n in cka)


def known(a, fs, *cka):
    """the attributes an accessor of a stored object looks at were fetched"""
    return all(asked(q, fs, *cka) for q in subs(a) if q.k == 'call' and q.a[0] == STO + 'fetch')


def attradd(n):
    return 'CkAttrs' in n and n.split('::')[-1].startswith('add_')


def def_accessor(ctx, name, cka, default, classes=None):
    """Object::<name>() is the value of attribute cka, or default when absent.
    classes: only for these object classes; other classes return `classes[1]`"""
    f = ctx.fn('Object::' + name)
    if not f:
        return
    v = c(ctx, cka)
    names = const_names(ctx.P, f) | set(x for g in F.reach(ctx.P, [f]) for x in ())
    e = E.Engine(ctx.P, FieldRule('class', atoms=('::get_type', '::to_bool'), loops=True))
    rl = e.summary(f)[0]
    gt = set()
    for r, fs in rl:
        for a, o in fs:
            if iscall(a, 'get_type') and isinstance(o, int):
                gt.add(o)
    vals = set(x['v'] for x in body_consts(ctx.P, f) if 'v' in x and x.get('d', '').split('::')[-1].startswith('CKA_'))
    vals = set(int(x) for x in vals)
    ctx.ob('def|%s|attr' % name, (v in gt or v in vals) and not (gt - {v}), ctx.where(f),
           'Object::%s() does not look at %s only (compares with %s)' % (name, cka, sorted(gt | vals)))
    for r, fs in rl:
        d = dict(fs)
        found = [a for a, o in fs if iscall(a, 'to_bool')]
        cls = [a for a in d if a.k == 'f' and a.a[1] == 'class']
        want = default
        if classes is not None and cls:
            in_cls = any(d[a] in classes[0] for a in cls if isinstance(d[a], int))
            if not in_cls:
                want = classes[1]
        bad = None
        if r.k == 'c':
            tb = [(a, o) for a, o in fs if a.k == 'ok' and iscall(a.a[0], 'to_bool') and isinstance(o, int)]
            if tb:
                if any(o != r.a[0] for a, o in tb):
                    bad = 'returns %d when the attribute is %d' % (r.a[0], tb[0][1])
            elif r.a[0] != want:
                bad = 'returns %d instead of the default %d' % (r.a[0], want)
        elif r.k == 'not' and has_call(r, 'to_bool'):
            bad = 'returns the negated attribute value'
        elif r.k == 'ok' and iscall(r.a[0], 'to_bool') and classes is not None and cls and \
                not any(d[a] in classes[0] for a in cls if isinstance(d[a], int)):
            bad = None
        ctx.ob('def|%s|%s' % (name, 'found' if found else 'absent'), bad is None, ctx.where(f),
               'Object::%s() %s' % (name, bad))
    if classes is not None:
        for cn, cv in ((n, constval(ctx.P, n)) for n in ('CKO_PRIVATE_KEY', 'CKO_SECRET_KEY', 'CKO_OTP_KEY')):
            t = fieldterms(rl, 'class')
            r = set(x for x in (returns([(r, [z for z in fs if fieldterms([(z[0], ())], 'class')]) for r, fs in rl
                                         if not any(iscall(a, 'to_bool') for a, o in fs)], {y: cv for y in t})))
            ctx.ob('def|%s|%s' % (name, cn), r <= {default, None}, ctx.where(f),
                   'Object::%s() defaults to %s for %s, %s expected' % (name, r, cn, default))


def def_template_guard(ctx, f):
    """a template check passes only if no CKA_TOKEN attribute of the template is true"""
    class R(E.Rule):
        name = 'template-guard'

        def atom(s, n):
            return n.endswith('::to_bool')

        def field(s, o, n):
            return n == 'type_'

        def sink(s, n, a=(), fn=None):
            return n == NEXT
    v = c(ctx, 'CKA_TOKEN')
    bad = []

    def chk(fs):
        for a, o in fs.items():
            if a.k == 'ok' and iscall(a.a[0], 'to_bool') and o == 1:
                bad.append(o)
        t = [o for a, o in fs.items() if a.k == 'f' and a.a[1] == 'type_' and iscall(a.a[0].a[0] if a.a[0].k == 'ok' else a.a[0], 'next')]
        b = [a for a, o in fs.items() if a.k == 'ok' and iscall(a.a[0], 'to_bool')]
        if v in t and not b:
            bad.append('unread')

    class R2(R):
        def ok(s, sink, args, fs):
            chk(fs)
            return True
    e = E.Engine(ctx.P, R2())
    rl = e.summary(f)[0]
    ctx.ob('def|template guard', not bad and 'CKA_TOKEN' in const_names(ctx.P, f), ctx.where(f),
           'the read-only template check accepts a template whose CKA_TOKEN is true')
    ctx.ob('def|template guard error', any(r.k == 'F' for r, fs in rl), ctx.where(f), 'the read-only template check never fails')


def template_guards(P):
    """functions that reject templates with a true CKA_TOKEN"""
    out = []
    for k, fn in P.fns.items():
        if fn['crate'] != LIB or fn['kind'] == 'closure' or fn['argc'] != 1:
            continue
        if 'CK_ATTRIBUTE]' not in fn['locals'][1] and 'CkAttrs' not in fn['locals'][1]:
            continue
        n = const_names(P, k)
        if 'CKA_TOKEN' in n and 'CKR_SESSION_READ_ONLY' in n:
            out.append(k)
    return out


FLAGS = dict(Ignored=1, Sensitive=2, Defval=4, RequiredOnCreate=8, RequiredOnGenerate=0x10, AlwaysRequired=0x20,
             SettableOnlyOnCreate=0x80, NeverSettable=0x100, Unchangeable=0x400, ChangeToFalse=0xC00, ChangeToTrue=0x1400,
             ChangeOnCopy=0x2400, Ephemeral=0x8000)


def oaflags(ctx):
    """flag values, read from the program where they are constants there"""
    out = dict(FLAGS)
    for k, v in ctx.P.consts.items():
        p = k.split('::')
        if len(p) > 1 and 'OAFlags' in p[-2] and p[-1] in out:
            out[p[-1]] = v[0]
    return out


def attr_rows(ctx):
    """function -> [(cka value, flags or None, default term, constructor name, line)] of the ObjectAttr
    elements it builds"""
    P = ctx.P
    if hasattr(P, '_attr_rows'):
        return P._attr_rows
    rows = {}
    helpers = {}        # helper fn -> [(attribute term, flags term)] over its parameters

    def row(eng, fn, a, fl):
        cka, dv, ct = None, None, ''
        if a.k == 'call':
            ct = a.a[0].split('::')[-1]
            if a.a[1]:
                cka = cval(a.a[1][0])
            if len(a.a[1]) > 1:
                dv = a.a[1][1]
        if cka is None and any(q.k == 'p' for q in subs(a)) and P.fns[fn]['kind'] != 'closure':
            helpers.setdefault(fn, set()).add((a, fl))
            return
        rows.setdefault(fn, {})[(cka, flagval(fl))] = (cka, flagval(fl), dv, ct)

    def scan(names):
        class R(E.Rule):
            name = 'attr-table'

            def on_call(s, st, n, args, ret, fn):
                if n in names:
                    for a, fl in names[n] or [args[:2]]:
                        if names[n]:
                            a, fl = e.subst(a, args, 0, {}), e.subst(fl, args, 0, {})
                        row(e, fn, a, fl)
        for k, fn in P.fns.items():
            if fn['crate'] == LIB and any(E.Engine.cname(None, fr, k) in names for (_, fr, _, _, _) in P.calls[k]):
                e = E.Engine(P, R())
                e.summary(k)
    new = [k for k in P.fns if k.endswith('ObjectAttr::new')]
    scan(dict((k, None) for k in new))
    seen = set()
    for _ in range(3):
        todo = dict((h, list(v)) for h, v in helpers.items() if h not in seen)
        if not todo:
            break
        seen |= set(todo)
        scan(todo)
    P._attr_rows = dict((k, list(v.values())) for k, v in rows.items())
    return P._attr_rows


def flagval(v):
    if v.k == 'c':
        return v.a[0]
    if v.k in ('ok', 'S', 'adt') and v.a and isinstance(v.a[0], E.V):
        return flagval(v.a[0])
    if v.k == 'adt' and len(v.a) > 2 and len(v.a[2]) == 1:
        return flagval(v.a[2][0])
    if v.k == 'call' and v.a[0].endswith('::empty'):
        return 0
    if v.k == 'call' and v.a[0].split('::')[-1] in ('bitor', 'union') and len(v.a[1]) == 2:
        x, y = flagval(v.a[1][0]), flagval(v.a[1][1])
        return None if x is None or y is None else x | y
    if v.k == 'bin' and v.a[0] == 'BitOr':
        x, y = flagval(v.a[1]), flagval(v.a[2])
        return None if x is None or y is None else x | y
    return None


def factories(ctx):
    """factory type -> {'new': fn, 'rows': {cka: (flags, default, ctor)}}"""
    P = ctx.P
    rows = attr_rows(ctx)
    out = {}
    for im in P.impls:
        if not im['tr'].endswith('object::factory::ObjectFactory'):
            continue
        t = im.get('self') or im.get('ty')
        ctors = [k for k in P.fns if P.fns[k]['crate'] == LIB and P.fns[k]['kind'] != 'closure' and
                 (P.fns[k].get('self') == t) and not P.fns[k].get('impl_tr') and
                 P.fns[k]['locals'][0].replace(' ', '') == str(t).replace(' ', '')]
        tab = {}
        for cfn in ctors:
            rs = F.reach(P, [cfn], stop=lambda f: f != cfn and f in out)
            order = sorted([f for f in rs if f in rows and f != cfn]) + ([cfn] if cfn in rows else [])
            for f in order:
                for (cka, fl, dv, ct) in rows[f]:
                    tab[cka] = (fl, dv, ct, f)
        out[t] = {'new': ctors, 'rows': tab, 'impl': im}
    return out


def per_element(ctx, f, atoms, fields=(), extra=None):
    """facts holding at the end of each iteration of each loop over a template in f (and of each non-failing call of a
    closure of f applied per element): [(collection term, facts)]"""
    out = []

    class R(E.Rule):
        name = 'per-element'
        K = 80
        event_site = True

        def atom(s, n):
            return n.endswith(atoms)

        def field(s, o, n):
            return n in fields

        def event(s, n):
            return n == NEXT or (extra is not None and extra(n))

        def opaque(s, n):
            return n.endswith('from_ck_attr')

        def sink(s, n, a=(), fn=None):
            s.fn = fn
            return n == NEXT

        def ok(s, sink, args, fs):
            it = mk('ev', NEXT, (mk('k', s.site[0], s.site[1]),))
            ty = ctx.P.fns[s.fn]['locals']
            if it in fs and any(q.k == 'p' and q.a[0] < len(ty) and 'CK_ATTRIBUTE' in ty[q.a[0]] for q in subs(args[0])):
                out.append((args[0], dict((a, o) for a, o in fs.items() if not (a.k == 'ev' and a.a[0] == NEXT))))
            return True
    e = E.Engine(ctx.P, R())
    rl, _ = e.summary(f)
    for clo in all_closures(ctx.P, f):
        if clo in e.relevant:
            rel = [(r, fs) for r, fs in e.summary(clo)[0]]
            for r, fs in rel:
                if r.k == 'S' and any(r2.k == 'F' for r2, _ in rel):
                    out.append((mk('clo', clo, ()), dict(fs)))
    ctx.analysed |= set(e.sums)
    ctx.stats['functions_interpreted'] += e.stats['functions']
    ty = ctx.P.fns[f]['locals']

    class X(E.Rule):
        name = 'every-element'
        K = 200

        def atom(s, n):
            return n == NEXT
    rx = E.Engine(ctx.P, X()).summary(f)[0]
    early = [r for r, fs in rx if r.k == 'S' and any(
        o == 'S' and iscall(a, 'Iterator::next') and any(q.k == 'p' and q.a[0] < len(ty) and 'CK_ATTRIBUTE' in ty[q.a[0]] for q in subs(a))
        for a, o in fs)]
    ctx.ob('%s|every element' % short(f), not early, ctx.where(f), '%s succeeds before it has looked at every attribute of the template' % f)
    return out, rl
