"""The API surface: initialization, function tables, null pointers, output lengths."""
from common import *
from r_auth import fieldset

STATET = 'kryoptic_lib::State'
NOINIT = ('C_Initialize', 'C_GetFunctionList', 'C_GetInterfaceList', 'C_GetInterface')
NOSESSION = ('C_Initialize', 'C_Finalize', 'C_GetInfo', 'C_GetFunctionList', 'C_GetSlotList', 'C_GetSlotInfo',
             'C_GetTokenInfo', 'C_GetMechanismList', 'C_GetMechanismInfo', 'C_InitToken', 'C_OpenSession',
             'C_CloseAllSessions', 'C_WaitForSlotEvent', 'C_GetInterfaceList', 'C_GetInterface')
MAPGET = ('::get', '::get_mut', '::contains_key', '::remove', '::remove_entry', '::get_key_value')


def initfields(P):
    """scalar fields of the global state that is_initialized (or, without it, anything) tests"""
    adt = P.adts.get(STATET)
    if not adt:
        return set()
    return set(n for _, fl in adt['v'] for n, t in fl if t in ('u64', 'u32', 'usize', 'bool', 'i64'))


def is_mapget(a):
    """lookup of a parameter in a map"""
    return a.k == 'call' and a.a[0].endswith(MAPGET) and 'Map' in a.a[0] and len(a.a[1]) == 2 and a.a[1][1].k == 'p'


def mapfield(v):
    while v.k in ('ok', 'S', 'elem'):
        v = v.a[0]
    return (v.a[2], v.a[1]) if v.k == 'f' else None


def nonerr(r):
    """the returned CK_RV may be CKR_OK"""
    if r.k == 'c':
        return r.a[0] == 0
    return not (iscall(r, 'Error::rv') or iscall(r, 'error::rv'))


class Init(E.Rule):
    name = 'initialized'
    K, KS = 60, 200
    keep_old = True

    def __init__(self, P, keep=()):
        self.ini = initfields(P)
        base = set(k for k, fn in P.fns.items() if fn.get('self') in (STATET, 'kryoptic_lib::slot::Slot'))
        self.rel_fns = F.rreach(P, base) | base
        self.direct = set(g for f in api(P).values() for g in P.edges[f] if g in P.fns and 'Result' in P.fns[g]['locals'][0])
        self.P = P

    def field(self, o, n):
        return o.endswith(STATET) and n in self.ini

    def wfield(self, o, n):
        return self.field(o, n)

    def atom(self, n):
        return n.endswith(MAPGET) and 'Map' in n

    # functions that can not touch the global state only have an outcome
    def opaque(self, n):
        return n in self.P.fns and n not in self.rel_fns and n not in self.direct

    def inline(self, f):
        return f in self.direct

    def event(self, n):
        return 'Map' in n and n.endswith(('::remove', '::remove_entry', '::retain', '::clear', '::drain', '::extract_if'))

    def field2(self, v):
        return v.k == 'f' and v.a[1] in self.ini and v.a[2] == STATET

    # what may be forgotten when paths are merged
    def mergekey_facts(self, fs):
        out = set()
        for a, o in fs:
            if self.field2(a) or (a.k in ('old', 'wr', 'new') and self.field2(a.a[0])):
                out.add((a.k, cval(a.a[1]) if a.k == 'new' else nonzero(o)))
            elif is_mapget(a):
                out.add((a.a[1][1], o))
        return frozenset(out)


def nonzero(o):
    return o not in (0, None) and not (isinstance(o, tuple) and not (o[0] == 'ne' and 0 in o[1]))


ASSUME_C15 = ['Error::rv of an error is not CKR_OK', 'the standard HashMap returns an entry only for a key that was inserted and not removed']


def C15(ctx):
    P = ctx.P
    A = api(P)
    rule = Init(P)
    if not rule.ini:
        ctx.missing('state field that tells initialization')
        return
    ctx.rule('every return of an API function that is not an error implies that the initialization mark of the global state was read nonzero; '
             'C_Initialize returns success only if it was zero and leaves it zero when it fails; C_Finalize leaves it zero')
    ctx.rule('every return of a session function that is not an error implies that the handle given was found in the map of sessions')
    e = E.Engine(P, rule)
    isx = rule.field2

    def marks(fs, what):
        """outcomes of the mark as it was at entry / at the end"""
        out = []
        for a, o in fs:
            if what == 'first' and (a.k == 'old' and isx(a.a[0])):
                out.append(o)
            if what == 'first' and isx(a) and not any(b.k == 'wr' and b.a[0] is a for b, _ in fs):
                out.append(o)
            if what == 'last' and a.k == 'new' and isx(a.a[0]):
                out.append(cval(a.a[1]))
        return out
    ninit = nses = 0
    maps = None   # the maps every session function looks its handle up in
    sums = {}
    for n in sorted(A):
        f = A[n]
        rl = e.summary(f)[0]
        ok = [(r, dict(fs)) for r, fs in rl if nonerr(r)]
        ctx.analysed.add(f)
        if n == 'C_Initialize':
            for r, fs in ok:
                m = marks(fs.items(), 'first')
                ctx.ob('init|C_Initialize|only-once', any(x == 0 for x in m), ctx.where(f),
                       'C_Initialize can succeed although the library is already initialized')
                l = marks(fs.items(), 'last')
                ctx.ob('init|C_Initialize|marks', bool(l) and all(x not in (0, None) for x in l), ctx.where(f),
                       'C_Initialize can succeed without marking the library as initialized')
            for r, fs in rl:
                if nonerr(r):
                    continue
                l = marks(fs, 'last')
                ctx.ob('init|C_Initialize|error-undone', not l or all(x == 0 for x in l), ctx.where(f),
                       'C_Initialize can fail (%s) and leave the library initialized' % E.show(r)[:80])
            continue
        if n in NOINIT or not ok:
            continue
        ninit += 1
        for r, fs in ok:
            ctx.ob('init|%s' % n, any(nonzero(x) for x in marks(fs.items(), 'first')), ctx.where(f),
                   '%s can return %s without a check that the library is initialized' % (n, E.show(r)[:60]))
        if n == 'C_Finalize':
            for r, fs in rl:
                l = marks(fs, 'last')
                if nonerr(r):
                    ctx.ob('init|C_Finalize|unmarks', bool(l) and all(x == 0 for x in l), ctx.where(f),
                           'C_Finalize can succeed and leave the library initialized')
        if n in NOSESSION:
            continue
        nses += 1
        sums[n] = ok
        for r, fs in ok:
            mine = set(mapfield(a.a[1][0]) for a, o in fs.items() if o in ('S', 1) and is_mapget(a) and E.show(a.a[1][1]) == 'arg1')
            if mine:
                maps = mine if maps is None else maps & mine
            good = bool(mine)
            ctx.ob('session|%s' % n, good, ctx.where(f),
                   '%s can return %s without having found the session of its handle' % (n, E.show(r)[:60]))
    ctx.floor('API functions that can succeed', ninit, 50)
    ctx.floor('session functions that can succeed', nses, 40)
    maps = set(m for m in maps or () if m)
    ctx.rule('a successful C_CloseSession removes its handle, a successful C_CloseAllSessions the handles of the slot, from the map (%s) in which every '
             'session function looks its handle up' % ', '.join(sorted('.'.join(m) for m in maps)))
    if not maps:
        return
    f = A.get('C_CloseSession')
    for r, fs in sums.get('C_CloseSession', ()):
        ctx.ob('close|C_CloseSession', any(a.k == 'ev' and mapfield(a.a[1][0]) in maps and a.a[0].endswith(('::remove', '::remove_entry')) and
                                           E.show(a.a[1][1]) == 'arg1' or
                                           o in ('S', 1) and is_mapget(a) and mapfield(a.a[1][0]) in maps and '::remove' in a.a[0] for a, o in fs.items()),
               ctx.where(f), 'C_CloseSession can succeed without removing the handle from the session map')
    f = A.get('C_CloseAllSessions')
    if f:
        rl = [(r, fs) for r, fs in e.summary(f)[0] if nonerr(r)]
        # removal one by one: the path that enters no loop has nothing to remove
        loop = any(a.k == 'ev' and mapfield(a.a[1][0]) in maps and a.a[0].endswith(('::remove', '::remove_entry')) for r, fs in rl for a, o in fs)
        for r, fs in rl:
            evs = [a for a, o in fs if a.k == 'ev' and mapfield(a.a[1][0]) in maps]
            good = loop or any(a.a[0].endswith(('::clear', '::drain')) for a in evs)
            for a in evs:
                if a.a[0].endswith(('::retain', '::extract_if')):
                    cl = [x for x in a.a[1][1:] if x.k == 'clo']
                    if not cl:
                        good = True     # not a closure of ours: assume it does what it is for
                    for x in cl:
                        cr = e.summary(x.a[0])[0]
                        cap = set(y for v, _ in cr for y in subs(v) if y.k == 'f' and y.a[0].k == 'p')
                        val = set(y for v, _ in cr for y in subs(v) if y.k == 'p' and E.show(y) == 'arg3')
                        res = returns(cr, dict([(y, 7) for y in cap | val]))
                        good = good or res == {0} or None in res
            ctx.ob('close|C_CloseAllSessions', good, ctx.where(f),
                   'C_CloseAllSessions can succeed without removing the sessions of the slot from the session map')


# ---------------------------------------------------------------- C16
def _sig(tr, *m):
    return set('%s::%s' % (tr, x) for x in m)


SIG = {}
for _n, _t in (('Encrypt', 'Encryption'), ('Decrypt', 'Decryption')):
    _m = _n.lower()
    SIG['C_%sInit' % _n] = _sig('Mechanism', _m + 'ion_new')
    SIG['C_%s' % _n] = _sig(_t, _m)
    SIG['C_%sUpdate' % _n] = _sig(_t, _m + '_update')
    SIG['C_%sFinal' % _n] = _sig(_t, _m + '_final')
    SIG['C_Message%sInit' % _n] = _sig('Mechanism', 'msg_%sion_op' % _m)
    SIG['C_%sMessage' % _n] = _sig('Msg' + _t, 'msg_' + _m)
    SIG['C_%sMessageBegin' % _n] = _sig('Msg' + _t, 'msg_%s_begin' % _m)
    SIG['C_%sMessageNext' % _n] = _sig('Msg' + _t, 'msg_%s_next' % _m, 'msg_%s_final' % _m)
SIG['C_EncryptInit'] = _sig('Mechanism', 'encryption_new')
SIG['C_MessageEncryptInit'] = _sig('Mechanism', 'msg_encryption_op')
for _n, _t in (('Sign', 'Sign'), ('Verify', 'Verify'), ('VerifySignature', 'VerifySignature')):
    _m = 'verify' if _t == 'VerifySignature' else _n.lower()
    SIG['C_%sInit' % _n] = _sig('Mechanism', {'Sign': 'sign_new', 'Verify': 'verify_new'}.get(_n, 'verify_signature_new'))
    SIG['C_%s' % _n] = _sig(_t, _m)
    SIG['C_%sUpdate' % _n] = _sig(_t, _m + '_update')
    SIG['C_%sFinal' % _n] = _sig(_t, _m + '_final')
SIG['C_DigestInit'] = _sig('Mechanism', 'digest_new')
SIG['C_Digest'] = _sig('Digest', 'digest')
SIG['C_DigestUpdate'] = _sig('Digest', 'digest_update')
SIG['C_DigestKey'] = _sig('Digest', 'digest_update')
SIG['C_DigestFinal'] = _sig('Digest', 'digest_final')
SIG['C_DigestEncryptUpdate'] = SIG['C_DigestUpdate'] | SIG['C_EncryptUpdate']
SIG['C_DecryptDigestUpdate'] = SIG['C_DigestUpdate'] | SIG['C_DecryptUpdate']
SIG['C_SignEncryptUpdate'] = SIG['C_SignUpdate'] | SIG['C_EncryptUpdate']
SIG['C_DecryptVerifyUpdate'] = SIG['C_VerifyUpdate'] | SIG['C_DecryptUpdate']
SIG['C_GenerateKey'] = _sig('Mechanism', 'generate_key')
SIG['C_GenerateKeyPair'] = _sig('Mechanism', 'generate_keypair')
SIG['C_WrapKey'] = _sig('Mechanism', 'wrap_key')
SIG['C_UnwrapKey'] = _sig('Mechanism', 'unwrap_key')
SIG['C_DeriveKey'] = _sig('Mechanism', 'derive_operation') | _sig('Derive', 'derive')
SIG['C_EncapsulateKey'] = _sig('Mechanism', 'encapsulate')
SIG['C_DecapsulateKey'] = _sig('Mechanism', 'decapsulate')
SIG['C_FindObjects'] = _sig('SearchOperation', 'results')
ALPHA = set().union(*SIG.values())
VERSIONS = {'CK_FUNCTION_LIST': (2, 40), 'CK_FUNCTION_LIST_3_0': (3, 0), 'CK_FUNCTION_LIST_3_2': (3, 2)}
FRONT = ('kryoptic_lib::fns::', 'kryoptic_lib::session::', 'kryoptic_lib::State', 'kryoptic_lib::slot::', 'kryoptic_lib::GlobalState')


def signature(P, f):
    """operations of the mechanism interface that the front end of f calls"""
    out, seen, st = set(), set(), [f]
    while st:
        x = st.pop()
        if x in seen or x not in P.fns:
            continue
        seen.add(x)
        for bb, fr, args, dest, line in P.calls.get(x, ()):
            n = E.Engine.cname(None, fr, x)
            s = short(n) if n else ''
            if s in ALPHA and n.startswith(LIB):
                out.add(s)
                continue
            if not x.startswith('kryoptic_lib::session::') or x == f:
                pass
            for g in F.targets(P, fr):
                if g.startswith(FRONT) or g in P.closures.get(x, ()) or P.fns[g]['crate'] == LIB and P.fns[g]['file'] == P.fns[x]['file']:
                    st.append(g)
        st.extend(P.closures.get(x, ()))
    return out, seen


def norm(n):
    return n.replace('_', '').lower()


def origin(P, f, op, depth=0):
    """where an operand of a static initialiser comes from: ('st', name, fields) or ('agg', type, operands) or ('v', value)"""
    if depth > 30:
        return None
    k = op.get('k')
    if k is not None:
        if 'st' in k:
            return ('st', k['st'], ())
        if 'v' in k:
            return ('v', k['v'])
        return None
    pl = op.get('c') or op.get('m')
    if not pl:
        return None
    loc, proj = pl[0], [p for p in pl[1:]]
    flds = tuple(p[2] for p in proj if isinstance(p, list) and p[0] == 'f')
    for b in P.fns[f]['blocks']:
        if not b:
            continue
        for s in b['s']:
            if s[0] == 'dead' or s[0] != [loc]:
                continue
            rv = s[1]
            o = None
            if rv[0] == 'use':
                o = origin(P, f, rv[1], depth + 1)
            elif rv[0] == 'ref':
                o = origin(P, f, {'c': rv[2]}, depth + 1)
            elif rv[0] == 'raw':
                o = origin(P, f, {'c': rv[2]}, depth + 1)
            elif rv[0] == 'cast':
                o = origin(P, f, rv[2], depth + 1)
            elif rv[0] == 'agg' and rv[1][0] == 'adt':
                o = ('agg', rv[1][1], dict(zip(rv[1][4], rv[2])))
            if o and flds:
                if o[0] == 'st':
                    o = ('st', o[1], o[2] + flds)
                elif o[0] == 'agg' and flds[0] in o[2]:
                    o = origin(P, f, o[2][flds[0]], depth + 1)
            return o
    return None


def version_of(P, f, op):
    """constant CK_VERSION operand as (major, minor)"""
    o = origin(P, f, op)
    if o and o[0] == 'agg':
        r = []
        for n in ('major', 'minor'):
            x = origin(P, f, o[2][n]) if n in o[2] else None
            if not x or x[0] != 'v':
                return None
            r.append(int(x[1]))
        return tuple(r)
    if o and o[0] == 'st':
        return static_version(P, o[1], o[2])
    return None


def aggs(P, f, ty):
    """aggregates of a type in a body: field -> operand"""
    for b in P.fns[f]['blocks']:
        for s in (b['s'] if b else ()):
            if s[0] != 'dead' and s[1][0] == 'agg' and s[1][1][0] == 'adt' and ty(s[1][1][1]):
                yield dict(zip(s[1][1][4], s[1][2])), s[1][1][1]


def static_version(P, st, flds):
    if st not in P.fns:
        return None
    if flds == ('version',):
        for d, _ in aggs(P, st, lambda t: 'CK_FUNCTION_LIST' in t):
            if 'version' in d:
                return version_of(P, st, d['version'])
    if flds == ():
        for d, _ in aggs(P, st, lambda t: t.endswith('CK_VERSION')):
            v = [origin(P, st, d[n]) for n in ('major', 'minor')]
            if all(x and x[0] == 'v' for x in v):
                return tuple(int(x[1]) for x in v)
    return None


def C16(ctx):
    P = ctx.P
    T = F.tables(P)
    ctx.rule('every entry of every function list is present; an entry shared by several lists is the same function; no function that can succeed serves two entries')
    ctx.rule('the operations of the mechanism interface reachable from the front end of an entry are those of its name (table of %d names); entries without such '
             'operations do not carry, and do not call, the implementation named after another entry' % len(SIG))
    ctx.rule('each interface descriptor points at a function list of the version it is listed with, and C_GetInterface returns a descriptor only if name and version match')
    byname = collections.defaultdict(dict)
    users = collections.defaultdict(set)
    n = 0
    adts = dict((k.split('::')[-1], v) for k, v in P.adts.items() if 'CK_FUNCTION_LIST' in k)
    for t, tab in T.items():
        ty = P.fns[t]['locals'][0].split('::')[-1].strip('>')
        want = set(x[0] for v in adts.get(ty, {'v': []})['v'] for x in v[1])
        for x in sorted(want | set(tab)):
            if x == 'version':
                continue
            n += 1
            f = tab.get(x)
            ctx.ob('entry|%s|%s' % (short(t), x), bool(f), ctx.where(t), 'entry %s of %s is empty' % (x, short(t)))
            if f:
                byname[x][t] = f
                users[f].add(x)
        v = static_version(P, t, ('version',))
        if ty in VERSIONS:
            ctx.ob('version|%s' % short(t), v in (None, VERSIONS[ty]), ctx.where(t), 'function list of type %s has version %s' % (ty, v))
        ctx.analysed.add(t)
    ctx.floor('function lists', len(T), 3)
    ctx.floor('entries', n, 250)
    names = dict((norm(x[2:]), x) for x in byname)
    for x, d in sorted(byname.items()):
        fs = set(d.values())
        ctx.ob('same|%s' % x, len(fs) == 1, ctx.where(sorted(fs)[0]), 'the lists have different functions for %s: %s' % (x, ', '.join(sorted(map(short, fs)))))
        for f in sorted(fs):
            ctx.analysed.add(f)
            sg, seen = signature(P, f)
            want = SIG.get(x, set())
            ctx.ob('behaviour|%s' % x, sg == want, ctx.where(f),
                   '%s performs %s, expected %s' % (x, ', '.join(sorted(sg)) or 'no operation', ', '.join(sorted(want)) or 'none'))
            if want:
                continue
            for g in sorted(seen):
                # the entry itself and what it calls first
                if g != f and not (g in P.edges[f] and g.startswith('kryoptic_lib::fns::')):
                    continue
                nm = g.split('::')[-1]
                other = names.get(norm(nm[3:] if nm.startswith('fn_') else nm))
                ctx.ob('name|%s' % x, other in (None, x), ctx.where(f), '%s is served by %s, the implementation of %s' % (x, short(g), other))
    e = E.Engine(P, Stub(P))
    for f, xs in sorted(users.items()):
        if len(xs) > 1:
            ctx.ob('distinct|%s' % '+'.join(sorted(xs)), not any(nonerr(r) for r, fs in e.summary(f)[0]), ctx.where(f),
                   '%s serves %s' % (short(f), ', '.join(sorted(xs))))
    # interfaces
    n = 0
    for f in sorted(P.fns):
        if P.fns[f]['crate'] != LIB:
            continue
        for d, ty in aggs(P, f, lambda t: t.startswith(LIB)):
            adt = dict(x for v in P.adts.get(ty, {'v': []})['v'] for x in v[1])
            fi = [k for k, t in adt.items() if t.endswith('CK_INTERFACE')]
            fv = [k for k, t in adt.items() if t.endswith('CK_VERSION')]
            if len(fi) != 1 or len(fv) != 1:
                continue
            o = origin(P, f, d[fi[0]])
            v = version_of(P, f, d[fv[0]])
            if not o or o[0] != 'st' or v is None:
                continue
            for di, _ in aggs(P, o[1], lambda t: t.endswith('CK_INTERFACE')):
                l = origin(P, o[1], di['pFunctionList'])
                if not l or l[0] != 'st':
                    continue
                n += 1
                ctx.analysed.add(o[1])
                ctx.ob('interface|%s' % short(o[1]), static_version(P, l[1], ('version',)) in (None, v), ctx.where(f),
                       'interface %s is listed as version %s but points at %s' % (short(o[1]), v, short(l[1])))
    ctx.floor('interfaces', n, 3)
    f = api(P).get('C_GetInterface')
    if f:
        class R(FieldRule):
            K = KS = 200

            def inline(s, g):
                return g in P.edges[f] and 'Result' in P.fns[g]['locals'][0]
        e = E.Engine(P, R('major', 'minor', atoms=('strcmp', 'CStr::to_bytes', 'CStr::to_str')))
        for r, fs in e.summary(f)[0]:
            if nonerr(r):
                # the application's version, when given, or the default one
                def eqf(name):
                    return [a for a, o in fs if o == 1 and a.k == 'bin' and a.a[0] == 'Eq' and all(x.k == 'f' and x.a[1] == name for x in a.a[1:])]
                ctx.ob('getinterface|version', bool(eqf('major')) and bool(eqf('minor')) or not fieldterms([(r, fs)], 'major'), ctx.where(f),
                       'C_GetInterface can return an interface whose version was not compared with the requested one')
                cmpn = [o for a, o in fs if iscall(a, 'strcmp')]
                ctx.ob('getinterface|name', not cmpn or 0 in cmpn, ctx.where(f),
                       'C_GetInterface can return an interface whose name differs')


class Stub(E.Rule):
    name = 'stub'
    loops = False

    def __init__(self, P):
        self.direct = set(g for f in api(P).values() for g in P.edges[f] if g in P.fns and 'Result' in P.fns[g]['locals'][0])

    def inline(self, f):
        return f in self.direct


# ---------------------------------------------------------------- C17
# functions of the standard library that read or write through a raw pointer -> indices of the pointers
PTRSINKS = (('slice::raw::from_raw_parts', (0,)), ('slice::raw::from_raw_parts_mut', (0,)), ('ptr::read', (0,)), ('ptr::write', (0,)),
            ('ptr::read_unaligned', (0,)), ('ptr::write_unaligned', (0,)), ('ptr::read_volatile', (0,)), ('ptr::write_volatile', (0,)),
            ('ptr::copy_nonoverlapping', (0, 1)), ('ptr::copy', (0, 1)), ('intrinsics::copy_nonoverlapping', (0, 1)), ('ptr::write_bytes', (0,)),
            ('c_str::CStr::from_ptr', (0,)), ('libc::strcmp', (0, 1)), ('libc::strlen', (0,)), ('libc::memcpy', (0, 1)), ('libc::memset', (0,)))
PTRMETH = ('offset', 'add', 'sub', 'cast', 'cast_mut', 'cast_const', 'wrapping_add', 'wrapping_offset', 'byte_add', 'byte_offset', 'into', 'from', 'clone')


def ptrsink(n):
    for s, ix in PTRSINKS:
        if n.endswith(s):
            return ix
    if '::const_ptr::' in n or '::mut_ptr::' in n:
        m = n.split('::')[-1]
        if m in ('read', 'write', 'read_unaligned', 'write_unaligned', 'copy_from', 'copy_to', 'copy_from_nonoverlapping', 'copy_to_nonoverlapping'):
            return (0,)
    return None


def ptrbase(v):
    """strip what does not turn a null pointer into another one"""
    while True:
        if v.k == 'call' and v.a[1] and v.a[0].split('::')[-1] in PTRMETH and ('ptr' in v.a[0] or v.a[0].split('::')[-1] in ('into', 'from', 'clone')):
            v = v.a[1][0]
        elif v.k in ('ok', 'S') and isinstance(v.a[0], E.V) and v.a[0].k == 'call' and v.a[0].a[0].split('::')[-1] in ('try_into', 'try_from'):
            v = v.a[0].a[1][0]
        else:
            return v


# pointers read again, from a parameter structure that the operation was created from, after their validation: where they are
# validated is an obligation of its own (see C17)
VALIDATED = (('CK_TLS12_KEY_MAT_PARAMS', 'pReturnedKeyMaterial'), ('CK_SSL3_KEY_MAT_OUT', 'pIVClient'), ('CK_SSL3_KEY_MAT_OUT', 'pIVServer'),
             ('CK_DERIVED_KEY', 'phKey'))


class Null(E.Rule):
    name = 'null'
    rawderef = True
    params = True
    K, KS = 48, 24

    def __init__(self, P, lemma=True):
        self.P = P
        self.lemma = lemma
        self.ft = {}
        for k, a in P.adts.items():
            for v, fl in a['v']:
                for n, t in fl:
                    self.ft[(k, n)] = t
        self.pt = {}

    def atom(self, n):
        return False

    def sink(self, n, a=(), f=None):
        return ptrsink(n) is not None and (f is None or self.P.fns[f]['crate'] == LIB)

    def opaque(self, n):
        return n in self.P.fns and self.P.fns[n]['crate'] != LIB

    def callerptr(self, v):
        """a pointer that comes from the application"""
        if v.k == 'p':
            # in an intermediate function: what the caller passes is looked at there; in an API function: a pointer of the application
            return True
        if v.k == 'f':
            t = self.ft.get((v.a[2], v.a[1]), '')
            return t.startswith('*') and v.a[2].startswith(LIB + '::pkcs11')
        return False

    def nonnull(self, v, fs):
        if v.k == 'f' and (v.a[2].split('::')[-1], v.a[1]) in VALIDATED and self.lemma:
            return True
        if fs.get(mk('isnull', v)) == 0:
            return True
        o = fs.get(v)
        if isinstance(o, tuple) and o[0] == 'ne' and 0 in o[1]:
            return True
        for a, o in fs.items():
            if v not in subs(a):
                continue
            if a.k == 'bin' and a.a[0] == 'Eq' and o == 0 and (a.a[1] is v or a.a[2] is v):
                x = a.a[2] if a.a[1] is v else a.a[1]
                if cval(x) == 0 or iscall(x, 'null') or iscall(x, 'null_mut'):
                    return True
            if a.k == 'call' and o == 'S' and a.a[1] and a.a[1][0] is v and a.a[0].split('::')[-1] in ('as_ref', 'as_mut', 'new'):
                return True
        return False

    def ok(self, sink, args, fs):
        ix = ptrsink(sink) if sink != 'deref' else (0,)
        for i in ix:
            v = ptrbase(args[i])
            if self.callerptr(v) and not self.nonnull(v, fs):
                return False
        return True


class NullOf(Null):
    """null tests of one field only"""
    name = 'nullof'
    KS = 16

    def __init__(self, P, own, fld):
        Null.__init__(self, P, False)
        self.own, self.fld = own, fld

    def nullrel(self, v):
        return v.a[0].k == 'f' and v.a[0].a[1] == self.fld and v.a[0].a[2].endswith('::' + self.own)

    def inline(self, f):
        return any(o.endswith('::' + self.own) and n == self.fld for o, n in fieldset(self.P, f))

    def sink(self, n, a=(), f=None):
        return False

    def mergekey_facts(self, fs):
        return frozenset((a, o) for a, o in fs if a.k == 'isnull' and self.nullrel(a))


def C17(ctx):
    P = ctx.P
    A = api(P)
    ctx.rule('every dereference of, slice from, or copy through a pointer that comes from an argument of an API function, or from a pointer field of a '
             'structure of the PKCS#11 headers, is reached only with a successful null test of that pointer')
    e = ctx.engine(Null(P), A, 'null')
    ctx.floor('dereference sites', len(e.sites), 150)
    # where the pointers of VALIDATED are tested
    ctx.rule('a pointer of a parameter structure that is read a second time, to return values, was tested by the operation that was created from it: null is an error')
    for own, fld in VALIDATED:
        good = bad = None
        for f in sorted(P.fns):
            if P.fns[f]['crate'] != LIB or '::fns::' in f or not any(o.endswith('::' + own) and n == fld for o, n in fieldset(P, f)):
                continue
            rets, _ = E.Engine(P, NullOf(P, own, fld)).summary(f)
            for r, fs in rets:
                for a, o in fs:
                    if a.k == 'isnull' and a.a[0].k == 'f' and a.a[0].a[1] == fld and a.a[0].a[2].endswith('::' + own) and o == 1:
                        if r.k == 'F':
                            good = f
                        else:
                            bad = f
        ctx.ob('null|validated|%s.%s' % (own, fld), good and not bad, ctx.where(bad or good) if bad or good else '', 'no function refuses a null %s' % fld)
