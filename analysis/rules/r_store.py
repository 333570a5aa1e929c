"""Rules about persistent storage."""
from common import *
from r_auth import errret
import collections

RES = 'core::result::Result<'


STORMODS = (LIB + '::storage::',)


def primitive(P, n, f):
    """calls into the database library, the file system (from the storage modules) and the storage interfaces"""
    if n.startswith('rusqlite::') or n.startswith(LIB + '::storage::Storage::') or n.startswith(LIB + '::storage::format::StorageRaw::'):
        return True
    return '::storage::' in f and (n.startswith('std::fs::') or n.startswith('std::io::'))


def resty(fn, dest):
    return dest is not None and len(dest) == 1 and fn['locals'][dest[0]].startswith(RES)


class Site(E.Rule):
    """the outcome of one call, and whether it was made"""
    name = 'site'
    K, KS = 48, 16
    event_site = True
    params = False

    def __init__(self):
        self.at = self.site = None
        self.args = ()

    def atom(self, n):
        return False

    def event(self, n):
        return self.at is not None and self.site == self.at

    def atomv(self, v):
        return len(v.a) > 2 and v.a[2] == (self.at[1],)

    def opaque(self, n):
        return True

    def on_call(self, st, name, args, ret, fn):
        if self.at is not None and self.site == self.at:
            self.args = args

    def forget(self, st, a, o):
        if a.k == 'call' and self.atomv(a):
            st.facts[mk('ev', 'done' if o == 'S' else 'lost', ())] = 1

    def mergekey_facts(self, fs):
        return frozenset((a, o) for a, o in fs if a.k in ('ev', 'call'))


def swallowed(P, f, b):
    """returns of f that report success although the call in block b failed or its outcome was not looked at"""
    if not hasattr(P, '_siteeng'):
        P._siteeng = E.Engine(P, Site())
    e = P._siteeng
    R = e.R
    R.at = (f, b)
    e.sums.clear()
    e.relc.clear()
    rl, _ = e.summary(f)
    if any(r.k == 'u' and r.a[1:] == ('merge',) for r, fs in rl):
        R.K, R.KS = 400, 200        # keep the paths apart
        e.sums.clear()
        rl, _ = e.summary(f)
        R.K, R.KS = Site.K, Site.KS
    out = []
    for r, fs in rl:
        fd = dict(fs)
        if not any(a.k == 'ev' for a in fd):
            continue
        calls = [(a, o) for a, o in fs if a.k == 'call' and R.atomv(a)]
        if errret(r):
            continue
        lost = any(a.k == 'ev' and a.a[0] == 'lost' for a in fd)
        if not lost and (any(o == 'S' for a, o in calls) or any(a.k == 'ev' and a.a[0] == 'done' for a in fd)):
            continue
        if any(a.k == 'call' and R.atomv(a) for a in allsubs((r,))):
            continue
        # the error value was compared with particular codes: those
        codes = set()
        for a, o in fs:
            if a.k != 'call' or not R.atomv(a):
                if any(x.k == 'err' and x.a[0].k == 'call' and R.atomv(x.a[0]) for x in subs(a)):
                    if isinstance(o, int) and not isinstance(o, bool):
                        codes.add(('rv' if a.k == 'call' and a.a[0].endswith('::rv') else a.a[1] if a.k == 'disc' else '', o))
        out.append((r, [o for a, o in calls], lost, codes))
    return out


# answers of the storage that mean "there is nothing (yet)", not a failure: the token is not initialized, no PIN was set, the
# back end has no PIN for this kind of user, the query found no row
ABSENT = ('CKR_CRYPTOKI_NOT_INITIALIZED', 'CKR_USER_PIN_NOT_INITIALIZED', 'CKR_USER_TYPE_INVALID')


def stor_fns(P):
    """functions whose Result can carry a failure of the storage"""
    sites = collections.defaultdict(list)
    for f, cl in P.calls.items():
        if P.fns[f]['crate'] == LIB:
            for b, fr, args, dest, line in cl:
                sites[f].append((b, E.Engine.cname(None, fr, f) or '', F.targets(P, fr), dest, line))
    res = [f for f in sites if P.fns[f]['locals'][0].startswith(RES)]
    stor = set(f for f in res if any(primitive(P, n, f) for b, n, t, d, l in sites[f]))
    while True:
        new = [f for f in res if f not in stor and any(g in stor for b, n, t, d, l in sites[f] for g in t)]
        if not new:
            return stor, sites
        stor.update(new)


def C21(ctx):
    P = ctx.P
    ctx.rule('the Result of every call of a storage interface method, of the database library, and of every function that passes such a Result on, is passed on '
             'as an error, on every path on which the caller reports success it is known to be Ok; other error codes than the listed "not there" answers are never turned into success')
    stor, sites = stor_fns(P)
    absent = set(constval(P, c) for c in ABSENT)
    norows = None
    for v, (nm, fl) in enumerate(P.adts.get('rusqlite::error::Error', {'v': []})['v']):
        if nm == 'QueryReturnedNoRows':
            norows = v
    n = 0
    prim = 0
    for f in sorted(sites):
        for b, name, t, d, l in sites[f]:
            p = primitive(P, name, f)
            if not resty(P.fns[f], d) or not (p or any(g in stor for g in t)):
                continue
            n += 1
            prim += p
            bad = ''
            for r, outc, lost, codes in swallowed(P, f, b):
                if any(a == 'rv' and o in absent for a, o in codes) or any('rusqlite' in a and o == (9 if norows is None else norows) for a, o in codes):
                    continue
                args = P._siteeng.R.args
                if p and any(x.k == 's' and x.a[0].lstrip('\x01').lstrip().upper().startswith('DROP ') for x in allsubs(args)):
                    continue        # the table may not exist, and the CREATE statement that follows fails if it still does
                cc = sorted(o for a, o in codes if a == 'rv')
                bad = '%s returns %s although %s failed%s' % (short(f), E.show(r)[:40], name.split('::')[-1], ' with code %s' % hex(cc[0]) if cc else ' or was not looked at')
                key = '%s|%s%s' % (short(f), name.split('::')[-1], '|' + hex(cc[0]) if cc else '')
                ctx.ob('swallow|' + key, False, ctx.where(f, l), bad)
            if not bad:
                ctx.ob('swallow|%s|%s' % (short(f), name.split('::')[-1]), True, ctx.where(f, l))
    ctx.floor('calls that can carry a storage failure', n, 200)
    ctx.floor('calls of the storage interfaces and the database library', prim, 80)


def sqltext(args):
    """the constant text in the arguments of a statement, upper case"""
    return ' '.join(x.a[0] for x in allsubs(args) if x.k == 's').replace('\x01', ' ').strip().upper()


def rq(n, *m):
    return n.startswith('rusqlite::') and n.split('::')[-1] in m


class Tx(E.Rule):
    name = 'tx'
    event_site = True
    params = False
    K, KS = 64, 32

    def atom(self, n):
        return rq(n, 'transaction', 'commit', 'unchecked_transaction')

    def sink(self, n, a=(), f=None):
        return rq(n, 'execute', 'execute_batch', 'insert', 'set_drop_behavior')

    def event(self, n):
        return rq(n, 'execute', 'execute_batch', 'insert', 'transaction', 'unchecked_transaction')

    def opaque(self, n):
        return not ('storage::sqlite' in n or 'storage::nssdb' in n)

    def mergekey_facts(self, fs):
        return (any(a.k == 'ev' and rq(a.a[0], 'execute', 'execute_batch', 'insert') for a, o in fs),
                frozenset(a for a, o in fs if a.k == 'ev' and rq(a.a[0], 'transaction', 'unchecked_transaction')),
                frozenset(o for a, o in fs if a.k == 'call' and rq(a.a[0], 'commit')))

    def ok(self, sink, args, fs):
        if sink.endswith('set_drop_behavior'):
            return args[1].k == 'adt' and args[1].a[1] in ('Rollback', 'Panic') or args[1].k == 'c' and args[1].a[0] in (0, 3)
        t = sqltext(args)
        if t.startswith(('PRAGMA', 'ATTACH', 'DETACH', 'ALTER TABLE')):
            return True
        return any(x.k == 'call' and rq(x.a[0], 'transaction', 'unchecked_transaction') for x in allsubs(args[:1]))


def C22(ctx):
    P = ctx.P
    ctx.rule('in the database back ends every data changing statement runs on a connection inside a transaction; a path that changed data reports success only after the commit of '
             'that one transaction succeeded; transactions roll back when dropped')
    roots = {}
    for f in P.fns:
        fn = P.fns[f]
        if fn['crate'] == LIB and fn.get('impl_tr') and fn['impl_tr'].split('<')[0].endswith(('storage::Storage', 'format::StorageRaw')) and \
                ('storage::sqlite' in f or 'storage::nssdb' in f):
            roots[short(f)] = f
    ctx.floor('functions of the storage interfaces in the database back ends', len(roots), 20)
    e = ctx.engine(Tx(), roots, 'tx')
    n = 0
    for nm, f in sorted(roots.items()):
        rl, _ = e.summary(f) if f in e.relevant else ([], 0)
        wr = False
        ncommit = ntwo = None
        for r, fs in rl:
            ex = [a for a, o in fs if a.k == 'ev' and rq(a.a[0], 'execute', 'execute_batch', 'insert')]
            tr = [a for a, o in fs if a.k == 'ev' and rq(a.a[0], 'transaction', 'unchecked_transaction')]
            cm = [o for a, o in fs if a.k == 'call' and rq(a.a[0], 'commit')]
            wr = wr or bool(ex and tr)
            if not ex or not tr or errret(r):
                continue
            if 'S' not in cm and not (r.k != 'S' and any(x.k == 'call' and rq(x.a[0], 'commit') for x in allsubs((r,)))):
                ncommit = r
            if len(tr) > 1:
                ntwo = r
        if wr:
            n += 1
            ctx.ob('tx|%s|committed' % nm, ncommit is None, ctx.where(f), '%s can report success (%s) for a change that was not committed' % (nm, E.show(ncommit)[:40] if ncommit else ''))
            ctx.ob('tx|%s|one' % nm, ntwo is None, ctx.where(f), '%s spreads its change over several transactions' % nm)
    ctx.floor('functions that change the database', n, 8)
    # statements that change data are reached from the interface functions only
    w = [k for k in P.fns if P.fns[k]['crate'] == LIB and any(rq(E.Engine.cname(None, fr, k) or '', 'execute', 'execute_batch', 'insert') for b, fr, a, d, l in P.calls[k])]
    reach = F.reach(P, list(roots.values()))
    for k in w:
        ctx.ob('covered|%s' % short(k), k in reach, ctx.where(k), 'a statement executed outside the functions of the storage interfaces')
    # above the raw storage: one call per change
    class Raw(E.Rule):
        event_site = True
        params = False

        def atom(s, n):
            return n.startswith(LIB + '::storage::format::StorageRaw::') and n.split('::')[-1] in ('store_obj', 'store_user', 'remove_by_uid', 'store_token_info', 'db_reset')
        event = atom
    e = E.Engine(P, Raw())
    n = 0
    for f in sorted(P.fns):
        fn = P.fns[f]
        if fn['crate'] != LIB or not (fn.get('impl_tr') or '').split('<')[0].endswith('storage::Storage') or f not in e.relevant or short(f).endswith('::reinit'):
            continue
        n += 1
        most = max([len([a for a, o in fs if a.k == 'ev']) for r, fs in e.summary(f)[0]] or [0])
        loop = any(inloop(P, g, b) for g in F.reach(P, [f]) for b, fr, a, d, l in P.calls.get(g, ()) if e.is_atom(E.Engine.cname(None, fr, g) or ''))
        ctx.ob('tx|%s|single' % short(f), most <= 1 and not loop, ctx.where(f), '%s makes several separate changes in the raw storage' % short(f))
    ctx.floor('functions that change the raw storage', n, 5)


def inloop(P, f, b):
    """block b of f can be reached again from itself"""
    bl = P.fns[f]['blocks']
    seen = set()
    st = list(succs(bl[b]))
    while st:
        x = st.pop()
        if x == b:
            return True
        if x in seen or x is None or x >= len(bl) or not bl[x]:
            continue
        seen.add(x)
        st.extend(succs(bl[x]))
    return False


def succs(blk):
    t = blk['t']
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'sw':
        return [x for _, x in t[2]] + [t[3]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'drop':
        return [t[2]]
    if k == 'assert':
        return [t[4]]
    return []


# ---------------------------------------------------------------- where the text of a statement comes from
INTS = ('u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'bool', 'u128', 'i128')
ITERM = ('format_with', 'map', 'for_each', 'filter', 'flat_map', 'filter_map', 'fold', 'retain')


class Origins(object):
    """backward slice of values: the constants, fields, calls and parameters they are made of (flow insensitive, all callers)"""

    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.idx = {}

    def index(self, f):
        ix = self.idx.get(f)
        if ix is not None:
            return ix
        fn = self.P.fns[f]
        defs = collections.defaultdict(list)
        muts = collections.defaultdict(list)      # local -> calls that get &mut of it
        refs = collections.defaultdict(set)       # reference local -> locals it borrows mutably
        for b, blk in enumerate(fn['blocks']):
            if not blk:
                continue
            for s in blk['s']:
                if s[0] == 'dead':
                    continue
                defs[s[0][0]].append(('rv', s[1]))
                if s[1][0] == 'ref' and s[1][1] or s[1][0] == 'raw':
                    refs[s[0][0]].add(s[1][2][0])
            t = blk['t']
            if t[0] == 'call':
                defs[t[3][0]].append(('call', t))
        for b, blk in enumerate(fn['blocks']):
            if blk and blk['t'][0] == 'call':
                for a in blk['t'][2]:
                    p = a.get('c') or a.get('m')
                    if p:
                        todo, seen = [p[0]], set()
                        while todo:
                            r = todo.pop()
                            if r in seen:
                                continue
                            seen.add(r)
                            for l in refs.get(r, ()):
                                if l != p[0]:
                                    muts[l].append((blk['t'], a))
                                todo.append(l)
                            if fn['locals'][r].startswith('&mut') and r <= fn['argc']:
                                muts[r].append((blk['t'], a))
        ix = self.idx[f] = (defs, muts)
        return ix

    def place(self, f, p, seen):
        fn = self.P.fns[f]
        flds = [x for x in p[1:] if isinstance(x, list) and x[0] == 'f']
        out = set()
        own = [x for x in flds if x[3] and x[3].split('<')[0] in self.P.adts and x[3].startswith(LIB)]
        if own:
            x = own[-1]
            return self.field(x[3], x[2], seen)
        return self.local(f, p[0], seen)

    def field(self, own, name, seen):
        """what is ever put into this field; the field itself where its type is not a string"""
        base = own.split('<')[0]
        ty = ''
        for v, fl in self.P.adts[base]['v']:
            for i, (n, t) in enumerate(fl):
                if n == name:
                    ty = t
        if not ('String' in ty or ty.endswith('str')) or 'Map<' in ty or 'Vec<' in ty or base.endswith('Config'):
            return {('field', base, name)}
        key = ('field', base, name)
        if key in seen:
            return set()
        if key in self.memo:
            return self.memo[key]
        seen = seen | {key}
        out = set()

        def ends(p):
            fl = [x for x in p[1:] if isinstance(x, list) and x[0] == 'f' and x[3] and x[3].split('<')[0] == base]
            return bool(fl) and fl[-1][2] == name
        for f, fn in self.P.fns.items():
            if fn['crate'] != LIB:
                continue
            for b, blk in enumerate(fn['blocks']):
                if not blk:
                    continue
                for s in blk['s']:
                    if s[0] == 'dead':
                        continue
                    rv = s[1]
                    if rv[0] == 'agg' and rv[1][0] == 'adt' and rv[1][1].split('<')[0] == base and name in rv[1][4]:
                        out |= self.opnd(f, rv[2][rv[1][4].index(name)], seen)
                    if ends(s[0]):
                        out |= self.rvalue(f, rv, seen)
                    elif len(s[0]) == 1 and (rv[0] == 'ref' and rv[1] or rv[0] == 'raw') and ends(rv[2]):
                        # what is written through the reference
                        for t, arg in self.index(f)[1].get(s[0][0], ()):
                            out |= self.mutation(f, t, arg, seen)
                        for t, arg in self.uses(f, s[0][0]):
                            out |= self.mutation(f, t, arg, seen)
                if blk['t'][0] == 'call' and ends(blk['t'][3]):
                    out |= self.callres(f, blk['t'], seen)
        self.memo[key] = out
        return out

    def uses(self, f, l):
        """calls that get the reference in l, also through reborrows and copies"""
        fn = self.P.fns[f]
        al = {l}
        while True:
            new = set()
            for blk in fn['blocks']:
                for s in (blk or {'s': ()})['s']:
                    if s[0] != 'dead' and len(s[0]) == 1 and s[0][0] not in al:
                        rv = s[1]
                        q = rv[2] if rv[0] in ('ref', 'raw') else (rv[1].get('c') or rv[1].get('m')) if rv[0] == 'use' else None
                        if q and q[0] in al:
                            new.add(s[0][0])
            if not new:
                break
            al |= new
        for blk in fn['blocks']:
            if blk and blk['t'][0] == 'call':
                for a in blk['t'][2]:
                    q = a.get('c') or a.get('m')
                    if q and q[0] in al:
                        yield blk['t'], a

    def opnd(self, f, o, seen):
        p = o.get('c') or o.get('m')
        if p is not None:
            return self.place(f, p, seen)
        k = o['k']
        if 'fn' in k:
            return set()
        if 'pr' in k:
            return {('const', '')}
        return {('const', k.get('s') or k.get('bs') or k.get('d') or '')}

    def plainint(self, t):
        t = t.replace('&', '').replace('mut ', '').strip()
        return t in INTS

    def closure_display(self, ty, seen):
        """what closures in this type hand to the formatting machinery, and what they return"""
        out = set()
        for c in self.P.fns:
            if '{closure#' in c and c.split('::')[-1].startswith('{closure') and c in ty:
                for b, fr, args, dest, line in self.P.calls[c]:
                    n = E.Engine.cname(None, fr, c) or ''
                    if 'Argument' in n or 'push_str' in n:
                        for a in args:
                            out |= self.opnd(c, a, seen)
                out |= self.local(c, 0, seen)
        return out

    def local(self, f, l, seen):
        if (f, l) in seen:
            return set()
        seen = seen | {(f, l)}
        if len(seen) > 60:
            return {('deep', f)}
        fn = self.P.fns[f]
        ty = fn['locals'][l]
        if self.plainint(ty):
            return {('int', '')}
        key = (f, l)
        if key in self.memo:
            return self.memo[key]
        out = set()
        defs, muts = self.index(f)
        if 1 <= l <= fn['argc']:
            got = False
            if fn['kind'] == 'closure':
                out.add(('closure', f))
                got = True
            for g in self.P.callers.get(f, ()):
                for b, fr, args, dest, line in self.P.calls[g]:
                    if f in F.targets(self.P, fr) and len(args) == fn['argc']:
                        out |= self.opnd(g, args[l - 1], seen)
                        got = True
            if not got:
                out.add(('param', short(f)))
        for kind, d in defs.get(l, ()):
            if kind == 'rv':
                out |= self.rvalue(f, d, seen)
            else:
                out |= self.callres(f, d, seen)
        for t, arg in muts.get(l, ()):
            out |= self.mutation(f, t, arg, seen)
        self.memo[key] = out
        return out

    def rvalue(self, f, rv, seen):
        k = rv[0]
        if k in ('use', 'cast', 'rep'):
            return self.opnd(f, rv[1] if k != 'cast' else rv[2], seen)
        if k in ('ref', 'raw'):
            return self.place(f, rv[2], seen)
        if k == 'agg':
            out = set()
            for o in rv[2]:
                out |= self.opnd(f, o, seen)
            return out
        if k in ('bin', 'un', 'disc', 'len'):
            return {('int', '')}
        return set()

    def callres(self, f, t, seen):
        n = E.Engine.cname(None, t[1], f) or '?'
        tg = [g for g in F.targets(self.P, t[1]) if g in self.P.fns and self.P.fns[g]['crate'] == LIB]
        out = set()
        if tg:
            for g in tg:
                out |= self.local(g, 0, seen)
            return out
        last = n.split('::')[-1]
        if n.startswith('rusqlite::'):
            return {('call', n)}
        fn = self.P.fns[f]
        args = t[2]
        if last in ITERM:
            for a in args[1:]:
                p = a.get('c') or a.get('m')
                ty = fn['locals'][p[0]] if p else ''
                if '{closure' in ty:
                    out |= self.closure_display(ty, seen)
                else:
                    out |= self.opnd(f, a, seen)
            return out
        for a in args:
            p = a.get('c') or a.get('m')
            if p and '{closure' in fn['locals'][p[0]] and 'Format' not in fn['locals'][p[0]]:
                out |= self.closure_display(fn['locals'][p[0]], seen)
            else:
                out |= self.opnd(f, a, seen)
        return out

    def mutation(self, f, t, arg, seen):
        n = E.Engine.cname(None, t[1], f) or '?'
        out = set()
        tg = [g for g in F.targets(self.P, t[1]) if g in self.P.fns and self.P.fns[g]['crate'] == LIB]
        i = [k for k, a in enumerate(t[2]) if a is arg][0]
        if tg:
            for g in tg:
                if len(t[2]) == self.P.fns[g]['argc'] and (g, i + 1) not in seen:
                    d, m = self.index(g)
                    for t2, a2 in m.get(i + 1, ()):
                        out |= self.mutation(g, t2, a2, seen | {(g, i + 1)})
            return out
        for a in t[2]:
            if a is not arg:
                out |= self.opnd(f, a, seen)
        return out


def C48(ctx):
    P = ctx.P
    ctx.rule('backward slice of the text argument of every call that prepares or runs a statement: it is made of constants, integers, configuration values and the '
             'ids kept in the handle table only')
    O = Origins(P)
    n = 0
    for f in sorted(P.fns):
        if P.fns[f]['crate'] != LIB:
            continue
        for b, fr, a, d, l in P.calls[f]:
            nm = E.Engine.cname(None, fr, f) or ''
            if not rq(nm, 'execute', 'prepare', 'execute_batch', 'query_row', 'prepare_cached', 'query_one', 'pragma_update') or 'Connection' not in nm or len(a) < 2:
                continue
            n += 1
            o = O.opnd(f, a[1], frozenset())
            bad = sorted(x for x in o if x[0] not in ('const', 'int', 'deep') and not (x[0] == 'field' and (x[1].endswith('Config') or x[1:] == (LIB + '::token::Handles', 'map'))))
            ctx.ob('text|%s|%s' % (short(f), nm.split('::')[-1]), not bad, ctx.where(f, l),
                   'the text of the statement contains data from %s' % ', '.join(' '.join(str(y).split('::')[-1] for y in x) for x in bad[:4]))
    ctx.floor('statements', n, 30)
