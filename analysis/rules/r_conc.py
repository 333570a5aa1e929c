"""C20: lock order.

Guards are followed through MIR (creation, move, drop); every point where a
lock is taken while a guard lives adds an edge to the order graph.
"""
import re
import collections
import facts as F
import engine as E
from lib import short

GUARD = re.compile(r"(?:RwLockReadGuard|RwLockWriteGuard|MutexGuard|MappedRwLockReadGuard|MappedRwLockWriteGuard|MappedMutexGuard"
                   r"|ReentrantLockGuard|cell::Ref|cell::RefMut)<")
ACQ = re.compile(r'(?:^|::)(RwLock|Mutex|ReentrantLock)::<T>::(read|write|lock)$')
CELL = re.compile(r'(?:^|::)RefCell::<T>::(borrow|borrow_mut)$')
TLS = re.compile(r'LocalKey::<(?:std::|core::)?(?:cell::)?RefCell<T>>::(with_borrow|with_borrow_mut|take|replace|set)$')
ONCE = re.compile(r'(?:OnceLock|OnceCell|LazyLock|Once|LazyCell)(?:::<T>|::<T, F>)?::(get_or_init|get_or_try_init|call_once|call_once_force|force)$')
TRY = re.compile(r'(?:^|::)(RwLock|Mutex|ReentrantLock)::<T>::(try_read|try_write|try_lock)$')


def gargs(t):
    """lock classes of the guards owned by a value of the printed type t"""
    out = []
    for m in GUARD.finditer(t):
        # is this occurrence behind a reference or raw pointer?
        pre = t[:m.start()]
        pre = re.sub(r'[\w:]*$', '', pre)
        if re.search(r"(&('\w+ )?(mut )?|\*const |\*mut )$", pre):
            continue
        d = 1
        i = m.end()
        while i < len(t) and d:
            d += (t[i] == '<') - (t[i] == '>' and t[i - 1] != '-')
            i += 1
        inner = t[m.end():i - 1]
        inner = re.sub(r"^'\w+, ", '', inner)
        out.append((cls(inner, 'cell' in m.group(0)), 'R' if 'Read' in m.group(0) or m.group(0) == 'cell::Ref<' else 'W'))
    return frozenset(out)


LENS = {}


def cls(inner, cell=False):
    n = re.sub(r'[\w]+::', '', inner)
    # array lengths are printed as the constant's name or as its value
    n = re.sub(r'; (\w+)\]', lambda m: '; %s]' % LENS.get(m.group(1), m.group(1)), n)
    return ('cell ' if cell else '') + n


class Held:
    """types -> classes, with the types of the crate that own guards"""

    def __init__(self, P):
        self.P = P
        LENS.clear()
        for k, v in P.consts.items():
            LENS[k.split('::')[-1]] = v[0]
        self.memo = {}
        self.own = {}
        ch = True
        while ch:
            ch = False
            for n, a in P.adts.items():
                if n.startswith(('core::', 'std::', 'alloc::')):
                    continue
                s = set()
                for v in a['v']:
                    for fld, ty in v[1]:
                        s |= self.of(ty)
                if s != self.own.get(n, set()):
                    self.own[n] = frozenset(s)
                    self.memo = {}
                    ch = True

    def of(self, t):
        r = self.memo.get(t)
        if r is None:
            if t.startswith('&') or t.startswith('*'):
                r = frozenset()
            else:
                r = gargs(t)
                for n, s in self.own.items():
                    if s and n in t and not re.search(r"(&('\w+ )?(mut )?|\*const |\*mut )" + re.escape(n) + r'(?!\w)', t):
                        if re.search(re.escape(n) + r'(?!\w)', t):
                            r |= s
            self.memo[t] = r
        return r


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'sw':
        return [x[1] for x in t[2]] + [t[3]]
    if k in ('call', 'assert'):
        return [t[4]] if t[4] is not None else []
    if k == 'drop':
        return [t[2]]
    return []


def mplace(o):
    return o.get('m') if isinstance(o, dict) else None


def operands(rv):
    k = rv[0]
    if k == 'agg':
        return rv[2]
    out = []
    for x in rv[1:]:
        if isinstance(x, dict):
            out.append(x)
    return out


def variants(ty, want):
    """type arguments carried by variant `want` of the wrapper types we know"""
    m = re.match(r"core::(?:result::Result|option::Option|ops::control_flow::ControlFlow)<(.*)>$", ty)
    if not m:
        return None
    s = m.group(1)
    d = 0
    parts = []
    cur = ''
    for i, ch in enumerate(s):
        if ch in '<([':
            d += 1
        if ch in ')]' or (ch == '>' and s[i - 1] != '-'):
            d -= 1
        if ch == ',' and d == 0:
            parts.append(cur.strip())
            cur = ''
            continue
        cur += ch
    parts.append(cur.strip())
    if 'Option' in ty.split('<')[0]:
        return parts[0] if want == 1 else ''
    if 'ControlFlow' in ty.split('<')[0]:
        return (parts[1] if len(parts) > 1 else '()') if want == 0 else parts[0]
    return parts[want] if want < len(parts) else None


def acquire(name, fr, args, fn):
    """(class, kind) a call blocks on, or None"""
    if ACQ.search(name):
        ta = (fr['fn'].get('ta') or ['?'])
        return cls(ta[0]), 'lock'
    if CELL.search(name):
        return 'cell ' + cls((fr['fn'].get('ta') or ['?'])[0]), 'cell'
    if TLS.search(name):
        return 'cell ' + cls((fr['fn'].get('ta') or ['?'])[0]), 'cell'
    if ONCE.search(name):
        return 'once ' + cls((fr['fn'].get('ta') or ['?'])[0]), 'once'
    return None


def holds(P, H, f):
    """per block: (entry set of (local, class)) -> events.
    yields (block, line, kind, what, heldset): kind 'acq' or 'call'"""
    fn = P.fns[f]
    bl = fn['blocks']
    loc = fn['locals']
    own = [H.of(t) for t in loc]
    if not any(own) and not any(acquire(E.Engine.cname(None, fr, f) or '', fr, a, f) for _, fr, a, _, _ in P.calls[f]):
        return []
    entry = {0: frozenset()}
    argc = fn.get('argc', 0)
    entry[0] = frozenset((i, c) for i in range(1, argc + 1) for c in own[i])
    work = [0]
    events = {}
    n = 0
    while work:
        b = work.pop()
        n += 1
        st = set(entry[b])
        ev = []
        B = bl[b]
        discs = {}
        for s in B['s']:
            if s[0] == 'dead':
                continue
            pl, rv, line = s[0], s[1], s[2]
            if rv[0] == 'disc':
                discs[pl[0]] = rv[1]
            got = set()
            for o in operands(rv):
                m = mplace(o)
                if m is not None and '*' not in m[1:]:
                    cs = {c for l, c in st if l == m[0]}
                    if cs:
                        if len(m) > 1 and rv[0] == 'use' and isinstance(pl, list) and len(pl) == 1:
                            cs = {c for c in cs if c in H.of(loc[pl[0]])}
                        if cs:
                            got |= cs
                            st = {(l, c) for l, c in st if not (l == m[0] and c in cs)}
            if got:
                st |= {(pl[0], c) for c in got}
            elif len(pl) == 1 and own[pl[0]]:
                st = {(l, c) for l, c in st if l != pl[0]}
        t = B['t']
        k = t[0]
        outs = []
        if k == 'call':
            fr, args, dest, nxt = t[1], t[2], t[3], t[4]
            name = E.Engine.cname(None, fr, f) or ''
            a = acquire(name, fr, args, f)
            gone = {mplace(o)[0] for o in args if mplace(o) is not None and '*' not in mplace(o)[1:]} if F.targets(P, fr) else ()
            if name.endswith('mem::drop'):
                gone = {mplace(o)[0] for o in args if mplace(o) is not None}
            ev.append((b, t[5], a, fr, frozenset(c for l, c in st if l not in gone), name))
            moved = set()
            for o in args:
                m = mplace(o)
                if m is not None and '*' not in m[1:]:
                    cs = {c for l, c in st if l == m[0]}
                    moved |= cs
                    st = {(l, c) for l, c in st if not (l == m[0] and c in cs)}
            if name.endswith(('Option::<T>::take', 'mem::take', 'mem::replace', 'Option::<T>::replace')) and args:
                # the value leaves the borrowed local
                r = (args[0].get('m') or args[0].get('c') or [None])[0]
                for s in B['s']:
                    if s[0] != 'dead' and s[0] == [r] and s[1][0] == 'ref' and len(s[1][2]) == 1:
                        cs = {c for l, c in st if l == s[1][2][0]}
                        moved |= cs
                        st = {(l, c) for l, c in st if l != s[1][2][0]}
            dc = own[dest[0]] if len(dest) == 1 else frozenset()
            if dc:
                st = {(l, c) for l, c in st if l != dest[0]}
                tg = F.targets(P, fr)
                lam = (fr.get('fn') or {}).get('cl') or any('fn' in c for c in _consts(args)) or not fr.get('fn')
                if (a and a[1] != 'once') or TRY.search(name) or tg or lam:
                    st |= {(dest[0], c) for c in dc}
                else:
                    st |= {(dest[0], c) for c in dc & moved}
            if nxt is not None:
                outs.append((nxt, frozenset(st)))
        elif k == 'drop':
            p = t[1]
            if len(p) == 1:
                ev.append((b, t[4] if len(t) > 4 else 0, None, ('drop', t[3]), frozenset(c for l, c in st if l != p[0]), ''))
                st = {(l, c) for l, c in st if l != p[0]}
            elif '*' not in p[1:]:
                cs = H.of(t[3]) if isinstance(t[3], str) else frozenset()
                st = {(l, c) for l, c in st if not (l == p[0] and c in cs)}
            outs.append((t[2], frozenset(st)))
        elif k == 'sw':
            op = t[1]
            pl = op.get('m') or op.get('c') if isinstance(op, dict) else None
            src = discs.get(pl[0]) if pl and len(pl) == 1 else None
            if src is not None and len(src) == 1:
                seen = set()
                for v, to in t[2]:
                    w = variants(loc[src[0]], int(v))
                    seen.add(int(v))
                    s2 = st
                    if w is not None:
                        keep = H.of(w)
                        s2 = {(l, c) for l, c in st if l != src[0] or c in keep}
                    outs.append((to, frozenset(s2)))
                s2 = st
                rest = [x for x in (0, 1) if x not in seen]
                if len(rest) == 1:
                    w = variants(loc[src[0]], rest[0])
                    if w is not None:
                        keep = H.of(w)
                        s2 = {(l, c) for l, c in st if l != src[0] or c in keep}
                outs.append((t[3], frozenset(s2)))
            else:
                outs = [(x, frozenset(st)) for x in succs(t)]
        else:
            outs = [(x, frozenset(st)) for x in succs(t)]
        events[b] = ev
        for to, s in outs:
            if to is None or bl[to] is None:
                continue
            o = entry.get(to)
            nw = s if o is None else o | s
            if nw != o:
                entry[to] = nw
                work.append(to)
    return [e for b in events for e in events[b]]


def _consts(args):
    out = []
    F.opconsts(args, out)
    return out


def callees(P, f, b, fr):
    tg = set(F.targets(P, fr)) | {c for c in (fr.get('fn') or {}).get('cl', []) if c in P.fns}
    for c in _consts(P.fns[f]['blocks'][b]['t'][2]):
        if 'fn' in c:
            tg |= set(F.targets(P, c))
    return tg


def strongest(h):
    d = {}
    for l, m in h:
        if d.get(l) != 'W':
            d[l] = m
    return frozenset(d.items())


def meet(a, b):
    da, db = dict(a), dict(b)
    return frozenset((l, 'W' if da[l] == db[l] == 'W' else 'R') for l in da if l in db)


def C20(ctx):
    P = ctx.P
    H = Held(P)
    ours = [f for f in P.fns if P.fns[f]['crate'] != 'ossl_sys']
    # direct acquisitions per function
    direct = collections.defaultdict(dict)
    for f in ours:
        for b, fr, a, d, l in P.calls[f]:
            n = E.Engine.cname(None, fr, f) or ''
            q = acquire(n, fr, a, f)
            if q:
                direct[f][q[0]] = (l, q[1])
    # transitive
    acq = {f: set(direct[f]) if f in direct else set() for f in P.fns}
    work = [f for f in acq if acq[f]]
    while work:
        f = work.pop()
        for c in P.callers[f]:
            if c in acq and not acq[f] <= acq[c]:
                acq[c] |= acq[f]
                work.append(c)
    # values whose drop takes a lock
    dropacq = {}
    for f in ours:
        if (P.fns[f].get('impl_tr') or '').endswith('ops::drop::Drop') and acq[f]:
            ty = re.sub(r'<.*', '', P.fns[f].get('self') or '')
            if ty:
                dropacq[ty] = acq[f]
    ev = {}
    sites = collections.defaultdict(list)     # fn -> [(caller, held)]
    for f in ours:
        ev[f] = holds(P, H, f)
        for b, line, a, fr, held, name in ev[f]:
            if not isinstance(fr, tuple):
                for g in callees(P, f, b, fr):
                    sites[g].append((f, held))
    # locks held at every call of a function, by all its callers
    TOP = None
    must = {f: TOP if sites[f] and P.callers[f] else frozenset() for f in ours}
    for f in ours:
        # a function that is referenced without being called here may run at any time
        if P.callers[f] - {c for c, _ in sites[f]}:
            must[f] = frozenset()
        if P.fns[f].get('abi') and P.fns[f]['abi'] != 'Rust':
            must[f] = frozenset()
    ch = True
    while ch:
        ch = False
        for f in ours:
            if must[f] == frozenset():
                continue
            n = TOP
            for c, h in sites[f]:
                if must.get(c) is TOP and c in must:
                    continue
                x = strongest(h | must.get(c, frozenset()))
                n = x if n is TOP else meet(n, x)
            if n is not TOP and n != must[f]:
                must[f] = n
                ch = True
    edges = {}            # (x, y) -> {(gates): (fn, line, via)}
    nheld = 0
    nacq = 0
    for f in ours:
        for b, line, a, fr, held, name in ev[f]:
            to = {}
            extra = None
            if a:
                nacq += 1
                to[a[0]] = short(f)
            if isinstance(fr, tuple):
                for ty, s in dropacq.items():
                    if re.search(re.escape(ty) + r'(?!\w)', fr[1]):
                        for c in s:
                            to[c] = 'drop of ' + ty
            else:
                for g in callees(P, f, b, fr):
                    for c in acq[g]:
                        to.setdefault(c, short(g))
                        if a and a[1] == 'once':
                            extra = a[0]
            if held and to:
                nheld += 1
            gates = frozenset(strongest(held | (must[f] or frozenset())))
            for h, m in held:
                for c in to:
                    edges.setdefault((h, c), {}).setdefault(gates, (f, line, to[c]))
            if extra:
                for c, via in to.items():
                    if via != short(f) or c != extra:
                        edges.setdefault((extra, c), {}).setdefault(gates, (f, line, via))
    ctx.rule('a lock is taken while another is held only in one global order')
    g = collections.defaultdict(set)
    for (x, y) in edges:
        g[x].add(y)
    # locks of which there is exactly one: those owned by a static
    single = set()
    for f in ours:
        for b, fr, a, d, l in P.calls[f]:
            n = E.Engine.cname(None, fr, f) or ''
            if re.search(r'(RwLock|Mutex)::<T>::new$', n) and P.fns[f]['kind'] in ('static', 'const', 'closure') \
                    and ('static' in (P.fns[f]['kind'], P.fns.get(P.fns[f].get('parent') or '', {}).get('kind'))):
                single.add(cls((fr['fn'].get('ta') or ['?'])[0]))
    ctx.single = single

    def excluded(p, q, cyc):
        """two holders that can not be there at the same time"""
        for l, m in p:
            if l in single and l not in cyc:
                for l2, m2 in q:
                    if l2 == l and 'W' in (m, m2):
                        return True
        return False

    def cycles(x, y):
        """simple cycles through edge x -> y"""
        out = []

        def go(p):
            for z in sorted(g[p[-1]]):
                if z == x:
                    out.append(p)
                elif z not in p and len(p) < 8:
                    go(p + [z])
        go([x, y])
        return out

    def possible(cyc):
        es = [(cyc[i], cyc[(i + 1) % len(cyc)]) for i in range(len(cyc))]

        def pick(i, chosen):
            if i == len(es):
                return chosen
            for gt in sorted(edges[es[i]], key=sorted):
                if not any(excluded(gt, o, cyc) for o in chosen):
                    r = pick(i + 1, chosen + [gt])
                    if r is not None:
                        return r
            return None
        return pick(0, [])
    for (x, y), inst in sorted(edges.items()):
        f, line, via = sorted(inst.values())[0]
        if x == y:
            ctx.ob('order|%s>%s' % (x, y), False, f, 'takes %s (through %s) while it is already held' % (y, via))
            continue
        bad = None
        for cyc in cycles(x, y):
            r = possible(cyc)
            if r is not None:
                bad = (cyc, r)
                break
        msg = ''
        if bad:
            cyc, r = bad
            fs = []
            for i in range(len(cyc)):
                k = edges[(cyc[i], cyc[(i + 1) % len(cyc)])][r[i]]
                fs.append('%s takes %s under %s' % (short(k[0]), cyc[(i + 1) % len(cyc)], cyc[i]))
            f = edges[(cyc[0], cyc[1])][r[0]][0]
            msg = 'no common order: ' + '; '.join(fs)
        ctx.ob('order|%s>%s' % (x, y), bad is None, f, msg)
    # initialisers of lazily initialised statics must not take locks: they run under the internal lock of the static
    for f in ours:
        for b, fr, a, d, l in P.calls[f]:
            n = E.Engine.cname(None, fr, f) or ''
            if n.endswith('LazyLock::<T, F>::new') or n.endswith('LazyCell::<T, F>::new'):
                tg = {c for c in (fr.get('fn') or {}).get('cl', []) if c in P.fns}
                for c in _consts(a):
                    if 'fn' in c:
                        tg |= set(F.targets(P, c))
                bad = set()
                for t in tg:
                    bad |= {c for c in acq[t]}
                ctx.ob('lazy|%s' % short(f), not bad, f, 'initialiser of a lazy static takes %s' % sorted(bad))
    ctx.floor('locks taken', nacq, 25)
    ctx.floor('calls under a lock that take another', nheld, 40)
    ctx.edges = edges
