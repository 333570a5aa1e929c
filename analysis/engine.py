"""Summary-based, path-sensitive must-fact dataflow over the extracted MIR.

Every function is abstractly interpreted once per rule: values are hash-consed
symbolic expressions over its parameters, the state is a set of disjuncts
(environment + facts about the outcome of the atoms the rule cares about).
Callees that can reach an atom or a sink are applied through their disjunctive
summaries (so checks may live in helpers, and sinks may too: an obligation a
callee cannot discharge is handed to its callers with the facts of that path);
everything else is opaque.  There is no solver: a branch is infeasible only if
it contradicts a fact already recorded on the same path.
"""
import sys, re, heapq, collections, json
import facts as F

sys.setrecursionlimit(20000)


class V(object):
    __slots__ = ('k', 'a', 'd')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return repr(self) < repr(o)


_tab = {}
MAXD = 16
SLACK = ('bin', 'not', 'disc', 'isS', 'len', 'ok')   # tests of a value of full depth


def _depth(x):
    if isinstance(x, V):
        return x.d
    if isinstance(x, tuple):
        m = 0
        for y in x:
            d = _depth(y)
            if d > m:
                m = d
        return m
    return 0


def mk(k, *a):
    key = (k, a)
    v = _tab.get(key)
    if v is None:
        d = 1 + _depth(a)
        if d > MAXD and k != '...' and not (k in SLACK and d <= MAXD + 4):
            a = tuple(trunc(x) for x in a)
            key = (k, a)
            v = _tab.get(key)
            if v is not None:
                return v
            d = 1 + _depth(a)
        v = V()
        v.k = k
        v.a = a
        v.d = d
        _tab[key] = v
    return v


def trunc(x):
    if isinstance(x, V):
        if x.d >= MAXD - 1:
            return mk('...', x.k, x.a[0] if x.a and isinstance(x.a[0], str) else '')
        return x
    if isinstance(x, tuple):
        return tuple(trunc(y) for y in x)
    return x


def short(n):
    return n.split('::')[-1] if not n.startswith('<') else n.split('::')[-1]


def show(v, depth=0):
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return '(' + ', '.join(show(x, depth + 1) for x in v) + ')'
        return str(v)
    if depth > 5:
        return '..'
    k, a = v.k, v.a
    if k == 'p':
        return 'arg%d' % a[0]
    if k == 'c':
        return str(a[1].split('::')[-1]) if len(a) > 1 and a[1] else str(a[0])
    if k == 'f':
        return '%s.%s' % (show(a[0], depth + 1), a[1])
    if k == 'call':
        return '%s(%s)' % (short(a[0]), ', '.join(show(x, depth + 1) for x in a[1]))
    if k == 'ok':
        return '%s?' % show(a[0], depth + 1)
    if k == 'bin':
        return '(%s %s %s)' % (show(a[1], depth + 1), a[0], show(a[2], depth + 1))
    return '%s(%s)' % (k, ', '.join(show(x, depth + 1) for x in a))


def subterms(v, seen=None):
    if seen is None:
        seen = set()
    if isinstance(v, V):
        if v in seen:
            return seen
        seen.add(v)
        for x in v.a:
            subterms(x, seen)
    elif isinstance(v, tuple):
        for x in v:
            subterms(x, seen)
    return seen


_subs = {}


def subs(v):
    s = _subs.get(v)
    if s is None:
        s = frozenset(subterms(v))
        _subs[v] = s
    return s


PURE = ('pure', '', '', '')
C0 = mk('c', 0, '')
C1 = mk('c', 1, '')
FNONE = mk('F', None)


def cval(v):
    return v.a[0] if v.k == 'c' else None


def is_c(v, *names):
    return v.k == 'c' and v.a[1] and v.a[1].split('::')[-1] in names


STD = {
    'core::option::Option': ('F', 'S'),
    'core::result::Result': ('S', 'F'),
    'core::ops::control_flow::ControlFlow': ('S', 'F'),
}
SN = {'Ok', 'Some', 'Continue'}
FN = {'Err', 'None', 'Break'}
TRANSP_OWN = ('alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull',
              'core::mem::manually_drop::ManuallyDrop', 'core::pin::Pin',
              'core::mem::maybe_uninit::MaybeUninit')

# identity on the first argument, success/failure preserved
IDENT = {
    'core::ops::try_trait::Try::branch', 'core::ops::deref::Deref::deref',
    'core::ops::deref::DerefMut::deref_mut', 'core::clone::Clone::clone',
    'core::convert::AsRef::as_ref', 'core::convert::AsMut::as_mut',
    'core::borrow::Borrow::borrow', 'core::borrow::BorrowMut::borrow_mut',
    'core::result::Result::<T, E>::map_err', 'core::result::Result::<T, E>::inspect_err', 'core::result::Result::<T, E>::ok',
    'core::result::Result::<T, E>::as_ref', 'core::result::Result::<T, E>::as_mut',
    'core::option::Option::<T>::ok_or', 'core::option::Option::<T>::ok_or_else',
    'core::option::Option::<T>::as_ref', 'core::option::Option::<T>::as_mut',
    'core::option::Option::<T>::as_deref', 'core::option::Option::<T>::as_deref_mut',
    'core::option::Option::<&T>::cloned', 'core::option::Option::<&T>::copied',
    'core::option::Option::<&mut T>::cloned',
    'core::result::Result::<&T, E>::cloned',
    'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice',
    'alloc::string::String::as_str', 'alloc::borrow::ToOwned::to_owned',
    'alloc::boxed::Box::<T>::new', 'core::hint::must_use',
    'alloc::borrow::Cow::<\'_, B>::to_mut', 'core::convert::Into::into',
    'alloc::string::String::as_bytes', 'core::str::<impl str>::as_bytes',
    'alloc::slice::<impl [T]>::to_vec', 'core::convert::From::from',
    'core::slice::<impl [T]>::iter', 'core::iter::traits::collect::IntoIterator::into_iter',
    'core::convert::TryFrom::try_from#S', 
    'core::bool::<impl bool>::clone',
}
LEN = {'core::slice::<impl [T]>::len', 'alloc::vec::Vec::<T, A>::len', 'alloc::string::String::len',
       'core::str::<impl str>::len'}
EMPTY = {'core::slice::<impl [T]>::is_empty', 'alloc::vec::Vec::<T, A>::is_empty',
         'alloc::string::String::is_empty', 'core::str::<impl str>::is_empty'}
NULL = {'core::ptr::mut_ptr::<impl *mut T>::is_null', 'core::ptr::const_ptr::<impl *const T>::is_null'}


class St(object):
    __slots__ = ('env', 'facts')

    def __init__(self, env, facts):
        self.env = env
        self.facts = facts

    def copy(self):
        return St(dict(self.env), dict(self.facts))

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.facts.items()))


class Rule(object):
    """Override what is needed."""
    name = 'rule'
    K = 40          # disjuncts kept per block before merging
    KS = 64         # disjuncts kept per summary
    keep_err = False
    keep_old = False     # facts on the former content of an overwritten field stay, on the term old(field)
    rawderef = False
    forget = None        # (state, term, outcome): a fact is dropped because its term is produced again

    def nullrel(self, v):
        return True
    event_site = False   # identify events by call site instead of arguments
    iteration = None   # called at each Iterator::next with the state the last iteration left (loops only)
    strs = ()       # comparisons with these strings are facts
    upvars = False  # follow writes through captured references (with keep_old)
    split_err = False   # different errors are never merged in summaries
    typed = ()      # functions of these names are told apart by their type arguments
    loops = False   # derive for-all facts from loops and any()/all()
    params = True   # keep facts purely about parameters in summaries

    def atom(self, name):        # callee is opaque and its outcome is a fact
        return False

    def sink(self, name, args=(), fn=None):
        return False

    def event(self, name):       # callee's execution is a fact ('ev', name, args)
        return False

    def opaque(self, name):      # do not descend even if it reaches an atom
        return False

    lens = False                 # comparisons with the length of a slice are facts

    def atomv(self, v):          # this very call's outcome is a fact
        return False

    def field(self, owner, name):   # reads of this field are atoms
        return False

    def wfield(self, owner, name):  # writes of this field are events / sinks
        return False

    def ok(self, sink, args, facts):
        return True

    def on_call(self, st, name, args, ret, fn):
        pass

    def on_drop(self, st, v, ty):
        pass

    def init_facts(self, fn):
        return {}

    def pure(self, name):        # two such calls with the same arguments have the same outcome
        return False

    def inline(self, fn):        # descend into this function though nothing in it concerns the rule
        return False


def capfield(P, clo, idx):
    """(owner, field) that a closure captured by mutable reference as its upvar idx"""
    if clo not in P.fns or P.fns[clo].get('parent') not in P.fns or not str(idx).isdigit():
        return None
    refs, ops = {}, None
    for b in P.fns[P.fns[clo]['parent']]['blocks']:
        for s in (b['s'] if b else ()):
            if len(s) < 2 or not isinstance(s[1], list):
                continue
            if s[1][0] == 'ref' and s[1][1] and len(s[0]) == 1:
                refs.setdefault(s[0][0], []).append(s[1][2])
            if s[1][0] == 'agg' and s[1][1][0] == 'closure' and s[1][1][1] == clo:
                ops = s[1][2]
    if ops is None or int(idx) >= len(ops):
        return None
    o = ops[int(idx)].get('m') or ops[int(idx)].get('c')
    r = refs.get(o[0], ()) if o and len(o) == 1 else ()
    last = r[0][-1] if len(r) == 1 and len(r[0]) > 1 else None
    return (last[3], last[2]) if isinstance(last, list) and last[0] == 'f' else None


def capwrites(P, k):
    """the fields a closure writes through references it captured"""
    if P.fns[k]['kind'] != 'closure':
        return ()
    memo = P.__dict__.setdefault('_capwrites', {})
    if k not in memo:
        up, out = {}, set()
        for b in P.fns[k]['blocks']:
            for s in (b['s'] if b else ()):
                if len(s) < 2 or not isinstance(s[1], list):
                    continue
                if s[1][0] == 'use' and len(s[0]) == 1:
                    o = s[1][1].get('c') or s[1][1].get('m')
                    if o and isinstance(o[-1], list) and o[-1][0] == 'f' and str(o[-1][3]) == 'closure:' + k:
                        up[s[0][0]] = o[-1][2]
        for b in P.fns[k]['blocks']:
            for s in (b['s'] if b else ()):
                if len(s) > 1 and isinstance(s[0], list) and len(s[0]) > 1 and s[0][-1] == '*':
                    i = up.get(s[0][0]) if len(s[0]) == 2 else s[0][-2][2] if isinstance(s[0][-2], list) and s[0][-2][0] == 'f' else None
                    c = capfield(P, k, i) if i is not None else None
                    if c:
                        out.add(c)
        memo[k] = out
    return memo[k]


def rawderefs(P, f):
    """(block, statement) -> locals of raw pointer type that are dereferenced there"""
    if not hasattr(P, '_rawd'):
        P._rawd = {}
    r = P._rawd.get(f)
    if r is not None:
        return r
    fn = P.fns[f]
    r = {}
    lt = fn['locals']

    def pl(p, at):
        if p and len(p) > 1 and p[1] == '*' and p[0] < len(lt) and lt[p[0]].startswith('*'):
            r.setdefault(at, []).append(p[0])

    def op(o, at):
        pl(o.get('c') or o.get('m'), at)
    for b, blk in enumerate(fn['blocks']):
        if not blk:
            continue
        for i, s in enumerate(blk['s']):
            if s[0] == 'dead':
                continue
            pl(s[0], (b, i))
            rv = s[1]
            if rv[0] in ('ref', 'disc'):
                pl(rv[2] if rv[0] == 'ref' else rv[1], (b, i))
            elif rv[0] != 'raw':
                for x in rv:
                    for y in (x if isinstance(x, list) else [x]):
                        if isinstance(y, dict):
                            op(y, (b, i))
        t = blk['t']
        if t[0] == 'call':
            for a in t[2]:
                op(a, (b, 't'))
            pl(t[3], (b, 't'))
        elif t[0] in ('sw', 'assert'):
            op(t[1], (b, 't'))
        elif t[0] == 'drop':
            pl(t[1], (b, 't'))
    P._rawd[f] = r
    return r


class Engine(object):
    def __init__(self, P, rule):
        self.P = P
        self.R = rule
        self.sums = {}
        self.prog = set()
        self.stats = collections.Counter()
        self.relc = {}
        self._atomn = {}
        self.live = {}
        self.sites = set()
        self.compute_relevant()
        self.recursive = set()

    # ---- names
    def cname(self, fr, fid):
        fn = fr.get('fn')
        if not fn:
            return '?'
        n = fn['p'] if 'tr' in fn else fn.get('r') or fn['p']
        if self is not None and self.R.typed and fn.get('ta') and n.rsplit('::', 1)[-1] in self.R.typed:
            return '%s<%s>' % (n, ','.join(re.sub(r"^\(|\)$| \+ '\w+", '', a).rsplit('::', 1)[-1] for a in fn['ta']))
        return n

    def is_atom(self, n):
        r = self._atomn.get(n)
        if r is None:
            r = bool(self.R.atom(n))
            self._atomn[n] = r
        return r

    def compute_relevant(self):
        P, R = self.P, self.R
        direct = set()
        for k in P.fns:
            hit = False
            for (bb, fr, args, dest, line) in P.calls[k]:
                n = self.cname(fr, k)
                if self.is_atom(n) or R.sink(n, None, k) or R.event(n):
                    hit = True
                    break
            if not hit and (self.uses_field(k) or R.inline(k)):
                hit = True
            if not hit and R.rawderef and rawderefs(P, k):
                hit = True
            if not hit and any(R.wfield(*x) for x in capwrites(P, k)):
                hit = True
            if not hit and R.upvars and P.fns[k]['kind'] == 'closure' and any(
                    isinstance(s[0], list) and len(s[0]) == 2 and s[0][1] == '*' for blk in P.fns[k]['blocks'] if blk for s in blk['s']):
                hit = True
            if hit:
                direct.add(k)
        seen = set()
        st = list(direct)
        while st:
            f = st.pop()
            if f in seen:
                continue
            seen.add(f)
            if self.blocked(f):
                continue
            st.extend(P.callers.get(f, ()))
        self.relevant = seen

    def canon(self, f):
        """name under which calls of fn id f appear"""
        fn = self.P.fns[f]
        return fn.get('impl_m') or f

    def blocked(self, f):
        n = self.canon(f)
        return self.is_atom(n) or self.R.opaque(n)

    def uses_field(self, k):
        R = self.R
        if R.field.__func__ is Rule.field and R.wfield.__func__ is Rule.wfield:
            return False
        if not hasattr(self.P, 'fieldidx'):
            idx = {}
            for kk, f in self.P.fns.items():
                s = set()
                for b in f['blocks']:
                    if b is None:
                        continue
                    self._fields(b, s)
                idx[kk] = s
            self.P.fieldidx = idx
        for (o, n) in self.P.fieldidx[k]:
            if R.field(o, n) or R.wfield(o, n):
                return True
        return False

    def _fields(self, x, s):
        if isinstance(x, list):
            if len(x) == 4 and x[0] == 'f' and isinstance(x[2], str):
                s.add((x[3], x[2]))
            else:
                for y in x:
                    if isinstance(y, (list, dict)):
                        self._fields(y, s)
        elif isinstance(x, dict):
            for y in x.values():
                if isinstance(y, (list, dict)):
                    self._fields(y, s)

    # ---- relevance of a value as a fact
    def rel(self, v):
        r = self.relc.get(v)
        if r is None:
            r = False
            for s in subs(v):
                if s.k == 'ev' or s.k == 'all' or s.k == 'some' or (s.k == 'isnull' and self.R.rawderef and self.R.nullrel(s)) or (s.k == 'call' and (self.is_atom(s.a[0]) or self.R.atomv(s))) or (s.k == 'len' and self.R.lens) or \
                        (s.k == 'f' and self.R.field(s.a[2], s.a[1])) or (s.k == 's' and s.a[0] in self.R.strs):
                    r = True
                    break
            self.relc[v] = r
        return r

    def ponly(self, v):
        """fact solely about parameters (no call results)"""
        k = ('po', v)
        r = self.relc.get(k)
        if r is None:
            ss = subs(v)
            r = v.d <= 4 and any(s.k == 'p' for s in ss) and \
                not any(s.k in ('call', 'u', 'cell', '...', 'idx') for s in ss)
            self.relc[k] = r
        return r

    # ---- liveness
    def liveness(self, f):
        fn = self.P.fns[f]
        r = self.live.get(f)
        if r is not None:
            return r
        if '_live' in fn:
            self.live[f] = fn['_live']
            return fn['_live']
        bl = fn['blocks']
        n = len(bl)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        succ = [[] for _ in range(n)]

        def pl_use(pl, i):
            if pl[0] not in dfn[i]:
                use[i].add(pl[0])
            for p in pl[1:]:
                if isinstance(p, list) and p[0] == 'i' and p[1] not in dfn[i]:
                    use[i].add(p[1])

        def op_use(o, i):
            p = o.get('c') or o.get('m')
            if p:
                pl_use(p, i)

        def pl_def(pl, i):
            if len(pl) == 1:
                dfn[i].add(pl[0])
            else:
                pl_use(pl, i)

        def rv_use(rv, i):
            for x in rv:
                if isinstance(x, dict):
                    op_use(x, i)
                elif isinstance(x, list):
                    if x and isinstance(x[0], dict):
                        for y in x:
                            op_use(y, i)
            if rv[0] in ('ref', 'raw'):
                pl_use(rv[2], i)
            if rv[0] == 'disc':
                pl_use(rv[1], i)

        flags = set()
        cand = {}
        bad = set()
        for i, b in enumerate(bl):
            if b is None:
                continue
            for s in b['s']:
                if s[0] == 'dead':
                    continue
                rv_use(s[1], i)
                pl_def(s[0], i)
                if len(s[0]) == 1 and fn['locals'][s[0][0]] == 'bool':
                    if s[1][0] == 'use' and 'k' in s[1][1]:
                        cand[s[0][0]] = 1
                    else:
                        bad.add(s[0][0])
            t = b['t']
            if t[0] == 'goto':
                succ[i] = [t[1]]
            elif t[0] == 'sw':
                op_use(t[1], i)
                succ[i] = [x[1] for x in t[2]] + [t[3]]
            elif t[0] == 'drop':
                pl_use(t[1], i)
                succ[i] = [t[2]]
            elif t[0] == 'call':
                for a in t[2]:
                    op_use(a, i)
                if t[1].get('op'):
                    op_use(t[1]['op'], i)
                pl_def(t[3], i)
                if t[4] is not None:
                    succ[i] = [t[4]]
                if len(t[3]) == 1:
                    bad.add(t[3][0])
            elif t[0] == 'assert':
                op_use(t[1], i)
                succ[i] = [t[4]]
            elif t[0] == 'ret':
                use[i].add(0)
        # drop flags: const-assigned bools only switched on right before a drop
        for i, b in enumerate(bl):
            if b is None:
                continue
            t = b['t']
            if t[0] == 'sw' and 'c' in t[1] and len(t[1]['c']) == 1:
                l = t[1]['c'][0]
                if l in cand and l not in bad:
                    o = bl[t[3]]
                    if o is not None and o['t'][0] == 'drop' and not o['s']:
                        flags.add(l)
        livein = [set() for _ in range(n)]
        ch = True
        order = list(range(n - 1, -1, -1))
        while ch:
            ch = False
            for i in order:
                if bl[i] is None:
                    continue
                o = set()
                for s in succ[i]:
                    o |= livein[s]
                ni = use[i] | (o - dfn[i])
                if ni != livein[i]:
                    livein[i] = ni
                    ch = True
        # RPO
        post = []
        seen = set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            x, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                post.append(x)
                stack.pop()
        rpo = {x: j for j, x in enumerate(reversed(post))}
        fn['_live'] = (livein, rpo, flags)
        self.live[f] = fn['_live']
        return fn['_live']

    # ---- evaluation
    def konst(self, c, f):
        if 'fn' in c:
            return mk('fnc', c['fn'].get('r') or c['fn']['p'])
        if 'pr' in c:
            fn = self.P.fns.get(c.get('d')) or self.P.fns.get(f)
            try:
                pb = fn['promoted'][c['pr']]
                return self.prom(pb, f)
            except Exception:
                return mk('u', f, 'prom%d' % c['pr'])
        if 'v' in c:
            return mk('c', int(c['v']), c.get('d', ''))
        if 's' in c:
            return mk('s', c['s'])
        if 'bs' in c:
            return mk('s', c['bs'])
        if 'st' in c:
            return mk('static', c['st'])
        if 'd' in c:
            return mk('kc', c['d'])
        t = c.get('t', '')
        return mk('k', t)

    def prom(self, pb, f):
        st = St({}, {})
        b = 0
        fn = {'blocks': pb['blocks'], 'locals': pb['locals'], 'key': f}
        for _ in range(40):
            blk = pb['blocks'][b]
            for s in blk['s']:
                if s[0] == 'dead':
                    continue
                self.write(st, s[0], self.rv(st, s[1], f, fn, (b, 0)), f, fn)
            t = blk['t']
            if t[0] == 'goto':
                b = t[1]
            elif t[0] == 'call':
                args = tuple(self.op(st, a, f) for a in t[2])
                n = self.cname(t[1], f)
                r = self.fold(n, args)
                self.write(st, t[3], r if r is not None else mk('call', n, args, ('prom', b)), f, fn)
                b = t[4]
            else:
                break
        return st.env.get(0, mk('u', f, 'prom'))

    def fold(self, n, args):
        if n.startswith('core::ops::bit::BitOr::bitor') and len(args) == 2 and args[0].k == 'c' and args[1].k == 'c':
            return mk('c', args[0].a[0] | args[1].a[0], '')
        if n.endswith('::union') and len(args) == 2 and args[0].k == 'c' and args[1].k == 'c':
            return mk('c', args[0].a[0] | args[1].a[0], '')
        if n.endswith('error::Error::rv') and args and args[0].k == 'c':
            return args[0]
        if n in ('core::ptr::null_mut', 'core::ptr::null') and not args:
            return mk('c', 0, '')
        return None

    def op(self, st, o, f):
        p = o.get('c') or o.get('m')
        if p is not None:
            return self.place(st, p, f)
        return self.konst(o['k'], f)

    def local(self, st, l, f):
        v = st.env.get(l)
        if v is None:
            v = mk('u', f, l)
        return v

    def place(self, st, pl, f):
        v = self.local(st, pl[0], f)
        for p in pl[1:]:
            v = self.proj(st, v, p, f)
        return v

    def proj(self, st, v, p, f):
        if p == '*':
            if v.k == 'addr':
                return v.a[0]
            m = st.env.get(('m', v, '*'))
            return m if m is not None else v
        k = p[0]
        if k == 'f':
            own = p[3]
            if own in TRANSP_OWN:
                return v
            if v.k == 'vv':
                b = v.a[0]
                n = v.a[1]
                if n in SN:
                    if b.k == 'S':
                        return b.a[0]
                    return mk('ok', b)
                if n in FN and own in STD:
                    if b.k == 'F':
                        return b.a[0] if b.a[0] is not None else mk('err', b)
                    return mk('err', b)
                if b.k == 'adt' and b.a[1] == n and p[1] < len(b.a[2]):
                    return b.a[2][p[1]]
                return mk('vf', b, n, p[1])
            m = st.env.get(('m', v, p[2]))
            if m is not None:
                return m
            if v.k in ('adt',) and p[1] < len(v.a[2]):
                return v.a[2][p[1]]
            if v.k in ('tuple', 'clo', 'arr'):
                t = v.a[0] if v.k != 'clo' else v.a[1]
                if p[1] < len(t):
                    return t[p[1]]
            if v.k == 'bin' and v.a[0].endswith('WithOverflow'):
                if p[1] == 0:
                    if any(x.k == 'c' and x.a[0] == 0 for x in v.a[1:]):
                        return self.binop(v.a[0][:-12], v.a[1], v.a[2])
                    return mk('bin', v.a[0][:-12], v.a[1], v.a[2])
                return mk('ovf', v)
            return mk('f', v, p[2], own)
        if k == 'v':
            return mk('vv', v, p[2])
        if k == 'i':
            return mk('idx', v, self.local(st, p[1], f))
        if k == 'c':
            if v.k == 'arr' and not p[2] and p[1] < len(v.a[0]):
                return v.a[0][p[1]]
            return mk('idx', v, mk('c', p[1], ''))
        return v

    def write(self, st, pl, v, f, fn):
        if len(pl) == 1:
            st.env[pl[0]] = v
            return
        base = self.local(st, pl[0], f)
        if base.k == 'u' and pl[0] not in st.env:
            base = mk('cell', f, pl[0], 0)
            st.env[pl[0]] = base
        pr = pl[1:]
        for p in pr[:-1]:
            base = self.proj(st, base, p, f)
        last = pr[-1]
        if last == '*':
            cap = capfield(self.P, base.a[2][8:], base.a[1]) if base.k == 'f' and str(base.a[2]).startswith('closure:') else None
            if base.k == 'f' and str(base.a[2]).startswith('closure:') and (self.R.upvars or cap and self.R.keep_old and self.R.field(*cap)):
                # a captured reference; the caller knows to what
                st.facts = {a: o for a, o in st.facts.items() if not (a.k == 'new' and a.a[0] is base)}
                st.facts[mk('wr', base)] = 1
                st.facts[mk('new', base, v)] = 1
            st.env[('m', base, '*')] = v
            self.wrote(st, base, ('', '*'), v, f)
            if cap:
                self.wrote(st, mk('f', base, 'captured', base.a[2]), cap, v, f)
        elif last[0] == 'f':
            if base.k in ('adt', 'tuple') and len(pl) == 2:
                tl = base.a[2] if base.k == 'adt' else base.a[0]
                if last[1] < len(tl):
                    tl = tl[:last[1]] + (v,) + tl[last[1] + 1:]
                    nb = mk('adt', base.a[0], base.a[1], tl) if base.k == 'adt' else mk('tuple', tl)
                    st.env[pl[0]] = nb
                    return
            # facts about the old content of the field no longer hold
            fv = mk('f', base, last[2], last[3])
            kept = self.R.keep_old and self.R.field(last[3], last[2])
            if kept:
                if fv in subs(v):
                    v = replace(v, fv, mk('old', fv) if mk('wr', fv) not in st.facts else mk('u', f, ('mid', last[2])))
                self.overwritten(st, fv, f)
                st.facts[mk('wr', fv)] = 1
                st.facts[mk('new', fv, v)] = 1
            else:
                for a in [a for a in st.facts if fv in subs(a)]:
                    o = st.facts.pop(a)
                    if self.R.forget is not None:
                        self.R.forget(st, a, o)
            st.env[('m', base, last[2])] = v
            if self.R.wfield(last[3], last[2]):
                self.wrote(st, base, (last[3], last[2]), v, f)

    def overwritten(self, st, fv, f=None):
        """a tracked field gets new content: facts about the old content move to old(field)"""
        again = mk('wr', fv) in st.facts
        # copies of the old content in plain locals
        if f in self.P.fns:
            lt = self.P.fns[f]['locals']
            for k, v in list(st.env.items()):
                if isinstance(k, int) and k < len(lt) and isinstance(v, V) and not any(x in lt[k] for x in '&*<') and fv in subs(v):
                    st.env[k] = mk('u', f, ('mid', fv.a[1])) if again else replace(v, fv, mk('old', fv))
        for a in [a for a in st.facts if fv in subs(a)]:
            if a.k == 'wr':
                continue
            if a.k == 'new':
                if a.a[0] is fv:
                    del st.facts[a]
                continue
            if any(x.k == 'old' and x.a[0] is fv for x in subs(a)):
                continue
            o = st.facts.pop(a)
            if not again:
                st.facts[replace(a, fv, mk('old', fv))] = o

    def wrote(self, st, base, fld, v, f):
        if self.R.wfield(fld[0], fld[1]):
            self.fieldwrites.append((base, fld, v))

    def rv(self, st, rv, f, fn, site):
        k = rv[0]
        if k == 'use':
            return self.op(st, rv[1], f)
        if k == 'ref' or k == 'raw':
            if self.R.rawderef and len(rv[2]) > 1 and rv[2][-1] == '*':
                v = self.place(st, rv[2][:-1], f)
                if v.k == 'addr':
                    return v
            v = self.place(st, rv[2], f)
            if self.R.rawderef and v.k == 'f' and isinstance(rv[2][-1], list) and rv[2][-1][0] == 'f':
                # the address of a field, not the pointer stored in it
                return mk('addr', v)
            if (k == 'raw' or rv[1]) and len(rv[2]) == 1 and v.k in ('c', 'S', 'F', 'tuple', 'adt', 'bin', 'not', 's', 'isS', 'arr', 'len', 'kc'):
                if v.k == 'adt' and v.a[0] not in ():
                    # keep field contents of a struct, as memory of a cell
                    c = mk('cell', f, rv[2][0], site[0])
                    names = self.adtfields(v.a[0])
                    for i, x in enumerate(v.a[2]):
                        if i < len(names):
                            st.env[('m', c, names[i])] = x
                    st.env[rv[2][0]] = c
                    return c
                c = mk('cell', f, rv[2][0], site[0])
                st.env[rv[2][0]] = c
                st.env[('m', c, '*')] = v
                return c
            return v
        if k == 'cast':
            v = self.op(st, rv[2], f)
            return v
        if k == 'bin':
            a, b = self.op(st, rv[2], f), self.op(st, rv[3], f)
            return self.binop(rv[1], a, b)
        if k == 'un':
            a = self.op(st, rv[2], f)
            if rv[1] == 'Not':
                return self.neg(a) 
            if rv[1] == 'PtrMetadata':
                return mk('len', a)
            return mk('un', rv[1], a)
        if k == 'disc':
            v = self.place(st, rv[1], f)
            return self.disc(v, rv[2])
        if k == 'agg':
            ops = tuple(self.op(st, x, f) for x in rv[2])
            ak = rv[1]
            if ak[0] == 'adt':
                if ak[1] in STD:
                    if ak[3] in SN:
                        return mk('S', ops[0] if ops else None)
                    return mk('F', ops[0] if ops else None)
                if ak[1] in TRANSP_OWN and ops:
                    return ops[0]
                return mk('adt', ak[1], ak[3], ops)
            if ak[0] == 'tuple':
                return mk('tuple', ops)
            if ak[0] == 'array':
                return mk('arr', ops)
            if ak[0] == 'closure':
                return mk('clo', ak[1], ops)
            return mk('u', f, site)
        if k == 'rep':
            return mk('rep', self.op(st, rv[1], f), rv[2])
        if k == 'setdisc':
            return mk('u', f, site)
        return mk('u', f, site)

    def adtfields(self, path):
        a = self.P.adts.get(path)
        if a and len(a['v']) == 1:
            return [x[0] for x in a['v'][0][1]]
        return []

    def neg(self, a):
        if a.k == 'c':
            if a.a[0] in (0, 1):
                return mk('c', 1 - a.a[0], '')
            return mk('not', a)
        if a.k == 'not':
            return a.a[0]
        return mk('not', a)

    def binop(self, o, a, b):
        if o == 'Ne':
            return self.neg(self.binop('Eq', a, b))
        if o == 'Gt':
            return self.binop('Lt', b, a)
        if o == 'Ge':
            return self.neg(self.binop('Lt', a, b))
        if o == 'Le':
            return self.neg(self.binop('Lt', b, a))
        if a.k == 'c' and b.k == 'c':
            x, y = a.a[0], b.a[0]
            if o == 'Eq':
                return C1 if x == y else C0
            if o == 'Lt':
                return C1 if x < y else C0
            if o == 'BitOr':
                return mk('c', x | y, '')
            if o == 'BitAnd':
                return mk('c', x & y, '')
            if o == 'Add':
                return mk('c', x + y, '')
            if o == 'Sub':
                return mk('c', x - y, '')
            if o == 'Mul':
                return mk('c', x * y, '')
        if o in ('Add', 'Sub') and b.k == 'c' and b.a[0] == 0:
            return a
        if o == 'Add' and a.k == 'c' and a.a[0] == 0:
            return b
        if o == 'Eq' and a.k == 'c' and b.k != 'c':
            a, b = b, a
        if o == 'Eq' and b.k == 'c' and a.k in ('isS', 'not') and b.a[0] in (0, 1):
            return a if b.a[0] == 1 else self.neg(a)
        if o == 'Eq' and a is b:
            return C1
        return mk('bin', o, a, b)

    def disc(self, v, ty):
        base = ty.lstrip('&').split('<')[0]
        if base in STD:
            if v.k in 'SF':
                out = STD[base].index(v.k)
                return mk('c', out, '')
            return mk('disc', v, base)
        if v.k == 'adt':
            a = self.P.adts.get(v.a[0])
            if a:
                for i, vv in enumerate(a['v']):
                    if vv[0] == v.a[1]:
                        return mk('c', i, '')
        return mk('disc', v, base)

    # ---- facts
    def lookup(self, st, a):
        return st.facts.get(a)

    def assume_eq(self, st, a, n):
        """a == integer n; False if contradictory"""
        if a.k == 'c':
            return a.a[0] == n
        if n == 0 and a.k == 'call' and a.a[0].endswith('error::Error::rv'):
            return False        # no error is built with the code CKR_OK
        if a.k == 'not':
            if n in (0, 1):
                return self.assume_eq(st, a.a[0], 1 - n)
            return True
        if a.k == 'isS':
            return self.assume_out(st, a.a[0], 'S' if n else 'F')
        if a.k == 'disc' and a.a[1] in STD:
            if n > 1:
                return False
            return self.assume_out(st, a.a[0], STD[a.a[1]][n])
        if a.k == 'bin' and a.a[0] == 'Eq':
            x, y = a.a[1], a.a[2]
            if y.k == 'c':
                if n:
                    return self.assume_eq(st, x, y.a[0])
                return self.assume_ne(st, x, y.a[0])
        c = st.facts.get(a)
        if c is not None:
            if isinstance(c, tuple):
                if n in c[1]:
                    return False
            elif c != n:
                return False
        st.facts[a] = n
        return True

    def assume_ne(self, st, a, n):
        if a.k == 'c':
            return a.a[0] != n
        if a.k in ('isS', 'not') or (a.k == 'disc' and a.a[1] in STD) or (a.k == 'bin' and a.a[0] in ('Eq', 'Lt')):
            if n in (0, 1):
                return self.assume_eq(st, a, 1 - n)
            return True
        c = st.facts.get(a)
        if c is None:
            st.facts[a] = ('ne', frozenset([n]))
        elif isinstance(c, tuple):
            st.facts[a] = ('ne', c[1] | {n})
        elif c == n:
            return False
        return True

    def assume_out(self, st, v, o):
        if v.k in ('S', 'F'):
            return v.k == o
        if v.k == 'map':
            return self.assume_out(st, v.a[0], o)
        c = st.facts.get(v)
        if c is not None and c in ('S', 'F'):
            return c == o
        st.facts[v] = o
        return True

    def known_out(self, st, v):
        if v.k in 'SF':
            return v.k
        c = st.facts.get(v)
        return c if c in ('S', 'F') else None

    # ---- substitution of callee summaries
    def subst(self, v, args, tag, memo):
        if isinstance(v, tuple):
            return tuple(self.subst(x, args, tag, memo) for x in v)
        if not isinstance(v, V):
            return v
        r = memo.get(v)
        if r is not None:
            return r
        k = v.k
        if k == 'p':
            i = v.a[0]
            r = args[i - 1] if i - 1 < len(args) else mk('u', 'arg', i)
        elif k in ('c', 's', 'static', 'kc', 'k', 'fnc', '...'):
            r = v
        elif k == 'u':
            r = mk('u', v.a[0], (tag, v.a[1])) if not (isinstance(v.a[1], tuple) and len(str(v.a[1])) > 60) else v
        elif k == 'call':
            s = v.a[2]
            if not (isinstance(s, tuple) and len(s) > 3):
                s = (tag,) + s if isinstance(s, tuple) else (tag, s)
            r = mk('call', v.a[0], self.subst(v.a[1], args, tag, memo), s)
        else:
            a = tuple(self.subst(x, args, tag, memo) for x in v.a)
            if k == 'f':
                b = a[0]
                if b.k in ('adt',):
                    names = self.adtfields(b.a[0])
                    if a[1] in names and names.index(a[1]) < len(b.a[2]):
                        r = b.a[2][names.index(a[1])]
                        memo[v] = r
                        return r
                if b.k in ('tuple',) and a[1].isdigit() and int(a[1]) < len(b.a[0]):
                    r = b.a[0][int(a[1])]
                    memo[v] = r
                    return r
                if b.k == 'clo' and a[1].isdigit() and int(a[1]) < len(b.a[1]):
                    r = b.a[1][int(a[1])]
                    memo[v] = r
                    return r
                m = self.curmem(b, a[1])
                if m is not None:
                    memo[v] = m
                    return m
                r = mk('f', *a)
            elif k == 'ok' and a[0].k == 'S':
                r = a[0].a[0]
            elif k == 'err' and a[0].k == 'F' and a[0].a[0] is not None:
                r = a[0].a[0]
            elif k == 'not':
                r = self.neg(a[0])
            elif k == 'bin':
                r = self.binop(*a) if a[0] in ('Eq', 'Lt', 'BitOr', 'BitAnd', 'Add', 'Sub') else mk('bin', *a)
            elif k == 'disc':
                r = self.disc(a[0], a[1])
            elif k == 'isS' and a[0].k in ('S', 'F'):
                r = C1 if a[0].k == 'S' else C0
            else:
                r = mk(k, *a)
        memo[v] = r
        return r

    def curmem(self, b, name):
        if self._substst is not None:
            return self._substst.env.get(('m', b, name))
        return None

    _substst = None

    # ---- summaries
    def summary(self, f):
        s = self.sums.get(f)
        if s is not None:
            return s
        if f in self.prog:
            self.recursive.add(f)
            return None
        self.prog.add(f)
        try:
            s = self.analyse(f)
        finally:
            self.prog.discard(f)
        self.sums[f] = s
        return s

    def analyse(self, f):
        fn = self.P.fns[f]
        self.stats['functions'] += 1
        saved = getattr(self, 'fieldwrites', None)
        self.fieldwrites = []
        livein, rpo, flags = self.liveness(f)
        env = {i: mk('p', i) for i in range(1, fn['argc'] + 1)}
        st0 = St(env, dict(self.R.init_facts(f)))
        pend_in = collections.defaultdict(list)
        seen = collections.defaultdict(set)
        pend_in[0].append(st0)
        heap = [(0, 0)]
        rets = {}
        pends = {}
        steps = 0
        merged = collections.Counter()
        sg = getattr(self, 'mgroups', None)
        self.mgroups = {}
        while heap:
            _, b = heapq.heappop(heap)
            sts = pend_in.pop(b, None)
            if not sts:
                continue
            # dedupe
            new = []
            for s in sts:
                self.prune(s, livein[b], flags)
                k = s.key()
                if k in seen[b]:
                    continue
                seen[b].add(k)
                new.append(s)
            if not new:
                continue
            if len(seen[b]) > self.R.K and len(new) > 1 or len(seen[b]) > 4 * self.R.K:
                self.stats['merges'] += 1
                m = self.merge(new, f, b)
                new = []
                for s in m:
                    k = s.key()
                    if k in seen[b] and merged[b]:
                        continue
                    seen[b].add(k)
                    new.append(s)
                merged[b] += 1
                if merged[b] > 200:
                    continue
            for s in new:
                steps += 1
                for (nb, ns) in self.step(f, fn, b, s, pends, rets):
                    pend_in[nb].append(ns)
                    heapq.heappush(heap, (rpo.get(nb, 0), nb))
        self.stats['steps'] += steps
        rl = self.mergerets(list(rets.items()))
        self.fieldwrites = saved
        self.mgroups = sg
        return (rl, pends)

    def prune(self, s, live, flags):
        lv = set()
        for l in list(s.env):
            if isinstance(l, int):
                if l not in live or l in flags:
                    del s.env[l]
                else:
                    lv.add(s.env[l])
        roots = set()
        for v in lv:
            roots |= subs(v)
        for a in list(s.facts):
            if self.rel(a):
                continue
            if self.R.params and self.ponly(a):
                continue
            # keep facts about values that are still reachable from live locals
            if a in roots or any(x in roots for x in a.a if isinstance(x, V) and x.k not in ('c', 'p', 'static', 'kc', 'k')):
                continue
            del s.facts[a]
        for m in [m for m in s.env if isinstance(m, tuple)]:
            b = m[1]
            if b.k in ('cell', 'u') and b not in roots and not any(b in subs(x) for x in s.facts):
                # memory of a local cell no longer reachable
                if not any(isinstance(v, V) and b in subs(v) for v in s.env.values()):
                    del s.env[m]

    @staticmethod
    def meet(x, y):
        """what two outcomes of the same loop have in common"""
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == 2 and len(y) == 2 and x[0] == y[0]:
            if x[1] == y[1] or y[1] == 'top':
                return x
            if x[1] == 'top':
                return y
            return (x[0], x[1] & y[1])
        return None

    def merge(self, sts, f, b):
        groups = collections.defaultdict(list)
        if hasattr(self.R, 'mergekey'):
            for s in sts:
                groups[self.R.mergekey(s)].append(s)
        else:
            # keep states apart that know different things about the rule's atoms
            for s in sts:
                r = s.env.get(0)
                groups[(self.rkey(r),
                        frozenset((a, o) for a, o in s.facts.items() if self.rel(a)))].append(s)
            self.mgroups.setdefault(b, set()).update(groups)
            if len(self.mgroups[b]) > self.R.K:
                groups = {0: sts}
                if hasattr(self.R, 'mergekey_facts'):
                    groups = collections.defaultdict(list)
                    for s in sts:
                        r = s.env.get(0)
                        groups[(self.rkey(r), self.R.mergekey_facts(s.facts.items()))].append(s)
        out = []
        for g in groups.values():
            base = g[0].copy()
            for s in g[1:]:
                for k in list(base.env):
                    if base.env[k] is not s.env.get(k):
                        if isinstance(k, int):
                            x, y = base.env[k], s.env.get(k)
                            if isinstance(x, V) and isinstance(y, V) and x.k == y.k and x.k in ('S', 'F'):
                                base.env[k] = mk('F', None) if x.k == 'F' else mk('S', mk('u', f, ('j', b, k)))
                            else:
                                base.env[k] = mk('u', f, ('j', b, k))
                        else:
                            del base.env[k]
                for a in list(base.facts):
                    if base.facts[a] != s.facts.get(a):
                        o = self.meet(base.facts[a], s.facts.get(a))
                        if o is None:
                            del base.facts[a]
                        else:
                            base.facts[a] = o
            out.append(base)
        return out

    def rkey(self, r):
        if r is None or r.k not in ('S', 'F'):
            return ''
        return r if r.k == 'F' and self.R.split_err else r.k

    def mergerets(self, rl):
        # rl: list of ((retV, factsfrozen), 1)
        out = [k for k, _ in rl]
        if len(out) <= self.R.KS:
            return out
        self.stats['summary_merges'] += 1
        g = collections.defaultdict(list)
        for r, fs in out:
            cls = r.k if r.k in ('S', 'F') else (r if r.k == 'c' else 'o')
            if cls == 'F' and self.R.split_err:
                cls = r
            mkx = self.R.mergekey_facts(fs) if hasattr(self.R, 'mergekey_facts') else 0
            g[(cls, mkx)].append((r, fs))
        res = []
        for (cls, _), l in g.items():
            fs = set(l[0][1])
            r = l[0][0]
            for r2, f2 in l[1:]:
                alls = [(a, o) for a, o in fs if isinstance(o, tuple)]
                d2 = dict((a, o) for a, o in f2 if isinstance(o, tuple)) if alls else {}
                fs &= f2
                for a, o in alls:
                    o = self.meet(o, d2.get(a))
                    if o is not None:
                        fs.add((a, o))
                if r2 is not r:
                    r = None
            if r is None:
                if cls == 'S':
                    r = mk('S', mk('u', 'ret', 'merge'))
                elif cls == 'F':
                    r = FNONE
                else:
                    r = mk('u', 'ret', 'merge')
            res.append((r, frozenset(fs)))
        return res

    def exportfacts(self, st, ret):
        fs = []
        rs = subs(ret) if isinstance(ret, V) else ()
        for a, o in st.facts.items():
            if self.rel(a) or (self.R.params and self.ponly(a)) or a in rs:
                fs.append((a, o))
        return frozenset(fs)

    def step(self, f, fn, b, st, pends, rets):
        blk = fn['blocks'][b]
        st = st.copy()
        for i, s in enumerate(blk['s']):
            if s[0] == 'dead':
                st.env.pop(s[1], None)
                continue
            if self.R.rawderef:
                self.dorawderef(f, st, pends, b, i, s[2] if len(s) > 2 else 0)
            v = self.rv(st, s[1], f, fn, (b, i))
            self.write(st, s[0], v, f, fn)
            if self.fieldwrites:
                self.dofieldwrites(f, st, pends, s[2] if len(s) > 2 else 0)
        t = blk['t']
        k = t[0]
        if self.R.rawderef and (b, 't') in rawderefs(self.P, f):
            self.dorawderef(f, st, pends, b, 't', t[5] if k == 'call' else 0)
        if k == 'goto':
            return [(t[1], st)]
        if k == 'sw':
            return self.switch(f, st, t)
        if k == 'ret':
            r = self.local(st, 0, f)
            if r.k not in ('S', 'F') and st.facts.get(r) == 'F':
                r = mk('F', mk('err', r))       # a result that was found to be an error is returned as it is
            if r.k == 'F' and not self.R.keep_err:
                r = FNONE
            ef = self.exportfacts(st, r)
            rets[(r, ef)] = 1
            return []
        if k == 'drop':
            v = self.place(st, t[1], f)
            self.R.on_drop(st, v, t[3])
            return [(t[2], st)]
        if k == 'assert':
            c = self.op(st, t[1], f)
            if not self.assume_eq(st, c, 1 if t[2] else 0):
                return []
            return [(t[4], st)]
        if k == 'call':
            return self.call(f, fn, b, st, t, pends)
        return []

    def dorawderef(self, f, st, pends, b, i, line):
        for l in rawderefs(self.P, f).get((b, i), ()):
            self.do_sink(f, 'deref', (self.local(st, l, f),), st, pends, line)

    def dofieldwrites(self, f, st, pends, line):
        for (base, fld, v) in self.fieldwrites:
            n = 'write:%s.%s' % fld
            self.do_sink(f, n, (base, v), st, pends, line, (f, n))
            self.R.on_write(st, base, fld, v, f) if hasattr(self.R, 'on_write') else None
        self.fieldwrites = []

    def switch(self, f, st, t):
        d = self.op(st, t[1], f)
        out = []
        if d.k == 'c':
            for v, bb in t[2]:
                if int(v) == d.a[0]:
                    return [(bb, st)]
            return [(t[3], st)]
        vals = []
        for v, bb in t[2]:
            n = int(v)
            vals.append(n)
            s2 = st.copy()
            if self.assume_eq(s2, d, n):
                out.append((bb, s2))
        s2 = st
        isb = t[4] == 'bool'
        if isb and len(vals) == 1:
            if self.assume_eq(s2, d, 1 - vals[0]):
                out.append((t[3], s2))
        else:
            ok = True
            for n in vals:
                if not self.assume_ne(s2, d, n):
                    ok = False
                    break
            if ok and d.k == 'disc' and d.a[1] in STD and len(vals) >= 2:
                ok = False
            if ok:
                out.append((t[3], s2))
        return out

    # ---- sinks and pendings
    def do_sink(self, f, name, args, st, pends, line, sid=None):
        self.stats['sink_evals'] += 1
        self.sites.add((f, name, line))
        fs = st.facts
        if self.R.ok(name, args, fs):
            self.stats['sink_ok_local'] += 1
            return
        self.add_pend(pends, (f, name, line), args, fs, ())

    def add_pend(self, pends, sid, args, fs, trace):
        key = (sid, args, frozenset((a, o) for a, o in fs.items() if self.rel(a) or self.ponly(a)))
        if key not in pends:
            if len(pends) > 4000:
                # collapse: keep facts common only (weaker, still reported)
                key = (sid, args, frozenset())
            pends.setdefault(key, trace)

    def apply_pends(self, f, b, g, gp, args, st, pends, line):
        for (sid, sargs, sf), tr in list(gp.items()):
            if len(tr) > 12:
                continue
            memo = {}
            a2 = self.subst(sargs, args, b, memo)
            s2 = St(st.env, dict(st.facts))
            good = True
            for a, o in sf:
                if not self.addfact(s2, self.subst(a, args, b, memo), o):
                    good = False
                    break
            if not good:
                continue
            self.stats['sink_evals'] += 1
            if self.R.ok(sid[1], a2, s2.facts):
                self.stats['sink_ok_caller'] += 1
                continue
            self.add_pend(pends, sid, a2, s2.facts, ((f, line),) + tr)

    def addfact(self, st, a, o):
        if o in ('S', 'F'):
            return self.assume_out(st, a, o)
        if isinstance(o, tuple) and o[0] == 'ne':
            for n in o[1]:
                if not self.assume_ne(st, a, n):
                    return False
            return True
        if isinstance(o, int):
            return self.assume_eq(st, a, o)
        st.facts[a] = o
        return True

    def modset(self, g):
        """(owner, field) pairs written by g, transitively"""
        P = self.P
        if not hasattr(P, '_mod'):
            P._mod = None
            direct = {}
            for k, f in P.fns.items():
                s = set()
                for bb in f['blocks']:
                    if bb is None:
                        continue
                    for x in bb['s']:
                        if x[0] != 'dead' and len(x[0]) > 1 and isinstance(x[0][-1], list) and x[0][-1][0] == 'f':
                            s.add((x[0][-1][3], x[0][-1][2]))
                direct[k] = s
            P._mod = {}
            P._dmod = direct
        r = P._mod.get(g)
        if r is None:
            r = set()
            for x in F.reach(P, [g]):
                r |= P._dmod[x]
            P._mod[g] = r
        return r

    def invalidate(self, st, fn, t, args, tg):
        for o, v in zip(t[2], args):
            p = o.get('c') or o.get('m')
            if not p:
                continue
            ty = fn['locals'][p[0]]
            if not (ty.startswith('&mut') or ty.startswith('&\'_ mut') or ty.startswith('*mut')):
                continue
            if v.k in ('c',):
                continue
            for m in [m for m in st.env if isinstance(m, tuple) and (m[1] is v or v in subs(m[1]))]:
                del st.env[m]
            if v.k in ('p', 'f', 'cell', 'u', 'ok', 'call'):
                mod = set()
                for g in tg:
                    mod |= self.modset(g)
                if mod:
                    for a in list(st.facts):
                        for s in subs(a):
                            if s.k == 'f' and (s.a[0] is v or v in subs(s.a[0])) and (s.a[2], s.a[1]) in mod:
                                if self.R.keep_old and self.R.field(s.a[2], s.a[1]):
                                    continue
                                o = st.facts.pop(a)
                                if self.R.forget is not None:
                                    self.R.forget(st, a, o)
                                break

    def fresh(self, st, v):
        """v is about to be produced again (loop): forget facts on its old value"""
        gone = [(a, o) for a, o in st.facts.items() if v in subs(a)]
        for a, o in gone:
            del st.facts[a]
        if self.R.forget is not None:
            for a, o in gone:
                self.R.forget(st, a, o)
        for m in [m for m in st.env if isinstance(m, tuple) and v in subs(m[1])]:
            del st.env[m]

    # ---- facts that hold for every element an exhausted loop has visited
    def elemfacts(self, facts, el):
        out = set()
        for a, o in facts.items():
            if a is not el and el in subs(a) and a.k not in ('all', 'some') and self.rel(a):
                out.add((replace(a, el, EL), o))
        return frozenset(out)

    def loop_all(self, st, args, v, f=None, b=None):
        key = mk('all', args[0])
        old = st.facts.get(key)
        if self.R.iteration is not None:
            self.R.iteration(f, b, args[0], mk('ok', v), None if old is None or old[0] == 'all' else st)
        if old is None:
            q = 'top'
        elif old[0] == 'all':
            q = None
        else:
            q = self.elemfacts(st.facts, mk('ok', v))
            q = q if old[1] == 'top' else old[1] & q
        self.fresh(st, v)
        s1, s2 = st.copy(), st
        self.assume_out(s1, v, 'S')
        self.assume_out(s2, v, 'F')
        if q is not None:
            s1.facts[key] = ('open', q)
            s2.facts[key] = ('all', q)
        return [(s1, v), (s2, v)]

    def model_any(self, f, b, st, it, clo, isall, pends, line):
        """outcomes of it.any(clo) / it.all(clo); None if the closure says nothing"""
        if clo.k != 'clo' or clo.a[0] not in self.P.fns:
            return None
        el = mk('ok', mk('call', 'core::iter::traits::iterator::Iterator::next', (it,), (b,)))
        s0 = st.copy()
        self.fresh(s0, el)
        outs = self.apply(f, b, clo.a[0], (clo, el), s0, pends, line)
        if outs is None:
            return None
        want = 1 if isall else 0
        q = q1 = None
        for s2, v in outs:
            s3 = s2.copy()
            if self.assume_eq(s3, v, want):
                e = self.elemfacts(s3.facts, el)
                q = e if q is None else q & e
            s3 = s2.copy()
            if self.assume_eq(s3, v, 1 - want):
                e = frozenset((replace(a, el, EL), o) for a, o in s3.facts.items() if st.facts.get(a) != o and
                              a is not el and a.k not in ('all', 'some') and self.rel(a))
                q1 = e if q1 is None else q1 & e
        v = mk('call', 'core::iter::traits::iterator::Iterator::' + ('all' if isall else 'any'), (it, clo), (b,))
        sa = st.copy()
        self.fresh(sa, v)
        sa.facts[mk('all', it)] = ('all', q or frozenset())
        sb = st.copy()
        self.fresh(sb, v)
        if q1:
            sb.facts[mk('some', it)] = ('some', q1)
        if isall:
            return [(sa, C1), (sb, C0)]
        return [(sa, C0), (sb, C1)]

    def call(self, f, fn, b, st, t, pends):
        fr, dest, nxt, line = t[1], t[3], t[4], t[5]
        args = tuple(self.op(st, a, f) for a in t[2])
        name = self.cname(fr, f)
        R = self.R
        tg = F.targets(self.P, fr)
        isatom = self.is_atom(name)
        R.site = (f, b)
        if R.sink(name, args, f):
            self.do_sink(f, name, args, st, pends, line)
        if R.event(name):
            ev = mk('ev', name, args) if not R.event_site else mk('ev', name, (mk('k', f, b),))
            st.facts[ev] = 1
        if fr.get('fn') is None and fr.get('op'):
            fv = self.op(st, fr['op'], f)
            if fv.k == 'fnc' and fv.a[0] in self.P.fns:
                tg = [fv.a[0]]
                name = fv.a[0]
        outs = None
        if not isatom:
            outs = self.model(f, fn, b, st, name, fr, args, pends, line)
            if outs is None:
                if tg and not R.opaque(name) and any(g in self.relevant for g in tg):
                    outs = []
                    for g in tg:
                        if g in self.relevant and not self.blocked(g):
                            r = self.apply(f, b, g, args, st, pends, line)
                        else:
                            r = None
                        if r is None:
                            s2 = st.copy()
                            v = mk('call', name, args, PURE if R.pure(name) else (b,))
                            if not R.pure(name):
                                self.fresh(s2, v)
                            r = [(s2, v)]
                        outs += r
        if outs is None:
            v = mk('call', name, args, PURE if R.pure(name) else (b,))
            if R.pure(name):
                outs = [(st, v)]
            elif R.loops and name.endswith('Iterator::next'):
                outs = self.loop_all(st, args, v, f, b)
            else:
                self.fresh(st, v)
                outs = [(st, v)]
            # closures handed to code we do not see may run
            self.closure_pends(f, b, args, st, pends, line)
        if nxt is None:
            return []
        res = []
        for s2, v in outs:
            if len(outs) > 1:
                s2 = s2.copy() if s2 is st else s2
            self.invalidate(s2, fn, t, args, tg)
            if R.keep_old:
                for a in [a for a in s2.facts if a.k == 'new' and a.a[0].k == 'f']:
                    s2.env[('m', a.a[0].a[0], a.a[0].a[1])] = a.a[1]
            R.on_call(s2, name, args, v, f)
            self.write(s2, dest, v, f, fn)
            if self.fieldwrites:
                self.dofieldwrites(f, s2, pends, line)
            res.append((nxt, s2))
        return res

    def closure_pends(self, f, b, args, st, pends, line):
        for a in args:
            if a.k == 'clo' and a.a[0] in self.P.fns and a.a[0] in self.relevant:
                sm = self.summary(a.a[0])
                if sm and sm[1]:
                    n = self.P.fns[a.a[0]]['argc']
                    cargs = (a,) + tuple(mk('u', f, ('ca', b, i)) for i in range(n - 1))
                    self.apply_pends(f, b, a.a[0], sm[1], cargs, st, pends, line)

    def apply(self, f, b, g, args, st, pends, line):
        sm = self.summary(g)
        if sm is None:
            return None
        rl, gp = sm
        self._substst = st
        try:
            if gp:
                self.apply_pends(f, b, g, gp, args, st, pends, line)
            out = []
            for r, fs in rl:
                memo = {}
                s2 = st.copy()
                good = True
                if self.R.keep_old:
                    for w in [a.a[0] for a, o in fs if a.k == 'wr']:
                        base = self.subst(w.a[0], args, b, memo)
                        fv = mk('f', base, w.a[1], w.a[2])
                        if str(w.a[2]).startswith('closure:'):
                            i = int(w.a[1]) if w.a[1].isdigit() else -1
                            fv = base.a[1][i] if base.k == 'clo' and 0 <= i < len(base.a[1]) else None
                            if fv is None or fv.k != 'f' or not self.R.field(fv.a[2], fv.a[1]):
                                memo[w] = mk('u', f, (b, 'upvar'))
                                continue
                            base = fv.a[0]
                        m = self.curmem(base, fv.a[1])
                        if m is None:
                            m = mk('old', fv) if mk('wr', fv) not in st.facts else mk('u', f, (b, 'mid', fv.a[1]))
                        memo[w] = fv
                        memo[mk('old', w)] = m
                        self.overwritten(s2, fv, f)
                        s2.env.pop(('m', base, fv.a[1]), None)
                for a, o in fs:
                    if not self.addfact(s2, self.subst(a, args, b, memo), o):
                        good = False
                        break
                if good:
                    out.append((s2, self.subst(r, args, b, memo)))
        finally:
            self._substst = None
        return out

    def apply_clo(self, f, b, c, cargs, st, pends, line):
        """call closure / fn value c; list of (st, v)"""
        if c.k == 'clo' and c.a[0] in self.P.fns:
            r = self.apply(f, b, c.a[0], (c,) + tuple(cargs), st, pends, line)
            if r is not None:
                return r
        if c.k == 'fnc' and c.a[0] in self.P.fns and c.a[0] in self.relevant and not self.blocked(c.a[0]):
            r = self.apply(f, b, c.a[0], tuple(cargs), st, pends, line)
            if r is not None:
                return r
        if c.k == 'fnc':
            return [(st, mk('call', c.a[0], tuple(cargs), (b,)))]
        return [(st, mk('u', f, ('clo', b)))]

    def model(self, f, fn, b, st, n, fr, args, pends, line):
        """models of std functions; None if not modelled"""
        p = fr['fn']['p'] if fr.get('fn') else n
        if not (p.startswith('core::') or p.startswith('alloc::') or p.startswith('std::')):
            fo = self.fold(n, args)
            if fo is not None:
                return [(st, fo)]
            return None
        if p in ('core::result::Result::<T, E>::map_err', 'core::result::Result::<T, E>::inspect_err') and len(args) == 2 and \
                args[1].k == 'clo' and args[1].a[0] in self.relevant:
            a = args[0]
            out = []
            s1 = st.copy()
            if self.assume_out(s1, a, 'S'):
                out.append((s1, a))
            s2 = st.copy()
            if self.assume_out(s2, a, 'F'):
                for s3, v in self.apply_clo(f, b, args[1], (mk('err', a) if a.k != 'F' else a.a[0],), s2, pends, line):
                    out.append((s3, mk('F', v) if self.R.keep_err and v.k != 'u' and p.endswith('map_err') else a))
            return out
        if p in IDENT or p == 'core::clone::Clone::clone':
            if len(args) > 1:
                self.closure_pends(f, b, args, st, pends, line)
            # user-defined trait impls (From etc.) on local types stay opaque
            if F.targets(self.P, fr) and p.split('::')[-1] in ('from', 'into', 'as_ref', 'deref', 'deref_mut') and \
                    any(g in self.relevant for g in F.targets(self.P, fr)):
                return None
            return [(st, args[0])]
        if p == 'core::ops::try_trait::FromResidual::from_residual':
            a = args[0]
            return [(st, mk('F', a.a[0] if a.k == 'F' else a))]
        if p == 'core::ops::try_trait::Try::from_output':
            return [(st, mk('S', args[0]))]
        if p.startswith('core::cmp::PartialEq::') and not F.targets(self.P, fr):
            e = self.binop('Eq', args[0], args[1])
            return [(st, e if p.endswith('eq') else self.neg(e))]
        if p == 'core::cmp::PartialEq::eq' or p == 'core::cmp::PartialEq::ne':
            e = self.binop('Eq', args[0], args[1])
            return [(st, e if p.endswith('eq') else self.neg(e))]
        if p.startswith('core::cmp::PartialOrd::') and p.split('::')[-1] in ('lt', 'le', 'gt', 'ge'):
            o = p.split('::')[-1].capitalize()
            return [(st, self.binop(o, args[0], args[1]))]
        if p == 'core::ops::bit::Not::not':
            return [(st, self.neg(args[0]))]
        fo = self.fold(n, args)
        if fo is not None:
            return [(st, fo)]
        if p in LEN:
            return [(st, mk('len', args[0]))]
        if p in EMPTY:
            return [(st, self.binop('Eq', mk('len', args[0]), C0))]
        if p in NULL:
            return [(st, mk('isnull', args[0]))]
        last = p.split('::')[-1]
        isO = p.startswith('core::option::Option')
        isR = p.startswith('core::result::Result')
        if isO or isR:
            a = args[0]
            if last in ('is_ok', 'is_some'):
                return [(st, C1 if a.k == 'S' else C0 if a.k == 'F' else mk('isS', a))]
            if last in ('is_err', 'is_none'):
                return [(st, C0 if a.k == 'S' else C1 if a.k == 'F' else mk('not', mk('isS', a)))]
            if last in ('unwrap', 'expect', 'unwrap_unchecked'):
                if not self.assume_out(st, a, 'S'):
                    return []
                return [(st, a.a[0] if a.k == 'S' else mk('ok', a))]
            if last in ('unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'map', 'and_then', 'is_some_and',
                        'is_ok_and', 'map_or', 'map_or_else', 'is_none_or', 'or', 'or_else', 'and'):
                out = []
                s1 = st.copy()
                if self.assume_out(s1, a, 'S'):
                    pay = a.a[0] if a.k == 'S' else mk('ok', a)
                    if pay is None:
                        pay = mk('k', '()')
                    if last in ('unwrap_or', 'unwrap_or_default', 'unwrap_or_else'):
                        out.append((s1, pay))
                    elif last in ('or', 'or_else'):
                        out.append((s1, a))
                    elif last == 'and':
                        out.append((s1, args[1]))
                    elif last == 'map':
                        for s3, v in self.apply_clo(f, b, args[1], (pay,), s1, pends, line):
                            out.append((s3, mk('S', v)))
                    elif last == 'and_then':
                        out += self.apply_clo(f, b, args[1], (pay,), s1, pends, line)
                    elif last in ('is_some_and', 'is_ok_and', 'is_none_or'):
                        out += self.apply_clo(f, b, args[1], (pay,), s1, pends, line)
                    else:
                        out += self.apply_clo(f, b, args[2], (pay,), s1, pends, line)
                s2 = st.copy()
                if self.assume_out(s2, a, 'F'):
                    if last == 'unwrap_or':
                        out.append((s2, args[1]))
                    elif last == 'unwrap_or_default':
                        ta = (fr['fn'].get('ta') or [''])[0]
                        out.append((s2, C0 if ta in ('bool', 'u64', 'u32', 'usize', 'u8', 'i32') else mk('k', 'default')))
                    elif last == 'unwrap_or_else':
                        out += self.apply_clo(f, b, args[1], (mk('err', a),) if isR else (), s2, pends, line)
                    elif last in ('or',):
                        out.append((s2, args[1]))
                    elif last == 'or_else':
                        out += self.apply_clo(f, b, args[1], (mk('err', a),) if isR else (), s2, pends, line)
                    elif last in ('map', 'and_then', 'and'):
                        out.append((s2, mk('F', mk('err', a) if a.k != 'F' else a.a[0])))
                    elif last in ('is_some_and', 'is_ok_and'):
                        out.append((s2, C0))
                    elif last == 'is_none_or':
                        out.append((s2, C1))
                    elif last == 'map_or':
                        out.append((s2, args[1]))
                    elif last == 'map_or_else':
                        out += self.apply_clo(f, b, args[1], (), s2, pends, line)
                return out
        if self.R.loops and last in ('any', 'all') and p.startswith('core::iter::') and len(args) == 2 and \
                args[1].k == 'clo' and (args[1].a[0] in self.relevant or self.rel(args[1])):
            return self.model_any(f, b, st, args[0], args[1], last == 'all', pends, line)
        if last in ('call', 'call_mut', 'call_once') and 'ops::function' in p and args:
            c = args[0]
            ca = args[1].a[0] if len(args) > 1 and args[1].k == 'tuple' else ()
            if c.k in ('clo', 'fnc'):
                return self.apply_clo(f, b, c, ca, st, pends, line)
            return None
        return None

    # ---- driver
    def run(self, roots):
        """violations: list of (root, sid, args, facts, trace)"""
        out = []
        for r in roots:
            if r not in self.P.fns:
                continue
            if r not in self.relevant:
                continue
            sm = self.summary(r)
            for (sid, args, fs), tr in sm[1].items():
                out.append((r, sid, args, fs, tr))
        return out


EL = mk('elem')


def replace(v, old, new):
    if v is old:
        return new
    if isinstance(v, tuple):
        return tuple(replace(x, old, new) for x in v)
    if not isinstance(v, V) or old not in subs(v):
        return v
    return mk(v.k, *[replace(x, old, new) for x in v.a])


def forall(fs, coll, pred):
    """a loop over a collection that is a subterm of coll established pred(atom, outcome)
    for every element (or saw none)"""
    ss = subs(coll)
    for a, o in fs.items():
        if a.k == 'all' and a.a[0] in ss and isinstance(o, tuple) and o[0] == 'all':
            if o[1] == 'top' or any(pred(x, y) for x, y in o[1]):
                return True
    return False


def fact(fs, pred):
    """first (atom, outcome) satisfying pred"""
    it = fs.items() if isinstance(fs, dict) else fs
    for a, o in it:
        if pred(a, o):
            return (a, o)
    return None


def iscall(v, *names):
    return v.k == 'call' and any(v.a[0] == n or v.a[0].endswith('::' + n) for n in names)
