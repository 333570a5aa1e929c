"""C51: PINs, key values and other bytes of secrets never become part of a log message, an error text or a panic message.

Text is made from values in three ways only: a formatting argument (typed by the compiler), a conversion of bytes to
text, and the message of a panic that shows the value of a Result.  The types of formatting arguments are checked
recursively (through the Debug and Display implementations that would print them), the results of conversions are
followed to the formatting arguments, and the writers of the standard library are enumerated.
"""
from common import *
import re, collections

NOB = {'s': (), 't': ('',)}
CR = (LIB, 'ossl', 'kryoptic_pkcs11')
BYTES = re.compile(r"(\[u8[;\]]|Vec<u8|VecDeque<u8|FromUtf8Error|IntoStringError|FromVecWithNulError|Zeroizing<|slice::iter::Iter<'_, u8>|EscapeAscii|Utf8Chunk)")
TEXT = re.compile(r'\b(str|String|Chars|Arguments|Path|PathBuf|OsStr|OsString|char)\b')
FMTTR = ('Debug', 'Display', 'LowerHex', 'UpperHex', 'Binary', 'Octal', 'LowerExp', 'UpperExp', 'Pointer')
DYNF = re.compile(r'dyn (core::fmt::(Debug|Display|LowerHex|UpperHex)|\S*(tracing|log)\S*Value|log::kv::\S+|valuable::\S+)')
NEWS = {'new_debug': 'Debug', 'new_display': 'Display', 'new_lower_hex': 'LowerHex', 'new_upper_hex': 'UpperHex', 'new_binary': 'Binary', 'new_octal': 'Octal', 'new_lower_exp': 'LowerExp', 'new_upper_exp': 'UpperExp', 'debug': 'Debug', 'display': 'Display'}


def noptr(t):
    """the type without what raw pointers and functions point to: their text is an address"""
    out, i = '', 0
    while i < len(t):
        m = re.match(r"\*(mut|const) ", t[i:])
        if m or t.startswith('fn(', i) or t.startswith('unsafe extern', i) or t.startswith('extern "', i):
            dep = 0
            while i < len(t):
                c = t[i]
                if t.startswith('->', i):
                    i += 2
                    continue
                if c in '<([':
                    dep += 1
                elif c in '>)]':
                    if dep == 0:
                        break
                    dep -= 1
                elif c == ',' and dep == 0:
                    break
                i += 1
            out += 'usize'
        else:
            out += t[i]
            i += 1
    return out


def strip_ref(t):
    while True:
        n = re.sub(r"^&('\w+ )?(mut )?", '', t)
        if n == t:
            return t
        t = n


def name(fr):
    return fr['fn']['p'] if isinstance(fr, dict) and 'fn' in fr else ''


def tas(fr):
    return [str(x) for x in (fr['fn'].get('ta') or [])]


def oploc(op):
    p = op.get('m') or op.get('c') if isinstance(op, dict) else None
    return p[0] if p else None


class Prn(object):
    def __init__(self, P):
        self.P = P
        self.impls = collections.defaultdict(dict)
        for f in P.fns:
            m = re.match(r'^<(.*) as core::fmt::(\w+)>::fmt$', f)
            if m:
                self.impls[re.sub(r"<.*", '', strip_ref(m.group(1)))][m.group(2)] = f
        self.locals = set(self.impls) | set(re.sub(r"<.*", '', a) for a in P.adts)
        self.memo = {}

    def bad(self, t, how):
        """why a value of type t must not be printed, or None"""
        t = noptr(strip_ref(t))
        k = (t, how)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        r = self._bad(t, how)
        self.memo[k] = r
        return r

    def _bad(self, t, how):
        # references to locks and guards print what they guard only when it is printable itself
        if t.startswith('itertools::format::FormatWith'):
            return None         # what is printed is decided by the closure, whose own arguments are looked at
        if re.search(r'\bPoisonError<', t):
            return None         # printed without the guard
        if 'closure@' in t:
            t = re.sub(r'\{closure@[^}]*\}', '', t)
        if BYTES.search(t):
            return 'the bytes of a %s' % t
        for a in re.findall(r"[A-Za-z_][\w:]*", t):
            if a in self.impls:
                im = self.impls[a]
                f = im.get(how) or im.get('Debug') or im.get('Display')
                if f:
                    r = self.body(f)
                    if r:
                        return '%s, which prints %s' % (a.split('::')[-1], r)
        return None

    def body(self, f):
        for t, how, l in self.printed(f):
            r = self.bad(t, how)
            if r:
                return r
        return None

    def printed(self, f):
        """(type, trait, line) of each value function f prints"""
        fn = self.P.fns[f]
        for b, fr, a, d, l in self.P.calls[f]:
            n = name(fr)
            last = n.split('::')[-1]
            if ('fmt::rt::Argument' in n or 'tracing' in n) and last in NEWS and tas(fr):
                yield tas(fr)[0], NEWS[last], l
            elif re.search(r'panicking::assert_(failed|matches_failed)$', n):
                for t in tas(fr):
                    yield t, 'Debug', l
            elif re.search(r'^core::fmt::(\w+)::fmt$', n) and fr['fn'].get('self'):
                yield str(fr['fn']['self']), n.split('::')[2], l
            elif re.search(r'(ToString::to_string)$', n):
                t = str(fr['fn'].get('self') or (tas(fr) or [''])[0])
                if t:
                    yield t, 'Display', l
            elif 'core::result::Result' in n and last in ('unwrap', 'expect') and len(tas(fr)) > 1:
                yield tas(fr)[1], 'Debug', l
            elif 'core::result::Result' in n and last in ('unwrap_err', 'expect_err') and tas(fr):
                yield tas(fr)[0], 'Debug', l
        for b in fn['blocks']:
            for s in (b or NOB)['s']:
                if s[0] == 'dead' or len(s) < 2 or not isinstance(s[1], list):
                    continue
                rv = s[1]
                if rv[0] == 'cast' and 'Unsize' in str(rv[1]):
                    m = DYNF.search(str(rv[3]))
                    o = oploc(rv[2])
                    if m and o is not None:
                        yield fn['locals'][o], (m.group(2) or 'Debug'), s[2]


def isfmt(f):
    return bool(re.match(r'^<.* as core::fmt::\w+>::fmt(::\{closure#\d+\})*$', f))


def rvops(rv):
    k = rv[0]
    if k in ('use', 'cast', 'un', 'rep'):
        return [x for x in rv[1:] if isinstance(x, dict)]
    if k == 'bin':
        return [x for x in rv[1:] if isinstance(x, dict)]
    if k == 'agg':
        return [x for y in rv[1:] if isinstance(y, list) for x in y if isinstance(x, dict)]
    return []


def fieldread(rv):
    """reads a field as such, not an element of a buffer"""
    for x in rv[1:]:
        pl = x if isinstance(x, list) else (x.get('m') or x.get('c')) if isinstance(x, dict) else None
        if pl and isinstance(pl[0], int) and len(pl) > 1:
            return isinstance(pl[-1], list) and pl[-1][0] == 'f' and pl[-1][3] is not None and '::' in str(pl[-1][3]) and not str(pl[-1][3]).startswith('core::option')
    return False


def tupread(rv):
    """(local, index) of the read of a field of a tuple"""
    for x in rv[1:]:
        pl = x if isinstance(x, list) else (x.get('m') or x.get('c')) if isinstance(x, dict) else None
        if pl and isinstance(pl[0], int) and len(pl) > 1 and isinstance(pl[1], list) and pl[1][0] == 'f':
            return pl[0], pl[1][1]
    return None


def rvlocs(rv):
    out = [oploc(x) for x in rvops(rv)]
    if rv[0] in ('ref', 'raw', 'disc', 'len'):
        for x in rv[1:]:
            if isinstance(x, list) and x and isinstance(x[0], int):
                out.append(x[0])
    return [x for x in out if x is not None]


SCALAR = re.compile(r"^(&('\w+ )?(mut )?)*(bool|u\d+|i\d+|usize|isize|\(\)|!|core::cmp::Ordering|core::option::Option<(u\d+|usize)>)$")


class Taint(object):
    """text made from bytes, followed forward through locals, calls and returns"""

    def __init__(self, P, sources):
        self.P = P
        self.t = set(sources)          # (fn, local)
        self.why = {s: s for s in sources}
        self.ret = set()
        work = list(self.t)
        self.uses = collections.defaultdict(list)
        self.refs = collections.defaultdict(set)
        self.fns = [f for f in P.fns if P.fns[f]['crate'] in CR]
        for f in self.fns:
            for b in P.fns[f]['blocks']:
                for s in (b or NOB)['s']:
                    if s[0] == 'dead' or not isinstance(s[1], list) or not isinstance(s[0], list):
                        continue
                    for x in rvlocs(s[1]):
                        self.uses[(f, x)].append(('s', s[0], s[1]))
                    if s[1][0] in ('ref', 'raw') and s[1][1] is True:
                        for x in rvlocs(s[1]):
                            self.refs[(f, s[0][0])].add(x)
                    elif s[1][0] == 'use' and s[1][1] and len(s[0]) == 1 and oploc(s[1][1]) is not None:
                        self.refs[(f, s[0][0])].add(oploc(s[1][1])) if P.fns[f]['locals'][s[0][0]].startswith('&') else None
            for c in P.calls[f]:
                for i, a in enumerate(c[2]):
                    if oploc(a) is not None:
                        self.uses[(f, oploc(a))].append(('c', i, c))
        seen = 0
        while work:
            f, x = work.pop()
            for u in self.step(f, x):
                if u not in self.t:
                    self.t.add(u)
                    self.why[u] = self.why[(f, x)]
                    work.append(u)

    def carries(self, f, x):
        return not SCALAR.match(self.P.fns[f]['locals'][x])

    def step(self, f, x):
        P = self.P
        if x == 0 and f not in self.ret:
            self.ret.add(f)
            for g, cs in P.callers.items() if False else ():
                pass
            for g in self.fns:
                for b, fr, a, d, l in P.calls[g]:
                    if d and f in F.targets(P, fr) and self.carries(g, d[0]):
                        yield (g, d[0])
        for u in self.uses.get((f, x), ()):
            if u[0] == 's':
                if self.carries(f, u[1][0]):
                    yield (f, u[1][0])
                continue
            i, (b, fr, a, d, l) = u[1], u[2]
            n = name(fr)
            ts = [g for g in F.targets(P, fr) if g in P.fns and P.fns[g]['crate'] in CR]
            if ts:
                for g in ts:
                    if i < P.fns[g]['argc']:
                        yield (g, i + 1)
                continue
            dt = P.fns[f]['locals'][d[0]] if d else ''
            if d and (TEXT.search(dt) or BYTES.search(dt) or dt.startswith('&') or 'Cow' in dt):
                yield (f, d[0])
            for j, o in enumerate(a):
                y = oploc(o)
                if j != i and y is not None and P.fns[f]['locals'][y].startswith('&mut '):
                    for z in self.deref(f, y):
                        yield (f, z)

    def deref(self, f, y, seen=None):
        seen = seen or set()
        if y in seen:
            return set()
        seen.add(y)
        out = {y}
        for z in self.refs.get((f, y), ()):
            out |= self.deref(f, z, seen)
        return out


def C51(ctx):
    P = ctx.P
    ctx.rule('the type of every value a formatting macro, an assertion or an unwrapped error prints holds no bytes, down through the Debug and Display implementations that print it')
    ctx.rule('text converted from bytes that are not text already never reaches a formatting argument, unless the bytes are those of the OpenSSL error queue or of an attribute that is not a secret')
    ctx.rule('nothing but the logger and the database library is given data to write to a file, a stream, a process or the environment')
    fnsl = sorted(f for f in P.fns if P.fns[f]['crate'] in CR)
    pr = Prn(P)
    n = 0
    # 1. printed values
    for f in fnsl:
        if isfmt(f):
            continue
        for t, how, l in pr.printed(f):
            n += 1
            r = pr.bad(t, how)
            if r and 'FromUtf8Error' in t and P.fns[f]['argc'] == 0:
                r = None        # no argument: the text is not data of a caller
            ctx.ob('print|%s|%s' % (short(f), re.sub(r'\{closure@[^}]*\}', '{closure}', noptr(strip_ref(t)))[:80]), not r, ctx.where(f, l), '%s prints %s' % (f, r))
            if re.match(r'^(u8|i8)$', strip_ref(t)):
                ctx.ob('byte|%s' % short(f), bytes_ok(P, f, l), ctx.where(f, l), '%s prints single bytes of a buffer' % f)
    ctx.floor('printed values', n, 400)
    # 2. conversions
    src = {}
    nc = 0
    for f in fnsl:
        fn = P.fns[f]
        if 'serde' in f or '::_::' in f:
            continue
        for b, fr, a, d, l in P.calls[f]:
            if not d or name(fr).startswith('serde'):
                continue
            if any(g in P.fns and P.fns[g]['crate'] in CR for g in F.targets(P, fr)):
                continue
            dt = fn['locals'][d[0]]
            at = [(fn['locals'][oploc(o)] if oploc(o) is not None else str((o.get('k') or {}).get('t'))) for o in a]
            if not (TEXT.search(dt) or 'Cow<' in dt and 'str' in dt) or dt.startswith('core::option::Option<asn1') :
                continue
            if any(BYTES.search(noptr(t)) and not TEXT.search(BYTES.sub('', t)) for t in at) and not ('fmt::' in name(fr)):
                nc += 1
                if fn['argc'] == 0 or frombytes(P, f, a):
                    continue
                src[(f, d[0])] = (f, l, name(fr))
        for b in fn['blocks']:
            for s in (b or NOB)['s']:
                if s[0] == 'dead' or not isinstance(s[1], list) or s[1][0] != 'cast' or str(s[1][3]) != 'char' or len(s[0]) != 1:
                    continue
                o = oploc(s[1][2])
                if o is not None and fn['locals'][o] == 'u8':
                    nc += 1
                    if not frombytes(P, f, [s[1][2]], byte=True):
                        src[(f, s[0][0])] = (f, s[2], 'char')
    ctx.floor('conversions of bytes to text', nc, 5)
    T = Taint(P, sorted(src))
    m = 0
    for f in fnsl:
        for b, fr, a, d, l in P.calls[f]:
            nm = name(fr)
            if 'fmt::rt::Argument' in nm and '::new' in nm and a:
                o = oploc(a[0])
                m += 1
                w = T.why.get((f, o))
                if (f, o) in T.t and nonsecret(P, T, f, o):
                    continue
                ctx.ob('text|%s' % short(f), (f, o) not in T.t, ctx.where(f, l), '%s prints text converted from bytes%s' % (f, ' in %s' % w[0] if w else ''))
    ctx.floor('formatting arguments', m, 400)
    # 3. writers
    W = re.compile(r'^std::(fs::(write|rename|copy|hard_link|OpenOptions|File::(create|options|create_new))|net::|os::unix::net|process::Command|env::set_var|io::(Write::|_print|_eprint|stdio::|copy))|^std::io::stdio::|^libc::(write|send|syslog|puts|printf)|::syslog')
    k = 0
    for f in fnsl:
        if '::log::' in f and P.fns[f]['crate'] == LIB:
            k += 1
            continue
        for b, fr, a, d, l in P.calls[f]:
            nm = name(fr)
            if not W.search(nm) or nm.split('::')[-1] in ('_print', '_eprint', 'flush', 'write_fmt'):
                continue
            st = str(fr['fn'].get('self') or '')
            if 'alloc::vec::Vec' in st or 'String' in st:
                continue
            cargs = all(oploc(o) is None for o in a[1:])
            ctx.ob('write|%s|%s' % (short(f), nm.split('::')[-1]), cargs and False, ctx.where(f, l), '%s writes data out through %s' % (f, nm))
    ctx.floor('functions of the logger', k, 1)
    ctx.ob('scope|functions', len(fnsl) > 2000, '', 'only %d functions seen' % len(fnsl))


def bytes_ok(P, f, l):
    """the byte printed is a scalar argument or field, or comes from the bytes of a string"""
    return all(frombytes(P, f, a[:1], byte=True) for b, fr, a, d, l2 in P.calls[f]
               if ('fmt::rt::Argument' in name(fr) or name(fr).endswith('ToString::to_string')) and a and
               strip_ref((tas(fr) or [str(fr['fn'].get('self'))])[0]) in ('u8', 'i8'))


def frombytes(P, f, args, depth=0, byte=False):
    """the bytes converted come from text (as_bytes, into_bytes)"""
    fn = P.fns[f]
    defs = collections.defaultdict(list)
    for b in fn['blocks']:
        for s in (b or NOB)['s']:
            if s[0] != 'dead' and isinstance(s[1], list) and isinstance(s[0], list):
                defs[s[0][0]].append(('s', s[1]))
    for b, fr, a, d, l in P.calls[f]:
        if d:
            defs[d[0]].append(('c', fr, a))
    seen = set()

    def ok(x):
        if x in seen:
            return True
        seen.add(x)
        if 0 < x <= fn['argc']:
            if byte and re.match(r"^&?('\w+ )?[ui]8$", fn['locals'][x]) and not fn.get('parent'):
                return True
            if fn.get('parent'):
                g = fn.get('parent')
                return any(re.search(r'<impl str>::(as_bytes|bytes)$|str::as_bytes$|String::(as_bytes|into_bytes)$', name(c[1])) for c in P.calls.get(g, ()))
            if depth > 3 or not BYTES.search(fn['locals'][x]):
                return not BYTES.search(fn['locals'][x]) and not LIBT.search(fn['locals'][x]) and not re.search(r'\*(mut|const) ', fn['locals'][x])
            cl = [(g, c) for g in P.fns if P.fns[g]['crate'] in CR for c in P.calls[g] if f in F.targets(P, c[1])]
            return bool(cl) and all(g == f or frombytes(P, g, [c[2][x - 1]], depth + 1) for g, c in cl)
        if not defs[x]:
            return False
        for d in defs[x]:
            if d[0] == 's':
                if byte and fieldread(d[1]):
                    continue
                tp = tupread(d[1])
                if tp and defs[tp[0]] and all(e[0] == 's' and e[1][0] == 'agg' and len(rvops(e[1])) > tp[1] for e in defs[tp[0]]):
                    if all(oploc(rvops(e[1])[tp[1]]) is None or ok(oploc(rvops(e[1])[tp[1]])) for e in defs[tp[0]]):
                        continue
                    return False
                ls = rvlocs(d[1])
                if not all(ok(y) for y in ls if byte or not SCALAR.match(fn['locals'][y])):
                    return False
            else:
                if re.search(r'(str|String)(::<impl str>)?::(as_bytes|into_bytes|bytes)$', name(d[1])) or re.search(r'<impl str>::as_bytes', name(d[1])):
                    continue
                ls = [oploc(o) for o in d[2]]
                if re.search(r'_u8$|::u8::|num::<impl u8>', name(d[1])) and not ls:
                    continue
                if not ls or not all(ok(y) for y in ls if y is not None and (byte or not SCALAR.match(fn['locals'][y]))):
                    return False
        return True
    return all(ok(oploc(o)) for o in args if oploc(o) is not None and (byte or not SCALAR.match(fn['locals'][oploc(o)])))


LIBT = re.compile(r'\bkryoptic_lib::')
OPEN = ('CKA_UNIQUE_ID', 'CKA_LABEL', 'CKA_APPLICATION', 'CKA_URL')


def nonsecret(P, T, f, o):
    """every byte text this argument can hold was asked for as an attribute that is no secret"""
    fn = P.fns[f]
    got = [x for x in P.calls[f] if re.search(r'::get_attr_as_string$', name(x[1])) and x[3] and (f, x[3][0]) in T.t]
    if not got:
        return False
    for b, fr, a, d, l in got:
        k = (a[1].get('k') or {}) if len(a) > 1 else {}
        if not any(str(k.get('d') or k.get('s') or '').split('::')[-1] == c for c in OPEN):
            return False
    return not any(s[0] == f for s in T.t if T.why[s][0] == f and (s == T.why[s]))
