"""C29: keys, nonces and random output come only from the cryptographic generator."""
from common import *
from r_out import strip, nm, CONV
from r_apisurf import aggs
from r_ffi import Fn, opl

GEN = ('generate_random', 'get_random_data', 'get_random')
CORE = ('ossl_sys::EVP_RAND_generate', 'ossl_sys::RAND_bytes', 'ossl_sys::RAND_priv_bytes', 'ossl_sys::EVP_RAND_bytes', 'ossl_sys::RAND_bytes_ex', 'ossl_sys::RAND_priv_bytes_ex')
PAIR = ('ossl_sys::EVP_PKEY_generate', 'ossl_sys::EVP_PKEY_keygen', 'ossl_sys::EVP_PKEY_Q_keygen')
LOOK = ('as_slice', 'as_mut_slice', 'as_ptr', 'as_mut_ptr', 'deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'to_vec', 'clone', 'into_boxed_slice', 'from', 'into', 'take', 'unwrap', 'to_owned')
SUBR = ('index', 'index_mut', 'get', 'get_mut', 'split_at', 'split_at_mut', 'get_unchecked_mut')
OVER = ('fill', 'copy_from_slice', 'clone_from_slice', 'zeromem', 'swap_with_slice', 'fill_with', 'clear', 'truncate', 'resize', 'clone_from', 'set_len', 'zeroize')
PASSWORD = re.compile(r'pbkdf2|Pbkdf2|PBKDF2')


def peel(v):
    """(the buffer, [the parts taken of it])"""
    parts = []
    while True:
        v = strip(v)
        last = v.a[0].split('::')[-1] if v.k == 'call' else ''
        if v.k == 'call' and last in LOOK and v.a[1]:
            v = v.a[1][0]
        elif v.k == 'call' and last in SUBR and len(v.a[1]) > 1:
            parts.append(v.a[1][1])
            v = v.a[1][0]
        elif v.k == 'f' and v.a[1] in ('0', 'ptr') and v.a[0].k == 'call':
            v = v.a[0]
        else:
            return v, parts


def made(v):
    """a buffer this code made with known contents"""
    if v.k == 'rep':
        return True
    if v.k == 'arr':
        xs = v.a[0] if v.a and isinstance(v.a[0], (tuple, list)) else v.a
        return all(not isinstance(x, E.V) or cval(x) is not None for x in xs) and len(xs) > 0
    if v.k == 's':
        return True
    if v.k == 'call':
        return v.a[0].split('::')[-1] in ('from_elem', 'with_capacity', 'repeat') and bool(v.a[1])
    return False


def header(part):
    """from a fixed start to the end: everything but a header of the format"""
    if part.k == 'adt' and part.a[0].split('<')[0].split('::')[-1] == 'RangeFrom':
        c = cval(part.a[2][0])
        return c is not None and c <= 2
    if part.k == 'adt' and part.a[0].split('<')[0].split('::')[-1] == 'RangeFull':
        return True
    return False


def filled(buf, facts):
    """the generator filled all of buf, and said so"""
    for a, o in facts:
        if o not in ('S', 1) or a.k != 'call':
            continue
        for u in given(a):
            b, parts = peel(u)
            if b is buf and all(header(p) for p in parts):
                return True
    return False


def given(a):
    """the buffers a call of the generator gets"""
    last = a.a[0].split('::')[-1]
    if last == 'with':
        for x in a.a[1]:
            if x.k == 'clo':
                yield from (y for y in x.a[1] if isinstance(y, E.V))
    else:
        yield from buffer_of(a)


def buffer_of(a):
    """the buffer a generator function fills"""
    last = a.a[0].split('::')[-1]
    if last == 'get_random':
        return a.a[1][:1]
    if last in GEN or last == 'generate':
        return a.a[1][-1:]
    return ()


class Rand(E.Rule):
    name = 'rand'
    K, KS = 64, 128

    def __init__(self, P, clos, keyfns=()):
        self.P, self.clos, self.keyfns = P, clos, keyfns
        self.salt = {}
        for t, a in P.adts.items():
            if len(a['v']) == 1:
                self.salt[t] = {x: i for i, (x, y) in enumerate(a['v'][0][1])}

    def atom(self, n):
        return n.split('::')[-1] == 'with' or n.split('::')[-1] in GEN

    def atomv(self, v):
        return v.a[0].split('::')[-1] != 'with' or any(x.k == 'clo' and x.a[0] in self.clos for x in v.a[1])

    def on_call(self, st, name, args, ret, fn):
        if name.split('::')[-1] in OVER and args:
            b, parts = peel(args[0])
            if made(b) and not (name.split('::')[-1] in ('resize', 'truncate') and len(args) > 1 and cval(strip(args[1])) is None):
                for k in [k for k in st.facts if k.k == 'call' and any(peel(u)[0] is b for u in given(k))]:
                    del st.facts[k]

    def sink(self, n, a=(), f=None):
        if n.split('::')[-1] in ('set_attr', 'set_key') and f not in self.keyfns:
            return False
        return n.split('::')[-1] in ('pbkdf2_derive', 'derive_key_internal', 'enckey_derive', 'encryption_new', 'msg_encrypt', 'set_attr', 'set_key')

    def wanted(self, n, args, f=None):
        """the values a consumer wants to be random"""
        last = n.split('::')[-1]
        out = []
        for a in args or ():
            s = strip(a)
            if last in ('pbkdf2_derive', 'derive_key_internal') and s.k == 'adt' and 'salt' in self.salt.get(s.a[0], {}):
                out.append(('salt', s.a[2][self.salt[s.a[0]]['salt']]))
            if last == 'encryption_new' and s.k == 'adt' and 'pParameter' in self.salt.get(s.a[0], {}):
                out.append(('iv', s.a[2][self.salt[s.a[0]]['pParameter']]))
            if last == 'set_attr' and s.k == 'call' and s.a[0].split('::')[-1] == 'from_bytes' and is_c(strip(s.a[1][0]), 'CKA_VALUE', 'CKA_PRIVATE_EXPONENT', 'CKA_PRIME_1', 'CKA_PRIME_2', 'CKA_SEED'):
                out.append(('value', s.a[1][1]))
        if last == 'set_key' and args and len(args) > 2:
            out.append(('value', args[2]))
        if last == 'enckey_derive' and args and len(args) > 2:
            out.append(('salt', args[2]))
        return out

    def judge(self, n, args, facts):
        for what, v in self.wanted(n, args):
            if cval(strip(v)) == 0:
                continue
            b, parts = peel(v)
            if not made(b):
                continue
            if any(not header(p) for p in parts):
                return 'part of a buffer is used as %s' % what
            if not filled(b, facts):
                return 'the %s is a buffer of known contents that the generator did not fill' % what
        return None

    def ok(self, n, args, facts):
        return self.judge(n, args, list(facts.items())) is None


class Chain(E.Rule):
    name = 'chain'
    lens = True
    K, KS = 64, 128

    def atom(self, n):
        return n in CORE + PAIR or n.split('::')[-1] in GEN or n.split('::')[-1] == 'with' or n.endswith('EVP_RAND_instantiate')

    def field(self, o, n):
        return n in ('ptr', 'ctx', 'drbg')

def rets(P, f, rule):
    e = E.Engine(P, rule)
    return e.summary(f)[0]


def callers_of(P, names):
    for f, cs in P.calls.items():
        if P.fns[f]['crate'] not in (LIB, 'ossl') or '::tests' in f:
            continue
        if any(nm(fr).split('::')[-1] in names for b, fr, a, d, l in cs):
            yield f


def core(ctx):
    """from the closure or helper down to the library: the whole buffer is filled or an error is returned"""
    P = ctx.P
    ctx.rule('a function of the generator returns success only when the library filled the whole buffer')
    clos = set()
    n = 0
    for f in sorted(set(callers_of(P, GEN + ('generate',)))):
        d = P.fns[f]
        gens = [(b, fr, a, dst, l) for b, fr, a, dst, l in P.calls[f] if nm(fr).split('::')[-1] in GEN or nm(fr).split('::')[-1] == 'generate' and ('DRBG' in nm(fr) or 'Rand' in nm(fr))]
        if not gens:
            continue
        ctx.analysed.add(f)
        if d.get('parent'):
            clos.add(f)
    fills = [f for f in P.fns if P.fns[f]['crate'] in (LIB, 'ossl') and '::tests' not in f and
             (f.split('::')[-1] in GEN or f in clos or f.split('::')[-1] == 'generate' and ('DRBG' in f or 'Rand' in f))]
    for f in sorted(fills):
        d = P.fns[f]
        if not re.search(r'Result<\(\)', d['locals'][0]):
            continue
        n += 1
        good, why = True, ''
        for r, fs in rets(P, f, Chain()):
            if r.k in ('F', 'err'):
                continue
            if not done(P, f, r, fs, clos):
                good, why = False, 'success without the library having filled the buffer: %s' % E.show(r)[:120]
        ctx.ob('core|%s' % short(f), good, ctx.where(f, d['line']), why)
    ctx.floor('functions of the generator', n, 5)
    return clos


def done(P, f, r, fs, clos):
    ups = P.fns[f].get('parent')
    for a, o in fs:
        if a.k == 'call' and a.a[0] in CORE and (o == 1 or o == 'S' or isinstance(o, tuple) and o[0] == 'ne' and 1 not in o[1] and False):
            args = a.a[1]
            i = 1 if a.a[0].endswith('EVP_RAND_generate') else 0
            b, parts = peel(args[i])
            ln = strip(args[i + 1])
            if parts:
                continue
            if b.k not in ('p', 'f', 'u', 'cell') or made(b):
                continue
            if ln.k == 'len' and strip(ln.a[0]) is b:
                return True
        if a.k == 'call' and o == 'S' and a.a[0].split('::')[-1] == 'with' and any(x.k == 'clo' and x.a[0] in clos for x in a.a[1]):
            return whole(f, P, [u for x in a.a[1] if x.k == 'clo' for u in x.a[1] if isinstance(u, E.V)])
    # handed on as it is
    v = r
    if v.k == 'call' and v.a[0].split('::')[-1] == 'with' and any(x.k == 'clo' and x.a[0] in clos for x in v.a[1]):
        return whole(f, P, [u for x in v.a[1] if x.k == 'clo' for u in x.a[1] if isinstance(u, E.V)])
    if v.k == 'call' and (v.a[0].split('::')[-1] in GEN or v.a[0].split('::')[-1] == 'generate'):
        return whole(f, P, buffer_of(v))
    return any(a.k == 'call' and o == 'S' and a.a[0].split('::')[-1] in GEN and whole(f, P, buffer_of(a)) for a, o in fs)


def whole(f, P, us):
    for u in us:
        b, parts = peel(u)
        if any(not header(p) for p in parts):
            continue
        if b.k == 'p' or b.k == 'f' and b.a[0].k == 'p':
            return True
        if b.k == 'call' and b.a[0].split('::')[-1].startswith('from_raw_parts') and strip(b.a[1][0]).k == 'p' and strip(b.a[1][1]).k == 'p':
            return True
    return False


class Pairs(E.Rule):
    name = 'pairs'
    K, KS = 48, 96

    def __init__(self, good):
        self.good = good

    def atom(self, n):
        return n in PAIR or n in self.good

    def opaque(self, n):
        return n in self.good

    def atomv(self, v):
        return True


def pairing(ctx):
    """the functions whose success means that the library generated a key pair"""
    P = ctx.P
    cand = [f for f in F.rreach(P, list(PAIR)) if f in P.fns and P.fns[f]['crate'] in (LIB, 'ossl') and '::tests' not in f and 'Result' in P.fns[f]['locals'][0]]
    good = set()
    while True:
        new = set()
        for f in sorted(cand):
            if f in good or not any(nm(fr) in PAIR or nm(fr) in good or any(t in good for t in F.targets(P, fr)) for b, fr, a, d, l in P.calls.get(f, ())):
                continue
            rs = [(r, fs) for r, fs in rets(P, f, Pairs(good)) if r.k not in ('F', 'err')]
            if rs and all(any(a.k == 'call' and (a.a[0] in PAIR and o == 1 or a.a[0] in good and o == 'S') for a, o in fs) or r.k == 'call' and r.a[0] in good for r, fs in rs):
                new.add(f)
        if not new:
            return good
        good |= new


def C29(ctx):
    P = ctx.P
    clos = core(ctx)
    # ---- consumers
    ctx.rule('a salt, IV or key value taken from a buffer of known contents is used only when the generator filled all of it')
    gens = [f for im in P.impls for m, f in im['m'].items() if m.split('::')[-1] in ('generate_key', 'generate_keypair')]
    keyfns = {f for f in F.reach(P, gens) if f in P.fns and P.fns[f]['crate'] == LIB and not P.fns[f].get('parent') and not re.search('Storage|::derive$|::set_key$|default_key_attributes', f)}
    r = Rand(P, clos, keyfns)
    roots = set()
    n = 0
    for f, cs in P.calls.items():
        if P.fns[f]['crate'] == LIB and '::tests' not in f:
            for b, fr, a, d, l in cs:
                if r.sink(nm(fr), a, f):
                    roots.add(f)
    eng = E.Engine(P, r)
    bad = {}
    for root, sid, args, facts, tr in eng.run(sorted(roots)):
        if sid[0] != root:
            continue
        w = r.judge(sid[1], args, list(facts))
        if w:
            bad.setdefault((sid[0], sid[1].split('::')[-1]), (sid[2], w))
    for f in sorted(roots):
        ctx.analysed.add(f)
        for last in sorted({nm(fr).split('::')[-1] for b, fr, a, d, l in P.calls[f] if r.sink(nm(fr), a, f)}):
            line, w = bad.get((f, last), (P.fns[f]['line'], ''))
            if w:
                up = {c for c in P.callers.get(f, ()) if c in P.fns and P.fns[c]['file'] == P.fns[f]['file']}
                if up and len(up) == len(P.callers.get(f, ())) and not any(sid[0] == f and sid[1].split('::')[-1] == last and r.judge(sid[1], args, list(facts)) for root, sid, args, facts, tr in eng.run(sorted(up))):
                    w = ''
            ctx.ob('use|%s|%s' % (short(f), last), not w, ctx.where(f, line), w)
    ctx.floor('functions that use salts, IVs or key values', len(roots), 25)
    # ---- the places where something random is asked for
    sites = sum(1 for f in P.calls if P.fns[f]['crate'] == LIB and '::tests' not in f for b, fr, a, d, l in P.calls[f]
                if nm(fr).split('::')[-1] == 'get_random_data' or nm(fr).split('::')[-1] == 'with' and any(c in clos for c in closargs(P, f, a, fr)))
    ctx.stats['requests of the generator'] = sites
    # ---- keys
    ctx.rule('a key is generated only with bytes of the generator or by the key generation of the library')
    k = 0
    pairs = pairing(ctx)
    for im in P.impls:
        for m, f in im['m'].items():
            if m.split('::')[-1] not in ('generate_key', 'generate_keypair') or f not in P.fns or not (im['tr'] or '').endswith('Mechanism'):
                continue
            k += 1
            ctx.analysed.add(f)
            pair = m.split('::')[-1] == 'generate_keypair'
            pw = any(PASSWORD.search(g.split('::')[-1]) for g in F.reach(P, [f])) and PASSWORD.search(f)
            good, why = True, ''
            for rr, fs in () if pair else rets(P, f, Keys(clos)):
                if rr.k in ('F', 'err') or rr.k == 'call':
                    continue
                if pw:
                    continue
                hit = any(a.k == 'call' and o == 'S' and (a.a[0].split('::')[-1] == 'with' and any(x.k == 'clo' and x.a[0] in clos for x in a.a[1]) or a.a[0].split('::')[-1] in GEN) for a, o in fs)
                if not hit:
                    good, why = False, 'a key is returned without the generator having been used'
            if pair and f not in pairs:
                good, why = False, 'a key pair is returned that the library did not generate'
            ctx.ob('key|%s' % short(f), good, ctx.where(f, P.fns[f]['line']), why)
    ctx.floor('key generation functions', k, 7)
    # ---- C_GenerateRandom
    ap = api(P)
    f = ap.get('C_GenerateRandom')
    if f is None:
        ctx.missing('C_GenerateRandom')
    else:
        good, why, any_ok = True, '', False
        for rr, fs in rets(P, f, Keys(clos)):
            if cval(rr) != 0:
                continue
            any_ok = True
            hit = False
            for a, o in fs:
                if a.k == 'call' and o == 'S':
                    for u in given(a):
                        b, parts = peel(u)
                        if not parts and (b.k == 'call' and b.a[0].split('::')[-1].startswith('from_raw_parts') and strip(b.a[1][0]).k == 'p' and strip(b.a[1][0]).a[0] == 2 and strip(b.a[1][1]).k == 'p' and strip(b.a[1][1]).a[0] == 3):
                            hit = True
            if not hit:
                good, why = False, 'CKR_OK is returned without all of the buffer having been filled by the generator'
        ctx.ob('api|C_GenerateRandom', good and any_ok, ctx.where(f, P.fns[f]['line']), why or 'no successful return was found')
    ivs(ctx, clos)
    kind(ctx)


class Keys(Chain):
    name = 'keys'

    def __init__(self, clos):
        self.clos = clos

    def atom(self, n):
        return n in PAIR or n.split('::')[-1] in ('with', 'get_random_data', 'get_random')

    def atomv(self, v):
        return v.a[0].split('::')[-1] != 'with' or any(x.k == 'clo' and x.a[0] in self.clos for x in v.a[1])

    def field(self, o, n):
        return False


def closargs(P, f, args, fr):
    x = fr.get('fn') or {}
    for c in x.get('cl') or ():
        yield c
    for t in x.get('ta') or ():
        m = re.search(r'([\w:<> ,\'&]+::\{closure#\d+\})', str(t))
        if m:
            yield m.group(1)


class Iv(E.Rule):
    name = 'iv'
    K, KS = 96, 160

    def __init__(self, clos):
        self.clos = clos

    def field(self, o, n):
        return n in ('generator', 'ivGenerator')

    def atom(self, n):
        return n.split('::')[-1] in ('with', 'get_random_data', 'generate_iv')

    def event(self, n):
        return n.split('::')[-1] in ('copy_from_slice', 'clone_from_slice')


def ivs(ctx, clos):
    P = ctx.P
    ctx.rule('an IV the token chooses at random takes its bytes from the generator, and a cipher that is to choose its IV does so before it is set up')
    n = 0
    RND, NO = ctx_const(ctx, 'CKG_GENERATE_RANDOM'), ctx_const(ctx, 'CKG_NO_GENERATE')
    for f, d in sorted(P.fns.items()):
        if d['crate'] != LIB or '::tests' in f or d.get('parent'):
            continue
        g = any(nm(fr).split('::')[-1] in ('get_random_data',) for b, fr, a, dd, l in P.calls.get(f, ()))
        c = any(nm(fr).split('::')[-1] == 'generate_iv' for b, fr, a, dd, l in P.calls.get(f, ()))
        if not (c or f.split('::')[-1] == 'generate_iv'):
            continue
        ctx.analysed.add(f)
        rs = [(r, list(fs)) for r, fs in rets(P, f, Iv(clos)) if r.k not in ('F', 'err')]
        if f.split('::')[-1] == 'generate_iv':
            n += 1
            hit = False
            good = True
            for r, fs in rs:
                gen = [o for a, o in fs if a.k == 'f' and a.a[1] == 'generator']
                if RND in gen:
                    hit = True
                    bufs = [peel(u)[0] for a, o in fs if a.k == 'call' and o == 'S' for u in given(a) if all(header(x) for x in peel(u)[1])]
                    used = any(a.k == 'ev' and any(s is b for b in bufs for x in a.a[1:] for s in subs_of(x)) for a, o in fs)
                    good = good and bool(bufs) and used
            ctx.ob('iv|%s|random' % short(f), hit and good or not hit and not rs, ctx.where(f, d['line']), 'the random IV does not take the bytes of the generator')
        if c:
            n += 1
            good = True
            for r, fs in rs:
                called = any(a.k == 'call' and a.a[0].split('::')[-1] == 'generate_iv' and o == 'S' for a, o in fs)
                none = any(a.k == 'f' and a.a[1] == 'generator' and o == NO for a, o in fs)
                if not called and not none:
                    good = False
            ctx.ob('iv|%s|setup' % short(f), good, ctx.where(f, d['line']), 'a cipher is set up without the IV it was to choose')
    # parameters made by the token
    for f, d in sorted(P.fns.items()):
        if d['crate'] != LIB or '::tests' in f or '::fns::' in f:
            continue
        enc = any(nm(fr).split('::')[-1] in ('msg_encrypt', 'msg_encrypt_begin', 'encrypt_message') and 'aes' not in nm(fr) for b, fr, a, dd, l in P.calls.get(f, ()))
        if not enc:
            continue
        fn = Fn(P, f)
        for ag, ty in aggs(P, f, lambda t: t.split('::')[-1] in ('CK_GCM_MESSAGE_PARAMS', 'CK_CCM_MESSAGE_PARAMS')):
            n += 1
            o = ag.get('ivGenerator', ag.get('nonceGenerator'))
            v = konst(fn, o)
            ctx.ob('iv|%s|own' % short(f), v == RND, ctx.where(f, d['line']), 'the token encrypts with an IV that is not chosen at random')
    ctx.floor('places where IVs are chosen', n, 3)


def subs_of(x):
    if isinstance(x, E.V):
        return subs(x)
    if isinstance(x, (tuple, list)):
        return [s for y in x for s in subs_of(y)]
    return []


def konst(fn, o, n=0):
    if isinstance(o, dict) and 'k' in o:
        v = o['k'].get('v')
        return int(v) if v is not None and re.match(r'^-?\d+$', str(v)) else None
    l, pr = opl(o)
    if l is None or pr or n > 8:
        return None
    a = fn.assigned.get(l, [])
    if len(a) == 1 and a[0][0] in ('use', 'cast'):
        return konst(fn, a[0][1] if a[0][0] == 'use' else next((x for x in a[0][1:] if isinstance(x, dict)), None), n + 1)
    return None


def ctx_const(ctx, name):
    return constval(ctx.P, name)


class Kind(E.Rule):
    name = 'kind'
    K, KS = 48, 96

    def atom(self, n):
        return n.endswith(('EVP_RAND_fetch', 'EVP_RAND_instantiate', 'EVP_RAND_CTX_new'))


def kind(ctx):
    """the generator is an instantiated DRBG of the library"""
    P = ctx.P
    ctx.rule('the generator is a DRBG of the library that was instantiated successfully')
    n = 0
    for f, d in sorted(P.fns.items()):
        if d['crate'] != 'ossl' or not any(nm(fr).endswith('EVP_RAND_CTX_new') for b, fr, a, dd, l in P.calls.get(f, ())):
            continue
        n += 1
        ctx.analysed.add(f)
        good = True
        for r, fs in rets(P, f, Kind()):
            if r.k in ('F', 'err'):
                continue
            inst = any(a.k == 'call' and a.a[0].endswith('EVP_RAND_instantiate') and o == 1 for a, o in fs)
            good = good and inst
        ctx.ob('drbg|%s' % short(f), good, ctx.where(f, d['line']), 'a generator is handed out that was not instantiated')
        names = re.findall(r'(CTR-DRBG|HASH-DRBG|HMAC-DRBG|TEST-RAND|SEED-SRC|CRNG-TEST)', str([b for b in d['blocks']]))
        if names:
            ctx.ob('drbg|%s|name' % short(f), all(x.endswith('DRBG') for x in names), ctx.where(f, d['line']), 'the generator is not a DRBG')
    ctx.floor('generators made', n, 1)
