"""Shared machinery of the checks: obligations, reports, common predicates."""
import os, sys, re, json, collections
import facts as F
import engine as E
from engine import iscall, is_c, cval, subs, mk

LIB = 'kryoptic_lib'


class Missing(Exception):
    pass


class Ctx(object):
    def __init__(self, pid, P, tier='quick', seed=1):
        self.pid, self.P, self.tier, self.seed = pid, P, tier, seed
        self.obls = collections.OrderedDict()   # key -> (ok, where, msg)
        self.rules = []
        self.analysed = set()
        self.sites = []
        self.stats = collections.Counter()
        self.notes = []

    # an obligation; the same key may be stated several times, one failure fails it
    def ob(self, key, ok, where='', msg=''):
        old = self.obls.get(key)
        if old is None or (old[0] and not ok):
            self.obls[key] = (bool(ok), where, msg)
        return ok

    def rule(self, text):
        self.rules.append(text)

    def floor(self, what, n, least):
        self.ob('floor|%s' % what, n >= least, '', 'only %d %s found, %d expected: the rule lost its instances' % (n, what, least))

    def missing(self, what):
        self.ob('anchor|%s' % what, False, '', 'anchor not found: %s' % what)

    # ---- lookups
    def fn(self, suffix, crate=None, quiet=False):
        """the one function whose id ends with suffix"""
        r = fns(self.P, suffix, crate)
        if not r:
            if not quiet:
                self.missing(suffix)
            return None
        return r[0]

    def where(self, f, line=None):
        fn = self.P.fns.get(f)
        if not fn:
            return str(f)
        return '%s:%s %s' % (fn['file'], line if line else fn['line'], f)

    # ---- run an engine rule from API roots
    def engine(self, rule, roots, label=None, ignore=None, trace=True):
        e = E.Engine(self.P, rule)
        label = label or rule.name
        rn = roots if isinstance(roots, dict) else {r: r for r in roots}
        inv = {v: k for k, v in rn.items()}
        seen = {}
        for (root, sid, args, fs, tr) in e.run(sorted(set(rn.values()))):
            if ignore and ignore(root, sid, args, fs):
                continue
            api = inv.get(root, root)
            key = '%s|%s|%s|%s' % (label, api, short(sid[0]), short(sid[1]))
            if key in seen:
                continue
            seen[key] = 1
            path = ' -> '.join([api] + ['%s:%s' % (short(f), l) for f, l in tr] + ['%s:%s' % (short(sid[0]), sid[2])])
            fct = '; '.join('%s=%s' % (E.show(a), o) for a, o in list(fs.items() if isinstance(fs, dict) else fs)[:12])
            self.ob(key, False, self.where(sid[0], sid[2]),
                    '%s: path %s reaches %s(%s) without the required check [facts: %s]' % (
                        label, path, sid[1], ', '.join(E.show(a) for a in (args or ())), fct))
        ok = e.stats['sink_ok_local'] + e.stats['sink_ok_caller']
        for (f, n, l) in sorted(e.sites, key=str):
            self.ob('site|%s|%s|%s' % (label, short(f), short(n)), True, self.where(f, l), '')
        self.stats['functions_interpreted'] += e.stats['functions']
        self.stats['sink_evaluations'] += e.stats['sink_evals']
        self.stats['sink_discharged'] += ok
        self.stats['merges'] += e.stats['merges']
        self.analysed |= set(e.sums)
        self.sites += [(label, f, n, l) for f, n, l in e.sites]
        return e

    def reaching(self, e, roots):
        """names of roots from which a sink site is call-reachable"""
        fs = set(s[0] for s in e.sites)
        out = set()
        for n, r in roots.items():
            if F.reach(self.P, [r]) & fs:
                out.add(n)
        return out


def short(n):
    """stable short name: last two path segments"""
    n = str(n)
    m = re.match(r'<([\w:]+)[^ ]* as [^>]*>+::(.*)$', n)
    if m:
        n = m.group(1).split('::')[-1] + '::' + m.group(2)
    m = re.sub(r'<[^<>]*>', '', n)
    m = re.sub(r'<[^<>]*>', '', m)
    p = m.split('::')
    return '::'.join(p[-2:])


def fns(P, suffix, crate=None):
    out = []
    for k in P.fns:
        if k == suffix or k.endswith('::' + suffix):
            if crate and P.fns[k]['crate'] != crate:
                continue
            out.append(k)
    return sorted(out, key=len)


_api = {}


def api(P):
    """C_* name -> extern fn id, over all three function tables"""
    if id(P) not in _api:
        out = {}
        for t in F.tables(P).values():
            for n, f in t.items():
                if f and n != 'version':
                    out[n] = f
        _api[id(P)] = out
    return _api[id(P)]


def has_fact(fs, pred):
    for a, o in fs.items():
        if pred(a, o):
            return True
    return False


def true(fs, suffix, argpred=None):
    """a call of *suffix returned true on this path"""
    for a, o in fs.items():
        if o == 1 and iscall(a, suffix) and (argpred is None or argpred(a.a[1])):
            return True
    return False


def false(fs, suffix, argpred=None):
    for a, o in fs.items():
        if o == 0 and iscall(a, suffix) and (argpred is None or argpred(a.a[1])):
            return True
    return False


def okc(fs, suffix, argpred=None):
    """a call of *suffix returned Ok/Some on this path"""
    for a, o in fs.items():
        if o == 'S' and iscall(a, suffix) and (argpred is None or argpred(a.a[1])):
            return True
    return False


def term(v, pred):
    for s in subs(v):
        if pred(s):
            return True
    return False


def has_call(v, *names):
    return any(iscall(s, *names) for s in subs(v))


def allsubs(args):
    r = set()
    for a in args or ():
        if isinstance(a, E.V):
            r |= subs(a)
    return r


# ---- body scans
def body_consts(P, f, closures=True):
    """named constants (paths) mentioned by f and its closures"""
    out = []
    F.opconsts(P.fns[f]['blocks'], out)
    F.opconsts(P.fns[f].get('promoted') or [], out)
    for b in P.fns[f]['blocks']:
        if b is None:
            continue
        t = b['t']
    if closures:
        for c in all_closures(P, f):
            F.opconsts(P.fns[c]['blocks'], out)
    return out


def all_closures(P, f):
    out = []
    st = list(P.closures.get(f, ()))
    while st:
        c = st.pop()
        out.append(c)
        st.extend(P.closures.get(c, ()))
    return out


def with_closures(P, f):
    return [f] + all_closures(P, f)


def const_names(P, f):
    return set(c['d'].split('::')[-1] for c in body_consts(P, f) if 'd' in c)


def constval(P, name):
    for k, v in P.consts.items():
        if k.endswith('::' + name):
            return v[0]
    return None
