"""Loads the facts dumped by the kfacts rustc driver and builds the program
model: functions, call graph with dyn dispatch resolved to impls, constants."""
import json, os, pickle, sys, collections

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FACTS = os.path.join(os.environ.get('KBUILD') or os.path.join(BASE, 'build'), 'facts')

CRATES = ('kryoptic_lib-Rlib', 'ossl-Rlib', 'kryoptic_pkcs11-Cdylib',
          'ossl_sys-Rlib')


class Prog:
    pass


def load(crates=CRATES):
    import gc
    gc.disable()
    hv = open(os.path.join(FACTS, 'HASH')).read().strip()
    pk = os.path.join(FACTS, 'model.pickle')
    try:
        with open(pk, 'rb') as f:
            h, p = pickle.load(f)
        if h == hv + str(os.path.getmtime(__file__)):
            return p
    except Exception:
        pass
    P = Prog()
    P.fns = {}
    P.consts = {}
    P.adts = {}
    P.traits = {}
    P.impls = []
    for c in crates:
        d = json.load(open(os.path.join(FACTS, c + '.json')))
        for f in d['fns']:
            # several bodies may share a printed path (e.g. cfg'd consts)
            k = f['id']
            n = 2
            while k in P.fns:
                k = '%s#%d' % (f['id'], n)
                n += 1
            f['key'] = k
            P.fns[k] = f
        P.consts.update({k: (int(v[0]), v[1]) for k, v in d['consts'].items()})
        P.adts.update(d['adts'])
        P.traits.update(d['traits'])
        P.impls += d['impls']
    # trait method -> implementing fn ids (including the default body)
    P.dispatch = collections.defaultdict(list)
    for im in P.impls:
        for tm, m in im['m'].items():
            P.dispatch[tm].append(m)
        for tm, has_default in P.traits.get(im['tr'], {}).items():
            if has_default and tm not in im['m'] and tm in P.fns:
                if tm not in P.dispatch[tm]:
                    P.dispatch[tm].append(tm)
    P.closures = collections.defaultdict(list)
    for k, f in P.fns.items():
        if f['kind'] == 'closure':
            P.closures[f['parent']].append(k)
    build_calls(P)
    try:
        with open(pk + '.tmp%d' % os.getpid(), 'wb') as f:
            pickle.dump((hv + str(os.path.getmtime(__file__)), P), f, 4)
        os.replace(pk + '.tmp%d' % os.getpid(), pk)
    except Exception:
        pass
    return P


def targets(P, fr):
    """fn ids a call may reach inside the analysed crates ([] = external)."""
    fn = fr.get('fn')
    if not fn:
        return []
    r = fn.get('r')
    if r is not None:
        return [r] if r in P.fns else []
    if 'tr' in fn:
        return [m for m in P.dispatch.get(fn['p'], []) if m in P.fns]
    return [fn['p']] if fn['p'] in P.fns else []


def callee_name(fr):
    fn = fr.get('fn')
    if not fn:
        return '?'
    return fn['p'] if ('virt' in fn or 'r' not in fn) else fn['r']


def opconsts(x, out):
    """collect const descriptors anywhere in a json fragment"""
    if isinstance(x, dict):
        k = x.get('k')
        if isinstance(k, dict):
            out.append(k)
        for v in x.values():
            if isinstance(v, (list, dict)):
                opconsts(v, out)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (list, dict)):
                opconsts(v, out)


def build_calls(P):
    P.calls = {}      # fn -> list of (bb, fnref, args, dest, line)
    P.edges = {}      # fn -> set of fn ids (calls, closures, fn refs)
    P.ext = {}        # fn -> set of callee paths (all, also external)
    P.callers = collections.defaultdict(set)
    for k, f in P.fns.items():
        cs = []
        ed = set()
        ex = set()
        for i, b in enumerate(f['blocks']):
            if b is None:
                continue
            t = b['t']
            if t[0] == 'call':
                cs.append((i, t[1], t[2], t[3], t[5]))
                ex.add(callee_name(t[1]))
                if t[1].get('fn'):
                    ex.add(t[1]['fn']['p'])
                for x in targets(P, t[1]):
                    ed.add(x)
                for c in (t[1].get('fn') or {}).get('cl', []):
                    if c in P.fns:
                        ed.add(c)
            for s in b['s']:
                if s[0] != 'dead' and s[1][0] == 'agg' and s[1][1][0] == 'closure':
                    if s[1][1][1] in P.fns:
                        ed.add(s[1][1][1])
            out = []
            opconsts(b, out)
            for c in out:
                if 'fn' in c:
                    for x in targets(P, c):
                        ed.add(x)
        P.calls[k] = cs
        P.edges[k] = ed
        P.ext[k] = ex
        for e in ed:
            P.callers[e].add(k)


def reach(P, roots, stop=lambda f: False):
    seen = set()
    st = [r for r in roots if r in P.fns]
    while st:
        f = st.pop()
        if f in seen:
            continue
        seen.add(f)
        if stop(f):
            continue
        st.extend(P.edges[f])
    return seen


def rreach(P, names):
    """all fns from which a fn in `names` (ids) or calling a path in names is reachable"""
    seen = set()
    st = []
    for k in P.fns:
        if k in names or any(n in P.ext[k] for n in names):
            st.append(k)
    while st:
        f = st.pop()
        if f in seen:
            continue
        seen.add(f)
        st.extend(P.callers.get(f, ()))
    return seen


def tables(P):
    """C_* name -> wrapper fn id for every static CK_FUNCTION_LIST* table"""
    out = {}
    for k, f in P.fns.items():
        if f['kind'] != 'static' or 'CK_FUNCTION_LIST' not in f['locals'][0]:
            continue
        vals = {}
        tab = {}
        for b in f['blocks']:
            if b is None:
                continue
            for s in b['s']:
                if s[0] == 'dead':
                    continue
                pl, rv = s[0], s[1]
                vals[json.dumps(pl)] = rv
                if rv[0] == 'agg' and rv[1][0] == 'adt' and 'CK_FUNCTION_LIST' in rv[1][1]:
                    for fld, op in zip(rv[1][4], rv[2]):
                        tab[fld] = resolve_fn(P, vals, op)
        out[k] = tab
    return out


def resolve_fn(P, vals, op, depth=0):
    if depth > 8:
        return None
    if 'k' in op:
        if 'fn' in op['k']:
            return op['k']['fn'].get('r') or op['k']['fn']['p']
        return None
    pl = op.get('m') or op.get('c')
    rv = vals.get(json.dumps(pl))
    if rv is None:
        return None
    if rv[0] == 'cast':
        return resolve_fn(P, vals, rv[2], depth + 1)
    if rv[0] == 'use':
        return resolve_fn(P, vals, rv[1], depth + 1)
    if rv[0] == 'agg' and rv[2]:
        return resolve_fn(P, vals, rv[2][0], depth + 1)
    return None


if __name__ == '__main__':
    P = load()
    t = tables(P)
    for k, v in t.items():
        print(k, len(v), {a: b for a, b in list(v.items())[:6]}, [a for a, b in v.items() if not b])
