"""Loops over the elements of an iterator, and where they are left early."""
import re
from . import flow

NEXT = re.compile(r'::(next|next_back|pop|pop_front|pop_back|peek|peek_mut|next_if|nth|recv)$')
LEN = re.compile(r'::(len|count|is_full|capacity)$')
TR = re.compile(r'(::unwrap|::expect|::clone|::into|::from|::deref|::as_ref|::borrow|::into_iter|::copied|::cloned)$')


def sccs(n, succ):
    """strongly connected components with more than one block (or a self loop)"""
    idx, low, on, st, out, k = {}, {}, set(), [], [], [0]
    for r in n:
        if r in idx:
            continue
        work = [(r, iter(succ(r)))]
        idx[r] = low[r] = k[0]
        k[0] += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in n:
                    continue
                if w not in idx:
                    idx[w] = low[w] = k[0]
                    k[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ(w))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.add(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in succ(v):
                        out.append(c)
    return out


def loops(f):
    """(blocks, headers) of every outermost loop"""
    B = f['blocks']
    S = {i: flow.succ(b['t']) for i, b in enumerate(B)}
    pred = {}
    for i, ss in S.items():
        for s in ss:
            pred.setdefault(s, set()).add(i)
    for c in sccs(set(S), lambda b: S[b]):
        yield c, {b for b in c if pred.get(b, set()) - c}


def name(F, t):
    return F.fns[t[1]]['path'] if isinstance(t[1], int) else str(t[1])


def returning(f):
    B = f['blocks']
    pred = {}
    for i, b in enumerate(B):
        for s in flow.succ(b['t']):
            pred.setdefault(s, set()).add(i)
    out, st = set(), [i for i, b in enumerate(B) if b['t'][0] == 'ret']
    while st:
        b = st.pop()
        if b not in out:
            out.add(b)
            st.extend(pred.get(b, ()))
    return out


def early_exits(F, f):
    """number of iterator loops of f, and the (block, line) pairs where one is left although the iterator may have more elements and the
    collection that takes them is not known to be full"""
    B = f['blocks']
    ret = None
    n, out = 0, []
    for c, heads in loops(f):
        calls = [B[b]['t'] for b in c if B[b]['t'][0] == 'call']
        inner = set().union(*sccs(c - heads, lambda b: flow.succ(B[b]['t'])))
        if not any(B[b]['t'][0] == 'call' and NEXT.search(name(F, B[b]['t'])) for b in c - inner) or not any(stores(F, f, t) for t in calls):
            continue
        n += 1
        ret = returning(f) if ret is None else ret
        for u in sorted(c):
            t = B[u]['t']
            ex = [v for v in flow.succ(t) if v not in c and v in ret]
            if not ex or t[0] == 'sw' and exhausted(F, f, t):
                continue
            if unguarded(F, f, c, heads, u):
                out.append((u, t[-1]))
    return n, out


def stores(F, f, t):
    """a call that may put something into a collection: first argument a mutable reference, and something to put"""
    if len(t[2]) < 2 or t[2][0][0] == 'k' or NEXT.search(name(F, t)):
        return False
    ty = flow.place_ty(F, f, t[2][0][1])
    return ty is not None and F.tys[ty]['k'] == 'ref' and F.tys[ty].get('m') or 'Inner<' in (F.tstr(ty) if ty is not None else '')


def exhausted(F, f, t):
    """the switch looks at what the iterator gave, or at a result passed up with `?`"""
    if t[1][0] == 'k':
        return True
    ok = False
    for d in flow.defs(f).get(flow.loc(t[1][1]), ()):
        if d[0] == 's' and d[2][0] == 'discr':
            ty = flow.place_ty(F, f, d[2][1])
            s = F.tys[ty].get('path', '') if ty is not None else ''
            if s.endswith('ControlFlow') or s.endswith('result::Result'):
                ok = True
                continue
            os = flow.origins(F, f, ['c', d[2][1]], TR)
            calls = [o for o in os if o[0] == 'call']
            if not calls or not any(NEXT.search(o[1]) for o in calls):
                return False
            ok = True
        elif d[0] == 'c' and re.search(r'::(is_some|is_none)$', name(F, d[2])) and d[2][2][0][0] != 'k':
            if not any(o[0] == 'call' and NEXT.search(o[1]) for o in flow.origins(F, f, d[2][2][0], TR)):
                return False
            ok = True
        else:
            return False
    return ok


def fullness(F, f, op, depth=0):
    """truth value (0/1) of the operand that means "at capacity", or None"""
    if op[0] == 'k' or flow.projs(op[1]):
        return None
    ds = flow.defs(f).get(flow.loc(op[1]), ())
    if len(ds) != 1:
        return None
    d = ds[0]
    if d[0] == 'c':
        g = F.fns.get(d[2][1]) if isinstance(d[2][1], int) else None
        if g and g.get('ws') and 'blocks' in g and depth < 3:
            return fullness(F, g, ['c', 0], depth + 1)
        return None
    rv = d[2]
    if rv[0] == 'use':
        return fullness(F, f, rv[1], depth)
    if rv[0] == 'un' and rv[1] == 'Not':
        r = fullness(F, f, rv[2], depth)
        return None if r is None else 1 - r
    if rv[0] == 'bin' and rv[1] in ('Eq', 'Ge', 'Gt', 'Lt', 'Ne', 'Le'):
        l = [is_len(F, f, o) for o in rv[2:4]]
        if l[0] == l[1] or 'k' in (rv[2][0], rv[3][0]):
            return None
        op = rv[1] if l[0] else {'Ge': 'Le', 'Gt': 'Lt', 'Lt': 'Gt', 'Le': 'Ge'}.get(rv[1], rv[1])
        return {'Eq': 1, 'Ge': 1, 'Gt': 1, 'Lt': 0, 'Ne': 0, 'Le': None}[op]
    return None


def is_len(F, f, op):
    return op[0] != 'k' and any(o[0] == 'call' and LEN.search(o[1]) for o in flow.origins(F, f, op, TR))


def unguarded(F, f, c, heads, u):
    """can u be reached from the loop's head without the collection being full?"""
    B = f['blocks']
    seen, st = set(), list(heads)
    while st:
        b = st.pop()
        if b in seen or b not in c:
            continue
        seen.add(b)
        t = B[b]['t']
        nx = list(flow.succ(t))
        if t[0] == 'sw':
            full = fullness(F, f, t[1])
            if full is not None:
                tb = [x[1] for x in t[2] if int(x[0]) == full]
                tb = tb[0] if tb else t[3]
                nx = [x for x in nx if x != tb]
        st.extend(nx)
    if u not in seen:
        return False
    # u itself may be the fullness test whose "full" side leaves
    t = B[u]['t']
    if t[0] == 'sw':
        full = fullness(F, f, t[1])
        if full is not None:
            tb = [x[1] for x in t[2] if int(x[0]) == full]
            tb = tb[0] if tb else t[3]
            ret = returning(f)
            return any(v not in c and v in ret and v != tb for v in flow.succ(t))
    return True
