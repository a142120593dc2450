"""Must-analysis: on every path a buffer of an aggregate state has been found empty, emptied, or read from end to end."""
import re
from .absint import Interp, Budget, V, sub
from .checks import p06

# points and values which wait in the state: (type, field)
BUFFERS = {('CounterSummaryTransState', 'point_buffer'), ('GaugeSummaryTransState', 'point_buffer'), ('TimeWeightTransState', 'point_buffer'), ('Builder', 'buffer'), ('HeartbeatTransState', 'buffer')}
CONSUME = re.compile(r'::(iter|into_iter|drain|clear|append|extend|extend_from_slice|deref|as_slice|as_ref|borrow|to_vec|from|into|extend_desugared|copy_from_slice|take|replace)(::<.*)?$')


def buffers(F, t):
    return [(lp, lt, '.'.join(x for _, x in names)) for lp, lt, names in p06.leaves(F, t) if any(x in BUFFERS for x in names)]


def key(b):
    return ('X', 'pend', b)


class H(p06.H):
    """bufs: {(location of the buffer in the state): its type}"""
    def __init__(s, F, bufs):
        p06.H.__init__(s)
        s.F, s.bufs, s.at = F, bufs, []

    def start(s):
        return {key(b): V(c=0) for b in s.bufs}

    def which(s, I, st, v, t, byref=True):
        """buffers the argument v of type t is, or points to"""
        F, r = s.F, []
        d = 0
        while t is not None and F.tys[t]['k'] in ('ref', 'ptr'):
            t, d = F.tys[t]['to'], d + 1
        if t is None:
            return r
        for b, bt in s.bufs.items():
            if t != bt and not (F.tys[t]['k'] == 'slice' and F.tys[t].get('to') in (F.tys[bt].get('args') or ())):
                continue
            vs = [v]
            for _ in range(d):
                vs = [x for y in vs for l in I.targets(y) for x in ([V(syms=frozenset([l]))] if l[0][0] == 'U' else [I.load(st, l)])]
            locs = {l for l in I.targets(v)} if d else set()
            if any(p06.covers(l, b) or p06.covers(b, l) for x in vs for l in x.syms | x.lab | frozenset(I.deep_labels(st, x))) or b in locs:
                r.append(b)
        return r

    def call(s, I, rec, path, args, atys, dty, site, st, fid):
        p06.H.call(s, I, rec, path, args, atys, dty, site, st, fid)
        if path == 'bincode::serialize_into':
            s.at.append({b: I.load(st, (key(b), ())).c for b in s.bufs})
        if not args or atys[0] is None:
            return None
        if re.search(r'_ptr::<impl \*(mut|const) T>::as_(mut|ref)$', path) and any(x[0][0] == 'P' for x in args[0].syms):      # the state is there
            return st, V(f={(1, 0): args[0]}, var=frozenset([1]))
        m = re.sub(r'(::<[^:]*>)$', '', path).split('::')[-1]
        if m in ('is_empty', 'len') and len(args) == 1:
            bs = s.which(I, st, args[0], atys[0])
            if bs:
                return st, V(c=('isempty' if m == 'is_empty' else 'len', tuple(bs)), lab=frozenset(bs))
        if CONSUME.search(path):
            for a, t in zip(args, atys):
                for b in s.which(I, st, a, t):
                    st[key(b)] = V(c=1)
        return None

    def binop(s, I, op, a, b, site, st):
        for x, y, o in ((a, b, op), (b, a, {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op))):
            if isinstance(x.c, tuple) and x.c[0] == 'len' and isinstance(y.c, int):
                k = {('Eq', 0): 'isempty', ('Le', 0): 'isempty', ('Lt', 1): 'isempty', ('Ne', 0): 'notempty', ('Gt', 0): 'notempty', ('Ge', 1): 'notempty'}.get((o, y.c))
                if k:
                    return V(c=(k, x.c[1]), lab=x.lab)
        return None

    def branch(s, I, v, val, st):
        if isinstance(v.c, tuple) and (v.c[0], val) in (('isempty', 1), ('notempty', 0), ('len', 0)):
            for b in v.c[1]:
                st[key(b)] = V(c=1)

    def stored(s, I, loc, val, weak, site, st):
        if loc in s.bufs and not weak:      # replaced as a whole: what was there has been moved out or is dropped (flow of what is dropped: may-analysis)
            st[key(loc)] = V(c=1)
        return val


def run(F, f, args, t_by_param):
    """interpret f; -> (hook, state after, result) or None when no state has buffers"""
    bufs = {}
    for i, ts in t_by_param.items():
        for t in ts:
            for lp, lt, n in buffers(F, t):
                bufs[(p06.STATE(i), lp)] = lt
    if not bufs:
        return None
    h = H(F, bufs)
    I = Interp(F, h)
    st, rv = I.call(h.start(), f, args, ('top',))
    return h, I, st, rv
