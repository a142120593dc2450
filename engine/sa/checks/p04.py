"""P04: finalizing or serializing a state does not use it up."""
import re
from .. import aggtab, own
from ..absint import Interp, Hooks, Budget, V, root, locstr, collapse, sub

RULE = ('For every distinct final, moving-final and serialize function with an internal state: inlining abstract interpretation of its '
        'MIR with a present state. Container operations that empty their receiver (drain, clear, truncate, pop, retain, mem::take/replace, '
        'Option::take, ...) and assignments are strong updates of the state. Obligations: (a) conservation: the initial content of every location of the '
        'state that was emptied or overwritten still flows into some location of the state when the function returns; '
        '(b) idempotence: everything else written to the state is a reordering of the same location, or is computed from (or written by the '
        'function that empties) a buffer of the state, so a second call computes from the same information.')
ASSUMES = ['Aggregates may be finalized or serialized repeatedly over one state (window frames, shared transition states); that is what PostgreSQL documents.',
           'Flow of labels over-approximates: a partial loss inside one computed value (an arithmetic mistake) is not visible.']
ROLES = ('finalfunc', 'serialfunc', 'mfinalfunc')
LOSSY = re.compile(r'(Vec|VecDeque|BinaryHeap|HashMap|HashSet|BTreeMap|BTreeSet|String|IndexMap)(::<.*>)?(<.*>)?::(drain|clear|truncate|pop|pop_front|pop_back|retain|retain_mut|dedup\w*|'
                   r'split_off|remove|swap_remove|extract_if|drain_sorted|into_sorted_vec|append)(::<.*)?$')
# reorder in place, or hand out a reference (a write through it is seen where it happens)
PARTIAL = re.compile(r'::(truncate|pop|pop_front|pop_back|retain|retain_mut|dedup\w*|split_off|remove|swap_remove|extract_if)(::<.*)?$')
PERM = re.compile(r'^<?(std::vec|std::slice|alloc::|core::slice|std::string|<impl \[T\]>|std::collections|\[T\]).*::(sort\w*|reverse|swap|make_contiguous|select_nth\w*|reserve\w*|shrink_to\w*|as_mut\w*|'
                  r'iter_mut|values_mut|last_mut|first_mut|get_mut|deref_mut|index_mut)(::<.*)?$')


class H(Hooks):
    def __init__(s):
        s.w = {}        # written location -> [(value, stack, bool?)]
        s.emptied = {}
        s.perm = 0

    def call(s, I, rec, path, args, atys, dty, site, st, fid):
        if not args or atys[0] is None:
            return None
        if path.endswith('::is_empty') and len(args) == 1:
            tg = I.targets(args[0])
            if len(tg) == 1:
                l = next(iter(tg))
                while l[1] and l[1][-1] == '[]':      # a slice of the container
                    l = (l[0], l[1][:-1])
                return st, V(c=('isempty', l), lab=frozenset([l]))
        if LOSSY.search(path):
            tys = I.F.tys[atys[0]]
            if tys['k'] not in ('ref', 'ptr'):
                return None
            i = 1 if path.split('::')[-1].startswith('append') else 0     # Vec::append empties its argument
            st2 = dict(st)
            rv = I.opaque(st2, rec, path, args, atys, dty, site)
            I.wty = None
            rv = V(lab=rv.lab, ptr=frozenset(l for l in rv.ptr if l not in {sub(x, '[]') for x in I.targets(args[i])}))
            for l in I.targets(args[i]):
                if l[0][0] == 'U' or PARTIAL.search(path) and root(l) != ('P', '1'):
                    continue
                s.emptied.setdefault(l, [x['path'] for x, _ in I.stack])
                I.store_loc(st2, l, V(c=('emptied',)), len(I.targets(args[i])) > 1, site)
            return st2, rv
        if PERM.search(path) :
            st2 = dict(st)
            keep = {l: I.load(st, l) for l in I.targets(args[0]) if l[0][0] != 'U'}
            s.perm += 1
            rv = I.opaque(st2, rec, path, args, atys, dty, site)
            for l, v in keep.items():
                st2[l[0]] = I.upd(I.load_obj(st2, l[0]), l[1], v, False, None)
            s.perm -= 1
            return st2, rv
        return None

    def branch(s, I, v, val, st):
        if isinstance(v.c, tuple) and (v.c[0], val) in (('isempty', 1), ('notempty', 0)):
            o, p = v.c[1]
            if root(v.c[1]) == ('P', '1') and o != ('P', '1'):
                st[o] = I.upd(I.load_obj(st, o), p, V(c=('emptied',)), False, None)

    def stored(s, I, loc, val, weak, site, st):
        if s.perm or weak or root(loc) != ('P', '1') or loc[0] == ('P', '1'):
            return val
        if any(covers(l, loc) for l in I.deep_labels(st, val) if l[0][0] != 'X') or I.load(st, loc).var == frozenset([0]):
            return val
        if I.load(st, loc).c == ('emptied',) or I.wty is not None and I.F.tys[I.wty]['k'] == 'prim':     # nothing to lose / a scalar, see (b)
            return val
        s.emptied.setdefault(loc, [x['path'] for x, _ in I.stack])
        return V(val.syms, val.ptr, val.f, val.var, val.c, val.lab | frozenset([lost(loc)]))

    def write(s, I, loc, val, site, st):
        if s.perm or root(loc) != ('P', '1') or loc[0] == ('P', '1'):
            return
        s.w.setdefault(loc, []).append((val, frozenset(I.deep_labels(st, val)), [x['path'] for x, _ in I.stack]))


def covers(a, b):
    """location a is b or contains b, or lies inside b"""
    if a[0] != b[0]:
        o = a[0]
        while o[0] == 'D':      # a behind a pointer held in b
            if (o[1] == b[0]) and o[2][:len(b[1])] == b[1]:
                return True
            o = o[1]
        return False
    n = min(len(a[1]), len(b[1]))
    return a[1][:n] == b[1][:n]


def lost(loc):
    """marks the value of a location whose content was taken out on some path"""
    return (('X', loc), ())


def moved(I, st, v, o, p, out):
    """what has flowed into the state since it was received"""
    out |= set(v.lab) | {x for x in v.syms if x != (o, p)}
    for t in v.ptr:
        if not (t[0][0] == 'D' and root(t) == ('P', '1')):
            out |= I.deep_labels(st, V(ptr=frozenset([t])))
    for k, x in (v.f or {}).items():
        moved(I, st, x, o, p + (k,), out)


def marks(v, out):
    out |= {x[0][1] for x in v.lab if x[0][0] == 'X'}
    for x in (v.f or {}).values():
        marks(x, out)


def run(ctx):
    F = ctx.F
    todo = {}
    for a in aggtab.table(F):
        if a['opts']['stype'].lower() != 'internal':
            continue
        for role in ROLES:
            for e in a['roles'].get(role, ()):
                todo.setdefault(e['path'], set()).add((a['name'], role))
    ctx.floor('final_and_serialize_functions', len(todo), 59)
    for path, names in sorted(todo.items()):
        f = F.fn(path)
        nm = '%s (%s)' % (path, ', '.join(sorted('%s of %s' % (r, n) for n, r in names))[:120])
        if f is None:
            ctx.viol('missing:' + path, 'no body for %s' % nm)
            continue
        h = H()
        I = Interp(F, h, budget=200000)
        try:
            st, rv = I.call({}, f, [own.internal_param(1, 1)] + [own.param(i + 1) for i in range(1, f['argc'])], ('top',))
        except Budget as ex:
            ctx.viol('budget:' + path, 'analysis of %s exceeded its budget: %s' % (path, ex))
            continue
        ctx.count('functions_followed', len(I.fns_seen))
        ctx.count('state_writes', sum(len(v) for v in h.w.values()))
        if st is None:
            ctx.viol('noreturn:' + path, '%s never returns normally' % nm)
            continue
        for o in list(st):
            if o[0] != 'D' or root((o, ())) != ('P', '1'):
                continue
            ms = set()
            marks(st[o], ms)
            for loc in ms:
                if loc[0] != o or not any(x == lost(loc) for x in collapse(I.load(st, loc)).lab):
                    continue
                labs = set()
                for o2 in list(st):
                    if o2[0] == 'D' and root((o2, ())) == ('P', '1'):
                        moved(I, st, st[o2], o2, (), labs)
                if not any(covers(l, loc) for l in labs if l[0][0] in ('D', 'L', 'H') and l[0] != ('P', '1')):
                    ctx.viol('lost:%s:%s' % (path, locstr(loc)), '%s takes the content of state location %s out of the state and does not put it back (%s)' % (nm, locstr(loc), ' > '.join(h.emptied.get(loc, ())[-3:])))
        ctx.count('emptied_locations', len([l for l in h.emptied if root(l) == ('P', '1')]))
        flush = {s[-1] for l, s in h.emptied.items() if root(l) == ('P', '1')}     # functions that empty a buffer of the state
        for loc, ws in h.w.items():
            for val, labs, stack in ws:
                ctx.count('rewritten_locations')
                if stack[-1] in flush or any(covers(l, e) for l in labs for e in h.emptied if e[0] != ('P', '1')):
                    continue
                ctx.viol('alter:%s:%s' % (path, locstr(loc)), '%s changes state location %s although no buffered content is being merged there: the next call starts from a different state (%s)' %
                         (nm, locstr(loc), ' > '.join(stack[-3:])))
