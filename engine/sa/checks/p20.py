"""P20: no rows and empty values are ordinary inputs."""
import re
from .. import aggtab, own
from ..absint import Interp, Hooks, Budget, V, fieldv, root
from ..core import callee_ids
from . import p06

RULE = ('(a) Inlining abstract interpretation of every distinct final, moving-final and combine function with an internal state, every such state absent: it returns NULL '
        'and nothing else, and some path returns. (b) The same for every SQL function, and every pipeline element, that takes a timevector, heartbeat_agg or tdigest, once per such argument: '
        'the argument has no elements (its element count is 0 and its slices are empty), everything else is arbitrary. Emptiness flows through the collection and iterator '
        'operations; unwrapping the first, last, smallest ... element of nothing, indexing nothing, or subtracting from its unsigned length of 0 is a violation wherever a path of the '
        'analysis meets it, and so is a function none of whose paths returns.')
ASSUMES = ['Only failures that are certain on the path that meets them are reported; emptiness of a collection derived by unknown code is not known.',
           'arrow_timevector_asof refuses empty operands deliberately; pipeline elements are followed one by one, the expressions of map and filter lambdas are opaque.']
# stored types which ordinary use can leave without elements, and what is zero then
EMPTY = {'Timevector_TSTZ_F64': ('num_points',), 'HeartbeatAgg': ('num_intervals',), 'TDigest': ('buckets', 'count', 'sum')}
NONE = re.compile(r'(^|::)(first|last|first_mut|last_mut|next|next_back|peek|peek_mut|min|max|min_by|max_by|min_by_key|max_by_key|pop|pop_front|pop_back|nth|get|get_mut|split_first|split_last|reduce|find|position|last_entry|front|back)$')
SAME = re.compile(r'(^|::)(iter|iter_mut|into_iter|as_slice|as_mut_slice|as_owned|into_owned|make_owned|to_vec|into_vec|to_owned|clone|cloned|copied|map|filter|filter_map|flat_map|flatten|enumerate|rev|skip|take|skip_while|'
                  r'take_while|peekable|step_by|windows|chunks|collect|deref|deref_mut|as_ref|borrow|by_ref|inspect|scan|fuse|slice|into|from|drain|zip|tuple_windows|dedup_by|from_iter)$')
CMP = {'Lt': lambda a, b: a < b, 'Le': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b}
NIL = ('empty',)
STATES = {'HeartbeatTransState': ('buffer', 'liveness'), 'TDigest': ('centroids',), 'Timevector_TSTZ_F64': ()}      # and states


def last(path):
    return re.sub(r'(::<[^:]*>)+$', '', path)


class H(Hooks):
    def __init__(s):
        s.t = {}
        s.bad, s.seen = {}, 0

    def nil(s, I, st, v):
        if v.c == NIL:
            return True
        ts = list(I.targets(v))
        return bool(ts) and all(I.load(st, t).c == NIL for t in ts if t[0][0] != 'U') and any(t[0][0] != 'U' for t in ts)

    def at(s, I, site, what):
        fs = [f for f, _ in I.stack] if I.stack else []
        s.bad.setdefault((site[0]['path'], what), None)

    def call(s, I, rec, path, args, atys, dty, site, st, fid):
        p = last(path)
        if re.search(r'(^|::)Vec::<T>::new$', path):
            return st, V(c=NIL)
        if not args:
            return None
        if p.endswith('::next') and 'Range<' in path and len(args) == 1:
            vs = [I.load(st, t) for t in I.targets(args[0])]
            if len(vs) == 1:
                a, b = fieldv(vs[0], (0, 0)).c, fieldv(vs[0], (0, 1)).c
                if isinstance(a, int) and isinstance(b, int) and a >= b:
                    return st, V(var=frozenset([0]))
        if p.endswith('::unwrap') or p.endswith('::expect'):
            if args[0].var == frozenset([0]) and args[0].c == NIL:
                s.at(I, site, p.split('::')[-1])
                return 'diverge'
            return None
        if not s.nil(I, st, args[0]):
            return None
        s.seen += 1
        n = p.split('::')[-1]
        if n in ('len', 'count', 'any', 'num_points'):
            return st, V(c=0)
        if n in ('is_empty', 'all'):
            return st, V(c=1)
        if NONE.search(p):
            return st, V(var=frozenset([0]), c=NIL)
        if n in ('index', 'index_mut') and 'Range' not in I.F.tstr(atys[1]):
            s.at(I, site, 'index')
            return 'diverge'
        if n == 'fold' and len(args) == 3:
            return st, args[1]
        if n == 'for_each':
            return st, V()
        if args[0].var == frozenset([0]) and args[0].c == NIL and re.search(r'(^|::)Option(::)?<', path):
            return (st, args[0]) if n in ('filter', 'map', 'and_then', 'as_ref', 'as_mut', 'as_deref', 'copied', 'cloned', 'take') else None
        if n in ('zip',) or SAME.search(p):
            return st, V(c=NIL)
        return None

    def binop(s, I, op, a, b, site, st):
        if op in CMP and isinstance(a.c, int) and isinstance(b.c, int):
            return V(c=int(CMP[op](a.c, b.c)), lab=a.lab | b.lab)
        if op in ('Sub', 'SubWithOverflow') and a.c == 0 and isinstance(b.c, int) and b.c > 0:
            x = I.brv[1][2]
            if I.F.tstr(x[1] if x[0] == 'k' else I.place_ty(I.brv[0], x[1])) in ('usize', 'u64', 'u32', 'u16', 'u8'):
                return V(f={(0, 1): V(c=1)}) if op != 'Sub' else None
        return None

    def asserted(s, I, v, t, site, st):
        if isinstance(v.c, int) and bool(v.c) != t[2] and t[3] in ('bounds', 'overflow'):
            s.at(I, site, 'index' if t[3] == 'bounds' else 'subtraction')
            return 'diverge'

    def unary(s, I, op, v, st):
        if op == 'PtrMetadata' and s.nil(I, st, v):
            return V(c=0)


def emptied(F, i, t):
    """the argument i of (wrapper) type t, without elements; None when t has no such form"""
    ty = F.tys[t]
    if ty['k'] != 'adt' or not ty.get('vars'):
        return None
    z = EMPTY.get(ty['path'].split('::')[-1])
    if z is None or not ty['path'].startswith(('time_vector', 'heartbeat_agg', 'tdigest::')) and '::' in ty['path']:
        return None
    fs = ty['vars'][0]['f']
    data = F.tys[fs[0][1]]
    if data['k'] != 'adt' or not data['path'].endswith('Data'):
        return None
    f = {}
    for k, (n, ft) in enumerate(x[:2] for x in data['vars'][0]['f']):
        if n in z:
            f[(0, k)] = V(c=0)
        elif 'flat_serialize::Slice' in F.tstr(ft):
            f[(0, k)] = V(c=NIL)
    return V(syms=frozenset([(('P', str(i)), ())]), f={(0, 0): V(syms=frozenset([(('P', str(i)), ((0, 0),))]), f=f)})


# followed on their own, once for each kind of element
PIPELINE = 'time_vector::pipeline::execute_pipeline_element'
OPAQUE = re.compile(r'execute_pipeline_element$|ExpressionExecutor.*::exec')
REFUSED = {'time_vector::arrow_timevector_asof': 'refuses to join with an empty timevector, in so many words'}


def wrapper(F, t):
    while F.tys[t]['k'] == 'ref':
        t = F.tys[t]['to']
    return t


def no_rows(ctx):
    """final functions of an absent state"""
    F = ctx.F
    done = {}
    for a in aggtab.table(F):
        for role in ('finalfunc', 'mfinalfunc', 'combinefunc'):
            for e in a['roles'].get(role, []):
                done.setdefault(e['path'], (role, a['name']))
    n = 0
    for path, (role, agg) in sorted(done.items()):
        f = F.fn(path)
        if f is None:
            ctx.viol('missing:' + path, 'no body for %s' % path)
            continue
        ints = [i for i in range(1, f['argc'] + 1) if own.is_internal(F, f['locals'][i]) or own.opt_internal(F, f['locals'][i])]
        if not ints:
            continue
        args = []
        for i in range(1, f['argc'] + 1):
            if i not in ints:
                args.append(own.param(i))
            elif own.is_internal(F, f['locals'][i]):
                args.append(own.internal_param(i, 0))
            else:
                args.append(V(var=frozenset([0])))
        n += 1
        I = Interp(F, Hooks(), budget=60000)
        try:
            st, rv = I.call({}, f, args, ('top',))
        except Budget as ex:
            ctx.viol('budget:' + path, 'analysis of %s exceeded its budget: %s' % (path, ex))
            continue
        if st is None:
            ctx.viol('norows:%s' % path, '%s (%s of %s) always raises an error when there is no state, as when no row was aggregated' % (path, role, agg))
            continue
        if own.is_internal(F, f['locals'][0]):
            rv = fieldv(rv, (0, 0))
        if rv.var != frozenset([0]):
            ctx.viol('norows:%s' % path, '%s (%s of %s) may return something other than NULL when there is no state, as when no row was aggregated' % (path, role, agg))
    ctx.floor('functions_of_absent_states', n, 55)


def emptied_state(F, i, t):
    ty = F.tys[t]
    z = STATES.get(ty['path'].split('::')[-1]) if ty['k'] == 'adt' else None
    if z == ():
        return emptied(F, i, t)
    if z is None:
        return None
    return V(f={(0, k): V(c=NIL) for k, x in enumerate(ty['vars'][0]['f']) if x[0] in z})


def empty_states(ctx):
    """support functions of states without elements"""
    F = ctx.F
    done = {e['path']: a['name'] for a in aggtab.table(F) for r in ('sfunc', 'msfunc', 'finalfunc', 'mfinalfunc', 'combinefunc', 'serialfunc') for e in a['roles'].get(r, ())}
    n = 0
    for path, agg in sorted(done.items()):
        f = F.fn(path)
        if f is None:
            continue
        args = [own.internal_param(i, 1) if own.is_internal(F, f['locals'][i]) else own.param(i) for i in range(1, f['argc'] + 1)]
        h0 = p06.H()
        try:
            Interp(F, h0, budget=60000).call({}, f, args, ('top',))
        except Budget:
            continue
        for o, ts in sorted(h0.t.items()):
            v = emptied_state(F, int(o[1]), next(iter(ts))) if o[0] == 'P' and len(ts) == 1 else None
            if v is None or o == ('P', '1') and path == 'time_vector::timevector_tstz_f64_trans':      # every row adds a point to a state of timevector()
                continue
            n += 1
            parts = [v] + [V(f={k: x}) for k, x in v.f.items() if len(v.f) > 1]     # all of it, and each collection alone
            for k, v in enumerate(parts):
                h = H()
                I = Interp(F, h, budget=60000)
                st, rv = I.call({p06.STATE(int(o[1])): v}, f, args, ('top',))
                ctx.count('container_operations', h.seen)
                report(ctx, F, path, 'state %s (%s) of %s' % (o[1], F.tstr(next(iter(ts))), agg), 'state%s.%d' % (o[1], k), h, st)
    ctx.floor('functions_of_empty_states', n, 10)


def report(ctx, F, path, what, key, h, st):
    for (fp, how) in sorted(h.bad):
        ctx.viol('empty:%s:%s:%s:%s' % (path, key, fp, how), '%s: when %s has no elements, %s of nothing in %s raises an error' % (path, what, how, fp))
    if st is None and not h.bad and path not in REFUSED:
        ctx.viol('noreturn:%s:%s' % (path, key), '%s always raises an error when %s has no elements' % (path, what))


def run(ctx):
    F = ctx.F
    no_rows(ctx)
    empty_states(ctx)
    n = 0
    todo = [(e['path'], F.fn(e['path'])) for e in F.sqlfns]
    p = F.fn(PIPELINE)
    if p is None:
        ctx.viol('missing:pipeline', 'no body for %s' % PIPELINE)
    else:
        el = {t[1] for _, t in callee_ids(p) if isinstance(t[1], int)}
        el = [F.fns[i] for i in sorted(el) if 'blocks' in F.fns[i] and F.fns[i]['ws']]
        el = [f for f in el if f['argc'] and emptied(F, 1, wrapper(F, f['locals'][1])) is not None]
        ctx.floor('pipeline_elements', len(el), 8)
        todo += [(f['path'], f) for f in el]
    for path, f in todo:
        if f is None:
            continue
        for i in range(1, f['argc'] + 1):
            t = f['locals'][i]
            o = p06_opt(F, t)
            v = emptied(F, i, wrapper(F, o if o is not None else t))
            if v is None:
                continue
            n += 1
            st = {}
            if F.tys[t]['k'] == 'ref':
                st[('E', i)] = v
                v = V(ptr=frozenset([(('E', i), ())]))
            if o is not None:
                v = V(f={(1, 0): v}, var=frozenset([1]))
            h = H()
            I = Interp(F, h, budget=60000)
            I.opaque_re = OPAQUE
            args = [own.param(j) for j in range(1, f['argc'] + 1)]
            args[i - 1] = v
            try:
                st, rv = I.call(st, f, args, ('top',))
            except Budget as ex:
                ctx.viol('budget:' + path, 'analysis of %s exceeded its budget: %s' % (path, ex))
                continue
            ctx.count('container_operations', h.seen)
            if len(ctx.samples) < 30:
                ctx.samples.append('%s(%s): %d operations on empty containers' % (path, F.tstr(t), h.seen))
            report(ctx, F, path, 'argument %d (%s)' % (i, F.tstr(t)), str(i), h, st)
    ctx.floor('functions_of_empty_values', n, 75)


def p06_opt(F, t):
    ty = F.tys[t]
    return ty['args'][0] if ty['k'] == 'adt' and ty['path'].endswith('option::Option') else None
