"""P07: sketches that do not fit together are refused, and stored values are never read as another type."""
import re
from .. import own
from ..absint import Interp, Hooks, Budget, V, root
from . import p03, p06
from .p04 import covers

RULE = ('inlining abstract interpretation of the MIR under the assumption that one parameter of the two operands differs: an equality test between exactly these two '
        'components (or a tolerance test of their difference) fails, nothing else is known. Under it (1) every combine function and rollup transition of a sketch '
        'with identifying parameters, and every merge function loops over stored summaries call, must not return a value; (2) neither must any SQL function that '
        'returns values of a caller-chosen type from a stored value, when that type differs from the stored element type')
ASSUMES = ['two components are compared when each side of the test is computed from one of them alone',
           'parameters that only bound the size of a result (capacities of max_n, counters kept by frequency aggregates) are not identifying']

# function -> [(what, component of operand 1, component of operand 2)]; a component is the end of a path of field names, None any scalar
SPEC = [
    ('hyperloglog::hyperloglog_combine', 'SS', [('element type', r'buildhasher\.type_id$', r'buildhasher\.type_id$'), ('precision', r'\.precision$', r'\.precision$')]),
    ('hyperloglog::hyperloglog_union', 'SV', [('element type', r'buildhasher\.type_id$', r'\.element_type(\.0)?$'), ('precision', r'\.precision$', r'\.precision$')]),
    ('tdigest::tdigest_compound_combine', 'SS', [('size', r'(^|\.)max_size$', r'(^|\.)max_size$')]),
    ('tdigest::tdigest_compound_trans', 'SV', [('size', r'(^|\.)max_size$', r'max_buckets$')]),
    ('uddsketch::uddsketch_combine', 'SS', [('error bound', r'(gamma|alpha|compactions)$', r'(gamma|alpha|compactions)$'), ('bucket limit', r'max_buckets$', r'max_buckets$')]),
    ('uddsketch::uddsketch_compound_trans', 'SV', [('error bound', r'(gamma|alpha|compactions)$', r'(alpha|compactions)$'), ('bucket limit', r'max_buckets$', r'max_buckets$')]),
    ('countminsketch::CountMinSketch::combine', 'MM', [('width', r'width$', r'width$'), ('depth', r'depth$', r'depth$'), ('hash functions', r'hashfuncs$', r'hashfuncs$')]),
    ('heartbeat_agg::heartbeat_rollup_trans', 'SV', [('heartbeat interval', r'interval_len$', r'interval_len$')]),
    ('heartbeat_agg::HeartbeatTransState::combine', 'MM', [('heartbeat interval', r'interval_len$', r'interval_len$')]),
    ('frequency::space_saving_combine', 'SS', [('element type', r'indices', r'indices')]),
    ('frequency::rollup_agg_trans', 'SV', [('element type', r'indices', r'\.type_oid(\.0)?$')]),
    ('state_aggregate::rollup::OwnedCompactStateAgg::merge', 'MM', [('compactness', r'compact$', r'compact$'), ('kind of states', r'integer_states$', r'integer_states$')]),
    ('time_weighted_average::TimeWeightSummary::combine', 'MM', [('method', r'method$', r'method$')]),
    ('nmost::NMostByTransState::<T>::new_entry', 'MxM', [('element type', r'(^|\.)oid$', None)]),
]
# functions which interpret the stored element type by what the caller asks for are found by their signature: they return anyelement
ASKED = re.compile(r'pg_getarg_type$|get_fn_expr_argtype$|get_fn_expr_rettype$|AnyElement::oid$')
ARGTYPE = (('X', 'argument type'), ())
LOSSY = (('X', 'not the component itself'), ())
MAP = re.compile(r'std::collections::HashMap::<[^:]*>::(\w+)$')
HASHER = ((0, 0), (0, 0))    # HashMap.base.hash_builder
EQ = re.compile(r'PartialEq(<.*>)?>::(eq|ne)$|::(eq|ne)$')


class Types(Hooks):
    def __init__(s):
        s.t = {}

    def call(s, I, rec, path, args, atys, dty, site, st, fid):
        if rec is not None and p03.OPEN.search(path) and 'Internal' in path and args:
            for x in args[0].syms:
                s.t.setdefault(root(x), set()).add(rec['targs'][0])


class Mismatch(Types):
    """the components one and two differ"""
    def __init__(s, F, one, two):
        Types.__init__(s)
        s.F, s.one, s.two, s.tests = F, one, two, 0
        s.cached = {}

    def side(s, labs):
        """1 or 2 when the value is computed from that operand's component alone"""
        r = set()
        for l in labs:
            if l[0] in s.cached and l[1] == ((0, 0),):    # the type cache entry of a type names that type
                r |= s.side(s.cached[l[0]])
                continue
            if any(covers(c, l) for c in s.one):
                r.add(1)
            elif any(covers(c, l) for c in s.two):
                r.add(2)
            else:
                r.add(0)
        return r

    def opaque_labels(s, path, lab):
        # a property of a type that PostgreSQL looks up (its length, say) does not identify it
        return lab | {LOSSY} if lab and re.search(r'^(pgrx::pg_sys::)?[a-zA-Z_0-9]+$', path) else lab

    def binop(s, I, op, a, b, site, st):
        if op in ('BitAnd', 'Rem', 'Shr') and s.side(a.lab | a.syms) | s.side(b.lab | b.syms):
            return V(lab=a.lab | a.syms | b.lab | b.syms | {LOSSY})
        la, lb = s.side(a.lab | a.syms), s.side(b.lab | b.syms)
        if op in ('Eq', 'Ne'):
            if sorted([la, lb], key=sorted) == [{1}, {2}]:
                s.tests += 1
                return int(op == 'Ne')
        elif op in ('Lt', 'Le', 'Gt', 'Ge'):
            # |x - y| against a tolerance
            if la == {1, 2} and not lb:
                s.tests += 1
                return int(op in ('Gt', 'Ge'))
            if lb == {1, 2} and not la:
                s.tests += 1
                return int(op in ('Lt', 'Le'))
        return None

    def call(s, I, rec, path, args, atys, dty, site, st, fid):
        Types.call(s, I, rec, path, args, atys, dty, site, st, fid)
        if ASKED.search(path):
            return V(lab=frozenset([ARGTYPE]))
        if path.endswith('lookup_type_cache'):
            o = ('G', 'type cache entry %d' % (hash((site[0]['id'], site[1], fid)) & 0xffffff))
            s.cached[o] = s.cached.get(o, frozenset()) | args[0].lab | args[0].syms
            return V(ptr=frozenset([(o, ())]))
        m = MAP.search(path)
        if m and m.group(1).endswith('with_hasher'):
            return V(f={HASHER[0]: V(f={HASHER[1]: args[-1]})})
        if m and m.group(1) == 'hasher':
            return V(ptr=frozenset((o, p + HASHER) for o, p in I.targets(args[0])))
        if m and m.group(1) in ('insert', 'remove') and len(args) > 1:
            return V(lab=frozenset(I.deep_labels(st, args[0]) | I.deep_labels(st, args[1])))    # the hasher stays
        m = EQ.search(path)
        if m and len(args) == 2 and not (rec is not None and I.should_inline(rec, path)):
            la, lb = [s.side({l for l in I.deep_labels(st, x) if l[1] or l[0][0] != 'P'} or I.deep_labels(st, x)) for x in args]
            if sorted([la, lb], key=sorted) == [{1}, {2}]:
                s.tests += 1
                return V(c=int(path.endswith('::ne')))
        return None


def args_of(f, mode):
    out = []
    for i in range(1, f['argc'] + 1):
        m = mode[i - 1] if i <= len(mode) else ''
        if m == 'S':
            out.append(own.internal_param(i, 1))
        elif m == 'V':
            out.append(V(f={(1, 0): V(syms=frozenset([(('P', str(i)), ((1, 0),))]))}, var=frozenset([1])))
        else:
            out.append(own.param(i))
    return out


def comps(F, f, mode, i, types, rx):
    """locations of the components of argument i whose field path matches rx"""
    m = mode[i - 1]
    if rx is None:
        return {(('P', str(i)), ()), ARGTYPE}
    out = set()
    if m == 'S':
        for t in types.get(('P', str(i)), ()):
            for lp, lt, names in p06.leaves(F, t):
                if re.search(rx, '.'.join(n for _, n in names)):
                    out.add((('D', ('P', str(i)), ((0, 0), (1, 0))), lp))
        return out
    t, d = p06.strip(F, f['locals'][i])
    pre = ()
    if m == 'V' and F.tys[t]['path'].endswith('option::Option'):
        t, pre = F.tys[t]['args'][0], ((1, 0),)
    for lp, lt, names in p06.leaves(F, t):
        if re.search(rx, '.'.join(n for _, n in names)):
            out.add((('D', ('P', str(i)), ()) if d else ('P', str(i)), pre + lp))
    return out


def refused(ctx, F, f, mode, one, two, key, what):
    h = Mismatch(F, one, two)
    I = Interp(F, h)
    try:
        st, rv = I.call({}, f, args_of(f, mode), ('top',))
    except Budget as ex:
        ctx.viol('budget:' + key, 'analysis of %s exceeded its budget: %s' % (f['path'], ex))
        return
    ctx.count('comparisons_decided', h.tests)
    if st is None:
        return
    t = F.tys[f['locals'][0]]
    if t['k'] == 'adt' and t['path'].endswith('result::Result') and rv.var == frozenset([1]):
        return
    ctx.viol(key, what)


def run(ctx):
    F = ctx.F
    n = 0
    for path, mode, pairs in SPEC:
        fs = [f for f in F.by_path.get(path, ()) if f['kind'] == 'item' and 'blocks' in f]
        if not fs and any(e['path'] == path for e in F.sqlfns):
            ctx.viol('missing:' + path, 'no body for %s' % path)
        for f in fs:
            h = Types()
            try:
                Interp(F, h).call({}, f, args_of(f, mode), ('top',))
            except Budget:
                pass
            j = len(mode)
            for what, r1, r2 in pairs:
                one, two = comps(F, f, mode, 1, h.t, r1), comps(F, f, mode, j, h.t, r2)
                if not one or not two:
                    ctx.viol('component:%s:%s' % (path, what), '%s: the %s of an operand was not found' % (path, what))
                    continue
                n += 1
                refused(ctx, F, f, mode, one, two, 'accepts:%s:%s' % (path, what), '%s returns a result although the %s of its operands differs' % (f['path'], what))
    ctx.floor('operand_parameters_compared', n, 20)
    k = 0
    for e in F.sqlfns:
        if 'anyelement' not in str(e['ret']).lower():
            continue
        f = F.fn(e['path'])
        if f is None:
            ctx.viol('missing:' + e['path'], 'no body for %s' % e['path'])
            continue
        t = F.tys[f['locals'][1]]
        opt = t['k'] == 'adt' and t['path'].endswith('option::Option')
        mode = 'V' if opt else 'M'
        one = comps(F, f, mode, 1, {}, r'type_oid(\.0)?$')
        if not one:
            continue
        k += 1
        two = {ARGTYPE} | {(('P', str(i)), ()) for i in range(2, f['argc'] + 1) if 'AnyElement' in F.tstr(f['locals'][i])}
        refused(ctx, F, f, mode, one, two, 'reads:' + e['path'], '%s (%s) returns values although the type asked for is not the type they have' % (e['name'], e['path']))
    ctx.floor('typed_readers', k, 9)
