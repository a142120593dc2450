"""P03: all support functions of one aggregate agree on what the internal state is."""
import re
from .. import aggtab, own
from ..absint import Interp, Hooks, Budget, V, root, locstr

RULE = ('For every CREATE AGGREGATE of the extension: each support function is interpreted (MIR, inlining) to find the concrete Rust type at '
        'which it opens its internal state arguments (Internal::get*/to_inner instantiations on values that come from that argument) and the '
        'type of the state it returns (Internal::new instantiations reachable from the result). Obligations: one state type per aggregate over '
        'the plain roles, one over the moving roles; combine comes with serialize and deserialize; moving aggregates have all of msfunc, '
        'minvfunc; serialize/deserialize are STRICT or return NULL for NULL on every path.')
ASSUMES = ['An Internal argument is only opened through pgrx::Internal::{get,get_mut,insert,get_or_insert*} or InternalAsValue::to_inner.']
OPEN = re.compile(r'(Internal::(get|get_mut|insert|get_or_insert\w*)$)|(to_inner$)')
PLAIN = ('sfunc', 'finalfunc', 'combinefunc', 'serialfunc', 'deserialfunc')
MOVING = ('msfunc', 'minvfunc', 'mfinalfunc')


class H(Hooks):
    def __init__(s):
        s.opened = {}

    def call(s, I, rec, path, args, atys, dty, site, st, fid):
        if rec is not None and OPEN.search(path) and 'Internal' in path and args:
            r = {root(x) for x in args[0].syms}
            for x in I.targets_deep_syms(args[0]):
                r.add(root(x))
                if x[0] in st:
                    for y in st[x[0]].syms:
                        r.add(root(y))
            t = I.F.tys[rec['targs'][0]]['s'] if rec['targs'] else '?'
            for o in r:
                if o[0] == 'P':
                    s.opened.setdefault(o[1], set()).add(norm(t))


def norm(t):
    return re.sub(r"'\w+", "'_", t)


def state_types(F, path, cache):
    """(types opened per argument, types returned, functions followed)"""
    if path in cache:
        return cache[path]
    f = F.fn(path)
    if f is None:
        cache[path] = None
        return None
    h = H()
    I = Interp(F, h, budget=200000)
    st, rv = I.call({}, f, [own.param(i + 1) for i in range(f['argc'])], ('top',))
    ret = set()
    rty = f['locals'][0]
    if st is not None and ('Internal' in F.tys[rty]['s']):
        for l in I.targets_deep_syms(rv):
            if l[0] in I.htype:
                ret.add(norm(F.tys[I.htype[l[0]]]['s']))
    cache[path] = (h.opened, ret, len(I.fns_seen))
    return cache[path]


def run(ctx):
    F = ctx.F
    cache = {}
    tab = aggtab.table(F)
    ctx.floor('aggregates', len(tab), 80)
    pairs = 0
    nulls = set()
    for a in tab:
        sig = '%s(%s)' % (a['name'], a['args'])
        opts = a['opts']
        for grp, roles in (('plain', PLAIN), ('moving', MOVING)):
            types = {}
            for role in roles:
                if role not in opts:
                    continue
                c = a['roles'][role]
                if len(c) != 1:
                    ctx.viol('unresolved:%s:%s' % (sig, role), '%s of aggregate %s names %s, which resolves to %d functions' % (role, sig, opts[role], len(c)))
                    continue
                try:
                    r = state_types(F, c[0]['path'], cache)
                except Budget as ex:
                    ctx.viol('budget:' + c[0]['path'], str(ex))
                    continue
                if r is None:
                    ctx.viol('missing:' + c[0]['path'], 'no body for %s' % c[0]['path'])
                    continue
                opened, ret, _ = r
                args = ['1', '2'] if role == 'combinefunc' else ([] if role == 'deserialfunc' else ['1'])
                for i in args:
                    ts = opened.get(i, set())
                    if not ts:
                        ctx.viol('untyped:%s:%s' % (c[0]['path'], i), '%s (%s of %s) never opens its state argument %s at a concrete type' % (c[0]['path'], role, sig, i))
                    for t in ts:
                        types.setdefault(t, []).append('%s %s opens argument %s' % (role, c[0]['path'], i))
                if role not in ('finalfunc', 'mfinalfunc', 'serialfunc'):
                    for t in ret:
                        types.setdefault(t, []).append('%s %s returns' % (role, c[0]['path']))
                    if role == 'deserialfunc' and not ret:
                        ctx.viol('untyped:%s:ret' % c[0]['path'], '%s (%s of %s) returns a state of unknown type' % (c[0]['path'], role, sig))
                pairs += 1
            if len(types) > 1:
                ctx.viol('types:%s:%s' % (sig, grp), 'aggregate %s: its %s support functions disagree on the state type: %s' %
                         (sig, grp, '; '.join('%s {%s}' % (t, ', '.join(w)) for t, w in sorted(types.items()))))
            elif types and len(ctx.samples) < 12:
                ctx.samples.append('%s: %s = %s' % (sig, grp, next(iter(types))))
        has = lambda r: r in opts
        if has('combinefunc') and opts['stype'].lower() == 'internal' and not (has('serialfunc') and has('deserialfunc')):
            ctx.viol('incomplete:%s:serial' % sig, 'aggregate %s has a combine function but not both of serialize and deserialize' % sig)
        if (has('serialfunc') or has('deserialfunc')) and not has('combinefunc'):
            ctx.viol('incomplete:%s:combine' % sig, 'aggregate %s serializes partial states but has no combine function' % sig)
        if any(has(r) for r in MOVING) and not all(has(r) for r in ('msfunc', 'minvfunc')):
            ctx.viol('incomplete:%s:moving' % sig, 'aggregate %s is missing a moving-aggregate function' % sig)
        for role in ('serialfunc', 'deserialfunc'):
            for e in a['roles'].get(role, ()):
                if 'strict' in e['attrs'] or e['path'] in nulls:
                    continue
                nulls.add(e['path'])
                f = F.fn(e['path'])
                ok = False
                if f is not None:
                    if own.is_internal(F, f['locals'][1]):
                        args = [own.internal_param(1, 0)]
                    elif F.tys[f['locals'][1]]['path'].endswith('option::Option'):
                        args = [V(var=frozenset([0]))]
                    else:
                        args = None
                    if args:
                        st, rv = Interp(F, Hooks(), budget=200000).call({}, f, args + [own.param(i + 1) for i in range(1, f['argc'])], ('top',))
                        ok = st is not None and rv.var == frozenset([0])
                if not ok:
                    ctx.viol('null:%s' % e['path'], '%s (%s of %s) is neither STRICT nor returns NULL for NULL: a worker that saw no rows passes it a NULL state' % (e['path'], role, sig))
    ctx.floor('support_function_uses', pairs, 300)
    ctx.cov['support_functions_analysed'] = len(cache)
