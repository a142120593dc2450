"""P02: aggregate state lives in the aggregate's memory context and holds no reference to row arguments."""
from .. import aggtab, own
from ..absint import Interp, Hooks, Budget, V, root, locstr, CMC

RULE = ('For every distinct transition, moving-transition, inverse-transition and combine function with an internal state: inlining '
        'abstract interpretation of its MIR that tracks the current memory context (AggCheckCallContext, writes of '
        'CurrentMemoryContext, MemoryContextSwitchTo). Obligations: (a) every PostgreSQL allocation reachable from the returned '
        'state was made while the aggregate memory context was current; (b) no pointer/Datum reachable (by type) from the state '
        'lies in memory of a row argument.')
ASSUMES = ['Rust-heap storage owned by the state (Vec, HashMap, String) is released by the drop hook registered with Internal::new and is not context-bound.',
           'CachedDatum (the borrowed bytes kept next to a decoded value) is not part of the state; it is covered by P18.',
           'A Cow in a hyperloglog counter held in an aggregate state is owned (the state type is \'static).',
           'AggCheckCallContext reports an aggregate call (otherwise the functions raise an error).']
# row arguments whose Datums are pass-by-value int8
BYVAL = {('frequency::rollup_agg_bigint_trans', 2)}
SKIP = ('CachedDatum<', "std::borrow::Cow<'_, [u8]>")
ROLES = ('sfunc', 'msfunc', 'minvfunc', 'combinefunc')


class H(Hooks):
    def __init__(s):
        s.ctx = {}
        s.n = 0

    def note(s, I, obj, st, site):
        v = I.load(st, (CMC, ()))
        ok = v.ptr == frozenset([(('G', 'aggctx'), ())]) and not v.syms
        s.n += 1
        old = s.ctx.get(obj)
        s.ctx[obj] = (ok and (old is None or old[0]), [x['path'] for x, _ in I.stack], site)

    def alloc(s, I, obj, ty, site, st):
        s.note(I, obj, st, site)

    def pgalloc(s, I, fn, obj, site, st):
        s.note(I, obj, st, site)


def run(ctx):
    F = ctx.F
    todo = {}
    for a in aggtab.table(F):
        if a['opts']['stype'].lower() != 'internal':
            continue
        for role in ROLES:
            if role in a['opts']:
                c = a['roles'].get(role, ())
                if len(c) != 1:
                    ctx.viol('unresolved:%s' % a['opts'][role], '%s of aggregate %s resolves to %d functions' % (role, a['name'], len(c)))
                for e in c:
                    todo.setdefault(e['path'], (e, set()))[1].add((a['name'], role))
    ctx.floor('state_functions', len(todo), 103)
    for path, (e, names) in sorted(todo.items()):
        f = F.fn(path)
        nm = '%s (%s)' % (path, ', '.join(sorted('%s of %s' % (r, n) for n, r in names))[:160])
        if f is None:
            ctx.viol('missing:' + path, 'no body for %s' % nm)
            continue
        h = H()
        I = Interp(F, h, budget=200000)
        I.behind_all = True
        try:
            st, rv = I.call({}, f, [own.param(i + 1) for i in range(f['argc'])], ('top',))
        except Budget as ex:
            ctx.viol('budget:' + path, 'analysis of %s exceeded its budget: %s' % (path, ex))
            continue
        ctx.count('functions_followed', len(I.fns_seen))
        ctx.count('blocks_interpreted', I.steps)
        ctx.count('allocation_events', h.n)
        if st is None:
            ctx.viol('noreturn:' + path, '%s never returns normally' % nm)
            continue
        objs = own.heap(I, st, rv, f['locals'][0], set())
        for o in objs:
            if o in h.ctx:
                ctx.count('state_allocations')
                if not h.ctx[o][0]:
                    ctx.viol('ctx:%s' % path, '%s keeps memory that is not allocated in the aggregate memory context: allocated in %s (%s:%s)' %
                             (nm, ' > '.join(h.ctx[o][1][-3:]), h.ctx[o][2][0]['file'], h.ctx[o][2][2]))
        if not any(r == 'combinefunc' for _, r in names):
            for i in range(2, f['argc'] + 1):
                if 'FunctionCallInfo' in F.tys[f['locals'][i]]['s']:
                    continue
                ctx.count('row_arguments')
                if (path, i) in BYVAL:
                    continue
                for p, l, t in own.retained(I, st, rv, f['locals'][0], ('P', str(i)), SKIP)[:2]:
                    ctx.viol('keep:%s:%d' % (path, i), '%s returns a state that refers to the memory of row argument %d: state%s -> %s : %s (%s)' % (nm, i, p, l, t, f['file']))
    ctx.floor('state_allocations_seen', ctx.cov.get('state_allocations', 0), 60)
