"""P14: integer arguments that do not fit are refused, not wrapped."""
import re
from .. import own
from ..absint import Interp, Hooks, Budget, V

RULE = ('For every SQL function with integer arguments, inlining abstract interpretation of its MIR: wherever an argument is cast to a narrower or unsigned integer type, comparisons '
        'with constants on every path to the cast bound it to what the target type holds. Exempt: max_n/min_n capacities that are handed to an allocation, which fails for what was negative, and those in LATE.')
ASSUMES = ['casts of values computed from arguments (sums, products) and from stored values are not covered; conversions to floating point do not wrap']
BITS = {'i8': (1, 7), 'i16': (1, 15), 'i32': (1, 31), 'i64': (1, 63), 'isize': (1, 63), 'u8': (0, 8), 'u16': (0, 16), 'u32': (0, 32), 'u64': (0, 64), 'usize': (0, 64), 'i128': (1, 127), 'u128': (0, 128)}
ARG = re.compile(r'^(std::option::Option<)?(i16|i32|i64)>?$')
GE = range(9)
SIZES = (7, 8, 15, 16, 31, 32, 63)
LATE = {('time_vector::pipeline::aggregation::pipeline_hyperloglog', 1): 'carried as it is and refused when the pipeline runs',
        ('utilities::generate_periodic_normal_series', 8): 'a random seed: any 64 bits', ('utilities::default_generate_periodic_normal_series', 2): 'a random seed'}
CAPACITY = re.compile(r'^nmost::(max|min)_(by_)?\w+::(max|min)_n_\w+_trans$')      # Vec::with_capacity refuses what was negative
CMP = {'Lt': lambda a, b: a < b, 'Le': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b}
FLIP = {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le', 'Eq': 'Eq', 'Ne': 'Ne'}
NOT = {'Lt': 'Ge', 'Le': 'Gt', 'Gt': 'Le', 'Ge': 'Lt', 'Eq': 'Ne', 'Ne': 'Eq'}


class H(Hooks):
    def __init__(s, args):
        s.args, s.casts, s.cap = args, {}, set()

    def exact(s, v):
        """the argument that v is"""
        if isinstance(v.c, tuple) and v.c[0] == 'arg':
            return v.c[1]
        if len(v.syms) == 1 and not v.ptr and not v.lab:
            p = next(iter(v.syms))[0]
            if p[0] == 'P' and p[1] in s.args:
                return p[1]
        return None

    def ty(s, I, fn, x):
        return x[1] if x[0] == 'k' else I.place_ty(fn, x[1])

    def binop(s, I, op, a, b, site, st):
        if op in ('Sub', 'SubWithOverflow'):
            p, fn = s.exact(a), I.brv[0]
            t = I.brv[1][2]
            if p is not None and isinstance(b.c, int) and b.c > 0 and BITS.get(I.F.tstr(s.ty(I, fn, t)), (1, 0))[0] == 0:
                k = (fn['path'], p, I.F.tstr(s.ty(I, fn, t)), '-%d' % b.c)
                s.casts[k] = s.casts.get(k, True) and b.c in GE and st[('X', 'ge', b.c, p)].c == 1
            return None
        if op not in FLIP:
            return None
        for x, y, o in ((a, b, op), (b, a, FLIP[op])):
            p = s.exact(x)
            if p is not None and isinstance(y.c, int):
                return V(c=('cmp', o, p, y.c), lab=a.lab | b.lab | a.syms | b.syms)
        return None

    def branch(s, I, v, val, st):
        if not (isinstance(v.c, tuple) and v.c[0] == 'cmp') or val is None:
            return
        _, op, p, c = v.c
        s.learn(st, p, op if val else NOT[op], c)

    def learn(s, st, p, op, c):
        lo = {'Gt': c + 1, 'Ge': c, 'Eq': c}.get(op)
        hi = {'Lt': c - 1, 'Le': c, 'Eq': c}.get(op)
        for n in GE:
            if lo is not None and lo >= n or n and op == 'Ne' and c == n - 1 and st[('X', 'ge', n - 1, p)].c == 1:
                st[('X', 'ge', n, p)] = V(c=1)
        for n in SIZES:
            if hi is not None and hi < 1 << n:
                st[('X', n, p)] = V(c=1)
            if lo is not None and lo >= -(1 << n):
                st[('X', -n, p)] = V(c=1)

    def switch(s, I, v, t, site, st):
        return None

    def cast(s, I, fn, rv, v, site, st):
        a, b = BITS.get(I.F.tstr(rv[3])), BITS.get(I.F.tstr(rv[4]))
        p = s.exact(v)
        if a is None or b is None or p is None:
            return
        src = BITS[s.args[p]]
        ok = True
        if b[1] < src[1]:
            ok = ok and st[('X', b[1], p)].c == 1
            if b[0]:
                ok = ok and (st[('X', 'ge', 0, p)].c == 1 or st[('X', -b[1], p)].c == 1)
        if not b[0]:
            ok = ok and st[('X', 'ge', 0, p)].c == 1
        if b[1] < src[1] or not b[0] and src[0]:
            k = (fn['path'], p, I.F.tstr(rv[3]), I.F.tstr(rv[4]))
            s.casts[k] = s.casts.get(k, True) and ok
        return V(c=('arg', p), lab=v.lab | v.syms)

    def call(s, I, rec, path, args, atys, dty, site, st, fid):
        if re.search(r'::with_capacity(_in)?$', path) and args:
            for l in args[0].syms | args[0].lab:
                s.cap.add(l[0][1] if l[0][0] == 'P' else None)
        return None


def run(ctx):
    F = ctx.F
    nf = nc = 0
    for e in F.sqlfns:
        f = F.fn(e['path'])
        if f is None:
            continue
        ints = {}
        for i in range(1, f['argc'] + 1):
            m = ARG.match(F.tstr(f['locals'][i]))
            if m:
                ints[str(i)] = m.group(2)
        if not ints:
            continue
        nf += 1
        ctx.count('arguments', len(ints))
        h = H(ints)
        st = {('X', k, p): V(c=0) for p in ints for k in SIZES + tuple(-n for n in SIZES)}
        st.update({('X', 'ge', k, p): V(c=0) for p in ints for k in GE})
        try:
            Interp(F, h, budget=120000).call(st, f, [own.param(i) for i in range(1, f['argc'] + 1)], ('top',))
        except Budget as ex:
            ctx.viol('budget:' + e['path'], 'analysis of %s exceeded its budget: %s' % (e['path'], ex))
            continue
        for (fp, p, a, b), ok in sorted(h.casts.items()):
            nc += 1
            ctx.count('casts')
            if len(ctx.samples) < 30:
                ctx.samples.append('%s: argument %s, %s -> %s in %s' % (e['path'], p, a, b, fp))
            if not ok and not (p in h.cap and CAPACITY.search(e['path'])) and (e['path'], int(p)) not in LATE:
                if b[0] == '-':
                    ctx.viol('wraps:%s:%s:%s:%s' % (e['path'], p, fp, b), '%s: argument %s may be smaller than %s, which %s subtracts from it as %s' % (e['path'], p, b[1:], fp, a))
                    continue
                ctx.viol('wraps:%s:%s:%s:%s' % (e['path'], p, fp, b), '%s: argument %s, an %s, is cast to %s in %s and may not fit' % (e['path'], p, ints[p], b, fp))
    ctx.floor('functions_with_integer_arguments', nf, 55)
    ctx.floor('narrowing_casts', nc, 35)
