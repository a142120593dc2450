"""P08: `aggregate -> accessor(args)` is `accessor(aggregate, args)`."""
import re
from itertools import product
from .. import schema
from ..absint import Interp, Hooks, Budget, V, fieldv, root

RULE = ('For every constructor of an accessor object: composite of constructor, arrow function (`aggregate -> accessor`) and, separately, of the function form, by abstract interpretation with the '
        'SQL arguments and the aggregate as labelled inputs. Both forms apply the same operations, conversions, calls and guards to the same inputs and have the same inputs in the result; '
        'compared for every accepted text option, for every combination of NULL and given optional arguments, and a NULL aggregate where it is allowed.')
ASSUMES = ['operations are compared as sets, not in their order', 'packing and unpacking of the accessor object itself is exempt (its layout: P13, P18)']
ALIAS = {('GaugeSummary', 'counter_zero_time'): 'gauge_zero_time', ('UddSketch', 'approx_percentiles'): 'approx_percentile_array'}
DROPS = {('GaugeSummary', 'extrapolated_delta'), ('GaugeSummary', 'extrapolated_rate')}       # the function form has no method argument


def at(a):
    return a.get('sql') or '?'


def opt(F, t):
    ty = F.tys[t]
    return ty['args'][0] if ty['k'] == 'adt' and ty['path'].endswith('option::Option') else None


def norm(labs):
    r = set()
    for l in labs:
        o = root(l)
        if o == ('P', 'S'):
            r.add('agg.' + '.'.join(str(k[1]) for k in l[1] if isinstance(k, tuple)))
        elif o[0] == 'P':
            r.add(o[1])
    return frozenset(r)


# hands its argument on, or only looks at its shape
GLUE = re.compile(r'^(core|std|alloc)::(fmt|panicking|ptr::|mem::|intrinsics|slice::|vec::|convert|clone|borrow|ops::(Deref|Index|Drop))|'
                  r'::(deref|deref_mut|as_ref|as_slice|clone|to_owned|into|from|to_vec|index|index_mut|borrow|len|as_str|into_iter|iter)(::<.*>)?$|::flatten|to_pg_bytes|into_datum|from_datum|^pgrx')
# the way of an argument through the accessor value
CODEC = re.compile(r'::(into_bytes|as_bytes|from_utf8\w*|to_string|enumerate|copy_from_slice|into_message|from_ne_bytes|to_ne_bytes|next)(::<.*>)?$')
SAME = re.compile(r'^core::str::<impl str>::(trim|as_str)|^std::str::<impl str>::(to_lowercase|to_string|to_owned)|::(to_string|as_str|deref|as_ref|to_owned|into|from|clone|borrow)(::<.*>)?$')
STREQ = re.compile(r'PartialEq.* for (str|std::string::String|.?.?. ?str)>::(eq|ne)|<.* as std::cmp::PartialEq<.*str.*>>::(eq|ne)')
SMALL = {'bool', 'u8', 'i8', 'u16', 'u32', 'u64', 'usize', 'isize'}      # flags, discriminants and lengths: no SQL argument has one of these types
BITS = {'bool': 1, 'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64, 'f64': 64, 'f32': 32, 'u128': 128, 'i128': 128}


class H(Hooks):
    def __init__(s, F):
        s.F, s.ev, s.strs, s.pend, s.unresolved = F, {}, {}, None, False

    def add(s, I, e, d=None):
        s.ev.setdefault(e, d)

    def str_of(s, I, st, v, d=0):
        if isinstance(v.c, tuple) and v.c[0] == 'str':
            return v.c[1]
        if d < 4:
            r = {s.str_of(I, st, I.load(st, l), d + 1) for l in v.ptr if l[0][0] != 'U'}
            if len(r) == 1:
                return r.pop()
        return None

    def call(s, I, rec, path, args, atys, dty, site, st, fid):
        s.pend = None
        if re.search(r'Data(::<.*>)?::flatten$', path) and args:
            vs = [I.load(st, l) for l in I.targets(args[0])]
            if len(vs) == 1:
                return st, V(f={(0, 0): vs[0]})
        if STREQ.search(path) and len(args) == 2:
            a, b = (s.str_of(I, st, x) for x in args)
            if a is not None and b is not None:
                return st, V(c=int((a == b) == (STREQ.search(path).group(0).endswith('eq'))))
            for x, y in ((args[0], b), (args[1], a)):
                l = norm(I.deep_labels(st, x))
                if y is not None and len(l) == 1:
                    s.strs.setdefault(next(iter(l)), set()).add(y)
        if SAME.search(path) and len(args) == 1:
            x = s.str_of(I, st, args[0])
            if x is not None and s.F.tstr(dty).replace("&'static ", '&') in ('&str', 'std::string::String', "std::borrow::Cow<'_, str>"):
                return st, V(c=('str', x.strip() if path.endswith('trim') else x.lower() if path.endswith('to_lowercase') else x), lab=args[0].lab)
        s.pend = (path, [norm(I.deep_labels(st, a)) for a in args], [a.c if isinstance(a.c, (int, tuple)) and not (isinstance(a.c, tuple) and a.c[0] in ('fn', 'zst')) else None for a in args])
        return None

    def opaque_labels(s, path, lab):
        if s.pend and s.pend[0] == path and not GLUE.search(path) and any(s.pend[1]):
            s.ev.setdefault(('call', path, tuple(s.pend[1]), tuple(s.pend[2])), None)
        return lab

    def ty(s, I, fn, op):
        t = op[1] if op[0] == 'k' else I.place_ty(fn, op[1])
        return s.F.tstr(t) if t is not None else '?'

    def binop(s, I, op, a, b, site, st):
        la, lb = norm(I.deep_labels(st, a) | a.lab | a.syms), norm(I.deep_labels(st, b) | b.lab | b.syms)
        if (la or lb) and op != 'Offset' and 'convert::num' not in I.brv[0]['path']:
            s.add(I, ('op', op, la, a.c if isinstance(a.c, int) else None, lb, b.c if isinstance(b.c, int) else None), s.ty(I, I.brv[0], I.brv[1][2]))
        return None

    def switch(s, I, v, t, site, st):
        l = norm(v.lab | v.syms)
        if any(x.startswith('agg.') for x in l):
            s.add(I, ('test', l))

    def cast(s, I, fn, rv, v, site, st):
        l = norm(I.deep_labels(st, v) | v.lab | v.syms)
        if l:
            to, of = s.F.tstr(rv[4]), s.F.tstr(rv[3])
            if to != of and fn['ws']:         # the library's own conversions are checked (try_from) or lossless (from)
                s.add(I, ('cast', to, l, of), of)


def harmless(e, d, fixed):
    """an event of accessor and arrow function only takes an argument through the accessor value"""
    if e[0] == 'cast':
        return BITS.get(e[1], 0) >= BITS.get(d, 999) or e[1] in SMALL and d in SMALL
    if e[0] == 'op':
        # presence flags, lengths; i64::MIN stands for an absent time
        return d in SMALL and not any(x.startswith('agg.') or x in fixed for x in e[2] | e[4]) or e[1] in ('Eq', 'Ne') and 9223372036854775808 in (e[3], e[5])
    return e[0] == 'call' and bool(CODEC.search(e[1]))


def forms(F):
    plain, ctor = {}, {}
    for s in F.sqlfns:
        if s['kind'] == 'function' and not s.get('op'):
            plain.setdefault(s['name'], []).append(s)
            if s['ret'] and not (len(s['args']) == 1 and re.search(r'(?i)cstring|cstr', str(s['args'][0].get('sql')) + str(s['args'][0].get('pat')))):
                ctor.setdefault(s['ret'].get('sql'), []).append(s)
    for s in F.sqlfns:
        if s['kind'] != 'function' or not s.get('op') or s['op']['name'] != '->':
            continue
        L, A = at(s['args'][0]), at(s['args'][1])
        if 'ccessor' not in A or 'imevector' in L:
            continue
        cs = ctor.get(A, [])
        yield s, L, A, cs, plain


def run(ctx):
    F = ctx.F
    n = 0
    for s, L, A, cs, plain in forms(F):
        if not cs:
            ctx.viol('noctor:' + s['path'], 'nothing makes a %s' % A)
        for c in cs:
            if A in (at(a) for a in c['args']) or c['name'].endswith('_cast'):
                continue
            ca = [at(a) for a in c['args']]
            nm = ALIAS.get((L, c['name']), c['name'])
            want = sorted([L] + ([] if (L, c['name']) in DROPS else ca))
            ps = [p for p in plain.get(nm, ()) if sorted(at(a).replace('INT', 'bigint') if 'topn' in nm else at(a) for a in p['args']) == want]
            if len(ps) != 1:
                ctx.viol('plain:%s:%s' % (s['path'], c['path']), '%d functions %s(%s)' % (len(ps), nm, ', '.join(want)))
                continue
            n += 1
            compare(ctx, F, s, c, ps[0], L)
    ctx.floor('accessors', n, 90)


def arg(F, t, name, isopt):
    v = V(syms=frozenset([(('P', name), ())]))
    if opt(F, t) is not None and not isopt:
        return V(f={(1, 0): v}, var=frozenset([1]))
    return v


def evaluate(F, fs, args_of, strs=None):
    """interpret the functions one after the other, each fed the result of the last"""
    h = H(F)
    I = Interp(F, h, max_depth=24)
    st, rv = {}, None
    for f, mk in zip(fs, args_of):
        if st is None:
            return h, I, None, V()
        st, rv = I.call(st, f, mk(rv), ('top', f['id']))
    return h, I, st, rv


def show(e):
    l = lambda x: '{' + ', '.join(sorted(x)) + '}'
    if e[0] == 'op':
        return 'operation %s on %s %s and %s %s' % (e[1], l(e[2]), '' if e[3] is None else e[3], l(e[4]), '' if e[5] is None else e[5])
    if e[0] == 'test':
        return 'test of %s' % l(e[1])
    if e[0] == 'cast':
        return 'conversion of %s from %s to %s' % (l(e[2]), e[3], e[1])
    return 'call of %s with %s' % (e[1], ', '.join(l(x) for x in e[2]))


def compare(ctx, F, s, c, p, L):
    fa, fc, fp = F.fn(s['path']), F.fn(c['path']), F.fn(p['path'])
    if not (fa and fc and fp):
        ctx.viol('body:' + s['path'], 'no body for %s' % ', '.join(x['path'] for x, f in ((s, fa), (c, fc), (p, fp)) if not f))
        return
    # positions of the accessor's arguments in the function form
    sk = next(j for j, b in enumerate(p['args']) if at(b) == L)
    drop = len(c['args']) != len(p['args']) - 1
    pos, left = {}, [i for i in range(len(p['args'])) if i != sk]
    for k, a in enumerate(c['args']):
        for i in left:
            if at(p['args'][i]) == at(a) or (at(a), at(p['args'][i])) == ('bigint', 'INT'):
                pos[i] = k
                left.remove(i)
                break
    name = '%s -> %s(%s)' % (L, c['name'], ', '.join(at(a) for a in c['args']))
    key = '%s:%s' % (s['path'], c['path'])
    both = {k: p['args'][i]['optional'] and c['args'][k]['optional'] for i, k in pos.items()}
    if not drop:
        for i, k in pos.items():
            x, y = c['args'][k]['default'], p['args'][i]['default']
            if x and y and x.strip() != y.strip():
                ctx.viol('default:' + key, '%s: the default of argument %d is %s, that of the function form is %s' % (name, k + 1, c['args'][k]['default'], p['args'][i]['default']))

    def run1(strs):
        def val(f, i, n, isopt):
            if strs.get(n) == 'NULL':
                return V(var=frozenset([0]))
            if n in strs and strs[n] != 'NOT NULL':
                return V(c=('str', strs[n]), lab=frozenset([(('P', n), ())]))
            return arg(F, f['locals'][i], n, isopt and n not in strs)
        A = evaluate(F, [fc, fa], [
            lambda _: [val(fc, k + 1, 'A%d' % k, both.get(k)) for k in range(len(c['args']))] + [V()] * (fc['argc'] - len(c['args'])),
            lambda acc: [val(fa, 1, 'S', False), acc] + [V()] * (fa['argc'] - 2)])
        B = evaluate(F, [fp], [lambda _: [val(fp, i + 1, 'S' if i == sk else 'A%d' % pos[i], i != sk and both[pos[i]]) for i in range(len(p['args']))] + [V()] * (fp['argc'] - len(p['args']))])
        return A, B
    todo, done = [{}], 0
    null = ['A%d' % k for k in both if both[k]]
    if all(opt(F, f['locals'][i]) is not None for f, i in ((fa, 1), (fp, sk + 1))):
        null.append('S')
    if null and len(null) <= 3:
        todo += [dict(zip(null, x)) for x in product(('NULL', 'NOT NULL'), repeat=len(null))]
    while todo and done < 40:
        strs = todo.pop()
        done += 1
        try:
            (h, I, st, rv), (g, J, st2, rv2) = run1(strs)
        except Budget as ex:
            ctx.viol('budget:' + key, 'analysis of %s or %s exceeded its budget: %s' % (s['path'], p['path'], ex))
            return
        w = name + (' with ' + ', '.join('%s = %r' % x for x in sorted(strs.items())) if strs else '')
        if not strs and not drop:
            for n, vs in sorted({**h.strs, **g.strs}.items()):
                if vs and re.match(r'A\d', n) and at(c['args'][int(n[1:])]) == 'TEXT':
                    todo += [{n: v} for v in sorted(h.strs.get(n, set()) | g.strs.get(n, set()))]
        if (st is None) != (st2 is None):
            ctx.viol('raise:' + key, '%s: %s always raises an error, %s does not' % ((w, s['path'], p['path']) if st is None else (w, p['path'], s['path'])))
            continue
        if st is None:
            continue
        if 'NOT NULL' in strs.values() and any(e[0] == 'op' and 9223372036854775808 in (e[3], e[5]) for e in h.ev):
            continue                          # presence is a value of the argument here, not a flag
        ctx.count('comparisons')
        ra, rp = norm(I.deep_labels(st, rv)), norm(J.deep_labels(st2, rv2))
        if strs:
            ra, rp = ({x for x in r if x not in strs} for r in (ra, rp))
        if ra != rp:
            ctx.viol('result:' + key, '%s: the result depends on %s, that of %s on %s' % (w, ', '.join(sorted(ra - rp)) or 'nothing else', p['path'], ', '.join(sorted(rp - ra)) or 'nothing else'))
            continue
        ctx.count('steps', len(g.ev))
        for e in sorted((e for e in g.ev if e not in h.ev and not (e[0] == 'call' and CODEC.search(e[1]))), key=str)[:3]:
            ctx.viol('missing:' + key, '%s: %s has no counterpart of: %s' % (w, s['path'], show(e)))
        for e in sorted((e for e in h.ev if e not in g.ev and not harmless(e, h.ev[e], {n for n, x in strs.items() if x == 'NOT NULL'})), key=str)[:3]:
            if strs.get('S') == 'NULL' and e[0] in ('op', 'cast'):
                continue                      # the accessor is made before the aggregate is known to be absent
            if drop and not any(x != 'A0' for y in e[2:] if isinstance(y, tuple) for x in y if isinstance(x, str)):
                continue
            ctx.viol('extra:' + key, '%s: not in %s: %s' % (w, p['path'], show(e)))
    if len(ctx.samples) < 40:
        ctx.samples.append('%s: %s = %s' % (name, s['path'], p['path']))
