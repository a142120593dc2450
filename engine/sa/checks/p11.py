"""P11: lambda expressions are checked when read and mean what they say."""
import re
from .. import own
from ..absint import Interp, Hooks, Budget, V, fieldv

RULE = ('Abstract interpretation of the lambda parser and evaluator over the finite table of operators, functions and types: (1) every operator applied to every pair of operand types is either refused on all paths, or builds a node '
        'which the evaluator, given operands of these types, evaluates to a value of the declared type without meeting an impossible case, by the computation the operator stands for, operands in order; comparisons are evaluated for every '
        'ordering of the operands; (2) a function is refused with another number of arguments than it has, or with one that is no double, and calls the function of its name; (3) negation and NOT likewise; '
        '(4) the comparison of values compares the two payloads, for every type; (5) a function that uses a lambda refuses every other result type; (6) an executor that is used repeatedly is reset before each use, and reset forgets all variables; '
        '(7) the point\'s value and time, constants and variables are read as and evaluated to what they stand for, with their type, variables under their own number; (8) the precedence table orders the operators as or, and, comparisons, sums, products, powers.')
ASSUMES = ['the grammar gives each rule the token of its name', 'PostgreSQL\'s interval and timestamp functions and f64\'s methods compute what they are named after']
L = 'time_vector::pipeline::lambda::'
EXEC = L + "executor::ExpressionExecutor::<'e, T>::"
OPS = {('add', 'Double'): 'Add', ('add', 'Time'): 'timestamptz_pl_interval', ('add', 'Interval'): 'interval_pl',
       ('subtract', 'Double'): 'Sub', ('subtract', 'Time'): 'timestamptz_mi_interval', ('subtract', 'Interval'): 'interval_mi',
       ('multiply', 'Double'): 'Mul', ('multiply', 'Interval'): 'interval_mul', ('divide', 'Double'): 'Div', ('divide', 'Interval'): 'interval_div', ('power', 'Double'): 'powf'}
COMMUTES = {'Add', 'Mul', 'interval_pl'}
ORD = {'eq': 'Equal', 'neq': 'Less Greater None', 'lt': 'Less', 'le': 'Less Equal', 'gt': 'Greater', 'ge': 'Greater Equal'}
FUNCS = {n: n for n in 'abs cbrt ceil floor ln log10 log round sqrt trunc acos asin atan atan2 cos sin tan sinh cosh tanh asinh acosh atanh'.split()}
FUNCS['sign'] = 'signum'
LEVELS = [{'or'}, {'and'}, {'eq', 'neq', 'lt', 'le', 'gt', 'ge'}, {'add', 'subtract'}, {'multiply', 'divide'}, {'power'}]
SIDES = ('LEFT', 'RIGHT')


class T:
    """the types involved"""
    def __init__(s, F):
        s.F = F
        s.ty = {}
        for t in F.tys:
            p = t.get('path', '')
            if p.startswith(L) and t['k'] == 'adt' and t.get('vars'):
                s.ty[p[len(L):]] = [v['n'] for v in t['vars']]
        s.types, s.values, s.segs, s.rules = s.ty['Type'], s.ty['Value'], s.ty['ExpressionSegment'], s.ty['parser::Rule']
        s.adt = {t['path'][len(L):]: t for t in F.tys if t.get('path', '').startswith(L) and t['k'] == 'adt' and t.get('vars')}
        g = s.adt['ExpressionSegment']['vars']
        s.slot = {}
        for k, v in enumerate(g):
            for j, x in enumerate(v['f']):
                n = F.tstr(x[1]).split('::')[-1].rstrip('>')
                s.slot.setdefault(v['n'], []).append((n, j))

    def find(s, seg, name, nth=0):
        return [(s.segs.index(seg), j) for n, j in s.slot[seg] if n == name][nth]

    def seg(s, ty, lab):
        """some expression of a type"""
        return V(var=frozenset([s.segs.index('UserVar')]), f={s.find('UserVar', 'usize'): V(lab=frozenset([lab])), s.find('UserVar', 'Type'): V(var=frozenset([s.types.index(ty)]))})

    def val(s, ty, lab):
        k = s.values.index(ty)
        return V(var=frozenset([k]), f={(k, 0): V(lab=frozenset([lab]))}, lab=frozenset([lab]))


class H(Hooks):
    """events of one evaluation"""
    def __init__(s, t, rule=None, kids=None, order=None, nargs=None):
        s.t, s.rule, s.kids, s.order = t, rule, kids or {}, order
        s.ev, s.impossible, s.compared, s.ctl = [], False, [], set()
        s.table = nargs
        s.assume = s.last = None

    def labs(s, I, st, v):
        return frozenset(I.deep_labels(st, v) | v.lab)

    def binop(s, I, op, a, b, site, st):
        s.ev.append((op.replace('WithOverflow', ''), a.lab, b.lab))
        s.last = a.c
        if s.assume is not None and op in ('Eq', 'Ne') and {'NARGS', 'LEN'} <= a.lab | b.lab:
            return V(c=int(s.assume == (op == 'Eq')))

    def unary(s, I, op, v, st):
        s.ev.append((op, v.lab, frozenset()))
        if op == 'Not' and isinstance(v.c, int):
            return V(c=1 - v.c, lab=v.lab)

    def switch(s, I, v, t, site, st):
        s.ctl |= v.lab

    def type_of(s, I, st, v):
        for _ in range(4):
            if v.var is not None:
                return s.t.types[list(v.var)[0]] if len(v.var) == 1 else None
            ts = list(I.targets(v))
            if len(ts) != 1:
                return None
            v = I.load(st, ts[0])

    def cmp(s, I, st, args):
        """which operand is on the left of a comparison, and what it gives"""
        a, b = [s.labs(I, st, x) | set().union(*[s.labs(I, st, I.load(st, l)) for l in I.targets(x)] or [set()]) for x in args[:2]]
        o = s.order
        if SIDES[1] in a and SIDES[0] in b and SIDES[0] not in a:
            o = {'Less': 'Greater', 'Greater': 'Less'}.get(o, o)
        elif not (SIDES[0] in a and SIDES[1] in b) or SIDES[1] in a:
            return None
        return o

    def call(s, I, rec, path, args, atys, dty, site, st, fid):
        if path.startswith('core::panicking::unreachable') and re.match(r'^<?time_vector::pipeline::(lambda::(?!toolkit_experimental|<impl)|map::|filter::)', I.stack[-1][0]['path']):
            s.impossible = True
        if path.endswith('::as_rule') and s.rule is not None:
            return V(var=frozenset([s.t.rules.index(s.rule)]))
        if path.startswith(EXEC + 'exec_expression') and '{closure' not in path:
            for l in I.targets(args[1]):
                if l[0] in s.kids:
                    return s.kids[l[0]]
        if 'boxed::Box<' in I.F.tstr(dty) and 'ExpressionSegment' in I.F.tstr(dty) and args:
            return V(lab=frozenset().union(*[s.labs(I, st, a) for a in args]))
        m = re.search(r'PartialEq.*::(eq|ne)$', path)
        if m and re.search(r'lambda::Type$', I.F.tstr(atys[0])):
            a, b = [s.type_of(I, st, x) for x in args[:2]]
            if a is not None and b is not None and (a != b or a != 'Tuple'):
                return V(c=int((a == b) == (m.group(1) == 'eq')))
        if path.endswith('DirectFunctionCall2Coll'):
            fn = fieldv(args[0], (1, 0)).c
            n = I.F.fns[fn[1]]['path'] if isinstance(fn, tuple) and fn[0] == 'fn' else '?'
            s.ev.append((n.split('::')[-1], s.labs(I, st, args[2]), s.labs(I, st, args[3])))
            return V(lab=s.labs(I, st, args[2]) | s.labs(I, st, args[3]))
        m = re.match(r'(std|core)::f64::<impl f64>::(\w+)$', path)
        if m:
            s.ev.append((m.group(2), s.labs(I, st, args[0]), s.labs(I, st, args[1]) if len(args) > 1 else frozenset()))
            return V(lab=frozenset().union(*[s.labs(I, st, a) for a in args]))
        m = re.search(r'(PartialOrd(?:<[^<>]*>)?(?:>)?::(lt|le|gt|ge|partial_cmp)|PartialEq(?:<[^<>]*>)?(?:>)?::(eq|ne))$', path)
        if m and s.order and 'lambda::Value' in I.F.tstr(atys[0]):
            o = s.cmp(I, st, args)
            if o is not None:
                k = m.group(2) or m.group(3)
                if k == 'partial_cmp':
                    if o == 'None':
                        return V(var=frozenset([0]))
                    return V(var=frozenset([1]), f={(1, 0): V(var=frozenset([('Less', 'Equal', 'Greater').index(o)]))})
                return V(c=int(o in ORD[{'ne': 'neq'}.get(k, k)].split()), lab=frozenset(SIDES))
        if s.table is not None:
            I.site_dty, I.site_id = dty, (fid, site[1])
            r = s.table(s, I, rec, path, args, st)
            if r is not None:
                return r
        return None


def build(F, t, rule, lt, rt):
    h = H(t, rule)
    I = Interp(F, h, budget=30000)
    f = F.fn(L + 'parser::build_binary_op')
    st, rv = I.call({}, f, [V(), t.seg(lt, 'LEFT'), t.seg(rt, 'RIGHT')], ('top',))
    return I, h, st, rv


def evaluate(F, t, f, op, ty, kids, order=None, inline=None):
    """one run of exec_binary_op or exec_unary_op"""
    h = H(t, kids=kids, order=order)
    I = Interp(F, h, budget=60000, inline=inline)
    args = [own.param(1)]
    n = 0
    for i in range(2, f['argc'] + 1):
        s = F.tstr(f['locals'][i])
        if s.endswith('lambda::BinOp') or s.endswith('lambda::UnaryOp'):
            args.append(V(var=op))
        elif s.endswith('lambda::Type'):
            args.append(V(ptr=frozenset([(('KV', t.types.index(ty), 0), ())])))
        elif 'ExpressionSegment' in s:
            args.append(V(ptr=frozenset([(('E', n), ())])))
            n += 1
        else:
            args.append(own.param(i))
    st, rv = I.call({}, f, args, ('top',))
    return I, h, st, rv


def one(F, path):
    return [f for f in F.fns.values() if f['path'] == path and 'blocks' in f]


def operators(ctx, t):
    F = ctx.F
    runs = one(F, EXEC + 'exec_binary_op')
    if not runs or F.fn(L + 'parser::build_binary_op') is None:
        ctx.viol('missing:operators', 'no body for the construction or evaluation of binary operators')
        return
    n = acc = 0
    for rule in [r for level in LEVELS for r in sorted(level)]:
        for lt in t.types:
            for rt in t.types:
                n += 1
                what = '`%s` of %s and %s' % (rule, lt, rt)
                I, h, st, rv = build(F, t, rule, lt, rt)
                if h.impossible:
                    ctx.viol('build:%s:%s:%s' % (rule, lt, rt), 'parser::build_binary_op: %s runs into a case declared impossible' % what)
                if st is None:
                    continue
                acc += 1
                k = t.segs.index('Binary')
                ty = fieldv(rv, t.find('Binary', 'Type')).var
                op = fieldv(rv, t.find('Binary', 'BinOp')).var
                kids = [I.deep_labels(st, fieldv(rv, t.find('Binary', 'ExpressionSegment', j))) for j in (0, 1)]
                kids = [[s for s in SIDES if s in x] for x in kids]
                if rv.var != frozenset([k]) or len(ty or ()) != 1 or len(op or ()) != 1 or any(len(x) != 1 for x in kids) or kids[0] == kids[1]:
                    ctx.viol('node:%s:%s:%s' % (rule, lt, rt), 'parser::build_binary_op: %s does not give one operator node of one type over both operands (type %s, operator %s, operands %s)' % (
                        what, ty, op, kids))
                    continue
                ty = t.types[list(ty)[0]]
                of = {'LEFT': lt, 'RIGHT': rt}
                env = {('E', j): t.val(of[kids[j][0]], kids[j][0]) for j in (0, 1)}
                for f in runs:
                    if rule in ORD and lt != rt:
                        # the comparison itself, of values of these two types
                        I, h, st, rv = evaluate(F, t, f, op, ty, {o: v.with_(lab=frozenset()) for o, v in env.items()}, inline=re.compile(r'PartialOrd::(lt|le|gt|ge)$'))
                        if st is None or fieldv(rv, (t.values.index('Bool'), 0)).c is not None:
                            ctx.viol('compare:%s:%s:%s' % (rule, lt, rt), '%s: %s is accepted, but values of these types are not compared' % (f['path'], what))
                            continue
                    for order in (('Less', 'Equal', 'Greater', 'None') if rule in ORD else (None,)):
                        I, h, st, rv = evaluate(F, t, f, op, ty, env, order)
                        key = '%s:%s:%s' % (rule, lt, rt)
                        if st is None or h.impossible:
                            ctx.viol('eval:' + key, '%s: %s is accepted as %s, but its evaluation runs into a case declared impossible' % (f['path'], what, ty))
                            break
                        if rv.var != frozenset([t.values.index(ty)]) and rule not in ('and', 'or'):
                            ctx.viol('type:' + key, '%s: %s is accepted as %s, but may evaluate to %s' % (f['path'], what, ty, [t.values[v] for v in rv.var or ()]))
                            break
                        if rule in ORD:
                            got = fieldv(rv, (t.values.index('Bool'), 0)).c
                            if got != int(order in ORD[rule].split()):
                                ctx.viol('compare:' + key, '%s: %s gives %s when the comparison of the operands gives %s' % (f['path'], what, {0: 'false', 1: 'true'}.get(got, 'an unknown result'), order))
                                break
                        elif rule in ('and', 'or'):
                            for a in (0, 1):
                                for b in (0, 1):
                                    e2 = {o: v.with_(f={(t.values.index('Bool'), 0): V(c=(a, b)[SIDES.index(list(v.lab)[0])])}) for o, v in env.items()}
                                    I, h, st, rv = evaluate(F, t, f, op, ty, e2)
                                    got = fieldv(rv, (t.values.index('Bool'), 0)).c
                                    if rv.var != frozenset([t.values.index('Bool')]) or got != int(a and b if rule == 'and' else a or b):
                                        ctx.viol('meaning:' + key, '%s: %s gives %s for %s and %s' % (f['path'], what, {0: 'false', 1: 'true'}.get(got, 'an unknown result'), bool(a), bool(b)))
                        else:
                            want = OPS.get((rule, ty))
                            got = [(o, tuple(s for s in SIDES if s in a), tuple(s for s in SIDES if s in b)) for o, a, b in h.ev]
                            ok = [(want, ('LEFT',), ('RIGHT',))] + ([(want, ('RIGHT',), ('LEFT',))] if want in COMMUTES or lt != rt else [])
                            if not any(x in got for x in ok) or not set(SIDES) <= I.deep_labels(st, rv) | rv.lab:
                                ctx.viol('meaning:' + key, '%s: %s is not computed as %s of its operands (found %s)' % (f['path'], what, want, [x for x in got if x[1] and x[2]]))
    ctx.floor('operator_type_triples', n, 300)
    ctx.floor('accepted', acc, 40)


LEAVES = {'num': ('DoubleConstant', 'Double'), 'time': ('TimeConstant', 'Time'), 'interval': ('IntervalConstant', 'Interval'), 'val_var': ('ValueVar', 'Double'), 'time_var': ('TimeVar', 'Time'), 'var': ('UserVar', None)}


def leaves(ctx, t):
    """the point's value and time, constants and variables: of their type, and evaluated to what they stand for"""
    F = ctx.F
    runs = one(F, EXEC + 'exec_expression')
    ty_of = F.fn(L + 'ExpressionSegment::ty')
    if not runs or ty_of is None:
        ctx.viol('missing:leaves', 'no body for the evaluation of expressions or for their type')
        return
    n = 0

    def typ(seg):
        h = H(t)
        I = Interp(F, h, budget=20000)
        st, rv = I.call({('E', 'x'): seg}, ty_of, [V(ptr=frozenset([(('E', 'x'), ())]))], ('top',))
        return st and h.type_of(I, st, rv)
    for name in ('FunctionCall', 'Unary', 'Binary', 'BuildTuple'):
        for ty in t.types if name != 'FunctionCall' else ['Double']:
            n += 1
            seg = V(var=frozenset([t.segs.index(name)]), f={t.find(name, 'Type'): V(var=frozenset([t.types.index(ty)]))} if name != 'FunctionCall' else None)
            if typ(seg) != ty:
                ctx.viol('type-of:%s:%s' % (name, ty), '%s: a %s of type %s is declared as %s' % (ty_of['path'], name, ty, typ(seg)))
    for f in runs:
        for name, ty, src in (('ValueVar', 'Double', 'VALUE'), ('TimeVar', 'Time', 'TIME'), ('DoubleConstant', 'Double', 'CONST'), ('TimeConstant', 'Time', 'CONST'), ('IntervalConstant', 'Interval', 'CONST'), ('UserVar', None, None)):
            for ty in [ty] if ty else t.types:
                n += 1
                k = t.segs.index(name)
                seg = t.seg(ty, 'INDEX') if name == 'UserVar' else V(var=frozenset([k]), f={(k, 0): V(lab=frozenset(['CONST']))} if src == 'CONST' else None)
                if typ(seg) != ty:
                    ctx.viol('type-of:%s:%s' % (name, ty), '%s: %s is declared as %s' % (ty_of['path'], name, typ(seg)))
                indexed, kept, runs_of = [], [], []

                def tab(h, I, rec, path, args, st):
                    if path.startswith(EXEC + 'exec_expression') and len(I.stack) > 0:
                        runs_of.append(h.labs(I, st, args[2]) | frozenset(['/']) | h.labs(I, st, args[3]))
                        return V(var=frozenset([t.values.index(ty)]), f={(t.values.index(ty), 0): V(lab=frozenset(['COMPUTED']))})
                    if re.search(r'Index(Mut)?(<.*>)?(>)?::index(_mut)?$|::get(_mut|_unchecked)?$', path) and len(args) == 2:
                        indexed.append(h.labs(I, st, args[1]))
                h = H(t, nargs=tab)

                def stored(I, loc, val, weak, site, st):
                    if loc[0][0] in ('D', 'P') and val.var == frozenset([1]):
                        kept.append(I.deep_labels(st, val))
                    return val
                h.stored = stored
                I = Interp(F, h, budget=30000)
                st, rv = I.call({('E', 'x'): seg}, f, [own.param(1), V(ptr=frozenset([(('E', 'x'), ())])), V(lab=frozenset(['VALUE'])), V(lab=frozenset(['TIME']))], ('top',))
                what = 'a variable of type %s' % ty if name == 'UserVar' else name
                if st is None or h.impossible:
                    ctx.viol('leaf:%s:%s' % (name, ty), '%s: %s cannot be evaluated' % (f['path'], what))
                    continue
                if name != 'UserVar':
                    labs = I.deep_labels(st, rv) | rv.lab
                    if rv.var != frozenset([t.values.index(ty)]) or labs & {'VALUE', 'TIME', 'CONST'} != {src}:
                        ctx.viol('leaf:%s:%s' % (name, ty), '%s: %s is evaluated to %s of %s' % (f['path'], what, [t.values[v] for v in rv.var or ()], sorted(x for x in labs if isinstance(x, str))))
                    continue
                if any('INDEX' not in x for x in indexed):
                    ctx.viol('variable:index', '%s: a variable is not looked up under its own number' % f['path'])
                if not runs_of:
                    ctx.viol('variable:computed', '%s: a variable is never computed' % f['path'])
                if any(x != frozenset(['VALUE', '/', 'TIME']) for x in runs_of):
                    ctx.viol('variable:point', '%s: a variable is computed for another point' % f['path'])
                if any('COMPUTED' not in x for x in kept):
                    ctx.viol('variable:kept', '%s: a variable remembers something else than its value' % f['path'])
    g = F.fn(L + 'parser::parse_primary')
    for rule, (name, ty) in sorted(LEAVES.items()):
        n += 1
        h = H(t, rule)
        I = Interp(F, h, budget=30000)
        st, rv = I.call({}, g, [own.param(i) for i in range(1, g['argc'] + 1)], ('top',))
        if st is None or rv.var != frozenset([t.segs.index(name)]):
            ctx.viol('read:' + rule, '%s: `%s` is read as %s' % (g['path'], rule, [t.segs[v] for v in (rv.var or ())] if st is not None else 'nothing'))
    ctx.floor('leaves', n, 16)


def functions(ctx, t):
    F = ctx.F
    fnames = t.ty['Function']
    # the table of functions: every (name, (arity, function)) put together in the parser
    table = {}
    for f in F.fns.values():
        if not f['path'].startswith(L + 'parser') or 'blocks' not in f:
            continue
        val = {}
        for b in f['blocks']:
            for s in b['s']:
                if s[0] != '=' or not isinstance(s[1], int):
                    continue
                rv = s[2]

                def opd(o):
                    if o[0] == 'k':
                        d = o[2]
                        return d['str'] if 'str' in d else fnames[d['var']] if 'var' in d else fnames[int(d['bits'])] if 'bits' in d and F.tys[o[1]].get('path') == L + 'Function' else int(d['bits']) if 'bits' in d else None
                    return val.get(o[1]) if isinstance(o[1], int) else None
                if rv[0] == 'use':
                    val[s[1]] = opd(rv[1])
                elif rv[0] == 'ref' and isinstance(rv[2], list) and rv[2][1:] == ['*']:
                    val[s[1]] = val.get(rv[2][0])
                elif rv[0] == 'agg' and rv[1][0] == 'adt' and F.tys[rv[1][1]].get('path') == L + 'Function':
                    val[s[1]] = rv[1][3]
                elif rv[0] == 'agg' and rv[1][0] == 'tuple' and len(rv[2]) == 2:
                    x = [opd(o) for o in rv[2]]
                    if None not in x:
                        val[s[1]] = tuple(x)
                        if isinstance(x[0], str) and isinstance(x[1], tuple):
                            table.setdefault(x[0], set()).add(x[1])
    ctx.floor('functions', len(table), 20)
    runs = one(F, EXEC + 'exec_function')
    ctx.floor('function_evaluators', len(runs), 1)
    for name, forms in sorted(table.items()):
        for nargs, var in sorted(forms):
            for f in runs:
                seg = [i for i in range(2, f['argc'] + 1) if 'ExpressionSegment' in F.tstr(f['locals'][i])]
                fun = [i for i in range(2, f['argc'] + 1) if F.tstr(f['locals'][i]).endswith('lambda::Function')]
                need = [0]

                def tab(h, I, rec, path, args, st):
                    if path.startswith(EXEC + 'exec_expression') and '{closure' not in path:
                        return t.val('Double', 'ARG')
                    if path.endswith('ops::Index<I> for [T]>::index') or re.search(r'\[T\]>::(split_at|get_unchecked)$', path):
                        for x in (args[1].f or {}).values():
                            if isinstance(x.c, int):
                                need[0] = max(need[0], x.c)

                def bound(I, v, tt, site, st, need=need):
                    if tt[3] == 'bounds' and h.ev and h.ev[-1][0] == 'Lt' and isinstance(h.last, int):
                        need[0] = max(need[0], h.last + 1)
                h = H(t, nargs=tab)
                h.asserted = bound
                I = Interp(F, h, budget=60000)
                args = [own.param(i) for i in range(1, f['argc'] + 1)]
                for i in fun:
                    args[i - 1] = V(ptr=frozenset([(('KV', fnames.index(var), 0), ())]))
                st, rv = I.call({}, f, args, ('top',))
                if st is None or h.impossible or rv.var != frozenset([t.values.index('Double')]):
                    ctx.viol('function:' + name, '%s: %s of doubles does not evaluate to a double' % (f['path'], name))
                    continue
                if need[0] > nargs:
                    ctx.viol('function-arity:' + name, '%s: %s takes %d arguments, but its evaluation uses argument %d' % (f['path'], name, nargs, need[0]))
                want = FUNCS.get(name)
                if name == 'pi':
                    continue
                if want is None or not any(e[0] == want and 'ARG' in e[1] and (nargs == 1 or 'ARG' in e[2]) for e in h.ev):
                    ctx.viol('function-meaning:' + name, '%s: %s is not computed by f64::%s (found %s)' % (f['path'], name, want, sorted({e[0] for e in h.ev})))
    return table


def parsing(ctx, t):
    """negation, NOT and function calls"""
    F = ctx.F
    f = F.fn(L + 'parser::parse_primary')
    un = one(F, EXEC + 'exec_unary_op')
    if f is None or not un:
        ctx.viol('missing:parse_primary', 'no body for the parser or the evaluation of unary operators')
        return

    def parse(f, rule, ty, assume=None, args=None):
        def tab(h, I, rec, path, args, st):
            if path == L + 'parser::parse_primary' and len(I.stack) > 0:
                return t.seg(ty, 'LEFT')
            if path == L + 'ExpressionSegment::ty' and assume is not None:
                return V(ptr=frozenset([(('KV', t.types.index(ty), 0), ())]))
            if re.search(r'collections::HashMap::<K, V, S(, A)?>::get$', path) and assume is not None:
                return V(var=frozenset([1]), f={(1, 0): V(ptr=frozenset([(('E', 'tab'), ())]))})
            if re.search(r'Vec::<T, A>::len$', path):
                return V(lab=frozenset(['LEN']))
            # arguments are there: an iteration over them has a first element
            if assume and rec is not None and 'blocks' in rec and rec['argc'] and 'ExpressionSegment>' in I.F.tstr(rec['locals'][1]):
                r = per_element(I, rec, path, args, st, ('E', 'arg'))
                if r is not None:
                    return r
            if assume and re.search(r'Iterator>::next$', path) and 'ExpressionSegment' in I.F.tstr(I.site_dty):
                k = ('KV', 'seen', I.site_id)
                if k not in st:
                    st2 = dict(st)
                    st2[k] = V(c=1)
                    return st2, V(var=frozenset([1]), f={(1, 0): V(ptr=frozenset([(('E', 'arg'), ())]))})
        h = H(t, rule, nargs=tab)
        h.assume = assume
        I = Interp(F, h, budget=60000)
        st0 = {('E', 'tab'): V(f={(0, 0): V(lab=frozenset(['NARGS'])), (0, 1): V(lab=frozenset(['FUN']))}), ('E', 'arg'): t.seg(ty, 'LEFT')}
        st, rv = I.call(st0, f, [own.param(i) for i in range(1, f['argc'] + 1)], ('top',))
        return I, h, st, rv
    n = 0
    for rule, opname, only in (('neg', 'Neg', 'Double'), ('not', 'Not', 'Bool')):
        for ty in t.types:
            n += 1
            I, h, st, rv = parse(f, rule, ty)
            if st is None and ty != only:
                continue
            k = t.segs.index('Unary')
            rt, op = fieldv(rv, t.find('Unary', 'Type')).var, fieldv(rv, t.find('Unary', 'UnaryOp')).var
            if st is None or rv.var != frozenset([k]) or len(rt or ()) != 1 or len(op or ()) != 1:
                ctx.viol('node:%s:%s' % (rule, ty), 'parser::parse_primary: `%s` of %s does not give one operator node of one type' % (rule, ty))
                continue
            rt = t.types[list(rt)[0]]
            for g in un:
                I, h, st, rv = evaluate(F, t, g, op, rt, {('E', 0): t.val(ty, 'LEFT')})
                if st is None or h.impossible or rv.var != frozenset([t.values.index(rt)]):
                    ctx.viol('eval:%s:%s' % (rule, ty), '%s: `%s` of %s is accepted as %s, but its evaluation runs into a case declared impossible or gives something else' % (g['path'], rule, ty, rt))
                elif not any(o == opname and 'LEFT' in a for o, a, b in h.ev):
                    ctx.viol('meaning:%s:%s' % (rule, ty), '%s: `%s` of %s is not computed as %s' % (g['path'], rule, ty, opname))
    I, h, st, rv = parse(f, 'function', 'Double', False)
    if st is not None:
        ctx.viol('arity', '%s: a function call is accepted with another number of arguments than the function has' % f['path'])
    I, h, st, rv = parse(f, 'function', 'Double', True)
    if st is None:
        ctx.viol('function-refused', '%s: a function call with the right number of doubles is refused' % f['path'])
    for ty in t.types:
        if ty == 'Double':
            continue
        n += 1
        if parse(f, 'function', ty, True)[2] is None:
            continue
        # or each argument is checked where it is parsed
        cl = [g for g in F.fns.values() if g['path'].startswith(L + 'parser::parse_primary::{closure') and 'blocks' in g and any(
            b['t'][0] == 'call' and isinstance(b['t'][1], int) and F.fns[b['t'][1]]['path'] == L + 'parser::parse_primary' for b in g['blocks'])]
        if not any(parse(g, 'function', ty, True)[2] is None for g in cl):
            ctx.viol('function-argument:' + ty, '%s: a function is accepted with an argument of type %s, which its evaluation cannot take' % (f['path'], ty))
    ctx.floor('unary_and_function_cases', n, 14)


def values(ctx, t):
    """comparison of two values"""
    F = ctx.F
    for path, name in (('<%sValue as std::cmp::PartialOrd>::partial_cmp' % L, 'cmp'), ('<%sValue as std::cmp::PartialEq>::eq' % L, 'eq')):
        f = F.fn(path)
        if f is None:
            ctx.viol('missing:' + name, 'no body for %s' % path)
            continue
        for a in t.values:
            for b in t.values:
                def tab(h, I, rec, path, args, st):
                    if re.search(r'(::partial_cmp|::cmp|::eq|::total_cmp)$', path) and len(args) == 2 and 'Discriminant' not in path:
                        x, y = [h.labs(I, st, v) | set().union(*[h.labs(I, st, I.load(st, l)) for l in I.targets(v)] or [set()]) for v in args]
                        if x or y:
                            h.ev.append(('call', frozenset(x), frozenset(y)))
                            return V(lab=frozenset(x | y))
                    if re.search(r'mem::discriminant$', path):
                        w = None
                        for l in I.targets(args[0]):
                            w = I.load(st, l)
                        if w is not None and w.var and len(w.var) == 1:
                            return V(c=('disc', list(w.var)[0]))
                    if re.search(r'Discriminant<T> as std::cmp::PartialEq>::(eq|ne)$|PartialEq::ne$', path) and len(args) == 2:
                        w = [I.load(st, l).c for v in args for l in I.targets(v)]
                        if len(w) == 2 and all(isinstance(x, tuple) and x[0] == 'disc' for x in w):
                            return V(c=int((w[0] == w[1]) == path.endswith('eq')))
                h = H(t, nargs=tab)
                I = Interp(F, h, budget=60000)
                st, rv = I.call({('E', 0): t.val(a, 'LEFT'), ('E', 1): t.val(b, 'RIGHT')}, f, [V(ptr=frozenset([(('E', k), ())])) for k in (0, 1)], ('top',))
                key = '%s:%s:%s' % (name, a, b)
                if st is None or h.impossible:
                    ctx.viol('value:' + key, '%s: comparing %s with %s runs into a case declared impossible' % (path, a, b))
                elif a != b:
                    if rv.c != 0 and rv.var != frozenset([0]):
                        ctx.viol('value:' + key, '%s: %s and %s may compare as equal or ordered' % (path, a, b))
                elif not any('LEFT' in x and 'RIGHT' in y and 'RIGHT' not in x for _, x, y in h.ev) or not set(SIDES) <= I.deep_labels(st, rv) | rv.lab | h.ctl:
                    ctx.viol('value:' + key, '%s: two values of type %s are not compared by their contents, first with second' % (path, a))


def per_element(I, rec, path, args, st, elem):
    """a loop written as a method of the iterator, run for one of its elements"""
    m = re.search(r'Iterator>?::(any|all|find|position|for_each|try_for_each)$', path)
    if not m or rec is None or 'blocks' not in rec or len(args) != 2:
        return None
    cl, work, seen = None, [rec], set()
    while work and cl is None:
        g = work.pop()
        for b in g.get('blocks', ()):
            x = I.F.fns[b['t'][1]] if b['t'][0] == 'call' and isinstance(b['t'][1], int) else None
            if x is None or x['id'] in seen:
                continue
            seen.add(x['id'])
            if x.get('ws') and x.get('closure_of') and 'blocks' in x:
                cl = x
                break
            if len(seen) < 30:
                work.append(x)
    if cl is None:
        return None
    st = dict(st)
    st[('E', 'closure', I.site_id)] = args[1]
    e = V(ptr=frozenset([(elem, ())]))
    if m.group(1) == 'find':
        st[('E', 'ref', I.site_id)] = e
        e = V(ptr=frozenset([(('E', 'ref', I.site_id), ())]))
    st2, rv = I.call(st, cl, [V(ptr=frozenset([(('E', 'closure', I.site_id), ())])), e], ('elem', I.site_id))
    if st2 is None:
        return 'diverge'
    n = m.group(1)
    if n in ('any', 'all'):
        return st2, V(c=int(n == 'any')) if rv.c == int(n == 'any') else V(lab=rv.lab)
    if n in ('find', 'position'):
        return st2, V(var=frozenset([1])) if rv.c == 1 else V(var=frozenset([0, 1]))
    return st2, V()


USERS = [('bool_lambda$', 'Bool'), ('f64_lambda$', 'Double'), ('ttz_lambda$', 'Time'), ('interval_lambda$', 'Interval'), ('point_lambda$', None),
         ('filter_lambda_pipeline_element$|filter::apply_lambda_to$', 'Bool'), ('map_lambda_pipeline_element$|map::apply_lambda_to$', 'Double')]


def users(ctx, t):
    F = ctx.F
    parse = re.compile(r"LambdaData<'a>>::parse$|LambdaData::<'a>::parse$|lambda::parser::parse_expression$")
    n = 0
    for f in sorted(F.fns.values(), key=lambda f: f['path']):
        if 'blocks' not in f or not f.get('ws') or not any(b['t'][0] == 'call' and isinstance(b['t'][1], int) and parse.search(F.fns[b['t'][1]]['path']) for b in f['blocks']):
            continue
        want = [w for r, w in USERS if re.search(r, f['path'])]
        if parse.search(f['path']):
            continue
        n += 1
        for ty in t.types:
            def tab(h, I, rec, path, args, st):
                if parse.search(path):
                    return V(lab=frozenset(['EXPR']))
                if path in (L + 'ExpressionSegment::ty', L + 'Expression::ty'):
                    return V(ptr=frozenset([(('KV', t.types.index(ty), 0), ())]))
                if path.endswith('::ty_is_ts_point'):
                    return V(c=0)
                if path == EXEC + 'exec':
                    return t.val(ty, 'RESULT')
            h = H(t, nargs=tab)
            I = Interp(F, h, budget=80000)
            try:
                st, rv = I.call({}, f, [own.param(i) for i in range(1, f['argc'] + 1)], ('top',))
            except Budget:
                ctx.viol('budget:' + f['path'], 'analysis of %s exceeded its budget' % f['path'])
                break
            if f['path'].endswith('::input'):
                if h.impossible:
                    ctx.viol('user:%s:%s' % (f['path'], ty), '%s: runs into a case declared impossible' % f['path'])
            elif st is not None and h.impossible:
                ctx.viol('user:%s:%s' % (f['path'], ty), '%s: a lambda of type %s is not refused, but its result runs into a case declared impossible' % (f['path'], ty))
            elif st is not None and want and ty not in want:
                ctx.viol('user:%s:%s' % (f['path'], ty), '%s: a lambda of type %s is not refused' % (f['path'], ty))
            elif st is None and ty in want:
                ctx.viol('user:%s:%s' % (f['path'], ty), '%s: a lambda of type %s is refused, or its result runs into a case declared impossible' % (f['path'], ty))
    ctx.floor('users_of_lambdas', n, 8)


def resets(ctx, t):
    F = ctx.F

    def callee(b):
        return F.fns[b['t'][1]]['path'] if b['t'][0] == 'call' and isinstance(b['t'][1], int) else ''
    own_reset = all(any(callee(b) == EXEC + 'reset' for b in f['blocks']) for f in one(F, EXEC + 'exec')) and one(F, EXEC + 'exec')
    n = 0
    for f in sorted(F.fns.values(), key=lambda f: f['path']):
        if 'blocks' not in f or not f.get('ws') or f['path'].startswith(EXEC) or not any(callee(b) == EXEC + 'exec' for b in f['blocks']):
            continue
        n += 1
        out = {}
        ins = {0: False}
        work = [0]
        bad = set()
        while work:
            b = work.pop()
            x = ins[b]
            blk = f['blocks'][b]
            p = callee(blk)
            if p == EXEC + 'exec':
                bad.discard(b)
                if not x:
                    bad.add(b)
                x = False
            elif 'executor::ExpressionExecutor::<' in p and p.split('::')[-1] in ('new', 'reset', 'with_tracer', 'with_fn_tracer'):
                x = True
            from ..absint import succs
            for s in succs(blk['t']):
                y = x if s not in ins else ins[s] and x
                if s not in ins or y != ins[s]:
                    ins[s] = y
                    work.append(s)
        if bad and not own_reset:
            ctx.viol('reset:' + f['path'], '%s: the lambda is evaluated with what it remembers of an earlier evaluation (no reset of the executor on some path)' % f['path'])
    ctx.floor('evaluating_functions', n, 6)
    for f in one(F, EXEC + 'reset'):
        wr = []
        h = H(t)
        I = Interp(F, h, budget=30000)
        slot = [j for j, x in enumerate(next(a for a in F.tys if a.get('path') == L + 'executor::ExpressionExecutor' and a.get('vars'))['vars'][0]['f']) if x[0] == 'var_vals']

        def stored(I, loc, val, weak, site, st):
            wr.append((loc, val))
            if loc[0] == ('E', 'elem'):
                st['must'] = st.get('must', frozenset()) | {'forgotten'}
            return val
        h.stored = stored
        calls = []

        def tab(h, I, rec, path, args, st):
            calls.append(path)
            if rec is not None and 'blocks' in rec and rec['argc'] and 'lambda::Value>' in I.F.tstr(rec['locals'][1]):
                st2 = dict(st)
                st2['must'] = st.get('must', frozenset()) - {'forgotten'}
                r = per_element(I, rec, path, args, st2, ('E', 'elem'))
                if r is not None:
                    if r != 'diverge' and 'forgotten' not in r[0].get('must', ()):
                        calls.append('kept')
                    return r
            if re.search(r'Iterator>::next$', path) and 'Value' in I.F.tstr(I.site_dty):
                k = ('KV', 'seen', I.site_id)
                st2 = dict(st)
                if k in st and 'forgotten' not in st.get('must', ()):
                    calls.append('kept')
                st2['must'] = st.get('must', frozenset()) - {'forgotten'}
                st2[k] = V(c=1)
                return st2, V(var=frozenset([0, 1]), f={(1, 0): V(ptr=frozenset([(('E', 'elem'), ())]))})
        h.table = tab
        I.call({('E', 'elem'): V(var=frozenset([0, 1])), 'must': frozenset(['forgotten'])}, f, [own.param(1)], ('top',))
        inner = [v for l, v in wr if l[0][0] in ('D', 'P') and v.var is not None or l[0] == ('E', 'elem')]
        if 'kept' in calls:
            ctx.viol('forget', '%s keeps some of the remembered variables' % f['path'])
        if any(v.var != frozenset([0]) for v in inner) and not any(re.search(r'::(fill|clear|from_elem)$', c) for c in calls) or not (inner or any(re.search(r'::(fill|clear|from_elem)$', c) for c in calls)):
            ctx.viol('forget', '%s does not set the remembered variables to None' % f['path'])
    return


def precedence(ctx, t):
    F = ctx.F
    fs = [f for f in F.fns.values() if f['path'].startswith(L + 'parser::PREC_CLIMBER::') and 'blocks' in f]
    found = []
    for f in fs:
        def tab(h, I, rec, path, args, st):
            if path.endswith('Operator::<R>::new') or path.endswith('prec_climber::Operator::<R>::new'):
                return V(lab=frozenset([('op', t.rules[list(args[0].var)[0]], list(args[1].var)[0])]) if args[0].var and args[1].var else frozenset())
            if path.endswith('::bitor'):
                return V(lab=args[0].lab | args[1].lab)
        h = H(t, nargs=tab)

        def agg(I, vals, st):
            if any(any(isinstance(l, tuple) and l[0] == 'op' for l in v.lab) for v in vals):
                found.append([v.lab for v in vals])
        h.array = agg
        I = Interp(F, h, budget=30000)
        I.call({}, f, [own.param(i) for i in range(1, f['argc'] + 1)], ('top',))
    ctx.floor('precedence_tables', len(found), 1)
    for levels in found[:1]:
        got = [{l[1] for l in lv if isinstance(l, tuple)} for lv in levels]
        if got != LEVELS:
            ctx.viol('precedence', 'parser: operators are ordered as %s' % [sorted(x) for x in got])
        right = {l[1] for lv in levels for l in lv if isinstance(l, tuple) and l[2] == 1}
        if right != {'power'}:
            ctx.viol('associativity', 'parser: %s associate to the right' % sorted(right))


def run(ctx):
    t = T(ctx.F)
    operators(ctx, t)
    leaves(ctx, t)
    functions(ctx, t)
    parsing(ctx, t)
    values(ctx, t)
    users(ctx, t)
    resets(ctx, t)
    precedence(ctx, t)
