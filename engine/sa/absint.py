"""Flow-sensitive, inlining abstract interpreter over monomorphic MIR facts.

Values are abstract: where they may point (ptr), which initial (symbolic)
memory they are exactly a copy of (syms), which symbolic memory they were computed from
(lab), which enum variants they can be (var) and small constants (c).  Nothing is executed;
branches are pruned only when a discriminant/constant is known in the abstract.
"""
import re

EMPTY = frozenset()
PG_FRESH = frozenset('''palloc palloc0 palloc_extended MemoryContextAlloc MemoryContextAllocZero pg_detoast_datum_copy
datumCopy DirectFunctionCall1Coll DirectFunctionCall2Coll DirectFunctionCall3Coll InputFunctionCall OutputFunctionCall
SendFunctionCall ReceiveFunctionCall OidFunctionCall1Coll pstrdup cstring_to_text_with_len'''.split())
CMC = ('G', 'pgrx::pg_sys::CurrentMemoryContext')
MAXD = 5          # nesting of symbolic dereferences
MAXPATH = 9


class V:
    __slots__ = ('syms', 'ptr', 'f', 'var', 'c', 'lab', '_h')

    def __init__(self, syms=EMPTY, ptr=EMPTY, f=None, var=None, c=None, lab=EMPTY):
        self.syms, self.ptr, self.f, self.var, self.c, self.lab = syms, ptr, f, var, c, lab
        self._h = None

    def key(self):
        return (self.syms, self.ptr, self.var, self.c, self.lab,
                tuple(sorted(((repr(k), v) for k, v in self.f.items()), key=lambda x: x[0])) if self.f else None)

    def __eq__(self, o):
        if self is o:
            return True
        return (isinstance(o, V) and self.syms == o.syms and self.ptr == o.ptr and self.var == o.var and
                self.c == o.c and self.lab == o.lab and (self.f or None) == (o.f or None))

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.syms, self.ptr, self.var, str(self.c), self.lab,
                            frozenset(self.f) if self.f else None))
        return self._h

    def __repr__(self):
        s = []
        if self.syms:
            s.append('=' + '|'.join(map(locstr, self.syms)))
        if self.ptr:
            s.append('&' + '|'.join(map(locstr, self.ptr)))
        if self.var is not None:
            s.append('v%s' % sorted(self.var))
        if self.c is not None:
            s.append('c%r' % (self.c,))
        if self.lab:
            s.append('~' + '|'.join(map(locstr, self.lab)))
        if self.f:
            s.append('{%s}' % ', '.join('%s:%r' % (k, v) for k, v in self.f.items()))
        return 'V(' + ' '.join(s) + ')'

    def with_(self, **k):
        d = dict(syms=self.syms, ptr=self.ptr, f=self.f, var=self.var, c=self.c, lab=self.lab)
        d.update(k)
        return V(**d)


TOP = V()


def locstr(l):
    o, p = l
    return objstr(o) + ''.join('.%s' % (x if isinstance(x, str) else ('%d' % x[1] if x[0] == 0 else '%d_%d' % x)) for x in p)


def objstr(o):
    if o[0] == 'D':
        return '*(' + locstr((o[1], o[2])) + ')'
    if o[0] == 'P':
        return '$%s' % o[1]
    if o[0] == 'L':
        return 'L%s_%d' % (abs(hash(o[1])) % 997, o[2])
    return '%s:%s' % (o[0], o[1])


def depth(o):
    n = 0
    while o[0] == 'D':
        n += 1
        o = o[1]
    return n


def root(l):
    o = l[0]
    while o[0] == 'D':
        o = o[1]
    return o


def deref_obj(loc):
    o, p = loc
    if depth(o) >= MAXD:
        return o
    return ('D', o, p)


def sub(loc, k):
    o, p = loc
    if len(p) >= MAXPATH or (p and p[-1] == '[]' and k == '[]'):
        return loc
    return (o, p + (k,))


def join(a, b):
    if a is b:
        return a
    if a == b:
        return a
    f = None
    if a.f or b.f:
        f = {}
        for k in set(a.f or ()) | set(b.f or ()):
            x = fieldv(a, k)
            y = fieldv(b, k)
            f[k] = join(x, y)
    var = a.var | b.var if (a.var is not None and b.var is not None) else None
    if var is None and (a.var is not None or b.var is not None):
        # an uninitialised/unknown side keeps unknown
        var = None
    return V(a.syms | b.syms, a.ptr | b.ptr, f, var, a.c if a.c == b.c else None, a.lab | b.lab)


def fieldv(v, k):
    """the abstract value of component k of v"""
    if v.f and k in v.f:
        return v.f[k]
    if v.f and k == '[]':
        r = collapse(v)
        return r
    syms = frozenset(sub(s, k) for s in v.syms)
    # an opaque value: component derived from the same labels; '[]' pointers stay
    ptr = EMPTY
    base = v.ptr
    if base and (not v.f or '[]' in v.f):
        ptr = base
    x = V(syms, ptr, None, None, None, v.lab)
    if v.f and '[]' in v.f:
        x = join(x, v.f['[]'])
    return x


def collapse(v):
    r = V(v.syms, v.ptr, None, None, None, v.lab)
    for x in (v.f or {}).values():
        r = join(r, collapse(x))
    return r


class Budget(Exception):
    pass


INLINE_STD = re.compile(
    r'^(core|std|alloc)::(option|result|mem::(take|replace|swap)|ops::function|ops::control_flow|ops::try_trait|convert|'
    r'clone|borrow|bool|boxed)\b|^<std::(option|result|ops::ControlFlow)|^std::(option|result)|^std::(mem::(take|replace)|convert|clone|borrow|ops)\b|^<T as std::(convert|borrow|clone)|^<&|'
    r'^<std::boxed::Box<.*> as std::(ops::(Deref|DerefMut|FnOnce|Fn|FnMut)|convert::(AsRef|AsMut))|'
    r'^<std::(option|result)::|^std::ptr::NonNull|^core::bool|^bool::|<impl bool>|^<[^ ]* as std::convert::(Into|From)|^std::cell::OnceCell|'
    r'^<F as|^<std::ptr::NonNull|'
    # iterator adapters: the workspace iterator or closure inside them is what matters
    r'^<std::iter::(Enumerate|Map|Take|Skip|Zip|Peekable|Chain|MapWhile|Filter|FilterMap|Fuse|Cloned|Copied)<.*> as std::iter::Iterator>::next|^<std::slice::Iter(Mut)?<.*> as std::iter::Iterator>::(for_each|any|all|find|position|fold)$|^<I as std::iter::IntoIterator>::into_iter$')
# copies bytes/values only: no pointer of an argument survives the call
NOFLOW = re.compile(r'^bincode::|::write_all$|^serde::|^pgrx::varlena|^std::fmt|^core::fmt')
OPAQUE = re.compile(r'serde|bincode|^std::fmt|^core::fmt|ron::|pest|::fmt::|^<.* as std::fmt')


class Interp:
    def __init__(self, F, hooks=None, inline_std=True, max_depth=14, budget=400000, opaque=None, inline=None):
        self.F = F
        self.h = hooks or Hooks()
        self.max_depth = max_depth
        self.steps = 0
        self.budget = budget
        self.stack = []
        self.opaque_re = opaque
        self.inline_re = inline
        self.fns_seen = set()
        self.behind_all = False
        self._mp = {}
        self._mm = {}
        self.nalloc = 0
        self.typbyval = None
        for ty in F.tys:
            if ty['k'] == 'adt' and ty['path'].endswith('::TypeCacheEntry') and 'vars' in ty:
                self.typbyval = [x[0] for x in ty['vars'][0]['f']].index('typbyval')
        self.htype = {}
        self.wty = None
        self.degraded = 0
        self.visited_blocks = 0

    # ---------- types
    def may_point(self, t, seen=None):
        """can a value of this type hold a pointer it does not own?"""
        if t in self._mp:
            return self._mp[t]
        top = seen is None
        seen = seen or set()
        if t in seen:
            return False
        seen.add(t)
        ty = self.F.tys[t]
        k = ty['k']
        r = False
        if k in ('ref', 'ptr', 'dyn', 'fnptr'):
            r = True
        elif k in ('slice', 'array'):
            r = self.may_point(ty['to'], seen)
        elif k in ('tuple', 'closure'):
            r = any(self.may_point(a, seen) for a in ty['args'])
        elif k == 'adt':
            p = ty['path']
            if 'PhantomData' in p:
                r = False
            elif p.endswith('::Datum') or p.startswith('pgrx::Internal') or p.endswith('datum::Internal') or 'NonNull' in p or p.endswith('::Internal'):
                r = True
            elif re.match(r'^(std|alloc|core)::(vec::Vec|boxed::Box|string::String|collections|rc::Rc|sync::Arc)', p):
                r = any(self.may_point(a, seen) for a in ty['args'])
            elif 'vars' in ty and ty.get('ws'):
                r = any(self.may_point(f[1], seen) for v in ty['vars'] for f in v['f'])
            elif 'vars' in ty and p.startswith(('core::', 'std::option', 'std::result', 'std::cmp', 'std::ops')):
                r = any(self.may_point(f[1], seen) for v in ty['vars'] for f in v['f'])
            else:
                r = ty['nlt'] > 0 or any(self.may_point(a, seen) for a in ty['args'])
        elif k == 'other':
            r = True
        if top:
            self._mp[t] = r
        return r

    def may_mut(self, t, seen=None):
        """does a value of this type carry a capability to write through (a &mut / *mut)?"""
        if t in self._mm:
            return self._mm[t]
        top = seen is None
        seen = seen or set()
        if t in seen:
            return False
        seen.add(t)
        ty = self.F.tys[t]
        k = ty['k']
        r = False
        if k in ('ref', 'ptr'):
            r = ty['m'] or self.may_mut(ty['to'], seen) and k == 'ptr'
        elif k in ('slice', 'array'):
            r = self.may_mut(ty['to'], seen)
        elif k in ('tuple', 'closure'):
            r = any(self.may_mut(a, seen) for a in ty['args'])
        elif k == 'adt':
            p = ty['path']
            if p.endswith('::Datum') or p.endswith('::Internal'):
                r = False
            elif p.endswith('Inner') or 'IterMut' in p or 'Drain' in p or 'RefMut' in p or 'PeekMut' in p:
                r = True
            elif 'NonNull' in p:
                r = False
            elif ty.get('ws') and 'vars' in ty:
                r = any(self.F.tys[f[1]]['k'] != 'ptr' and self.may_mut(f[1], seen) for v in ty['vars'] for f in v['f'])
            else:
                r = any(self.may_mut(a, seen) for a in ty['args'])
        elif k == 'dyn':
            r = False
        if top:
            self._mm[t] = r
        return r

    def place_ty(self, fn, pl):
        if isinstance(pl, int):
            return fn['locals'][pl]
        t = fn['locals'][pl[0]]
        for e in pl[1:]:
            if e == '*':
                ty = self.F.tys[t]
                if 'to' in ty:
                    t = ty['to']
                elif ty['k'] == 'adt' and ty['args']:
                    t = ty['args'][0]
                else:
                    return None
            elif e[0] == 'f':
                t = e[3]
            elif e[0] in ('i', 'ci'):
                ty = self.F.tys[t]
                t = ty.get('to')
                if t is None:
                    return None
        return t

    def op_ty(self, fn, op):
        if op[0] == 'k':
            return op[1]
        return self.place_ty(fn, op[1])

    # ---------- store access
    def load_obj(self, st, o):
        v = st.get(o)
        if v is None:
            if o[0] in ('D', 'P', 'G'):
                v = V(syms=frozenset([(o, ())]))
            elif o[0] == 'KV':
                v = V(var=frozenset([o[1]])) if not o[2] else V(ptr=frozenset([(('KV', o[1], o[2] - 1), ())]))
            else:
                v = TOP
        return v

    def load(self, st, loc):
        o, p = loc
        v = self.load_obj(st, o)
        for k in p:
            v = fieldv(v, k)
        return v

    def targets(self, v):
        """locations a pointer value may point to"""
        t = set(v.ptr)
        for s in v.syms:
            t.add((deref_obj(s), ()))
        return t

    def store_loc(self, st, loc, val, weak, site):
        o, p = loc
        old = self.load_obj(st, o)
        val = self.h.stored(self, loc, val, weak, site, st)
        st[o] = self.upd(old, p, val, weak or ('[]' in p), (o, ()))
        if o[0] in ('D', 'P', 'G'):
            self.h.write(self, loc, val, site, st)

    def upd(self, old, p, val, weak, here):
        if not p:
            return join(old, val) if weak else val
        k = p[0]
        f = dict(old.f) if old.f else {}
        f[k] = self.upd(fieldv(old, k), p[1:], val, weak, here)
        return V(old.syms, old.ptr, f, old.var, None, old.lab)

    def resolve(self, st, fn, fid, pl):
        """place -> list of locations"""
        if isinstance(pl, int):
            return [(('L', fid, pl), ())]
        locs = [(('L', fid, pl[0]), ())]
        var = None
        for e in pl[1:]:
            if e == '*':
                new = set()
                for l in locs:
                    v = self.load(st, l)
                    for t in self.targets(v):
                        new.add(t)
                    if not v.ptr and not v.syms:
                        new.add((('U', v.lab), ()))
                    elif v.f and (0, 0) in v.f:
                        # Box / Unique / NonNull wrappers: look inside
                        x = v.f[(0, 0)]
                        while x.f and (0, 0) in x.f:
                            x = x.f[(0, 0)]
                        for t in self.targets(x):
                            new.add(t)
                locs = list(new)
                var = None
            elif e[0] == 'd':
                var = e[1]
            elif e[0] == 'f':
                locs = [sub(l, (var or 0, e[1])) for l in locs]
                var = None
            elif e[0] in ('i', 'ci', 'ss'):
                if e[0] != 'ss':
                    locs = [sub(l, '[]') for l in locs]
            else:
                locs = [sub(l, '[]') for l in locs]
        return locs

    def read(self, st, fn, fid, pl):
        locs = self.resolve(st, fn, fid, pl)
        r = None
        for l in locs:
            if l[0][0] == 'U':
                v = V(lab=l[0][1])
            else:
                v = self.load(st, l)
            r = v if r is None else join(r, v)
        return r if r is not None else TOP

    def write(self, st, fn, fid, pl, val, site):
        if val.var is None and not isinstance(pl, int) and False:
            pass
        locs = self.resolve(st, fn, fid, pl)
        weak = len(locs) > 1
        self.wty = self.place_ty(fn, pl)
        for l in locs:
            if l[0][0] == 'U':
                self.h.write_unknown(self, l[0][1], site, st)
                continue
            self.store_loc(st, l, val, weak, site)

    def operand(self, st, fn, fid, op):
        if op[0] == 'k':
            return self.const(op)
        return self.read(st, fn, fid, op[1])

    def const(self, op):
        d = op[2]
        t = self.F.tys[op[1]]
        if 'fn' in d:
            return V(c=('fn', d['fn']))
        if 'fnptr' in d:
            return V(c=('fn', d['fnptr']))
        if 'var' in d:
            v = V(var=frozenset([d['var']]))
            for i in range(d['refs']):
                v = V(ptr=frozenset([(('KV', d['var'], i), ())]))
            return v
        if 'bits' in d:
            if t['k'] == 'adt' and t.get('ak') == 'enum':
                for i, vv in enumerate(t.get('vars', ())):
                    if vv['d'] == d['bits'] and all(not x['f'] for x in t['vars']):
                        return V(var=frozenset([i]))
                return V(c=('bits', d['bits']))
            return V(c=int(d['bits']))
        if 'str' in d:
            return V(c=('str', d['str']))
        if 'static' in d:
            return V(ptr=frozenset([(('G', d['static']), ())]))
        if 'ptrs' in d:
            return V(c=('strs', tuple(d['ptrs'])))
        if 'zst' in d:
            return V(c=('zst', t['s']))
        return TOP

    # ---------- rvalues
    def deep_labels(self, st, v, seen=None, depth_=0):
        """everything (symbolic) reachable from / used in computing v"""
        out = set(v.lab) | set(v.syms)
        seen = seen if seen is not None else set()
        for x in (v.f or {}).values():
            out |= self.deep_labels(st, x, seen, depth_)
        for t in v.ptr:
            if t in seen:
                continue
            seen.add(t)
            if t[0][0] in ('D', 'P', 'G'):
                out.add(t)
            if depth_ < 6 and t[0] in st or t[0][0] in ('D', 'P'):
                out |= self.deep_labels(st, self.load(st, t), seen, depth_ + 1)
        return out

    def reach(self, st, v, seen=None, d=0):
        """all locations reachable through pointers from v"""
        seen = seen if seen is not None else set()
        for x in (v.f or {}).values():
            self.reach(st, x, seen, d)
        for t in self.targets(v):
            if t in seen or d > 8:
                continue
            seen.add(t)
            if t[0] in st:
                self.reach(st, self.load(st, t), seen, d + 1)
        return seen

    def rvalue(self, st, fn, fid, rv, site):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fn, fid, rv[1])
        if k in ('ref', 'raw'):
            if isinstance(rv[2], list) and rv[2][1:] == ['*']:
                v = self.operand(st, fn, fid, ['c', rv[2][0]])
                if isinstance(v.c, tuple) and v.c[0] in ('str', 'empty') and not v.ptr:
                    return v                   # the same string or slice
            return V(ptr=frozenset(self.resolve(st, fn, fid, rv[2])))
        if k == 'cast':
            v = self.operand(st, fn, fid, rv[2])
            kind = rv[1]
            if kind == 'IntToInt' or kind in ('FloatToInt', 'IntToFloat', 'FloatToFloat'):
                c = self.h.cast(self, fn, rv, v, site, st)
                if isinstance(c, V):
                    return c
                if kind == 'IntToInt':
                    if v.var is not None and len(v.var) == 1:
                        t = self.F.tys[rv[3]]
                        return V(c=int(t['vars'][next(iter(v.var))]['d']) if 'vars' in t else None)
                    if isinstance(v.c, int):
                        return V(c=v.c, lab=v.lab | v.syms)
                return V(lab=v.lab | v.syms)
            if kind in ('ReifyFnPointer', 'ClosureFnPointer') and len(rv) > 5:
                return V(c=('fn', rv[5]))
            if kind == 'ReifyFnPointer' and len(rv) > 5:
                return V(c=('fn', rv[5]))
            if kind == 'PointerCoercion':
                pass
            return v
        if k == 'bin':
            a = self.operand(st, fn, fid, rv[2])
            b = self.operand(st, fn, fid, rv[3])
            op = rv[1]
            self.brv = (fn, rv)
            c = self.h.binop(self, op, a, b, site, st)
            if isinstance(c, V):
                return c
            if c is None and isinstance(a.c, int) and isinstance(b.c, int):
                c = {'Eq': lambda: int(a.c == b.c), 'Ne': lambda: int(a.c != b.c),
                     'Add': lambda: a.c + b.c, 'BitAnd': lambda: a.c & b.c, 'BitOr': lambda: a.c | b.c}.get(op, lambda: None)()
            lab = a.lab | b.lab | a.syms | b.syms
            for x in (a, b):
                if x.f:
                    lab = lab | frozenset(self.deep_labels(st, x))
            if op == 'Offset':
                return V(ptr=frozenset(sub(t, '[]') for t in self.targets(a)), lab=lab)
            if op.endswith('WithOverflow'):
                return V(f={(0, 0): V(lab=lab), (0, 1): V(lab=lab)})
            return V(c=c, lab=lab)
        if k == 'un':
            a = self.operand(st, fn, fid, rv[2])
            c = self.h.unary(self, rv[1], a, st)
            if c is not None:
                return c
            if rv[1] == 'Not' and isinstance(a.c, int) and a.c in (0, 1):
                return V(c=1 - a.c, lab=a.lab)
            if rv[1] == 'Not' and isinstance(a.c, tuple) and a.c[0] in ('isempty', 'notempty'):
                return V(c=({'isempty': 'notempty', 'notempty': 'isempty'}[a.c[0]],) + a.c[1:], lab=a.lab)
            return V(lab=a.lab | a.syms)
        if k == 'discr':
            v = self.read(st, fn, fid, rv[1])
            t = self.place_ty(fn, rv[1])
            var = v.var
            if var is None:
                var = self.h.discr(self, v, t, st)
            if var is not None and len(var) == 1 and t is not None:
                ty = self.F.tys[t]
                i = next(iter(var))
                if 'vars' in ty and i < len(ty['vars']):
                    return V(c=int(ty['vars'][i]['d']), lab=v.lab | v.syms)
            return V(lab=v.lab | v.syms)
        if k == 'agg':
            kind = rv[1]
            vals = [self.operand(st, fn, fid, o) for o in rv[2]]
            if kind[0] == 'adt':
                var = kind[2]
                if kind[5] >= 0:
                    return V(f={(0, kind[5]): vals[0]})
                ty = self.F.tys[kind[1]]
                enum = ty.get('ak') == 'enum'
                self.h.aggregate(self, kind, vals, site, st)
                return V(f={(var if enum else 0, i): x for i, x in enumerate(vals)} or None,
                         var=frozenset([var]) if enum else None)
            if kind[0] == 'closure':
                return V(f={(0, i): x for i, x in enumerate(vals)} or None, c=('closure', kind[2]))
            if kind[0] == 'tuple':
                return V(f={(0, i): x for i, x in enumerate(vals)} or None)
            if kind[0] == 'rawptr':
                return vals[0]
            self.h.array(self, vals, st)
            r = None
            for x in vals:
                r = x if r is None else join(r, x)
            return V(f={'[]': r}) if r is not None else TOP
        if k == 'rep':
            return V(f={'[]': self.operand(st, fn, fid, rv[1])})
        if k == 'tls':
            return V(ptr=frozenset([(('G', rv[1]), ())]))
        return TOP

    # ---------- functions
    def call(self, st, fnrec, args, site_key):
        """inline a function; returns (state or None, return value)"""
        if len(self.stack) > self.max_depth:
            raise RecursionError
        fid = site_key
        self.fns_seen.add(fnrec['id'])
        st = dict(st)
        for i, a in enumerate(args):
            st[('L', fid, i + 1)] = a
        self.stack.append((fnrec, site_key))
        try:
            return self._run(st, fnrec, fid)
        finally:
            self.stack.pop()

    def _run(self, st0, fn, fid):
        blocks = fn['blocks']
        ins = {0: st0}
        work = [0]
        visits = {}
        ret = None
        # reverse-postorder-ish: process smallest rpo first
        order = fn.get('_rpo')
        if order is None:
            order = fn['_rpo'] = rpo(blocks)
        while work:
            work.sort(key=lambda b: order.get(b, 1 << 30), reverse=True)
            b = work.pop()
            visits[b] = visits.get(b, 0) + 1
            self.steps += 1
            if visits[b] > 40 or self.steps > self.budget:
                raise Budget('%s bb%d visits %d steps %d' % (fn['name'], b, visits[b], self.steps))
            st = dict(ins[b])
            blk = blocks[b]
            dref = {}
            for s in blk['s']:
                site = (fn, b, s[-1])
                if s[0] == '=':
                    v = self.rvalue(st, fn, fid, s[2], site)
                    if s[2][0] == 'discr' and isinstance(s[1], int):
                        dref[s[1]] = s[2][1]
                    self.write(st, fn, fid, s[1], v, site)
                elif s[0] == 'sd':
                    for l in self.resolve(st, fn, fid, s[1]):
                        old = self.load(st, l)
                        self.store_loc(st, l, old.with_(var=frozenset([s[2]])), False, site)
                elif s[0] == 'cno':
                    src = self.operand(st, fn, fid, s[1])
                    dst = self.operand(st, fn, fid, s[2])
                    for t in self.targets(dst):
                        for q in self.targets(src):
                            self.store_loc(st, t, self.load(st, q), True, site)
                elif s[0] == 'dead':
                    st.pop(('L', fid, s[1]), None)
            self.visited_blocks += 1
            for tb, tst in self.terminator(st, fn, fid, b, blk['t'], dref):
                if tb == 'ret':
                    rv = tst.get(('L', fid, 0), TOP)
                    if ret is None:
                        ret = (tst, rv)
                    else:
                        ret = (joinst(self, ret[0], tst), join(ret[1], rv))
                    continue
                if tb in ins:
                    j = joinst(self, ins[tb], tst)
                    if j == ins[tb]:
                        continue
                    if visits.get(tb, 0) > 25:
                        j = widen(j, fid)
                    ins[tb] = j
                else:
                    ins[tb] = tst
                if tb not in work:
                    work.append(tb)
        if ret is None:
            return None, None
        st, rv = ret
        # drop this frame
        for o in [o for o in st if o[0] == 'L' and o[1] == fid]:
            del st[o]
        return st, rv

    def terminator(self, st, fn, fid, b, t, dref):
        k = t[0]
        site = (fn, b, t[-1])
        if k == 'goto':
            return [(t[1], st)]
        if k == 'ret':
            return [('ret', st)]
        if k in ('resume', 'term', 'unreach', 'other'):
            return []
        if k == 'drop':
            self.h.drop(self, self.resolve(st, fn, fid, t[1]), t, site, st)
            return [(t[2], st)]
        if k == 'assert':
            if self.h.asserted(self, self.operand(st, fn, fid, t[1]), t, site, st) == 'diverge':
                return []
            return [(t[4], st)]
        if k == 'sw':
            v = self.operand(st, fn, fid, t[1])
            dpl = None
            if t[1][0] in ('c', 'm') and isinstance(t[1][1], int):
                dpl = dref.get(t[1][1])
            if isinstance(v.c, int):
                for val, tb in t[2]:
                    if int(val) == v.c:
                        return [(tb, st)]
                return [(t[3], st)]
            c = self.h.switch(self, v, t, site, st)
            if c is None and self.typbyval is not None and v.syms and all(x[0] == ('G', 'typcache') and x[1] == ((0, self.typbyval),) for x in v.syms):
                c = 0    # a Datum is treated as a pointer: the pass-by-value case holds no reference
            if c is not None:
                for val, tb in t[2]:
                    if int(val) == c:
                        return [(tb, st)]
                return [(t[3], st)]
            out = []
            if dpl is not None:
                cur = self.read(st, fn, fid, dpl)
                ty = self.F.tys[self.place_ty(fn, dpl)] if self.place_ty(fn, dpl) is not None else {}
                dmap = {vv['d']: i for i, vv in enumerate(ty.get('vars', ()))}
                taken = set()
                for val, tb in t[2]:
                    i = dmap.get(val)
                    if i is not None:
                        taken.add(i)
                    if cur.var is not None and i is not None and i not in cur.var:
                        continue
                    s2 = dict(st)
                    if i is not None:
                        self.refine(s2, fn, fid, dpl, frozenset([i]))
                    out.append((tb, s2))
                rest = frozenset(range(len(ty.get('vars', ())))) - taken
                if dmap:
                    if cur.var is not None:
                        rest = rest & cur.var
                    if rest:
                        s2 = dict(st)
                        self.refine(s2, fn, fid, dpl, rest)
                        out.append((t[3], s2))
                else:
                    out.append((t[3], st))
                return out
            seen = set()
            for val, tb in t[2]:
                if tb not in seen:
                    s2 = dict(st)
                    self.h.branch(self, v, int(val), s2)
                    out.append((tb, s2))
                    seen.add(tb)
            if t[3] not in seen:
                s2 = dict(st)
                if len(t[2]) == 1:
                    self.h.branch(self, v, None if int(t[2][0][0]) else 1, s2)
                out.append((t[3], s2))
            return out
        if k == 'call':
            return self.do_call(st, fn, fid, b, t, site)
        raise ValueError(k)

    def refine(self, st, fn, fid, pl, var):
        locs = self.resolve(st, fn, fid, pl)
        if len(locs) != 1 or locs[0][0][0] == 'U':
            return
        l = locs[0]
        v = self.load(st, l)
        o, p = l
        st[o] = self.upd(self.load_obj(st, o), p, v.with_(var=var), False, None)

    def do_call(self, st, fn, fid, b, t, site):
        callee, argops, dest, target = t[1], t[2], t[3], t[4]
        args = [self.operand(st, fn, fid, a) for a in argops]
        atys = [self.op_ty(fn, a) for a in argops]
        rec = None
        if isinstance(callee, int):
            rec = self.F.fns[callee]
        elif isinstance(callee, dict):
            v = self.operand(st, fn, fid, callee['ptr'])
            if isinstance(v.c, tuple) and v.c[0] == 'fn':
                rec = self.F.fns[v.c[1]]
        path = rec['path'] if rec else (callee if isinstance(callee, str) else '<fn pointer>')
        dty = self.place_ty(fn, dest)
        r = self.h.call(self, rec, path, args, atys, dty, site, st, fid)
        if r is not None:
            if r == 'diverge':
                return []
            st2, rv = r if isinstance(r, tuple) else (st, r)
            if target < 0:
                return []
            st2 = dict(st2)
            self.write(st2, fn, fid, dest, rv, site)
            return [(target, st2)]
        m = self.model(rec, path, args, atys, dty, site, st)
        if m is not None:
            st2, rv = m
            if target < 0:
                return []
            st2 = dict(st2)
            self.write(st2, fn, fid, dest, rv, site)
            return [(target, st2)]
        if rec is not None and 'blocks' in rec and self.should_inline(rec, path):
            cargs = args
            if rec.get('closure_of') and fn['kind'] not in ('ClosureOnce', 'FnPtr') and len(args) == 2 and self.F.tys[atys[1]]['k'] == 'tuple':
                n = len(self.F.tys[atys[1]]['args'])
                cargs = [args[0]] + [fieldv(args[1], (0, i)) for i in range(n)]
            if rec.get('closure_of') and fn['kind'] in ('FnPtr',) and len(args) == 2 and len(args) != rec['argc']:
                n = len(self.F.tys[atys[1]]['args']) if self.F.tys[atys[1]]['k'] == 'tuple' else 0
                cargs = [args[0]] + [fieldv(args[1], (0, i)) for i in range(n)]
            if len(cargs) == rec['argc'] and sum(1 for x, _ in self.stack if x['id'] == rec['id']) < 2 and len(self.stack) < self.max_depth:
                st2, rv = self.call(st, rec, cargs, (fid, b, rec['id']).__hash__())
                if st2 is None or target < 0:
                    return []
                rr = self.h.ret(self, rec, path, cargs, rv, site, st2)
                if rr is not None:
                    rv = rr
                self.write(st2, fn, fid, dest, rv, site)
                return [(target, st2)]
        if target < 0:
            return []
        st2 = dict(st)
        rv = self.opaque(st2, rec, path, args, atys, dty, site)
        self.write(st2, fn, fid, dest, rv, site)
        return [(target, st2)]

    def should_inline(self, rec, path):
        if self.opaque_re and self.opaque_re.search(path):
            return False
        if self.inline_re and self.inline_re.search(path):
            return True
        if OPAQUE.search(path):
            return False
        if rec['ws']:
            return True
        if rec['crate'] == 'pgrx':
            return bool(re.search(r'Internal|closure', path)) and 'blocks' in rec
        if rec['kind'] in ('ClosureOnce', 'FnPtr', 'Clone'):
            return True
        return bool(INLINE_STD.search(path)) and len(rec['blocks']) < 60

    # generic effect of a function whose body is not followed
    def opaque(self, st, rec, path, args, atys, dty, site):
        lab = set()
        for a in args:
            lab |= self.deep_labels(st, a)
        lab = self.h.opaque_labels(path, frozenset(lab))
        # writes through mutable pointers
        for a, at in zip(args, atys):
            if at is None or not self.may_mut(at):
                continue
            ty = self.F.tys[at]
            if ty['k'] in ('ref', 'ptr') and ty['m']:
                tg = self.targets(a)
                inner = ty['to']
            else:
                tg = self.reach(st, a)
                inner = None
            newptr = set()
            if (inner is None or self.may_point(inner)) and not NOFLOW.search(path):
                for x, xt in zip(args, atys):
                    if x is not a:
                        newptr |= self.typed_targets(x, xt)
            nv = V(ptr=frozenset(newptr), lab=lab)
            for l in tg:
                if l[0][0] == 'U':
                    self.h.write_unknown(self, l[0][1], site, st)
                    continue
                self.store_loc(st, sub(l, '[]'), nv, True, site)
                if l[0] in st:
                    # discriminants of what was written are not known any more
                    pass
                self.forget(st, l)
        ptr = set()
        if dty is not None and self.may_point(dty):
            for a, at in zip(args, atys):
                if not NOFLOW.search(path):
                    ptr |= self.typed_targets(a, at)
                    if self.behind_all or self.may_mut(dty):
                        ptr |= self.behind(st, a, at)
        return V(ptr=frozenset((sub(l, '[]') if l[0][0] != 'G' else l) for l in ptr), lab=lab)

    def targets_deep(self, v):
        s = set()
        if v.f:
            for x in v.f.values():
                s |= self.targets_deep(x)
        for t in v.ptr:
            s.add(t)
        for x in v.syms:
            s.add((deref_obj(x), ()))
        return s

    def typed_targets(self, v, t, st=None, seen=0):
        """locations a value of type t points to (not owned storage), by walking the type"""
        if t is None:
            return self.targets_deep(v)
        if not self.may_point(t):
            return set()
        ty = self.F.tys[t]
        k = ty['k']
        if k in ('ref', 'ptr', 'fnptr', 'dyn'):
            s = self.targets(v)
            for x in (v.f or {}).values():
                s |= self.targets_deep(x)
            return s
        if seen > 6:
            return self.targets_deep(v)
        if k in ('tuple', 'closure'):
            s = set()
            for i, a in enumerate(ty['args']):
                s |= self.typed_targets(fieldv(v, (0, i)), a, st, seen + 1)
            return s | set(v.ptr)
        if k == 'adt' and 'vars' in ty and (ty.get('ws') or ty['path'].startswith(('core::', 'std::option', 'std::result', 'std::cmp', 'std::ops'))):
            s = set(v.ptr)
            enum = ty.get('ak') == 'enum'
            for vi, vv in enumerate(ty['vars']):
                if enum and v.var is not None and vi not in v.var:
                    continue
                for i, f in enumerate(vv['f']):
                    s |= self.typed_targets(fieldv(v, (vi if enum else 0, i)), f[1], st, seen + 1)
            return s
        return self.targets_deep(v)

    def behind(self, st, v, t, d=0):
        """what the things a reference of type t points to hold themselves (an iterator behind &mut, say)"""
        out = set()
        if t is None or d > 3:
            return out
        ty = self.F.tys[t]
        if ty['k'] in ('ref', 'ptr') and self.may_point(ty['to']) and self.F.tys[ty['to']]['k'] == 'adt' and not self.F.tys[ty['to']].get('ws'):
            for l in self.targets(v):
                if l[0][0] == 'L' and l[0] in st:
                    x = self.load(st, l)
                    out |= self.typed_targets(x, ty['to'])
                    out |= self.behind(st, x, ty['to'], d + 1)
        return out

    def targets_deep_syms(self, v):
        """explicit pointers only"""
        s = set(v.ptr)
        for x in (v.f or {}).values():
            s |= self.targets_deep_syms(x)
        return s

    def forget(self, st, loc):
        o, p = loc
        v = self.load(st, loc)

        def strip(x):
            return V(x.syms, x.ptr, {k: strip(y) for k, y in x.f.items()} if x.f else None, None, None, x.lab)
        st[o] = self.upd(self.load_obj(st, o), p, strip(v), False, None)

    def pg_model(self, fn, args, atys, dty, site, st):
        if fn == 'lookup_type_cache':
            return st, V(ptr=frozenset([(('G', 'typcache'), ())]))
        if fn == 'AggCheckCallContext':
            st = dict(st)
            for l in self.targets(args[1]):
                self.store_loc(st, l, V(ptr=frozenset([(('G', 'aggctx'), ())])), False, site)
            return st, V(c=1)
        if fn == 'MemoryContextSwitchTo':
            st = dict(st)
            old = self.load(st, (CMC, ()))
            st[CMC] = args[0]
            return st, old
        if fn in PG_FRESH:
            o = ('H', (site[0]['name'], site[1], len(self.stack)))
            lab = set()
            for a, at in zip(args, atys):
                lab |= self.deep_labels(st, a)
            self.h.pgalloc(self, fn, o, site, st)
            return st, V(ptr=frozenset([(o, ())]), lab=frozenset(lab))
        return None

    # small exact models
    def model(self, rec, path, args, atys, dty, site, st):
        name = path
        if name == 'pgrx::Internal::new' or name.endswith('::Internal::new'):
            o = ('H', (site[0]['name'], site[1], len(self.stack)))
            self.htype[o] = atys[0]
            st = dict(st)
            st[o] = args[0] if o not in st else join(st[o], args[0])
            self.h.alloc(self, o, atys[0], site, st)
            return st, V(f={(0, 0): V(f={(1, 0): V(ptr=frozenset([(o, ())]))}, var=frozenset([1]))})
        m = re.match(r'^(?:pgrx::)?pg_sys::(?:[a-z0-9_]+::)*(\w+)$', name) or re.match(r'^pgrx_pg_sys::(?:\w+::)*(\w+)$', name)
        if m:
            r = self.pg_model(m.group(1), args, atys, dty, site, st)
            if r is not None:
                return r
        if re.search(r'^(std|alloc)::boxed::Box::<.*>::new_uninit(_in|_slice)?$', name):
            o = ('H', (site[0]['name'], site[1], len(self.stack)))
            st = dict(st)
            st[o] = TOP
            return st, V(ptr=frozenset([(o, ())]))
        if name.endswith('Datum::cast_mut_ptr') or name.endswith('Datum::value') or name == 'std::convert::Into::into' and False:
            return st, args[0]
        if re.search(r"^<?pgrx.*Datum as std::convert::From|Datum as std::convert::From<.*\*(mut|const)", name) and len(args) == 1:
            return st, args[0]
        if re.search(r'<impl \*(const|mut) T>::as_(ref|mut)$', name):
            return st, V(f={(1, 0): args[0]}, var=frozenset([0, 1]))
        if re.search(r'<impl \*(const|mut) T>::is_null$', name):
            a = args[0]
            if a.ptr or (a.syms and all(x[0][0] == 'P' for x in a.syms)):
                return st, V(c=0)
        if name in ('std::intrinsics::discriminant_value', 'core::intrinsics::discriminant_value'):
            v = None
            for l in self.targets(args[0]):
                x = self.load(st, l)
                v = x if v is None else join(v, x)
            t = atys[0]
            ty = self.F.tys[self.F.tys[t]['to']]
            if v is not None and v.var is not None and len(v.var) == 1 and 'vars' in ty:
                return st, V(c=int(ty['vars'][next(iter(v.var))]['d']))
            return st, V(lab=v.lab | v.syms if v else EMPTY)
        m = re.match(r'^(?:std|core)::(?:mem::(take|replace|swap)|ptr::(read|write|swap|replace))(::<.*)?$', name)
        if m:
            kind = m.group(1) or m.group(2)
            tg = list(self.targets(args[0]))
            old = None
            for l in tg:
                x = V(lab=l[0][1]) if l[0][0] == 'U' else self.load(st, l)
                old = x if old is None else join(old, x)
            old = old or TOP
            if kind == 'read':
                return st, old
            st = dict(st)
            self.wty = self.F.tys[atys[0]].get('to') if atys[0] is not None else None
            if kind == 'swap':
                tg2 = list(self.targets(args[1]))
                other = None
                for l in tg2:
                    x = self.load(st, l)
                    other = x if other is None else join(other, x)
                for l in tg:
                    self.store_loc(st, l, other or TOP, len(tg) > 1, site)
                for l in tg2:
                    self.store_loc(st, l, old, len(tg2) > 1, site)
                return st, TOP
            new = args[1] if kind in ('replace', 'write') else V(c=('default',))
            if kind == 'take' and dty is not None:
                ty = self.F.tys[dty]
                if ty['k'] == 'adt' and ty['path'] in ('std::option::Option', 'core::option::Option'):
                    new = V(var=frozenset([0]))
            for l in tg:
                if l[0][0] == 'U':
                    self.h.write_unknown(self, l[0][1], site, st)
                    continue
                self.store_loc(st, l, new, len(tg) > 1, site)
            return st, old
        return None


def rpo(blocks):
    seen, post = set(), []
    stack = [(0, iter(succs(blocks[0]['t'])))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succs(blocks[s]['t']))))
                break
        else:
            post.append(b)
            stack.pop()
    n = len(post)
    return {b: n - i for i, b in enumerate(post)}


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'sw':
        return [x[1] for x in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'assert':
        return [t[4]]
    if k == 'call':
        return [t[4]] if t[4] >= 0 else []
    return []


def joinst(I, a, b):
    if a is b:
        return a
    out = {}
    for o in a.keys() | b.keys():
        x, y = a.get(o), b.get(o)
        if o == 'must':
            out[o] = (x or EMPTY) & (y or EMPTY) if (x is not None and y is not None) else EMPTY
            continue
        if x is None or y is None:
            z = x if y is None else y
            if o[0] in ('D', 'P', 'G'):
                z = join(z, V(syms=frozenset([(o, ())])))
            out[o] = z
        else:
            out[o] = x if x is y else join(x, y)
    return out


def widen(st, fid):
    return {o: (v if o == 'must' else (collapse(v).with_(var=v.var) if depth_of(v) > 3 else v)) for o, v in st.items()}


def depth_of(v):
    return 1 + max((depth_of(x) for x in v.f.values()), default=0) if v.f else 0


class Hooks:
    def write(self, I, loc, val, site, st):
        pass

    def stored(self, I, loc, val, weak, site, st):
        return val

    def branch(self, I, v, val, st):
        """st is the state on the branch where the (boolean) v is val (1 for true, 0 for false, None if unknown)"""

    def write_unknown(self, I, labels, site, st):
        pass

    def call(self, I, rec, path, args, atys, dty, site, st, fid):
        return None

    def ret(self, I, rec, path, args, rv, site, st):
        return None

    def binop(self, I, op, a, b, site, st):
        return None

    def cast(self, I, fn, rv, v, site, st):
        pass

    def asserted(self, I, v, t, site, st):
        pass

    def unary(self, I, op, v, st):
        pass

    def opaque_labels(self, path, lab):
        return lab

    def alloc(self, I, obj, ty, site, st):
        pass

    def pgalloc(self, I, fn, obj, site, st):
        pass

    def discr(self, I, v, t, st):
        return None

    def switch(self, I, v, t, site, st):
        return None

    def aggregate(self, I, kind, vals, site, st):
        pass

    def array(self, I, vals, st):
        pass

    def drop(self, I, locs, t, site, st):
        pass
