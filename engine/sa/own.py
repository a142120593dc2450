"""Typed ownership questions over abstract values."""
import re
from .absint import V, fieldv, root, locstr

OWN = re.compile(r'^(std|alloc)::(vec::Vec|boxed::Box|string::String|collections|rc::Rc|sync::Arc)')


def internal_param(i, variant=None):
    """an Internal argument: a nullable pointer to the symbolic object *($i...)"""
    v = V(syms=frozenset([(('P', str(i)), ())]))
    if variant is None:
        return v
    return V(v.syms, v.ptr, {(0, 0): V(syms=frozenset([(('P', str(i)), ((0, 0),))]), var=frozenset([variant]))}, None, None, v.lab)


def param(i):
    return V(syms=frozenset([(('P', str(i)), ())]))


def is_internal(F, t):
    ty = F.tys[t]
    return ty['k'] == 'adt' and ty['path'].endswith('Internal')


def opt_internal(F, t):
    ty = F.tys[t]
    return ty['k'] == 'adt' and ty['path'].endswith('option::Option') and ty['args'] and is_internal(F, ty['args'][0])


def retained(I, st, rv, t, bad_root, skip=()):
    """typed pointers (or owned storage) of bad_root's memory reachable from the value rv of type t"""
    out, seen = [], set()
    F = I.F

    def walk(v, t, path, d):
        if d > 14:
            return
        ty = F.tys[t]
        k = ty['k']
        if any(s in ty['s'] for s in skip):
            return
        if k in ('ref', 'ptr') or (k == 'adt' and ty['path'].endswith(('::Datum', 'ptr::NonNull'))):
            for l in I.targets(v) | (I.targets_deep(v) if k == 'adt' else set()):
                if root(l) == bad_root:
                    out.append((path, locstr(l), ty['s']))
                    continue
                if l in seen:
                    continue
                seen.add(l)
                o = l[0]
                if o in st or o[0] == 'D':
                    wt = I.htype.get(o)
                    if wt is None and k != 'adt':
                        wt = ty['to']
                    if wt is not None:
                        walk(I.load(st, l), wt, path + '*', d + 1)
            return
        if k == 'adt' and OWN.match(ty['path']):
            for s in v.syms:
                if root(s) == bad_root:
                    out.append((path, 'storage of ' + locstr(s), ty['s']))
            if I.may_point(t):
                for a in ty['args']:
                    walk(V(ptr=frozenset(I.targets_deep(v)), syms=frozenset()), a, path + '[]', d + 1) if I.F.tys[a]['k'] != 'adt' or 'vars' not in I.F.tys[a] else walk_elem(v, a, path + '[]', d + 1)
            return
        if k in ('tuple', 'closure'):
            for i, a in enumerate(ty['args']):
                walk(fieldv(v, (0, i)), a, path + '.%d' % i, d + 1)
            return
        if k == 'adt' and 'vars' in ty:
            enum = ty.get('ak') == 'enum'
            for vi, vv in enumerate(ty['vars']):
                if enum and v.var is not None and vi not in v.var:
                    continue
                for i, f in enumerate(vv['f']):
                    walk(fieldv(v, (vi if enum else 0, i)), f[1], path + '.' + str(f[0]), d + 1)
            return
        if k == 'adt' and I.may_point(t) and v.ptr:
            for l in v.ptr:
                if root(l) == bad_root:
                    out.append((path, locstr(l), ty['s']))

    def walk_elem(v, a, path, d):
        # elements of an owned container: anything stored through the opaque container API
        e = fieldv(v, '[]') if v.f and '[]' in v.f else V(ptr=v.ptr, syms=frozenset())
        walk(V(e.syms, e.ptr | v.ptr, e.f, None, None, e.lab), a, path, d)

    walk(rv, t, '', 0)
    return out


def heap(I, st, rv, t, objs):
    """all heap objects reachable from rv (type t)"""
    seen = set()
    F = I.F

    def walk(v, d):
        if d > 14:
            return
        for l in I.targets_deep_syms(v):
            if l in seen:
                continue
            seen.add(l)
            objs.add(l[0])
            if l[0] in st:
                walk(st[l[0]], d + 1)
    walk(rv, 0)
    for o in list(st):
        if o[0] == 'D' and root((o, ())) == ('P', '1'):
            walk(st[o], 0)
    return objs
