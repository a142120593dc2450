"""The form in which an aggregate state travels between processes: for every type, the sequence of elements its Serialize implementation writes and
the components each is computed from, and the sequence its Deserialize implementation reads and the components each ends up in."""
import re
from . import layout
from .absint import Interp, Hooks, Budget, V, fieldv

SER = re.compile(r'as serde::ser::Serialize\w*>::serialize_(field|element|key|value|entry)$|as serde::Serializer>::serialize_(\w+)$')
NEXT = re.compile(r'SeqAccess(<.*>)?(>)?::next_element(_seed)?$')
DRIVE = re.compile(r"as serde::Deserializer<'\w+>>::deserialize_(struct|seq|tuple|tuple_struct|newtype_struct)$")
DELEGATE_S = re.compile(r'Serialize( for .*>|>)::serialize$')
DELEGATE_D = re.compile(r"Deserialize<'\w+>( for .*>|>)::deserialize$")
WRAP = re.compile(r'^(struct|tuple|seq|map|tuple_struct|struct_variant|tuple_variant)$')


class Ser(Hooks):
    def __init__(s):
        s.items = {}
        s.comps = {}
        s.off = False

    def split(s, I, st, key, t, v):
        """a tuple is written component by component"""
        t = target(I.F, t)
        if I.F.tys[t]['k'] != 'tuple':
            return
        vs = [I.load(st, l) for l in I.targets(v)] or [v]
        s.comps[key] = [set().union(*(I.deep_labels(st, fieldv(x, (0, k))) for x in vs)) for k in range(len(I.F.tys[t]['args']))]

    def call(s, I, rec, path, args, atys, dty, site, st, fid):
        if path.endswith('::is_human_readable'):    # the state format is binary
            return V(c=0)
        m = SER.search(path)
        if DELEGATE_S.search(path) and rec is not None and args:
            key = (site[0]['id'], site[1], len(I.stack))
            t = atys[0]
            while I.F.tys[t]['k'] == 'ref':
                t = I.F.tys[t]['to']
            s.items[key] = (t, I.deep_labels(st, args[0]), 'other', site)
            s.split(I, st, key, t, args[0])
            return V()
        if not m or rec is None:
            return None
        if m.group(2) and WRAP.match(m.group(2)):
            return V(var=None)
        key = (site[0]['id'], site[1], len(I.stack))
        labs = set()
        for a, t in zip(args[1:], atys[1:]):
            if t is not None and I.F.tstr(t) == "&'static str":
                continue
            labs |= I.deep_labels(st, a)
        T = rec['targs'][-1] if (m.group(1) or m.group(2) == 'newtype_struct') and rec['targs'] else None
        old = s.items.get(key)
        if T is not None and len(args) > 1:
            s.split(I, st, key, T, args[-1])
        s.items[key] = (T, labs | (old[1] if old else set()), m.group(1) or m.group(2), site)
        return V()


class De(Hooks):
    def __init__(s, visit):
        s.items, s.visit = {}, visit

    def call(s, I, rec, path, args, atys, dty, site, st, fid):
        if path.endswith('::is_human_readable'):    # the state format is binary
            return V(c=0)
        if DRIVE.search(path) and atys and atys[-1] in s.visit:
            v = s.visit[atys[-1]].get('visit_newtype_struct' if path.endswith('newtype_struct') else 'visit_seq')
            if v is None:
                return None
            return I.call(st, v, [args[-1]] + [V() for _ in range(v['argc'] - 1)], hash((fid, site[1], v['id'])))
        if path.endswith('lookup_type_cache'):    # the entry names the type it was looked up for
            o = ('G', 'type cache entry %d.%d' % (site[0]['id'], site[1]))
            st2 = dict(st)
            fs = I.F.tys[target(I.F, dty)]['vars'][0]['f']
            st2[o] = V(f={(0, k): V(lab=args[0].lab | args[0].syms) for k, f in enumerate(fs) if f[0] in ('type_id', 'typcollation')})
            return st2, V(ptr=frozenset([(o, ())]))
        if rec is None:
            return None
        t = rec['targs'][-1] if NEXT.search(path) else None
        if t is None and DELEGATE_D.search(path):
            t = rec['locals'][0] if 'blocks' in rec else dty
            t = I.F.tys[t]['args'][0] if I.F.tys[t].get('args') else None
        if t is None:
            return None
        key = (site[0]['id'], site[1], len(I.stack))
        o = ('X', 'element %d.%d' % key[:2])
        s.items[key] = (t, o, site)
        tt = I.F.tys[t]
        if tt['k'] != 'tuple' or not tt['args']:
            return V(lab=frozenset([(o, ())]))
        # a tuple arrives as its components; those that are optional are looked at as present
        f = {}
        for k, x in enumerate(tt['args']):
            v = V(lab=frozenset([(o, ((0, k),))]))
            xt = I.F.tys[x]
            if xt['k'] == 'adt' and xt['path'].endswith('option::Option'):
                v = V(f={(1, 0): v}, var=frozenset([1]))
            f[(0, k)] = v
        v = V(f=f)
        if NEXT.search(path):
            v = V(f={(1, 0): v})
        return V(f={(0, 0): v}, var=frozenset([0]))


def target(F, t):
    while F.tys[t]['k'] in ('ref', 'ptr'):
        t = F.tys[t]['to']
    return t


def order(F, fs):
    """blocks of a function in reverse post order"""
    return {b: i for i, b in enumerate(layout.rpo(fs['blocks']))}


def serialized(F, f):
    """[(type id or kind, labels)] written by the Serialize instance f, or None"""
    h = Ser()
    I = Interp(F, h)
    try:
        st, rv = I.call({}, f, [V(ptr=frozenset([(('P', '1'), ())])), V()], ('top',))
    except Budget:
        return None
    rp = order(F, f)
    alt = {}    # a serializer is used up by one call: several are alternatives
    for k, v in list(h.items.items()):
        if v[2] == 'other':
            j = alt.setdefault(v[0], k)
            if j != k:
                h.items[j] = (v[0], h.items[j][1] | v[1]) + v[2:]
                del h.items[k]
    return [h.items[k][:3] + (h.comps.get(k),) for k in sorted(h.items, key=lambda k: (k[2], rp.get(k[1], 9999)))]


def deserialized(F, f, visit):
    """([type id], result value as read through labels ('X', element)) of the deserialize instance f; visit: visitor type -> visit_seq instance"""
    h = De(visit)
    I = Interp(F, h)
    try:
        st, rv = I.call({}, f, [V() for _ in range(f['argc'])], ('top',))
    except Budget:
        return None
    if not h.items:
        return [], fieldv(rv, (0, 0)), I, st
    rp = order(F, max((h.items[k][2][0] for k in h.items), key=lambda g: bool(re.search(r'visit_(seq|newtype_struct)$', g['path']))))
    ks = sorted(h.items, key=lambda k: (k[2], rp.get(k[1], 9999)))
    return [(h.items[k][0], h.items[k][1]) for k in ks], fieldv(rv, (0, 0)), I, st
