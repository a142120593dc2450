"""What bytes and what names the stored types of the extension are made of, read off the program.

bytes: the declared fields of every type that is FlatSerializable, the order in which its reader (`try_ref`)
       and its writer (`fill_slice`) process them, enum tags, slice length expressions, struct offsets
text : the field and variant names its `Serialize` hands to the RON serializer, in order"""
import re
from .absint import rpo as _rpo, succs

STD = {'ordered_float::OrderedFloat<f64>': 'f64', 'ordered_float::OrderedFloat<f32>': 'f32'}


def rpo(blocks):
    o = _rpo(blocks)
    return sorted(o, key=o.get)


def norm(s):
    """type string without lifetimes"""
    s = re.sub(r"<('[a-z_]\w*|'_)(, ('[a-z_]\w*|'_))*>", '', s)
    s = re.sub(r"('[a-z_]\w*|'_),? ?", '', s)
    return STD.get(s, s)


def self_of(path):
    m = re.match(r"^(?:[\w:]*::)?<impl (?:[\w:]+::)?(?:FlatSerializable|VariableLen)(?:<'\w+>)? for (.*)>::\w+$", path)
    if m:
        return norm(m.group(1))
    m = re.match(r"^<(.*) as flat_serialize::(?:FlatSerializable|VariableLen)<'\w+>>::\w+$", path)
    return norm(m.group(1)) if m else None


class Layout:
    def __init__(self, F):
        self.F = F
        self.fn = {}
        for f in F.fns.values():
            p = f['path']
            if 'FlatSerializable' in p and re.search(r'>::(try_ref|fill_slice|num_bytes)$', p):
                s = self_of(p)
                if s and not f['targs']:
                    self.fn.setdefault(s, {})[p.rsplit('::', 1)[1]] = f
        self.adt = {}
        for i, t in enumerate(F.tys):
            if t.get('k') == 'adt' and t.get('ws'):
                self.adt.setdefault(norm(t['s']), t)

    # -- the sequence of element reads / writes
    def elem(self, f, name, t):
        """type of the element that a try_ref / fill_slice call handles, from the callee's instance"""
        F = self.F
        c = F.fns[t[1]]
        p = c['path']
        s = self_of(p)
        if s is None:
            return None
        var = 'VariableLen' in p
        if var or s.startswith('['):
            el = norm(F.tstr(c['targs'][0])) if c['targs'] else '?'
            if var:
                return ('slice', el)
            # [T; N]: N from the destination type
            ty = F.tstr(c['locals'][0]) if name == 'try_ref' else F.tstr(c['locals'][1])
            m = re.search(r'\[[^\[\];]*; (\d+)\]', ty)
            return ('one', '[%s; %s]' % (el, m.group(1) if m else '?'))
        return ('one', s)

    def seq(self, f, name, start=0, within=None):
        out = []
        order = rpo(f['blocks'])
        for b in order:
            if within is not None and b not in within:
                continue
            t = f['blocks'][b]['t']
            if t[0] == 'call' and isinstance(t[1], int):
                p = self.F.fns[t[1]]['path']
                if re.search(r'(FlatSerializable|VariableLen)<.*>::%s$' % name, p) or re.search(r'(FlatSerializable|VariableLen).*::%s$' % name, p):
                    e = self.elem(f, name, t)
                    if e:
                        out.append((b, e, t))
        return out

    def reach(self, f, b):
        seen = set()
        st = [b]
        while st:
            x = st.pop()
            if x in seen or x is None or x < 0:
                continue
            seen.add(x)
            st.extend(succs(f['blocks'][x]['t']))
        return seen

    # -- expressions
    def expr(self, f, op, fields, d=0, seen=()):
        if op[0] == 'k':
            k = op[2]
            return k.get('bits', '?')
        pl = op[1]
        l = pl if isinstance(pl, int) else pl[0]
        proj = [] if isinstance(pl, int) else [x[1] for x in pl[1:] if isinstance(x, list) and x[0] == 'f']
        if d > 40 or l in seen:
            return '?'
        seen = seen + (l,)
        defs = []
        for b in f['blocks']:
            for s in b['s']:
                if s[0] == '=' and s[1] == l:
                    defs.append(('s', s[2]))
            t = b['t']
            if t[0] == 'call' and t[3] == l:
                defs.append(('c', t))
        some = [x for x in defs if x[0] == 's' and x[1][0] == 'agg' and x[1][1][0] == 'adt' and x[1][1][3] == 'Some' and x[1][2]]
        if some:
            return self.expr(f, some[0][1][2][0], fields, d + 1, seen)
        if len(defs) != 1:
            r = sorted({self.rv(f, x, fields, d, seen, proj) for x in defs})
            return '?' if not r else '|'.join([x for x in r if x != 'agg'] or r)
        return self.rv(f, defs[0], fields, d, seen, proj)

    def rv(self, f, x, fields, d, seen, proj=()):
        if x[0] == 'c':
            t = x[1]
            if isinstance(t[1], int):
                p = self.F.fns[t[1]]['path']
            else:
                p = str(t[1])
            for k, c in enumerate(fields):
                if c is t:
                    return '#%d' % k
            if p.endswith('::clone') or p.endswith('::unwrap') or p.endswith('branch'):
                return self.expr(f, t[2][0], fields, d + 1, seen)
            return '%s(%s)' % (p.split('::')[-1], ', '.join(self.expr(f, a, fields, d + 1, seen) for a in t[2]))
        rv = x[1]
        if rv[0] == 'agg' and proj and proj[0] < len(rv[2]):
            return self.expr(f, rv[2][proj[0]], fields, d + 1, seen)
        if rv[0] == 'use':
            return self.expr(f, rv[1], fields, d + 1, seen)
        if rv[0] == 'cast':
            return self.expr(f, rv[2], fields, d + 1, seen)
        if rv[0] in ('bin', 'cbin'):
            return '(%s %s %s)' % (self.expr(f, rv[2], fields, d + 1, seen), rv[1], self.expr(f, rv[3], fields, d + 1, seen))
        if rv[0] == 'un':
            return '%s(%s)' % (rv[1], self.expr(f, rv[2], fields, d + 1, seen))
        if rv[0] == 'ref':
            return self.expr(f, ['c', rv[2]], fields, d + 1, seen)
        return rv[0]

    # -- shapes
    def shape(self, s):
        """byte shape of FlatSerializable type s (normalised name)"""
        F = self.F
        fns = self.fn.get(s, {})
        t = self.adt.get(s)
        out = dict(type=s, problems=[])
        if t is None or 'try_ref' not in fns or 'fill_slice' not in fns or 'blocks' not in fns['try_ref']:
            return None
        rd, wr = fns['try_ref'], fns['fill_slice']
        if t['ak'] == 'enum':
            reads = self.seq(rd, 'try_ref')
            if reads:
                # tag, then one arm per known tag
                tag = reads[0]
                out['tag'] = tag[1][1]
                sw = None
                for b in rpo(rd['blocks']):
                    x = rd['blocks'][b]['t']
                    if x[0] == 'sw' and len(x[2]) >= 1 and self.from_call(rd, x[1], tag[2]):
                        sw = x
                        break
                arms = {}
                if sw is None:
                    out['problems'].append('no switch over the tag was found in the reader')
                else:
                    # switch, if-chains and per-variant constants all end up as arms
                    todo = {str(v): b for v, b in sw[2]}
                    rs = {v: self.reach(rd, b) for v, b in todo.items()}
                    for v, b in todo.items():
                        own = rs[v]
                        for w, r in rs.items():
                            if w != v:
                                own = own - r
                        q = self.seq(rd, 'try_ref', within=own)
                        calls = [c for _, _, c in q]
                        arms[v] = dict(variant=self.variant(rd, own, t), reads=[self.one(rd, e, c, calls) for _, e, c in q])
                out['arms'] = arms
                # the writer
                w = self.seq(wr, 'fill_slice')
                warm = {}
                for b in rpo(wr['blocks']):
                    x = wr['blocks'][b]['t']
                    if x[0] == 'sw' and any(s2[0] == '=' and s2[2][0] == 'discr' for s2 in wr['blocks'][b]['s']):
                        rs = {int(v): self.reach(wr, bb) for v, bb in x[2]}
                        rest = [i for i in range(len(t['vars'])) if i not in rs]
                        if len(rest) == 1 and x[3] >= 0:
                            rs[rest[0]] = self.reach(wr, x[3])
                        for v, r in rs.items():
                            own = r
                            for w2, r2 in rs.items():
                                if w2 != v:
                                    own = own - r2
                            warm[t['vars'][v]['n']] = (own, [e for _, e, _ in self.seq(wr, 'fill_slice', within=own)])
                        break
                for v, a in arms.items():
                    n = a['variant']
                    if n not in warm:
                        out['problems'].append('the writer has no arm for variant %s' % n)
                        continue
                    own, ws = warm[n]
                    if not ws or ws[0][1] != out['tag']:
                        out['problems'].append('the writer does not start variant %s with its tag' % n)
                        continue
                    if self.consts(wr, own, v) == 0:
                        out['problems'].append('the writer of variant %s never mentions the tag %s that the reader expects' % (n, v))
                    if [e for e in ws[1:]] != [tuple(x[:2]) for x in a['reads']]:
                        out['problems'].append('variant %s is written as %s but read as %s' % (n, fmt(ws[1:]), fmt([x[:2] for x in a['reads']])))
                for a in arms.values():
                    v = next((v for v in t['vars'] if v['n'] == a['variant']), None)
                    names = [x[0] for x in v['f']] if v else []
                    a['fields'] = [[names[i] if i < len(names) else '?'] + list(x) for i, x in enumerate(a['reads'])]
                    del a['reads']
            else:
                out['size'] = t.get('size')
                out['discriminants'] = {v['n']: v['d'] for v in t['vars']}
                for v in t['vars']:
                    if v['f']:
                        out['problems'].append('variant %s has fields but the reader copies the enum as it is in memory' % v['n'])
            return out
        reads = self.seq(rd, 'try_ref')
        decl = t['vars'][0]['f']
        names = [x[0] for x in decl]
        if reads:
            calls = [c for _, _, c in reads]
            rs = [self.one(rd, e, c, calls) for _, e, c in reads]
            ws = [e for _, e, _ in self.seq(wr, 'fill_slice')]
            if [tuple(x[:2]) for x in rs] != ws:
                out['problems'].append('written as %s but read as %s' % (fmt(ws), fmt([x[:2] for x in rs])))
            nf = [n for n in names if not n.startswith('_') or True]
            out['fields'] = [[names[i] if i < len(names) else '?'] + list(x) for i, x in enumerate(rs)]
            if len(rs) < len(nf):
                out['unread'] = names[len(rs):]
        else:
            out['size'] = t.get('size')
            out['offsets'] = [[n, norm(F.tstr(ty)), off] for n, ty, off in decl]
        return out

    def one(self, f, e, c, calls):
        r = [e[0], e[1]]
        if e[0] == 'slice':
            r.append(self.expr(f, c[2][1], calls) if len(c[2]) > 1 else '?')
        return r

    def from_call(self, f, op, call):
        """does the switched operand come from the result of this call?"""
        seen = set()

        def go(l, d):
            if l in seen or d > 25:
                return False
            seen.add(l)
            if call[3] == l:
                return True
            for b in f['blocks']:
                for s in b['s']:
                    if s[0] == '=' and (s[1] == l):
                        if any(go(x, d + 1) for x in locals_of(s[2]) if x != l) and s[2][0] != 'discr':
                            return True
                t = b['t']
                if t[0] == 'call' and t[3] == l and t is not call:
                    for a in t[2]:
                        if a[0] != 'k' and go(a[1] if isinstance(a[1], int) else a[1][0], d + 1):
                            return True
            return False
        if op[0] == 'k':
            return False
        l = op[1] if isinstance(op[1], int) else op[1][0]
        if call[3] == l:
            # a switch on the discriminant of the Result is not one over the tag
            return False
        # every switch over `discr` is skipped by go()
        return go(l, 0)

    def variant(self, f, own, t):
        for b in rpo(f['blocks']):
            if b not in own:
                continue
            for s in f['blocks'][b]['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt':
                    ti = s[2][1][1]
                    tt = self.F.tys[ti]
                    if tt.get('path') == t['path']:
                        return s[2][1][3]
        return '?'

    def consts(self, f, own, v):
        """is the constant v among the operands of these blocks?"""
        n = 0

        def go(x):
            nonlocal n
            if isinstance(x, dict):
                if x.get('bits') == v:
                    n += 1
                if 'mem' in x and re.fullmatch('[0-9a-f]{2,32}', x['mem']) and int.from_bytes(bytes.fromhex(x['mem']), 'little') == int(v):
                    n += 1
            elif isinstance(x, list):
                for y in x:
                    go(y)
        for b in own:
            go(f['blocks'][b]['s'])
            go(f['blocks'][b]['t'])
        return n

    # -- the whole stored form of a type, with every inner type replaced by what it consists of
    def expand(self, s, seen=()):
        if s in seen:
            return '^' + str(len(seen) - seen.index(s))
        m = re.match(r'^\[(.*); (\d+)\]$', s)
        if m:
            return [self.expand(m.group(1), seen), 'x%s' % m.group(2)]
        sh = self.shape(s) if s in self.fn else None
        if sh is None:
            return s
        self.problems.update((s, p) for p in sh['problems'])
        seen = seen + (s,)

        def fields(fs):
            return [[f[0], f[1]] + [self.expand(f[2], seen)] + f[3:] for f in fs]
        if 'arms' in sh:
            return dict(tag=sh['tag'], arms={v: dict(name=a['variant'], fields=fields(a['fields'])) for v, a in sh['arms'].items()})
        if 'fields' in sh:
            return dict(fields=fields(sh['fields']))
        if 'discriminants' in sh:
            return dict(size=sh['size'], values=sh['discriminants'])
        return dict(size=sh['size'], mem=[[n, self.expand(t, seen), o] for n, t, o in sh['offsets']])

    def stored(self):
        """pg type -> stored form, version numbers its constructors use"""
        self.problems = set()
        out = {}
        for e in self.F.types:
            mod = e['module'].split('::', 1)
            p = (mod[1] + '::' if len(mod) > 1 else '') + e['name'] + 'Data'
            if p in self.fn:
                out[p] = dict(form=self.expand(p), versions=[])
        for f in self.F.fns.values():
            for b in f.get('blocks', ()):
                for st in b['s']:
                    if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] == 'adt':
                        t = self.F.tys[st[2][1][1]]
                        n = norm(t['s'])
                        if n in out and t['ak'] == 'struct':
                            names = [x[0] for x in t['vars'][0]['f']]
                            if 'version' in names:
                                o = st[2][2][names.index('version')]
                                if o[0] == 'k' and 'bits' in o[2]:
                                    v = out[n]['versions']
                                    if o[2]['bits'] not in v:
                                        v.append(o[2]['bits'])
        for o in out.values():
            o['versions'].sort()
        return out

    # -- text
    def text(self):
        """type -> names that its Serialize hands to the RON serializer, in order"""
        F = self.F
        out = {}
        for f in F.fns.values():
            if not f.get('blocks') or not f['ws']:
                continue
            m = re.search(r"<impl serde::Serialize for (.*)>::serialize$", f['path']) or re.match(r"^<(.*) as serde::Serialize>::serialize$", f['path'])
            if not m or not any('ron::Serializer' in F.tstr(x) for x in f['targs']):
                continue
            seq = []
            for b in rpo(f['blocks']):
                t = f['blocks'][b]['t']
                if t[0] != 'call' or not isinstance(t[1], int):
                    continue
                c = F.fns[t[1]]
                n = c['path'].rsplit('::', 1)[1]
                if n.startswith('serialize') and ('ron' in c['path'] or 'serde' in c['path']):
                    strs = [a[2]['str'] for a in t[2] if a[0] == 'k' and 'str' in a[2]]
                    if n in ('serialize_struct', 'serialize_newtype_struct', 'serialize_tuple_struct'):
                        strs = []  # the RON text leaves the type's name out
                    elif 'variant' in n:
                        strs = strs[1:]
                    if n == 'serialize':
                        strs = [norm(x) for x in [self_ser(c, F)] if x]
                    seq.append([n] + strs)
            out[norm(m.group(1))] = arms(seq)
        return out


def arms(seq):
    """variant -> names, independent of the order in which the arms of a match are compiled"""
    cur, out = '', {}
    for x in seq:
        if 'variant' in x[0]:
            cur = x[1] if len(x) > 1 else '?'
            out.setdefault(cur, []).append(x[0])
        else:
            out.setdefault(cur, []).append(' '.join(x))
    return out


def self_ser(c, F):
    return F.tstr(c['locals'][1]).lstrip('&') if len(c.get('locals', ())) > 1 else None


def fmt(seq):
    return '[%s]' % ', '.join(('%s' if k == 'one' else 'slice of %s') % e for k, e in seq)


def locals_of(rv):
    out = []

    def go(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ('m', 'c') and isinstance(x[1], (int, list)):
                out.append(x[1] if isinstance(x[1], int) else x[1][0])
                return
            for y in x:
                go(y)
    go(rv)
    if rv[0] in ('ref', 'addr', 'discr', 'len'):
        for y in rv[1:]:
            if isinstance(y, int):
                out.append(y)
            elif isinstance(y, list) and y and isinstance(y[0], int):
                out.append(y[0])
    return out
