"""Destructor completeness and overwriting of owned fields."""
import frontend
from engine import INF
from contracts import SHALLOW
from owns import OWN


class DestroyMixin:
    def own_of(self, irname):
        return OWN.get(self.di.struct_name(irname)) if irname else None

    def enumval(self, name):
        for d in self.di.enums.values():
            if name in d:
                return d[name]
        return None

    def cells(self, st, sid):
        for d in (st.mem, st.memo):
            for k, v in d.items():
                if v[0] == 's' and v[1] == sid and v[2] == 0 and isinstance(k[1], int):
                    yield k

    def holder(self, base):
        """memory that owns what it points to"""
        return base[0] != 'a' or base in self.owning_locals

    def note_released(self, st, v):
        if v[0] != 's':
            return
        sid = v[1]
        al = st.mem.get((sid, 'rootof'))
        if al is not None:
            self.note_released(st, al)
        for k in list(self.cells(st, sid)):
            if self.holder(k[0]):
                st.gh[('fr', k[0], k[1])] = 1
        m = self.meta.get(sid[0]) if isinstance(sid[0], int) else None
        if m is not None and m[0] == 'load' and len(m) > 3:
            arr = m[3]
            fld = '%s.%s' % (self.di.struct_name(m[1]), self.di.field(m[1], m[2])) if m[1] else 0
            if isinstance(arr, tuple) and arr[0] not in ('a', 'g'):
                for k in list(self.cells(st, arr)):
                    if self.holder(k[0]):
                        st.gh[('fre', k[0], k[1], fld)] = 1

    def note_embedded(self, st, base, off, org):
        if org[0] is None:
            return
        fld = '%s.%s' % (self.di.struct_name(org[0]), (self.di.field(*org) or '').split('.')[0])
        if off is not None:
            st.gh[('fr', base, off)] = 1
        for k in list(self.cells(st, base)):
            if self.holder(k[0]):
                st.gh[('fre', k[0], k[1], fld)] = 1
        return super().note_embedded(st, base, off, org)

    def memcpy(self, st, ins, args):
        d = self.base_of(args[0])
        if d is not None and d[1] is not None and d[0][0] not in ('a', 'g') and len(args) > 2 and \
                not self.fresh_here(st, d[0]) and not self.is_init():
            t = st.memo.get((d[0], 'T'))
            ow = self.own_of(t[1]) if t else None
            f = self.di.field(t[1], d[1]) if ow else None
            f = f.split('.')[0] if f else None
            if ow is not None and f in ow.scalar and f in ow.cond:
                sn = self.di.struct_name(t[1])
                self.obl['overwrite'].add((ins.id, f))
                if self.field_state(st, d[0], d[1]) != 'F' and \
                        self.field_state(st, d[0], self.di.offset(sn, ow.cond[f])) != 'null':
                    self.ev('overwrite', ins, 'replaces %s.%s without releasing its previous value' % (sn, f), st)
                st.gh.pop(('fr', d[0], d[1]), None)
        return super().memcpy(st, ins, args)

    def release(self, st, ins, v, name, deep):
        if v[0] == 's':
            if not deep:
                self.array_obligation(st, ins, v[1])
                self.struct_obligation(st, ins, v[1])
            self.note_released(st, v)
        return super().release(st, ins, v, name, deep)

    def consume(self, st, ins, v, name):
        self.note_released(st, v)
        return super().consume(st, ins, v, name)

    def pre_call(self, st, ins, name, c, args):
        if '->' in name and args:
            sn, cb = name.split('->')
            b = self.base_of(args[0])
            if b is not None and b[0][0] not in ('a', 'g'):
                for arr, ln, f in OWN[sn].cbarray if sn in OWN else ():
                    if f == cb:
                        for k in list(self.cells(st, b[0])):
                            st.gh[('fre', k[0], k[1], '*' + cb)] = 1
        return super().pre_call(st, ins, name, c, args)

    def post_call(self, st, ins, name, c, args):
        if name == 'ec_pnode_get_root' and ins.res and args[0][0] == 's':
            v = st.env[ins.res]
            if v[0] == 's':
                st.mem[(v[1], 'rootof')] = args[0]
        return super().post_call(st, ins, name, c, args)

    # ---------------------------------------------------------------- state of a field
    def field_state(self, st, base, off):
        if ('fr', base, off) in st.gh:
            return 'F'
        v = st.mem.get((base, off))
        if v is None:
            v = st.memo.get((base, off))
        if v is None:
            return 'null' if st.mem.get((base, 'D')) == ('i', 0) else 'unseen'
        if v[0] == 'i':
            return 'null'
        if v[0] == 's':
            o = st.own.get(v[1])
            if o is not None:
                return o[0]
            return 'live'
        return 'other'

    def result(self, st, ins, name, c, args):
        v = super().result(st, ins, name, c, args)
        if name == 'ec_node_priv' and v[0] == 's' and args and args[0][0] == 's' and self.is_alloc(args[0][1]):
            self.fresh_priv.add(ins.id)
        return v

    def fresh_here(self, st, base, ctor=False):
        if base[0] in self.fresh_priv:
            return True
        m = self.meta.get(base[0]) if isinstance(base[0], int) else None
        return m is not None and m[0] == 'alloc' and (m[1] in SHALLOW or not ctor) or base[0] == 'z'

    # ---------------------------------------------------------------- freeing an array of owned elements
    def array_obligation(self, st, ins, sid):
        for k in list(self.cells(st, sid)):
            base, off = k
            sn = self.owning_locals.get(base)
            t = st.memo.get((base, 'T'))
            ow = OWN[sn] if sn else self.own_of(t[1]) if t else None
            if ow is None or self.fresh_here(st, base):
                continue
            sn = sn or self.di.struct_name(t[1])
            for arr, ln, elts in [a for a in ow.array] + [(a[0], a[1], ('*' + a[2],)) for a in ow.cbarray]:
                if self.di.offset(sn, arr) != off:
                    continue
                if isinstance(elts[0], str) and elts[0][0] == '*' and \
                        self.field_state(st, base, self.di.offset(sn, elts[0][1:])) == 'null':
                    continue
                self.obl['array'].add((ins.id, arr))
                lo = self.di.offset(sn, ln)
                if st.memo.get((base, lo)) == ('i', 0) or st.mem.get((base, lo)) == ('i', 0):
                    continue
                if any(k[0] == base and isinstance(k[1], tuple) and k[1][0] == 'P' and k[1][1].endswith('_len') and
                       v == ('i', 0) for k, v in st.memo.items()):
                    continue
                for e in elts:
                    if ('fre', base, off, e) not in st.gh:
                        self.ev('incomplete', ins, 'frees %s.%s without releasing %s of all its elements' % (
                            sn, arr, 'the elements' if e == 0 else e), st)

    # ---------------------------------------------------------------- freeing a structure
    def struct_obligation(self, st, ins, sid):
        t = st.memo.get((sid, 'T'))
        ow = self.own_of(t[1]) if t else None
        if ow is None or self.fresh_here(st, sid):
            return
        self.complete(st, ins, sid, self.di.struct_name(t[1]), ow, 'frees')

    def complete(self, st, ins, base, sn, ow, verb):
        self.obl['struct'].add((ins.id, sn))
        states = {}
        for f in ow.scalar:
            off = self.di.offset(sn, f)
            if off is None:
                continue
            if f in ow.cond:
                c = self.field_state(st, base, self.di.offset(sn, ow.cond[f]))
                if c == 'null':
                    continue
            states[f] = self.field_state(st, base, off)
        missing = [f for f, s in states.items() if s not in ('F', 'C', 'null', 'R')]
        if ow.allornone and not any(s in ('F', 'C') for s in states.values()):
            missing = []
        for f in missing:
            self.ev('incomplete', ins, '%s %s without releasing its %s' % (verb, sn, f), st)
        for f in ow.lists:
            off = self.di.offset(sn, f)
            if off is None:
                continue
            if self.field_state(st, base, off) != 'null':
                self.ev('incomplete', ins, '%s %s while its list %s may not be empty' % (verb, sn, f), st)
        if ow.tag:
            tf, uf, kinds = ow.tag
            toff = self.di.offset(sn, tf)
            uoff = self.union_off(sn)
            if toff is None or uoff is None:
                return
            tv = st.mem.get((base, toff)) or st.memo.get((base, toff))
            for en, kind in kinds.items():
                val = self.enumval(en)
                if val is None:
                    continue
                if tv is not None and tv[0] == 'i' and tv[1] != val:
                    continue
                if tv is not None and tv[0] == 's':
                    lo, hi, ne = self.facts(st, tv[1])
                    if not (lo <= val <= hi) or val in ne:
                        continue
                s = self.field_state(st, base, uoff)
                if s not in ('F', 'C', 'null', 'R'):
                    self.ev('incomplete', ins, '%s %s of kind %s without releasing its value' % (verb, sn, en), st)

    def union_off(self, sn):
        k = self.di.structs.get(sn)
        if k is None:
            return None
        for name, o, sz, bt in self.di.members(k):
            t = self.di.strip(bt)
            n = self.mod.mdnode(t) if t else None
            if n and n[1].get('tag') == 'DW_TAG_union_type':
                return o
        return None

    # ---------------------------------------------------------------- overwriting an owned field
    def on_store(self, st, ins, base, off, v):
        if off is None and ins.op == 'store':
            self.element_store(st, ins, base, v)
        if isinstance(off, int) and self.holder(base) and ins.op == 'store':
            org = self.org_of(st, ins.a[1], base, off)
            ow = self.own_of(org[0])
            self.note_write(org)
            self.length_store(st, ins, base, off, v, org)
            if ow is not None:
                f = self.di.field(*org)
                for g, c in ow.cond.items():
                    if c == f and g in ow.scalar and self.field_state(st, base, off) == 'null':
                        sn = self.di.struct_name(org[0])
                        st.gh[('fr', base, off - org[1] + self.di.offset(sn, g))] = 1      # nothing there
                if f in ow.scalar and f not in ow.cond and not self.fresh_here(st, base, True) and not self.is_init():
                    self.overwrite(st, ins, base, off, v, self.di.struct_name(org[0]), f)
                if v != ('i', 0):
                    st.gh.pop(('fr', base, off), None)
                for k in [k for k in st.gh if k[0] == 'fre' and k[1] == base and k[2] == off]:
                    del st.gh[k]
        return super().on_store(st, ins, base, off, v)

    def arrays_at(self, st, arr):
        """(structure base, field offset, struct name, length field, element kinds) of the fields holding array arr"""
        for k in list(self.cells(st, arr)):
            t = st.memo.get((k[0], 'T'))
            ow = self.own_of(t[1]) if t else None
            if ow is None or self.fresh_here(st, k[0]):
                continue
            sn = self.di.struct_name(t[1])
            for f, ln, elts in ow.array:
                if self.di.offset(sn, f) == k[1]:
                    yield k[0], k[1], sn, f, elts

    def element_store(self, st, ins, base, v):
        if base[0] in ('a', 'g') or ins.ty[0] != 'ptr' or self.past_end(st, ins):
            return
        for sb, so, sn, f, elts in self.arrays_at(st, base):
            self.obl['overwrite'].add((ins.id, f))
            org = self.origin(ins.a[1])
            e = '%s.%s' % (self.di.struct_name(org[0]), self.di.field(*org)) if org[0] is not None else 0
            if e not in elts:
                continue
            if st.gh.pop(('fre', sb, so, e), None) is None and v != ('i', 0):
                held = [x[1] for x in st.env.values() if x[0] == 's' and isinstance(x[1][0], int) and x != v and
                        self.meta.get(x[1][0], ('',))[0] == 'load' and self.meta[x[1][0]][3:4] == (base,)]
                if held:
                    for x in held:          # the replaced element is still at hand, to be released
                        if x not in st.own:
                            st.own[x] = ('O', 'ref', ins.id)
                    continue
                self.ev('overwrite', ins, 'replaces an element of %s.%s without releasing it' % (sn, f), st)

    def length_store(self, st, ins, base, off, v, org):
        cur = st.mem.get((base, off)) or st.memo.get((base, off))
        if cur is None or cur[0] != 's' or v[0] != 's' or cur[1] != v[1] or cur[2] is None or v[2] is None or \
                v[2] >= cur[2] or v[2] >= 0:
            return
        ow = self.own_of(org[0])
        sn = self.di.struct_name(org[0])
        for f, ln, elts in ow.array if ow else ():
            if ln != self.di.field(*org) or self.fresh_here(st, base):
                continue
            fo = off - org[1] + self.di.offset(sn, f)
            for e in elts:
                if ('fre', base, fo, e) not in st.gh:
                    self.ev('overwrite', ins, 'shortens %s.%s without releasing the removed element' % (sn, f), st)

    def refcount(self, st, ins, base, off, v, org):
        r = super().refcount(st, ins, base, off, v, org)
        o = st.own.get(base)
        if o is not None and o[0] == 'R' and o[2] == ins.id:
            self.note_released(st, ('s', base, 0))
        return r

    def is_init(self):
        return any(f == 'init_priv' for _, f in self.spec.slot_of.get(self.fname, ()))

    def havoc_arg(self, st, ins, a, name, n):
        if a[0] == 's' and a[1] not in st.own or a[0] == 's' and st.own[a[1]][0] == 'B':
            # its contents may have been replaced by new objects
            k = ('fr', a[1], 'hv')
            full = ins.a[0][1] if ins.a[0][0] == 'g' else name
            st.gh[k] = st.gh.get(k, frozenset()) | {full}
        return super().havoc_arg(st, ins, a, name, n)

    def renewed(self, st, sid):
        """functions that may have changed what sid holds"""
        out = frozenset()
        for _ in range(6):
            out |= st.gh.get(('fr', sid, 'hv'), frozenset())
            m = self.meta.get(sid[0]) if isinstance(sid[0], int) else None
            if m is None or m[0] != 'load' or len(m) < 4:
                break
            sid = m[3]
        return out

    def note_write(self, org):
        if org[0] is not None and org[1] is not None:
            self.wfields.add((self.di.struct_name(org[0]), self.di.field(*org)))

    def overwrite(self, st, ins, base, off, v, sn, f):
        self.obl['overwrite'].add((ins.id, f))
        s = self.field_state(st, base, off)
        if s == 'unseen' and 'coarse' in st.gh:
            return
        if s == 'unseen':
            by = self.renewed(st, base)
            m = self.meta.get(base[0]) if isinstance(base[0], int) else None
            if m is not None and m[0] == 'alloc':
                by |= {'new:' + m[2]}
            if by:
                self.ow_pending.setdefault((ins.id, sn, f, by), (self.where(ins), self.trace(st)))
                return
            self.ev('overwrite', ins, 'replaces %s.%s without releasing its previous value' % (sn, f), st)
        elif s == 'live':
            old = st.mem.get((base, off)) or st.memo.get((base, off))
            if old == v:
                return
            st.own[old[1]] = ('O', 'ref', ins.id)

    def gc(self, st, b=None, s=None, roots=()):
        cand = None
        if not self.is_destructor():
            for k, v in st.mem.items():
                if v[0] == 's' and isinstance(k[1], int) and v[1] in st.own and st.own[v[1]][0] == 'F' and \
                        k[0] not in st.own and self.foreign(st, k[0]) and k[0] != v[1]:
                    cand = (cand or []) + [(k, v[1], st.own[v[1]])]
            for k, v in st.memo.items():
                if v[0] == 's' and isinstance(k[1], int) and v[1] in st.own and st.own[v[1]][0] == 'F' and \
                        k not in st.mem and k[0] not in st.own and self.foreign(st, k[0]) and k[0] != v[1]:
                    cand = (cand or []) + [(k, v[1], st.own[v[1]])]
            if cand:
                ty = {k[0]: st.memo.get((k[0], 'T')) for k, _, _ in cand}
        if b is not None and self.owning_locals:
            roots = list(roots) + [('a', a[1], 0) for a in self.owning_locals]
        r = super().gc(st, b, s, roots)
        for k, sid, o in cand or ():
            if k[0] not in r:
                t = ty[k[0]]
                ow = self.own_of(t[1]) if t else None
                if ow is None or self.di.field(t[1], k[1]) not in ow.scalar:
                    continue
                f = '%s.%s' % (self.di.struct_name(t[1]), self.di.field(t[1], k[1]))
                self.ev('dangling', self.info.byid.get(o[2]), '%s still points to memory released here' % f, st)
        return r

    # ---------------------------------------------------------------- private data of a grammar node
    def note_ctor(self, st, rv):
        """owned fields a constructor hands out filled"""
        t = st.memo.get((rv[1], 'T'))
        ow = self.own_of(t[1]) if t else None
        if ow is None:
            return
        sn = self.di.struct_name(t[1])
        for f in ow.scalar:
            off = self.di.offset(sn, f)
            if f not in ow.cond and off is not None and self.field_state(st, rv[1], off) not in ('null', 'F'):
                self.ctor.add((sn, f))

    def check_exit(self, st, ins, rv):
        if self.contract is not None and self.contract.ret.startswith('own:') and rv is not None and rv[0] == 's':
            self.note_ctor(st, rv)
        for a, sn in self.owning_locals.items():
            self.complete(st, ins, a, sn, OWN[sn], 'returns from the call with')
        if self.is_free_priv:
            for sid in self.priv_syms(st):
                t = st.memo.get((sid, 'T'))
                sn = self.priv_struct or (self.di.struct_name(t[1]) if t else None)
                ow = OWN.get(sn)
                if ow is not None:
                    self.complete(st, ins, sid, sn, ow, 'destroys the private data')
                    self.privs_freed.add(sn)
        return super().check_exit(st, ins, rv)

    def do_gep(self, st, ins):
        v = super().do_gep(st, ins)
        if ins.x[2] is not None and 'anon' not in ins.x[2][0] and v[0] == 's' and isinstance(v[1][0], int) and \
                self.meta.get(v[1][0], ('',))[:2] == ('call', 'ec_node_priv') and self.fname in self.spec.slot_of:
            self.privs.add(self.di.struct_name(ins.x[2][0]))
        return v

    priv_struct = None

    def keep_live(self, st):
        if not self.is_free_priv:
            return set()
        return {v[1] for k, v in st.memo.items() if isinstance(k[1], tuple) and k[1][:2] == ('P', 'ec_node_priv')
                and v[0] == 's'}

    def priv_syms(self, st):
        out = set()
        for k in list(st.memo) + list(st.mem):
            if isinstance(k[0][0], int) and self.meta.get(k[0][0], ('',))[:2] == ('call', 'ec_node_priv'):
                out.add(k[0])
        for k in st.gh:
            if k[0] == 'fr' and isinstance(k[1][0], int) and \
                    self.meta.get(k[1][0], ('',))[:2] == ('call', 'ec_node_priv'):
                out.add(k[1])
        return out


def node_types(pr, sp):
    """[(global, {slot: function})] of every registered grammar node type"""
    out = []
    for g, (t, init, const, priv) in pr.mod.globals.items():
        if init is None or init[0] != 'agg' or init[1][0] != 'named' or \
                sp.di.struct_name(init[1][1]) != 'ec_node_type':
            continue
        d = {}
        o = 0
        for et, ev in init[2]:
            s, a, _ = pr.mod.types.layout(et)
            o = (o + a - 1) // a * a
            f = sp.di.field(init[1][1], o)
            if ev[0] in ('g', 'i') and f:
                d[f] = ev
            o += s
        out.append((g, d))
    return out


def post_free_priv(pr, sp, R):
    out = []
    R.node_types = node_types(pr, sp)
    for g, d in R.node_types:
        fs = [v[1] for v in d.values() if v[0] == 'g' and v[1] in R.funcs]
        owning = set()
        for f in fs:
            owning |= {s for s in R.funcs[f]['facts']['privs'] if s in OWN}
        fp = d.get('free_priv', ('i', 0))
        for s in owning:
            if fp[0] != 'g' or fp[1] not in R.funcs:
                out.append(dict(kind='incomplete', func=g, loc=[], msg='node type has no destructor although its '
                                'private data %s owns objects' % s, trace=[]))
            elif s not in R.funcs[fp[1]]['facts']['privs_freed']:
                out.append(dict(kind='incomplete', func=fp[1], loc=[], msg='destructor never looks at the private '
                                'data %s, which owns objects' % s, trace=[]))
    return out


def post_overwrite(pr, sp, R):
    """an owned field replaced after a call that may itself have released and reset it"""
    w = {f: set(map(tuple, r['facts']['wfields'])) for f, r in R.funcs.items()}
    ch = True
    while ch:
        ch = False
        for f, r in R.funcs.items():
            for c in r['facts']['calls']:
                if c in w and not w[c] <= w[f]:
                    w[f] |= w[c]
                    ch = True
    out = []
    for f, r in R.funcs.items():
        for sn, fl, by, loc, tr in r['facts']['ow_pending']:
            news = [c[4:] for c in by if c.startswith('new:')]
            if any(c not in w or (sn, fl) in w[c] for c in by if not c.startswith('new:')):
                continue
            if any(not any(frontend.basename(x) == c and [sn, fl] in list(map(list, q['facts']['ctor']))
                           for x, q in R.funcs.items()) for c in news):
                continue        # the constructor leaves it empty
            out.append(dict(kind='overwrite', func=f, loc=loc, msg='replaces %s.%s without releasing its previous '
                            'value' % (sn, fl), trace=tr))
    return out
