"""An object that somebody already owns is not given a second owner without a reference of its own."""
from owns import OWN
from shared import SHARED


class AliasMixin:
    # ---------------------------------------------------------------- who owns the stored value already
    def lender(self, st, v):
        """what keeps the object alive for itself: ('arg',) / (base, offset), or None when nothing is known"""
        if v[0] != 's' or v[2] != 0:
            return None
        sid = v[1]
        o = st.own.get(sid)
        if o is not None and o[0] != 'B':
            return None
        if sid[0] == 'p':
            if o is None or o[0] != 'B':
                return None
            p = self.di.param(self.fn, sid[1])
            return ('arg',) if p and p[0] else None
        m = self.meta.get(sid[0]) if isinstance(sid[0], int) else None
        if m is None:
            return None
        if m[0] == 'call' and m[2] in ('ptr', 'ptr!') and m[1].startswith('ec_'):
            return ('call',)
        if m[0] != 'load' or len(m) < 4 or m[3][0] in ('a', 'g') or m[3] in self.owning_locals:
            return None
        src = m[3]
        if m[1] is not None:
            n = self.di.struct_name(m[1])
            f = self.di.field(m[1], m[2])
            ow = OWN.get(n)
            if ow is not None and (f in ow.scalar and f not in ow.cond or
                                   ow.tag is not None and f != ow.tag[0] and not (f or '').startswith('next')):
                return (src, m[2])
            if self.di.deep_type(m[1], m[2]) and any('struct %s *' % s == self.di.deep_type(m[1], m[2]).strip()
                                                     for s in SHARED):
                return (src, m[2])
            if ow is not None and f and '.' not in f and f not in ow.scalar:
                return (src, m[2])          # a pointer that does not own what it points to
        for k in self.cells(st, src):
            if self.owning_array(st, k):
                return (src, None)
        return None

    def owning_array(self, st, k):
        t = st.memo.get((k[0], 'T'))
        ow = self.own_of(t[1]) if t else None
        if ow is None:
            return False
        sn = self.di.struct_name(t[1])
        return any(self.di.offset(sn, a[0]) == k[1] and 0 in a[2] for a in ow.array)

    def owning_cell(self, st, base, off, org):
        """does memory at base+off own what it points to? 'later' when that depends on where the memory ends up"""
        if base[0] in ('a', 'g'):
            return None
        if org is not None and org[0] is not None:
            n = self.di.struct_name(org[0])
            f = self.di.field(*org)
            ow = OWN.get(n)
            if ow is not None:
                return f if f in ow.scalar and f not in ow.cond else None
            dt = self.di.deep_type(org[0], org[1]) or ''
            return f if any('struct %s *' % s == dt.strip() for s in SHARED) else None
        for k in self.cells(st, base):
            if self.owning_array(st, k):
                return 'an element'
        return 'later' if self.is_alloc(base) else None

    def on_store(self, st, ins, base, off, v):
        for k in [k for k, e in st.gh.items() if k[0] == 'al' and
                  (k[1] == base and k[2] == off and off is not None or
                   e[1] == base and (e[2] == off or off is None or e[2] is None))]:
            del st.gh[k]
        if ins.op == 'store' and base[0] not in ('a', 'g'):
            ln = self.lender(st, v)
            if ln is not None:
                for k in [k for k in st.gh if k[0] == 'refd' and (k[1] == v[1] or (
                        ln[1:] == (None,) and isinstance(k[1][0], int) and
                        self.meta.get(k[1][0], ('',))[3:4] == (ln[0],)))]:
                    del st.gh[k]
                    ln = None
                    break
            if ln is not None and not (ln[0] == base):
                org = self.org_of(st, ins.a[1], base, off)
                w = self.owning_cell(st, base, off, org)
                if w is not None:
                    self.obl['second_owner'].add(ins.id)
                    st.gh[('al', base, off)] = (v[1], ln[0], ln[1] if len(ln) > 1 else None, ins.id, w)
        return super().on_store(st, ins, base, off, v)

    def refcount(self, st, ins, base, off, v, org):
        if org[0] is not None and v[0] == 's' and (self.di.field(*org) or '').endswith(('refcnt', 'refcount')):
            m = self.meta.get(base[0]) if isinstance(base[0], int) else None
            at = m[3] if m is not None and m[0] == 'load' and len(m) > 3 else None
            done = [k for k, e in st.gh.items() if k[0] == 'al' and (
                    e[0] == base or at is not None and at[0] not in ('a', 'g') and
                    (e[1] == at and e[2] is None or k[1] == at and k[2] is None))]
            for k in done:
                del st.gh[k]
            if not done and not self.is_alloc(base):
                st.gh[('refd', base)] = 1       # a reference is taken before it is stored
        return super().refcount(st, ins, base, off, v, org)

    def al_drop(self, st, obj=None, src=None, tgt=None):
        for k in [k for k, e in st.gh.items() if k[0] == 'al' and
                  (obj is not None and e[0] == obj or src is not None and e[1] == src or
                   tgt is not None and k[1] == tgt)]:
            del st.gh[k]

    def gone(self, st, v):
        if v[0] == 's':
            self.al_drop(st, obj=v[1], src=v[1], tgt=v[1])

    def release(self, st, ins, v, name, deep):
        self.gone(st, v)
        return super().release(st, ins, v, name, deep)

    def consume(self, st, ins, v, name):
        if v[0] == 's':
            self.al_drop(st, obj=v[1], src=v[1])
        return super().consume(st, ins, v, name)

    def unlink(self, st, ins, v):
        self.gone(st, v)
        return super().unlink(st, ins, v)

    def havoc_arg(self, st, ins, a, name, n):
        if a[0] == 's':
            self.al_drop(st, obj=a[1], src=a[1])
        return super().havoc_arg(st, ins, a, name, n)

    def result(self, st, ins, name, c, args):
        # a reference taken with a clone whose result is not used
        if c.special == 'clone' and args and args[0][0] == 's' and not self.is_used(ins.res):
            self.al_drop(st, obj=args[0][1])
        return super().result(st, ins, name, c, args)

    def call_realloc(self, st, ins, name, c, args):
        self.gone(st, args[0])
        return super().call_realloc(st, ins, name, c, args)

    def memcpy(self, st, ins, args):
        return super().memcpy(st, ins, args)

    def check_exit(self, st, ins, rv):
        if self.retclass(st, rv) != 'fail' and 'coarse' not in st.gh and not self.is_destructor():
            for k, e in list(st.gh.items()):
                if k[0] != 'al':
                    continue
                o = st.own.get(k[1])
                if o is not None and o[0] == 'F':
                    continue
                ox = st.own.get(e[0])
                if ox is not None and ox[0] in 'OFC':
                    continue
                w = e[4]
                if w == 'later':
                    if self.contract is not None and self.contract.ret == 'own:table' and rv is not None and \
                            rv == ('s', k[1], 0) or any(self.owning_array(st, c) for c in self.cells(st, k[1])):
                        w = 'an element'
                    else:
                        continue
                self.ev('kept', self.info.byid.get(e[3]),
                        '%s of a surviving object is set to %s, which already has an owner, without taking a reference'
                        % (w, self.desc(e[0])), st)
        return super().check_exit(st, ins, rv)
