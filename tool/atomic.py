"""A call that fails leaves the objects it was asked to modify as they were."""
from failrules import ABSENT

# results and scratch state that a failing call is documented to leave half filled
SCRATCH = ('ec_pnode', 'ec_comp', 'ec_yaml', 'ec_editline')


class AtomicMixin:
    def atomic_scope(self):
        r = getattr(self, '_at', None)
        if r is None:
            c = self.contract
            r = {}
            if c is not None and (c.ret in ('int0', 'int') or c.special == 'fallible'):
                if self.fn.internal and self.fname not in self.spec.slot_of:
                    c = None
            if r == {} and c is not None and (c.ret in ('int0', 'int') or c.special == 'fallible'):
                slots = {f for _, f in self.spec.slot_of.get(self.fname, ())}
                if not slots & {'parse', 'complete', 'init'}:
                    for n in range(len(self.fn.args)):
                        if self.param_consumed(n) or c.args.get(n, '') in ('consume_ok', 'free', 'hold'):
                            continue
                        p = self.di.param(self.fn, n)
                        if p and p[0] and not p[1] and p[2].startswith('struct ') and p[2].count('*') == 1:
                            s = p[2][7:].split()[0]
                            if s not in SCRATCH or c.special == 'fallible':
                                r[n] = s
            self._at = r
        return r

    def scoped(self, sid):
        r = self.root(sid)
        return isinstance(r, int) and r in self.atomic_scope()

    def on_store(self, st, ins, base, off, v):
        if self.atomic_scope() and base[0] not in ('a', 'g') and ins.op == 'store' and not self.fresh_here(st, base) \
                and self.scoped(base):
            self.note_change(st, ins, base, off, v)
        return super().on_store(st, ins, base, off, v)

    def resource(self, st, ins, k, args):
        r = super().resource(st, ins, k, args)
        if k in ('regcomp', 'regfree') and self.atomic_scope():
            b = self.base_of(args[0])
            if b is not None and b[0][0] not in ('a', 'g') and not self.fresh_here(st, b[0]) and self.scoped(b[0]):
                self.obl['atomic'].add(ins.id)
                for s in r or [st]:
                    s.gh['part'] = (ins.id, 'what %s() is given' % k, None)
        return r

    def note_change(self, st, ins, base, off, v):
        org = self.org_of(st, ins.a[1], base, off)
        f = self.di.field(*org) if org[0] is not None and org[1] is not None else None
        if f and f.split('.')[-1] in ('refcnt', 'refcount'):
            return
        self.obl['atomic'].add(ins.id)
        what = '%s.%s' % (self.di.struct_name(org[0]), f) if f else 'memory'
        if off is None:
            if not self.past_end(st, ins):
                st.gh['part'] = (ins.id, what, None)
            return
        if v[0] == 's' and isinstance(v[1][0], int) and self.meta.get(v[1][0], ('', '', ''))[2:3] and \
                self.meta[v[1][0]][0] == 'alloc' and 'realloc' in self.meta[v[1][0]][2]:
            return
        k = ('fr', base, ('org', off))
        if k not in st.gh:
            o = st.mem.get((base, off)) or st.memo.get((base, off)) or ('?',)
            if o != v:
                st.gh[k] = (o, ins.id, what)
        elif st.gh[k][0] == v:
            del st.gh[k]

    def past_end(self, st, ins):
        """element just past the used part of an array: not visible until the length grows"""
        d = self.info.defs.get(ins.a[1][1]) if ins.a[1][0] == 'v' else None
        while d is not None and d.op == 'gep':
            for ix in list(d.x[3] or ()):
                x = self.val(st, ix)
                if x[0] == 's' and isinstance(x[1][0], int) and x[2] == 0:
                    m = self.meta.get(x[1][0])
                    if m is not None and m[0] == 'load' and m[1] is not None and \
                            (self.di.field(m[1], m[2]) or '').endswith('len'):
                        return True
            p = d.a[0]
            d = self.info.defs.get(p[1]) if p[0] == 'v' else None
        return False

    def gc(self, st, b=None, s=None, roots=()):
        ch = [(k, v) for k, v in st.gh.items() if k[0] == 'fr' and isinstance(k[2], tuple)]
        r = super().gc(st, b, s, roots)
        for k, v in ch:
            if k not in st.gh and k[1] not in r:
                st.gh['part'] = (v[1], v[2], None)
        for k in [k for k in st.gh if k[0] == 'pm' and k[1] not in r]:
            st.gh['part'] = st.gh.pop(k)        # result never looked at
        return r

    def post_call(self, st, ins, name, c, args):
        if self.atomic_scope() and c is not None and c.ret not in ('memcpy', 'memset'):
            full = ins.a[0][1] if ins.a[0][0] == 'g' else name
            for n, a in enumerate(args):
                if a[0] != 's' or self.fresh_here(st, a[1]) or not self.scoped(a[1]):
                    continue
                if self.spec.argmode(full, c, n) != 'rw' or full not in self.prog.analyse and \
                        full in self.mod.funcs:
                    continue
                if full not in self.mod.funcs and ins.a[0][0] == 'g':
                    continue
                if name in ABSENT and not self.is_used(ins.res):
                    continue    # removal of a possible previous entry
                rec = (ins.id, 'through %s()' % name, (full, n))
                v = st.env.get(ins.res) if ins.res else None
                if c.ret in ('int0', 'int', 'parse') and v is not None and v[0] == 's':
                    st.gh[('pm', v[1])] = rec
                else:
                    st.gh['part'] = rec
        return super().post_call(st, ins, name, c, args)

    def setfacts(self, st, sid, lo, hi, ne):
        ok = super().setfacts(st, sid, lo, hi, ne)
        if ok and ('pm', sid) in st.gh and (hi < 0 or lo >= 0):
            r = st.gh.pop(('pm', sid))
            if lo >= 0:
                st.gh['part'] = r
        return ok

    def check_exit(self, st, ins, rv):
        if self.atomic_scope() and 'coarse' not in st.gh and self.retclass(st, rv) == 'fail':
            recs = []
            if 'part' in st.gh:
                recs.append(st.gh['part'])
            for k, v in st.gh.items():
                if k[0] == 'fr' and isinstance(k[2], tuple):
                    recs.append((v[1], v[2], None))
            for iid, what, cal in recs:
                i = self.info.byid.get(iid) or ins
                self.partials.setdefault((iid, what, cal), (self.where(i), self.trace(st)))
        return super().check_exit(st, ins, rv)


def post_atomic(pr, sp, R):
    out = []
    n = 0
    for f, r in R.funcs.items():
        n += bool(r['facts']['atomic_args'])
        for what, cal, w, tr in r['facts']['partials']:
            if cal is not None and cal[0] in pr.mod.funcs and cal[1] not in R.mod.get(cal[0], ()):
                continue
            out.append(dict(kind='partial', func=f, loc=w, msg='changes its argument (%s) although the call fails' %
                            what, trace=tr))
    R.counts['mutators'] = n
    return out
