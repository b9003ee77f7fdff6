"""A function that calls itself does so on something smaller or different, or after changing something."""

PARTS = {'ec_strvec_ndup': True, 'ec_strvec_dup': False}


class RecurMixin:
    def recursive(self):
        r = getattr(self, '_recursive', None)
        if r is None:
            r = self._recursive = any(i.op == 'call' and i.a[0][:2] == ('g', self.fname)
                                      for b in self.fn.blocks.values() for i in b)
        return r

    def on_const(self, st, sid, c):
        if sid[0] == 'p' and self.recursive():
            st.gh[('pconst', sid[1])] = c
        return super().on_const(st, sid, c)

    def on_store(self, st, ins, base, off, v):
        if base[0] != 'a' and base != ('g', 'errno') and ins.op == 'store' and self.recursive():
            st.gh['rwrote'] = 1
        return super().on_store(st, ins, base, off, v)

    def edge(self, b, s, st, out):
        if (b, s) in self.info.backedges and self.recursive():
            st.gh['looped'] = 1
        return super().edge(b, s, st, out)

    def as_given(self, st, k, a):
        """argument k of the recursive call is what this call was given"""
        if a == ('s', ('p', k), 0):
            return True
        if a[0] == 'i':
            return st.gh.get(('pconst', k)) == a[1]
        return a[0] == 's' and a[2] == 0 and st.gh.get(('whole', a[1])) == k

    def pre_call(self, st, ins, name, c, args):
        if self.recursive() and ins.a[0][:2] == ('g', self.fname):
            self.obl['recursion'].add(ins.id)
            if args and 'rwrote' not in st.gh and 'coarse' not in st.gh and \
                    all(self.as_given(st, k, a) for k, a in enumerate(args)):
                self.ev('norecursion', ins, '%s() may call itself with what it was given: it would never return' % name, st)
        return super().pre_call(st, ins, name, c, args)

    def post_call(self, st, ins, name, c, args):
        if name in PARTS and self.recursive() and ins.res and args[0][0] == 's' and args[0][1][0] == 'p' and \
                args[0][2] == 0 and self.whole(st, name, args):
            v = st.env.get(ins.res)
            if v is not None and v[0] == 's':
                st.gh[('whole', v[1])] = args[0][1][1]
        elif name in PARTS and self.recursive() and ins.res:
            v = st.env.get(ins.res)
            if v is not None and v[0] == 's':
                st.gh.pop(('whole', v[1]), None)
        return super().post_call(st, ins, name, c, args)

    def whole(self, st, name, args):
        if not PARTS[name]:
            return True
        off, n = args[1], args[2]
        lo, hi = self.rng(st, off)
        if lo > 0 or hi < 0:
            return False
        ln = st.memo.get((args[0][1], ('P', 'ec_strvec_len', args[0])))
        if ln is None:
            return False
        if off == ('i', 0):
            return n == ln and 'looped' not in st.gh        # later on, a counter is no longer what it started from
        x = off
        while x[0] == 's' and x[1][0] == 'e' and x[1][1].startswith(('zext', 'trunc', 'sext')):
            x = x[1][2]
        m = self.meta.get(x[1][0]) if x[0] == 's' and x[2] == 0 and isinstance(x[1][0], int) else None
        if m is None or m[0] != 'call':
            return False        # a loop counter, say: how far it got is not followed
        return n[0] == 's' and n[2] == 0 and n[1][0] == 'e' and n[1][1:] == ('sub', ln, off)
