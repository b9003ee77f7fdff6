"""What a call changes for its duration and puts back on success is also put back on failure."""
import collections


class RestoreMixin:
    def restorable(self):
        """fields stored at least twice by the function: changed and put back"""
        r = getattr(self, '_rs', None)
        if r is None:
            n = collections.Counter()
            for b in self.fn.blocks.values():
                for i in b:
                    if i.op == 'store':
                        o = self.origin(i.a[1])
                        if o[0] is not None:
                            n[o] += 1
            r = self._rs = {o for o, c in n.items() if c > 1}
            self.rs_exits = collections.defaultdict(dict)
        return r

    def on_store(self, st, ins, base, off, v):
        if ins.op == 'store' and off is not None and base[0] not in ('a', 'g') and self.restorable() and \
                not self.fresh_here(st, base):
            org = self.origin(ins.a[1])
            if org in self.restorable():
                k = ('sr', base, off)
                m = self.meta.get(v[1][0]) if v[0] == 's' and isinstance(v[1][0], int) and v[2] == 0 else None
                if m is not None and m[0] == 'load' and len(m) > 3 and m[3] == base and tuple(m[1:3]) == tuple(org):
                    st.gh[k] = ('clean', ins.id)
                elif k not in st.gh and not ((base, off) in st.memo and st.memo[(base, off)][0] == 's'):
                    pass                # nobody looked at the previous value
                else:
                    st.gh[k] = ('dirty', ins.id)
        return super().on_store(st, ins, base, off, v)

    def check_exit(self, st, ins, rv):
        if self.restorable() and 'coarse' not in st.gh:
            cls = self.retclass(st, rv)
            for k, (s, iid) in [(k, v) for k, v in st.gh.items() if k[0] == 'sr']:
                d = self.rs_exits[k]
                if (cls, s) not in d:
                    d[(cls, s)] = (iid, self.trace(st), st)
        return super().check_exit(st, ins, rv)

    def finish(self):
        for k, d in getattr(self, 'rs_exits', {}).items():
            if ('ok', 'clean') in d and ('ok', 'dirty') not in d and ('fail', 'dirty') in d:
                iid, tr, st = d[('fail', 'dirty')]
                i = self.info.byid.get(iid)
                o = self.origin(i.a[1])
                self.ev('partial', i, '%s.%s is put back on success but not when the call fails' % (
                    self.di.struct_name(o[0]), self.di.field(*o)), st)
        return super().finish()
