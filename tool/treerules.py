"""Parse-tree discipline: children recorded in a parse tree are those of the match being reported, and a
match never claims strings that are not there."""
from engine import INT_MAX

MANY = 3        # this many children or more


class TreeMixin:
    def slots(self):
        r = getattr(self, '_slots', None)
        if r is None:
            r = self._slots = {f for s, f in self.spec.slot_of.get(self.fname, ()) if s == 'ec_node_type'}
        return r

    def is_parse(self):
        return 'parse' in self.slots()

    def takes_comp(self):
        r = getattr(self, '_comp', None)
        if r is None:
            r = False
            for n in range(len(self.fn.args)):
                p = self.di.param(self.fn, n)
                if p and p[0] and not p[1] and p[2].strip() == 'struct ec_comp *':
                    r = True
            self._comp = r
        return r

    # ------------------------------------------------------------ the children of a parse node, as a number
    def tree_key(self, v):
        """parse node whose children are counted"""
        if v[0] != 's' or v[2] != 0:
            return None
        m = self.meta.get(v[1][0]) if isinstance(v[1][0], int) else None
        if m is not None and m[0] == 'call' and m[1] == 'ec_comp_get_cur_pstate':
            return ('kids', 'cur')
        return ('kids', v[1])

    def kids(self, st, k):
        return st.gh.get(k, 0)

    def set_kids(self, st, k, n):
        if n == 0:
            st.gh.pop(k, None)
        else:
            st.gh[k] = n

    def add_kid(self, st, k):
        n = self.kids(st, k)
        if n != '?':
            self.set_kids(st, k, min(n + 1, MANY))

    def del_kid(self, st, k):
        n = self.kids(st, k)
        if n == '?':
            return
        if n == MANY:
            self.set_kids(st, k, '?')
        elif n > 0:
            self.set_kids(st, k, n - 1)

    def post_call(self, st, ins, name, c, args):
        r = super().post_call(st, ins, name, c, args)
        sp = c.special if c is not None else None
        if name == 'ec_pnode_free' or not args:
            return r
        if sp == 'pchild':
            k = self.tree_key(args[1])
            v = st.env.get(ins.res) if ins.res else None
            if k is None or v is None or v[0] != 's':
                return r
            self.obl['tree_calls'].add(ins.id)
            out = []
            for lo, hi in ((-1, -1), (INT_MAX, INT_MAX), (0, INT_MAX - 1)):
                s = st.copy()
                if not self.setfacts(s, v[1], lo, hi, frozenset()):
                    continue
                if lo == 0:
                    self.add_kid(s, k)
                    s.gh['matched'] = 1
                    self.claim(s, ins, v[1], args[2])
                out.append(s)
            return out
        if sp == 'plink':
            k = self.tree_key(args[0])
            if k is not None and args[1][0] == 's':
                self.obl['tree_calls'].add(ins.id)
                self.add_kid(st, k)
                st.gh[('kidof', args[1][1])] = k
        elif sp == 'punlink' and args[0][0] == 's':
            self.obl['tree_calls'].add(ins.id)
            k = st.gh.pop(('kidof', args[0][1]), None)
            if k is not None:
                self.del_kid(st, k)
            else:
                self.lose_count(st)
        elif sp == 'pdellast':
            k = self.tree_key(args[0])
            self.obl['tree_calls'].add(ins.id)
            if k is not None:
                self.del_kid(st, k)
        elif sp == 'pfreechildren':
            k = self.tree_key(args[0])
            self.obl['tree_calls'].add(ins.id)
            if k is not None:
                self.set_kids(st, k, 0)
        elif sp == 'plinked' and ins.res:
            v = st.env.get(ins.res)
            k = st.gh.get(('kidof', args[0][1])) if name == 'ec_pnode_next' and args[0][0] == 's' else \
                self.tree_key(args[0])
            if v is not None and v[0] == 's' and k is not None:
                st.gh[('kidof', v[1])] = k
                if name != 'ec_pnode_next':
                    st.gh[('kidlast', v[1])] = k
        else:
            full = ins.a[0][1] if ins.a[0][0] == 'g' else name
            for n, a in enumerate(args):
                k = self.tree_key(a)
                if k is not None and self.kids(st, k) != '?' and self.pnode_arg(st, full, c, n, a):
                    st.gh[k] = '?'
        return r

    def result(self, st, ins, name, c, args):
        v = super().result(st, ins, name, c, args)
        if v[0] == 's' and c.ret == 'own:pnode' and name != 'ec_pnode':
            st.gh[('kids', v[1])] = '?'
        return v

    def pnode_arg(self, st, full, c, n, a):
        """is a modifiable parse node handed to code that may change its children?"""
        if self.spec.argmode(full, c, n) != 'rw':
            return False
        f = self.mod.funcs.get(full)
        p = self.di.param(f, n) if f is not None else None
        return p is None or 'ec_pnode' in p[2]

    def default_call(self, st, ins, name, args):
        for n, a in enumerate(args):
            k = self.tree_key(a)
            if k is not None and self.pnode_arg(st, name, None, n, a):
                st.gh[k] = '?'
        return super().default_call(st, ins, name, args)

    def lose_count(self, st):
        for k in [k for k in st.gh if k[0] == 'kids']:
            st.gh[k] = '?'

    def coarsen(self, st, level):
        self.lose_count(st)
        for k in [k for k in st.gh if k[0] in ('kidof', 'kidlast')]:
            del st.gh[k]
        return super().coarsen(st, level)

    def on_const(self, st, sid, c):
        k = st.gh.get(('kidlast', sid))
        if k is not None and c == 0:
            self.set_kids(st, k, 0)
        return super().on_const(st, sid, c)

    def gc(self, st, b=None, s=None, roots=()):
        r = super().gc(st, b, s, roots)
        for k in [k for k in st.gh if k[0] in ('kidof', 'kidlast', 'claim') and k[1] not in r or
                  k[0] == 'kids' and k[1] != 'cur' and self.is_alloc(k[1]) and k[1] not in r]:
            del st.gh[k]
        return r

    # ------------------------------------------------------------ lengths
    def claim(self, st, ins, sid, vec):
        """remembers which vector a child matched in"""
        st.gh[('claim', sid)] = vec

    def within(self, st, vec):
        """is this vector the one being parsed, or a part of it?"""
        if vec[0] != 's':
            return False
        if vec[1] == ('p', 2):
            return True
        m = self.meta.get(vec[1][0]) if isinstance(vec[1][0], int) else None
        if m is None or m[0] != 'alloc':
            return m is None
        return m[2] in ('ec_strvec_ndup', 'ec_strvec_dup')

    def check_exit(self, st, ins, rv):
        name = self.fname.split('.')[0]
        if self.takes_comp():
            self.obl['tree_exits'].add(ins.id)
            for k, n in st.gh.items():
                if k[0] == 'kids' and n != '?' and not self.local_tree(st, k):
                    self.ev('treeleft', ins, 'leaves a tried child in the parse tree being completed', st)
        elif rv is not None and (self.is_parse() or name == 'ec_parse_child'):
            self.obl['tree_exits'].add(ins.id)
            k = ('kids', ('p', 1))
            n = self.kids(st, k)
            lo, hi = self.rng(st, rv)
            if rv == ('i', INT_MAX) and n not in (0, '?'):
                self.ev('treeleft', ins, 'does not match but leaves a child in the parse tree', st)
            if name == 'ec_parse_child':
                if hi < 0 and n not in (0, '?'):
                    self.ev('treeleft', ins, 'fails but leaves a child in the parse tree', st)
                if lo >= 0 and hi < INT_MAX and n not in (1, '?'):
                    self.ev('treelost', ins, 'matches but its result is not in the parse tree', st)
            elif lo >= 0 and rv != ('i', INT_MAX) and rv != ('i', 0) and 'matched' in st.gh and n == 0:
                self.ev('treelost', ins, 'matches but the matching child is not in the parse tree', st)
            if self.is_parse():
                self.length_rule(st, ins, rv)
        return super().check_exit(st, ins, rv)

    def local_tree(self, st, k):
        o = st.own.get(k[1])
        return o is not None and o[0] in 'OFC'

    def length_rule(self, st, ins, rv):
        if rv[0] == 'i' and 0 < rv[1] < INT_MAX:
            self.obl['claims'].add(ins.id)
            for k, v in st.memo.items():
                if k[0] == ('p', 2) and isinstance(k[1], tuple) and k[1][:2] == ('P', 'ec_strvec_len'):
                    if self.rng(st, v)[0] >= rv[1]:
                        return
            if not self.has_element(st, rv[1] - 1):
                self.ev('overclaim', ins, 'claims %d matched string(s) without checking that there are as many' %
                        rv[1], st)
        elif rv[0] == 's' and ('claim', rv[1]) in st.gh:
            self.obl['claims'].add(ins.id)
            if not self.within(st, st.gh[('claim', rv[1])]):
                self.ev('overclaim', ins, 'returns a length counted in another string vector', st)

    def has_element(self, st, i):
        """an element read from the vector was there"""
        for k, v in st.memo.items():
            if k[0] == ('p', 2) and isinstance(k[1], tuple) and k[1][:2] in (
                    ('P', 'ec_strvec_val'), ('P', 'ec_strvec_get_attrs')):
                if len(k[1]) > 3 and k[1][3] == ('i', i) and self.nonnull(st, v):
                    return True
        return False
