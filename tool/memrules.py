"""Ownership, nullness and failure-protocol rules on top of the dataflow engine."""
import contracts
from contracts import C, SHALLOW, RELEASE
from engine import Engine, St, INF, INT_MAX
import frontend

NULLSTR = {'strlen', 'strnlen', 'strcmp', 'strncmp', 'strcasecmp', 'memcpy', 'strcpy', 'memset', 'strchr', 'strrchr',
           'memcmp', 'memmove', 'qsort', 'closedir', 'fclose', 'readdir', 'dirfd'}


# structures owned by the list they are linked in, and the link that says so
LISTS = {'ec_comp_item': 'next', 'ec_comp_group': 'next', 'ec_htable_elt_ref': 'next', 'ec_config': 'next',
         'ec_pnode': 'next'}


class MemEngine(Engine):
    track_fail = True

    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k)
        self.di = self.spec.di
        self.owned_store = set()      # (struct, field) that received an owned object
        self.free_obl = []            # obligations at shallow frees
        self.maybe_null_args = []     # (callee, n, instr)
        self.null_deref_params = set()
        self.exit_recs = set()
        self.rep = set()

    # ------------------------------------------------------------ entry
    def init_state(self, st):
        for n, (t, name) in enumerate(self.fn.args):
            sid = self.params[n]
            if t[0] != 'ptr':
                p = self.di.param(self.fn, n)
                if p and (p[2].startswith('unsigned') or p[2] in ('size_t', 'uint64_t', 'uint32_t', 'bool', '_Bool')):
                    st.syms[sid] = (0, 1 if 'ool' in p[2] else INF, frozenset())
                continue
            m = self.contract.args.get(n) if self.contract else None
            if self.contract is not None and (self.contract.special or '').startswith('set:') and \
                    n == int(self.contract.special.split(':')[1]):
                continue
            if m in ('consume', 'free', 'consume_ok'):
                st.own[sid] = ('O', 'param', None)
            elif self.contract is not None:
                st.own[sid] = ('B', 'param', None)

    def init_split(self, st):
        sp = (self.contract.special or '') if self.contract is not None else ''
        if sp.startswith('table:'):
            # array of owned objects and its length
            _, tn, ln = sp.split(':')
            tn, _, flds = tn.partition('/')
            s2 = st.copy()
            for f in flds.split(',') if flds else (None,):
                org = None
                if f:
                    sn, fl = f.split('.')
                    org = self.elt_org(('struct.' + sn, self.di.offset(sn, fl)))
                s2.mem[(('p', int(tn)), ('H', org))] = ('h', 'elements')
            self.refine(s2, 'ne', ('p', int(ln)), 0, 0)
            self.refine(st, 'eq', ('p', int(ln)), 0, 0)
            return [st, s2]
        if not sp.startswith('set:'):
            return [st]
        # the value is handed over only when a release callback comes with it
        _, vn, fn = sp.split(':')
        self.cb = ('p', int(fn))
        s2 = st.copy()
        s2.own[('p', int(vn))] = ('O', 'param', None)
        self.refine(s2, 'ne', ('p', int(fn)), 0, 0)
        self.refine(st, 'eq', ('p', int(fn)), 0, 0)
        return [st, s2]

    cb = None
    exit_consumed = frozenset()

    def param_consumed(self, n):
        if n in self.exit_consumed:
            return True
        if self.cb is not None and n == int(self.contract.special.split(':')[1]):
            return True
        return self.contract is not None and self.contract.args.get(n) in ('consume', 'free')

    # ------------------------------------------------------------ naming helpers
    def desc(self, sid):
        if sid[0] == 'p':
            return "argument '%s'" % self.fn.args[sid[1]][1]
        m = self.meta.get(sid[0])
        if sid in self.zloc:
            m = self.meta.get(self.zloc[sid])
        if m:
            if m[0] == 'alloc':
                return 'object from %s()' % m[2]
            if m[0] == 'call':
                return 'result of %s()' % m[1]
            if m[0] == 'vaarg':
                return 'a variable argument'
            if m[0] == 'load' and m[1]:
                return '%s.%s' % (self.di.struct_name(m[1]), self.di.field(m[1], m[2]))
        return 'object'

    # ------------------------------------------------------------ failure tracking
    def fallible(self, sid):
        m = self.meta.get(sid[0]) if isinstance(sid[0], int) else None
        return m

    def on_const(self, st, sid, c):
        if c == 1 and st.gh.get('va') == sid:
            st.gh['va'] = 'end'
        m = self.fallible(sid)
        if m is None:
            return
        if c == 0 and m[0] == 'load' and len(m) > 3 and any(
                k[0] == m[3] and isinstance(k[1], tuple) and k[1][0] == 'H' for k in st.mem):
            st.mem[(m[3], ('HR', '*'))] = ('h', 1)
        if c == 0 and (m[0] == 'alloc' or m[0] == 'call' and m[2] == 'fptr'):
            self.failed(st, sid[0], m[2] if m[0] == 'alloc' else m[1])
        if m[0] == 'call' and m[2] in ('int', 'int0', 'parse') and c < 0:
            self.failed(st, sid[0], m[1])

    def on_facts(self, st, sid, old, new):
        m = self.fallible(sid)
        if m is None or m[0] != 'call':
            return
        if m[2] in ('int', 'int0', 'parse') and new[1] < 0 and old[1] >= 0:
            self.failed(st, sid[0], m[1])

    def failed(self, st, iid, name):
        if self.track_fail:
            st.gh['fail'] = (name, iid)
        st.gh['errno'] = 1

    # ------------------------------------------------------------ dereference
    def deref(self, st, ins, p, why):
        if p[0] == 's':
            sid = p[1]
            self.sites['deref'].add(ins.id)
            o = st.own.get(sid)
            if o is not None:
                if o[0] == 'F':
                    self.ev('uaf', ins, 'uses %s after it was released' % self.desc(sid), st)
                if o[0] == 'U':
                    self.ev('uninit', ins, 'uses uninitialised memory', st)
            if not self.nonnull(st, ('s', sid, 0)):
                m = self.meta.get(sid[0]) if isinstance(sid[0], int) else None
                if m is not None and (m[0] == 'alloc' or m[0] == 'call' and m[2] == 'fptr'):
                    self.ev('nullderef', ins, 'dereferences %s without checking it for NULL' % self.desc(sid), st)
                if sid[0] == 'p':
                    self.null_deref_params.add(sid[1])
                if m is not None or sid[0] == 'p':
                    self.refine(st, 'ne', sid, 0, 0)
        return Engine.deref(self, st, ins, p, why)

    def on_null_use(self, st, ins, p, why):
        if why in ('load', 'store'):
            self.ev('nullderef', ins, 'dereferences a NULL pointer', st)

    # ------------------------------------------------------------ variable arguments
    def is_va(self, base):
        if base[0] == 'a':
            d = self.info.defs.get(base[1])
            return d is not None and d.op == 'alloca' and '__va_list_tag' in str(d.ty) + str(d.x)
        if base[0] == 'p':
            p = self.di.param(self.fn, base[1])
            return p is not None and p[0] and ('__va_list_tag' in p[2] or p[2] == 'va_list')
        return False

    def do_load(self, st, ins, p):
        b = self.base_of(p)
        if b is not None and self.is_va(b[0]):
            self.meta[ins.id] = ('va',)
            return ('s', (ins.id, 0), 0)
        v = Engine.do_load(self, st, ins, p)
        if b is not None and b[0] == ('g', 'errno') and v[0] == 's':
            st.gh[('eload', v[1])] = int('errno' in st.gh)
        if b is not None and v[0] == 's' and isinstance(b[0][0], int) and self.meta.get(b[0][0]) == ('va',) and \
                ins.ty[0] == 'ptr' and self.contract is not None and self.contract.special == 'vaconsume':
            self.meta[ins.id] = ('vaarg',)
            st.own[v[1]] = ('O', 'param', ins.id)
            st.gh['va'] = v[1]
        return v

    def load_unknown_off(self, st, ins, base):
        """reading a table at an index that is not known: its elements are no longer told apart"""
        if ins.ty[0] != 'ptr' or base not in st.own or st.own[base][0] != 'O':
            return None
        org = self.elt_org(self.origin(ins.a[0]))
        for k, x in list(st.mem.items()):
            if k[0] == base and isinstance(k[1], int) and x[0] == 's' and x[2] == 0 and x[1] != base and \
                    self.org_matches(org, k[1]) and st.own.get(x[1], '-')[0] == 'O':
                fam = st.own[x[1]][1]
                if any(v[0] == 's' and v[1] == x[1] for v in st.env.values()):
                    continue
                del st.mem[k]
                self.untrack(st, x[1])
                st.mem[(base, ('H', org))] = ('h', fam)
        return None

    def do_store(self, st, ins, v, p):
        b = self.base_of(p)
        if b is not None and self.is_va(b[0]):
            return
        if v[0] == 's' and v[2] == 0 and b is not None and b[0][0] != 'a':
            x = st.gh.pop(('xref', v[1]), None)
            if x is not None:
                v = x
        Engine.do_store(self, st, ins, v, p)

    # ------------------------------------------------------------ stores
    def on_store(self, st, ins, base, off, v):
        org = self.org_of(st, ins.a[1], base, off) if ins.op == 'store' else (None, None)
        if base == ('g', 'errno'):
            if v == ('i', 0) or v[0] == 's' and st.gh.get(('eload', v[1])) == 0:
                st.gh.pop('errno', None)        # cleared, or set back to what it was before
            else:
                st.gh['errno'] = 1
        self.refcount(st, ins, base, off, v, org)
        if ins.op == 'store':
            self.list_unlink(st, ins)
        if v[0] == 's' and v[1] in st.own and st.own[v[1]][0] == 'O':
            if org[0] is not None:
                self.owned_store.add((self.di.struct_name(org[0]), self.di.field(*org), org[1],
                                      st.own[v[1]][1]))
            if off is None:
                fam = st.own[v[1]][1]
                self.untrack(st, v[1])
                st.mem[(base, ('H', self.elt_org(org)))] = ('h', fam)
        elif v[0] == 's' and base[0] != 'a' and v[1][0] != 'p':
            st.gh[('kept', v)] = 1
        if ins.op == 'store' and self.origin(ins.a[1])[0] is None and off in (0, None) and base[0] not in ('a', 'g') and \
                isinstance(base[0], int) and self.meta.get(base[0], ('',))[0] == 'load' and \
                ins.ty[0] == 'ptr':
            # write through a pointer found in memory (list linkage): remembered loads may be stale
            for k in [k for k in st.memo if k[1] != 'T']:
                del st.memo[k]

    def list_unlink(self, st, ins):
        """*elm->link.tqe_prev = elm->link.tqe_next: elm leaves its list and belongs to whoever removed it"""
        def link(op, what):
            d = self.info.defs.get(op[1]) if op[0] == 'v' else None
            if d is None or d.op != 'load':
                return None
            b = self.base_of(self.val(st, d.a[0]))
            if b is None or b[1] is None:
                return None
            sn = self.type_of(st, b[0])
            f = self.di.field(sn, b[1]) if sn else None
            if f is None or not f.endswith(what):
                return None
            return sn, f[:-len(what) - 1], b[0]
        x = self.val(st, ins.a[0])
        if x[0] == 's' and x[1] in st.own and st.own[x[1]][:2] == ('O', 'elem') and \
                link(ins.a[1], 'tqh_last') is not None:
            del st.own[x[1]]            # appended to another list
            return
        a = link(ins.a[0], 'tqe_next')
        if a is None or a[2][0] in ('a', 'g'):
            return
        b = link(ins.a[1], 'tqe_prev')
        if b is None or b != a or LISTS.get(a[0]) != a[1]:
            return
        if self.contract is not None and self.contract.special == 'punlink':
            return
        x = a[2]
        o = st.own.get(x)
        if o is None or o[0] == 'L':
            st.own[x] = ('O', 'elem', ins.id)

    def type_of(self, st, sid):
        """C structure an object is known to be: from accesses to it, else from the declaration it was loaded from"""
        t = st.memo.get((sid, 'T'))
        if t is not None and 'anon' not in t[1]:
            return self.di.struct_name(t[1])
        ty = None
        if sid[0] == 'p':
            p = self.di.param(self.fn, sid[1])
            ty = p[2] if p else None
        elif isinstance(sid[0], int):
            m = self.meta.get(sid[0])
            if m is not None and m[0] == 'load' and m[1] is not None:
                ty = self.di.deep_type(m[1], m[2])
        if ty and ty.count('*') == 1 and 'struct ' in ty:
            return ty.split('struct ')[1].split()[0]
        return None

    def untrack(self, st, sid, seen=None):
        """the object moved into memory that is not followed; so does all it holds"""
        seen = seen if seen is not None else set()
        if sid in seen:
            return
        seen.add(sid)
        o = st.own.get(sid)
        if o is not None and o[0] == 'O':
            del st.own[sid]
        for k, v in list(st.mem.items()):
            if k[0] == sid and v[0] == 's':
                self.untrack(st, v[1], seen)

    def refcount(self, st, ins, base, off, v, org):
        if off is None or org[0] is None or v[0] != 's' or v[2] not in (1, -1):
            return
        f = self.di.field(*org)
        if f is None or not f.endswith('refcnt'):
            return
        cur = st.memo.get((base, off)) or st.mem.get((base, off))
        if cur is None or cur[0] != 's' or v[1] != cur[1] or cur[2] is None:
            return
        if v[2] - cur[2] == -1:
            o = st.own.get(base)
            if o is None or o[0] in 'OB':
                st.own[base] = ('R', o[1] if o else 'ref', ins.id)
        else:
            o = st.own.get(base)
            m = self.meta.get(base[0]) if isinstance(base[0], int) else None
            if m is not None and m[0] == 'load' and len(m) > 3 and m[3] in st.own and st.own[m[3]][0] == 'O':
                return      # already sits in a container built here
            if st.gh.get(('kept', ('s', base, 0))):
                return
            if o is None or o[0] in ('B', 'R'):
                st.own[base] = ('O', 'ref', ins.id)

    # ------------------------------------------------------------ release / hand over
    def release(self, st, ins, v, name, deep):
        if v == ('i', 0) or v[0] == 'i':
            return
        if v[0] == 'u':
            self.ev('badfree', ins, '%s() is given an uninitialised pointer' % name, st)
            return
        if v[0] in 'ag':
            if not (v[0] == 'g' and v[1].startswith('<')):
                self.ev('badfree', ins, '%s() is given the address of a variable' % name, st)
            return
        if v[0] != 's':
            return
        sid = v[1]
        if v[2]:
            self.ev('badfree', ins, '%s() is given a pointer inside %s' % (name, self.desc(sid)), st)
        self.sites['free'].add(ins.id)
        o = st.own.get(sid)
        fams = RELEASE.get(name)
        if o is not None:
            if o[0] == 'F':
                self.ev('doublefree', ins, '%s is released twice' % self.desc(sid), st)
            elif o[0] == 'C':
                self.ev('doublefree', ins, '%s is released after being handed over' % self.desc(sid), st)
            elif o[0] == 'L':
                self.ev('doublefree', ins, '%s is released while still linked to its parent' % self.desc(sid), st)
            elif o[0] == 'B':
                self.ev('freeborrowed', ins, 'releases %s which it does not own' % self.desc(sid), st)
            if o[0] == 'O' and fams is not None and o[1] not in fams and o[1] not in ('param', 'ref', 'user', 'elem') and \
                    not (o[1] == 'mem' and deep and name.startswith('ec_') and self.same_struct(st, sid, name)):
                self.ev('mismatch', ins, '%s (%s) is released with %s()' % (self.desc(sid), o[1], name), st)
                if not deep and o[1] not in ('mem', 'str', 'libc'):
                    self.ev('leak', ins, 'what %s (%s) holds is lost by %s()' % (self.desc(sid), o[1], name), st)
        if o is not None and o[0] == 'O' and self.in_list(st, sid):
            self.ev('doublefree', ins, '%s is released while still in a list' % self.desc(sid), st)
        m = self.meta.get(sid[0]) if isinstance(sid[0], int) else None
        if m is not None and m[0] == 'load' and len(m) > 3:
            st.mem[(m[3], ('HR', self.elt_org(m[1:3])))] = ('h', 1)
        for k, x in list(st.mem.items()):
            if x[0] == 's' and x[1] == sid and isinstance(k[1], int) and k[0][0] != 'a':
                hs = [h for h in st.mem if h[0] == k[0] and isinstance(h[1], tuple) and h[1][0] == 'H']
                for h in hs:
                    if len(hs) == 1 or self.org_matches(h[1][1], k[1]):
                        st.mem[(k[0], ('HR', h[1][1]))] = ('h', 1)
        if not deep:
            self.held_elements(st, ins, sid)
            self.shallow_obligation(st, ins, sid)
        else:
            self.deep(st, sid, 'F')
        st.own[sid] = ('F', o[1] if o else '?', ins.id)

    def in_list(self, st, sid):
        """the last pointer of a list that is not ours was made to point to the object, and still does"""
        for k, x in st.mem.items():
            if x[0] == 's' and x[1] == sid and x[2] == 0 and k[1] == 0 and self.foreign(st, k[0]):
                m = self.meta.get(k[0][0])
                if m[0] == 'load' and m[1] is not None and (self.di.field(m[1], m[2]) or '').endswith('tqh_last'):
                    return True
        return False

    def elt_org(self, org):
        return tuple(org) if org and org[0] is not None and org[1] else None

    def org_matches(self, org, off):
        """can a field at `org` of an array element sit at byte offset off?"""
        if org is None:
            return True
        sz = self.mod.types.size(('named', org[0]))
        return sz and off % sz == org[1]

    def held_elements(self, st, ins, sid):
        held = {k[1][1]: v for k, v in st.mem.items() if k[0] == sid and isinstance(k[1], tuple) and k[1][0] == 'H'}
        done = {k[1][1] for k in st.mem if k[0] == sid and isinstance(k[1], tuple) and k[1][0] == 'HR'}
        for org, v in held.items():
            if org not in done and '*' not in done:
                self.ev('leak', ins, 'elements of %s (%s%s) are lost' % (
                    self.desc(sid), v[1], ', field ' + str(self.di.field(*org)) if org else ''), st,
                    lost=self.where(ins))
        if done:
            for k, x in list(st.mem.items()):
                if k[0] == sid and x[0] == 's':
                    self.untrack(st, x[1])

    def same_struct(self, st, sid, name):
        t = st.memo.get((sid, 'T'))
        f = self.mod.funcs.get(name)
        p = self.di.param(f, 0) if f is not None else None
        if t is None or p is None:
            return True
        return self.di.struct_name(t[1]) in p[2]

    def deep(self, st, sid, newst, seen=None):
        seen = seen or set()
        if sid in seen:
            return
        seen.add(sid)
        for d in (st.mem, st.memo):
            for k in [k for k in d if k[0] == sid]:
                x = d[k]
                if x[0] == 's' and x[1] != sid:
                    o = st.own.get(x[1])
                    if o is not None and o[0] in 'OL':
                        st.own[x[1]] = (newst, o[1], o[2])
                        self.deep(st, x[1], newst, seen)
                if k[1] != 'T':
                    del d[k]

    def shallow_obligation(self, st, ins, sid):
        t = st.memo.get((sid, 'T'))
        if t is None:
            return
        fields = {}
        for d in (st.memo, st.mem):
            for k, x in d.items():
                if k[0] == sid and isinstance(k[1], int):
                    s = 'live'
                    if x[0] == 'i':
                        s = 'null'
                    elif x[0] == 's':
                        o = st.own.get(x[1])
                        s = 'live' if o is None else o[0]
                        if o is not None and o[0] == 'O':
                            s = 'O'
                    fields[k[1]] = s
        d = st.mem.get((sid, 'D'))
        o = st.own.get(sid)
        self.free_obl.append((self.di.struct_name(t[1]), t[1], fields, d, o, ins, self.trace(st)))

    def consume(self, st, ins, v, name):
        if v[0] == 'i' or v[0] != 's':
            return
        sid = v[1]
        o = st.own.get(sid)
        if o is not None:
            if o[0] == 'F':
                self.ev('uaf', ins, 'hands over %s after it was released' % self.desc(sid), st)
            elif o[0] == 'C':
                self.ev('doublefree', ins, '%s is handed over twice' % self.desc(sid), st)
            elif o[0] == 'B':
                self.ev('freeborrowed', ins, 'hands over %s which it does not own' % self.desc(sid), st)
        self.deep(st, sid, 'C')
        st.own[sid] = ('C', o[1] if o else '?', ins.id)

    # ------------------------------------------------------------ leaks
    def on_unreachable(self, st, sid, o, b, s):
        ins = None
        if sid in self.zloc:
            o = (o[0], o[1], self.zloc[sid])
        if isinstance(o[2], int):
            ins = self.info.byid.get(o[2])
        if sid[0] == 'p':
            msg = '%s is neither released nor kept' % self.desc(sid)
            self.ev('noconsume', self.cur_exit, msg, st)
            return
        last = self.info.fn.blocks[b][-1] if b else self.cur_exit
        lost = self.where(last)
        self.ev('leak', ins, '%s is lost' % self.desc(sid), st, lost=lost)

    cur_exit = None

    # ------------------------------------------------------------ calls
    def do_call(self, st, ins):
        cal = self.val(st, ins.a[0])
        args = [self.val(st, a) for a in ins.a[1:]]
        name = None
        c = None
        if cal[0] == 'g':
            name = cal[1]
            if name.startswith('llvm.'):
                return self.intrinsic(st, ins, name, args)
            c = self.spec.callee(name)
        else:
            m = self.meta.get(cal[1][0]) if cal[0] == 's' and isinstance(cal[1][0], int) else None
            if m is not None and m[0] == 'load' and m[1] is not None:
                org = m[1:3]
                c = self.spec.slot(*org)
                name = '%s->%s' % (self.di.struct_name(org[0]), self.di.field(*org))
            if m is not None and m[0] == 'load' and len(m) > 3 and m[3][0] == 'g':
                c = contracts.GSLOTS.get(m[3][1])
                name = m[3][1]
            if c is None and cal[0] == 's' and cal[1] == self.cb:
                c = C('void', {0: 'free'})
            name = name or '(*fn)'
        self.sites['call'].add(ins.id)
        short = frontend.basename(name)
        if self.contract is not None and self.contract.special == 'vaconsume' and any(
                self.base_of(a) is not None and self.is_va(self.base_of(a)[0]) for a in args):
            st.gh['va'] = 'end'
        # use of released objects
        for n, a in enumerate(args):
            if a[0] == 's' and a[1] in st.own and st.own[a[1]][0] == 'F':
                mode = self.spec.argmode(name, c, n)
                if mode not in ('free', 'consume') and not (c and c.special == 'realloc' and n == 0):
                    self.ev('uaf', ins, 'passes %s to %s() after it was released' % (self.desc(a[1]), short), st)
            if a[0] == 's' and not self.nonnull(st, a) and a[2] == 0:
                m = self.meta.get(a[1][0]) if isinstance(a[1][0], int) else None
                if m is not None and (m[0] == 'alloc' or m[0] == 'call' and m[2] == 'fptr'):
                    self.maybe_null_args.append((name, n, ins, self.desc(a[1]), self.trace(st)))
                elif a[1][0] == 'p':
                    self.maybe_null_args.append((name, n, ins, a[1], None))
            elif a == ('i', 0) and ins.xtys[n][0] == 'ptr' if False else False:
                pass
        r = self.pre_call(st, ins, short, c, args)
        if r is not None:
            return r
        if c is None:
            return self.default_call(st, ins, name, args)
        k = c.ret
        if k == 'noreturn':
            return []
        if k == 'errno':
            st.env[ins.res] = ('g', 'errno', 0)
            return None
        if c.special == 'realloc':
            return self.call_realloc(st, ins, short, c, args)
        if k == 'memcpy':
            self.memcpy(st, ins, args)
            if ins.res:
                st.env[ins.res] = args[0]
            return None
        if k == 'memset':
            self.memset(st, ins, args)
            if ins.res:
                st.env[ins.res] = args[0]
            return None
        if k in ('regcomp', 'regfree', 'yinit', 'ydelete', 'yload', 'ydocdelete'):
            return self.resource(st, ins, k, args)
        # pure functions: same arguments, same result until the object changes
        if c.pure and ins.res and args and args[0][0] in 'sag':
            b = self.base_of(args[0])[0]
            key = (b, ('P', short) + tuple(args))
            v = st.memo.get(key)
            if v is None:
                v = self.result(st, ins, short, c, args)
                st.memo[key] = v
            st.env[ins.res] = v
            return None
        alts = [st]
        # outcome-dependent effects need a split
        outs = [(n, m) for n, m in c.args.items() if n < len(args) and (m == 'consume_ok' or m.startswith('out:'))]
        for n, a in enumerate(args):
            mode = self.spec.argmode(name, c, n)
            if mode == 'rw':
                self.havoc_arg(st, ins, a, short, n)
            elif mode == 'free':
                deep = not (short in ('__ec_free', 'free', 'ec_free_func') or c is contracts.SLOTS.get(
                    ('ec_malloc_handler', 'free')))
                self.release(st, ins, a, short, deep)
            elif mode == 'consume' and c.special == 'plink':
                self.link(st, ins, a, args[0], short)
            elif mode == 'consume':
                self.consume(st, ins, a, short)
            elif mode == 'hold':
                self.hold(st, ins, a)
        if c.special == 'pdup' and ins.res:
            v = self.result(st, ins, short, c, args)
            st.env[ins.res] = v
            b = self.base_of(args[2])
            if b is not None and b[1] is not None:
                self.havoc(st, args[2])
                st.mem[b] = v
            return None
        if c.special == 'punlink':
            self.unlink(st, ins, args[0])
        if c.special == 'pfreechildren' and args[0][0] == 's' and args[0][2] == 0:
            off = self.di.offset('ec_pnode', 'children')
            if off is not None:
                st.mem[(args[0][1], off)] = ('i', 0)
        if c.special and c.special.startswith('set:'):
            _, vn, fn = c.special.split(':')
            fv = args[int(fn)]
            vv = args[int(vn)]
            if fv == ('i', 0):
                if vv[0] != 's' or st.own.get(vv[1], ('',))[0] != 'O':
                    self.hold(st, ins, vv)      # otherwise nobody else is going to release it
            else:
                self.consume(st, ins, vv, short)
        if outs:
            ok = st.copy()
            bad = st
            self.meta[ins.id] = ('call', short, 'int0')
            # failure
            if ins.res:
                sid = self.fresh(bad, ins.id)
                bad.syms[sid] = (-INF, -1, frozenset())
                bad.env[ins.res] = ('s', sid, 0)
            self.failed(bad, ins.id, short)
            for n, m in outs:
                if m.startswith('out:'):
                    b = self.base_of(args[n])
                    if b and b[1] is not None and m[4:] != 'user':
                        self.havoc_slot(bad, b)
                        bad.mem[(b[0], b[1])] = ('u',) if m[4:] == 'libc' else ('i', 0)
            # success
            if ins.res:
                if c.ret == 'int0':
                    ok.env[ins.res] = ('i', 0)
                else:
                    sid = self.fresh(ok, ins.id)
                    ok.syms[sid] = (0, INF, frozenset())
                    ok.env[ins.res] = ('s', sid, 0)
            for j, (n, m) in enumerate(outs):
                if m == 'consume_ok':
                    self.consume(ok, ins, args[n], short)
                else:
                    b = self.base_of(args[n])
                    if b is not None and b[1] is not None:
                        self.havoc_slot(ok, b)
                    else:
                        self.havoc(ok, args[n])
                    fam = m[4:]
                    tag = 'o%d_%d' % (ins.id, j)
                    self.meta[tag] = ('alloc', fam, short)
                    sid = self.fresh(ok, tag)
                    ok.own[sid] = ('O', fam, ins.id)
                    if fam != 'user' and fam != 'helps' and fam != 'completions':
                        ok.syms[sid] = (-INF, INF, frozenset([0]))
                    if b is not None and b[1] is not None:
                        ok.mem[(b[0], b[1])] = ('s', sid, 0)
                    self.sites['alloc'].add(ins.id)
            return [ok, bad]
        if ins.res:
            st.env[ins.res] = self.result(st, ins, short, c, args)
            if c.special == 'plinked':
                v = st.env[ins.res]
                if v[0] == 's' and v[1] not in st.own:
                    st.own[v[1]] = ('L', 'pnode', ins.id)
        if k == 'own:table' and len(args) > 1 and self.base_of(args[1]) is not None:
            # an array of owned objects and its length
            b = self.base_of(args[1])
            v = st.env[ins.res]
            if b[1] is not None and v[0] == 's':
                s2 = st.copy()
                st.mem[b] = ('i', 0)
                tag = 'n%d' % ins.id
                self.meta[tag] = ('call', short, 'len')
                sid = self.fresh(s2, tag)
                s2.syms[sid] = (1, INF, frozenset())
                s2.mem[b] = ('s', sid, 0)
                s2.mem[(v[1], ('H', None))] = ('h', 'elements')
                return [st, s2]
        return self.post_call(st, ins, short, c, args)

    def link(self, st, ins, v, parent, name):
        self.consume(st, ins, v, name)
        self.forget_children(st, v)
        if v[0] == 's':
            st.own[v[1]] = ('L', st.own[v[1]][1], ins.id)
            b = self.base_of(parent)
            if b is not None:
                st.mem[(b[0], ('kid', v[1]))] = v

    def unlink(self, st, ins, v):
        if v[0] != 's':
            return
        o = st.own.get(v[1])
        if o is not None and o[0] == 'F':
            self.ev('uaf', ins, 'unlinks %s after it was released' % self.desc(v[1]), st)
        st.own[v[1]] = ('O', o[1] if o else 'pnode', ins.id)
        for k in [k for k in st.mem if k[1] == ('kid', v[1])]:
            del st.mem[k]
        self.forget_children(st, v)

    def forget_children(self, st, v):
        """the list of children of some parse node changed"""
        lo = self.di.offset('ec_pnode', 'children')
        for d in (st.mem, st.memo):
            for k in [k for k, x in d.items() if k[0][0] != 'a' and isinstance(k[1], int) and
                      (x == v or lo is not None and k[1] in (lo, lo + 8) and st.memo.get((k[0], 'T'), ('', ''))[1]
                       .endswith('ec_pnode'))]:
                del d[k]

    def pre_call(self, st, ins, name, c, args):
        return None

    def post_call(self, st, ins, name, c, args):
        return None

    def havoc_slot(self, st, b):
        for d in (st.mem, st.memo):
            d.pop(b, None)

    def hold(self, st, ins, a):
        # the callee remembers the pointer: it stays reachable
        if a[0] == 's' and a[1] in st.own and st.own[a[1]][0] == 'O':
            del st.own[a[1]]
        self.havoc(st, a)

    def havoc_arg(self, st, ins, a, name, n):
        if name.startswith('ec_node_type->') and a[0] == 's' and self.type_of(st, a[1]) == 'ec_node':
            # callbacks of a node type only know its private data, not the structure in front of it
            sz = self.mod.types.size(('named', 'struct.ec_node')) or 0
            keep = []
            for d in (st.mem, st.memo):
                keep += [(d, k, d.pop(k)) for k in list(d) if k[0] == a[1] and isinstance(k[1], int) and k[1] < sz]
            if st.mem.get((a[1], 'D')) == ('i', 0):
                for f in ('config', 'id', 'attrs'):
                    o = self.di.offset('ec_node', f)
                    if o is not None and all(k[1] != (a[1], o) for k in keep):
                        keep.append((st.mem, (a[1], o), ('i', 0)))
            self.havoc(st, a)
            for d, k, v in keep:
                d[k] = v
            return
        keep = None
        if a[0] == 's' and self.type_of(st, a[1]) == 'ec_comp':
            # known to complete.c only; every completion step puts it back
            keep = (a[1], self.di.offset('ec_comp', 'cur_pstate'))
            kv = [(d, d[keep]) for d in (st.mem, st.memo) if keep in d]
            for d, v in kv:
                del d[keep]
        self.havoc(st, a)
        if keep is not None:
            for d, v in kv:
                d[keep] = v

    def result(self, st, ins, name, c, args):
        k = c.ret
        if k.startswith('own:'):
            fam = k[4:]
            if c.special == 'clone' and args[0] == ('i', 0):
                return ('i', 0)
            if c.special == 'clone' and args[0][0] == 's' and not self.is_used(ins.res):
                self.meta[ins.id] = ('alloc', fam, name)
                sid = self.fresh(st, ins.id)
                st.own[sid] = ('O', fam, ins.id)
                st.syms[sid] = (-INF, INF, frozenset([0]))
                st.gh[('xref', args[0][1])] = ('s', sid, 0)
                return ('s', sid, 0)
            self.meta[ins.id] = ('alloc', fam, name)
            sid = self.fresh(st, ins.id)
            st.own[sid] = ('O', fam, ins.id)
            self.sites['alloc'].add(ins.id)
            if c.special == 'clone' and self.nonnull(st, args[0]):
                st.syms[sid] = (-INF, INF, frozenset([0]))
            if c.special == 'zero' or self.spec.returns_zeroed(name):
                st.mem[(sid, 'D')] = ('i', 0)
            elif fam in ('mem', 'libc') and name in ('__ec_malloc', 'malloc'):
                st.mem[(sid, 'D')] = ('u',)
            return ('s', sid, 0)
        kind = k
        if c.special == 'fallible':
            kind = 'fptr'
        self.meta[ins.id] = ('call', name, kind)
        sid = self.fresh(st, ins.id)
        v = ('s', sid, 0)
        if k == 'ptr!':
            st.syms[sid] = (-INF, INF, frozenset([0]))
        elif k == 'int0':
            st.syms[sid] = (-INF, 0, frozenset())
        elif k == 'len':
            st.syms[sid] = (0, INF, frozenset())
        elif k == 'bool':
            st.syms[sid] = (0, 1, frozenset())
        elif k == 'parse':
            st.syms[sid] = (-1, INT_MAX, frozenset())
        return v

    def is_used(self, name):
        u = getattr(self, '_used', None)
        if u is None:
            u = set()
            for b in self.fn.blocks.values():
                for i in b:
                    for a in i.a:
                        if isinstance(a, tuple) and a and a[0] == 'v':
                            u.add(a[1])
            self._used = u
        return name in u

    def default_call(self, st, ins, name, args):
        """function without a contract"""
        self.unknown.add(name)
        for n, a in enumerate(args):
            mode = self.spec.argmode(name, None, n)
            if mode == 'rw':
                if a[0] == 's' and a[1] in st.own and st.own[a[1]][0] == 'O' and self.spec.escapes(name, n):
                    del st.own[a[1]]
                self.havoc(st, a)
        if ins.res:
            self.meta[ins.id] = ('call', frontend.basename(name), 'any')
            sid = self.fresh(st, ins.id)
            st.env[ins.res] = ('s', sid, 0)
            rc = self.spec.ret_consts(name)
            if rc:
                lo, hi = min(rc), max(rc)
                st.syms[sid] = (lo, hi, frozenset(x for x in range(lo, hi + 1) if x not in rc)
                                if hi - lo <= 64 else frozenset())
        return None

    def call_realloc(self, st, ins, name, c, args):
        old = args[0]
        fam = c.ret[4:]
        self.meta[ins.id] = ('alloc', fam, name)
        self.sites['alloc'].add(ins.id)
        bad = st.copy()
        bad.env[ins.res] = ('i', 0)
        self.failed(bad, ins.id, name)
        ok = st
        sid = self.fresh(ok, ins.id)
        ok.own[sid] = ('O', fam, ins.id)
        ok.syms[sid] = (-INF, INF, frozenset([0]))
        res = [ok, bad]
        if old[0] == 's':
            o = ok.own.get(old[1])
            if o is not None and o[0] in 'FC':
                self.ev('uaf', ins, 'passes %s to %s() after it was released' % (self.desc(old[1]), name), st)
            if o is not None and o[0] == 'O' and o[1] not in RELEASE['__ec_free' if fam == 'mem' else 'free'] and \
                    o[1] not in ('param', 'ref', 'user', 'elem'):
                self.ev('mismatch', ins, '%s (%s) is resized with %s()' % (self.desc(old[1]), o[1], name), st)
            if o is not None and o[0] == 'B':
                self.ev('freeborrowed', ins, 'resizes %s which it does not own' % self.desc(old[1]), st)
            for d in (ok.mem, ok.memo):
                for k in [k for k in d if k[0] == old[1]]:
                    d[(sid, k[1])] = d.pop(k)
            ok.mem.pop((sid, 'D'), None)
            ok.own[old[1]] = ('F', o[1] if o else '?', ins.id)
        ok.env[ins.res] = ('s', sid, 0)
        return res

    def memcpy(self, st, ins, args):
        d, s = self.base_of(args[0]), self.base_of(args[1])
        self.deref(st, ins, args[0], 'memcpy')
        self.deref(st, ins, args[1], 'memcpy')
        if d is None:
            return
        base, off = d
        n = args[2] if len(args) > 2 else ('u',)
        if s is not None and s[0][0] == 'a' and s[1] is not None and n[0] == 'i':
            self.res_moved(st, s[0], s[1], n[1])
        if n[0] == 'i' and off is not None:
            for dd in (st.mem, st.memo):
                for k in [k for k in dd if k[0] == base and isinstance(k[1], int) and off <= k[1] < off + n[1]]:
                    dd.pop(k)
            if s is not None and s[1] is not None:
                for k, v in list(st.mem.items()) + list(st.memo.items()):
                    if k[0] == s[0] and isinstance(k[1], int) and s[1] <= k[1] < s[1] + n[1]:
                        st.mem[(base, off + k[1] - s[1])] = v
            if s is None or st.mem.get((s[0], 'D')) is None:
                st.mem.pop((base, 'D'), None)
            return
        for dd in (st.mem, st.memo):
            for k in [k for k in dd if k[0] == base and k[1] != 'T']:
                x = dd.pop(k)
                self.release_into_unknown(st, x)
        if s is not None:
            for k, v in list(st.mem.items()):
                if k[0] == s[0] and isinstance(k[1], tuple) and k[1][0] == 'H':
                    st.mem[(base, k[1])] = v

    def memset(self, st, ins, args):
        d = self.base_of(args[0])
        self.deref(st, ins, args[0], 'memset')
        if d is None:
            return
        base, off = d
        for dd in (st.mem, st.memo):
            for k in [k for k in dd if k[0] == base and k[1] != 'T']:
                if off is not None and isinstance(k[1], int) and args[2][0] == 'i' and \
                        not (off <= k[1] < off + args[2][1]):
                    continue
                x = dd.pop(k)
                self.release_into_unknown(st, x)
        if args[1] == ('i', 0) and off == 0:
            st.mem[(base, 'D')] = ('i', 0)

    def intrinsic(self, st, ins, name, args):
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.memcpy(st, ins, args)
        elif name.startswith('llvm.memset'):
            self.memset(st, ins, args)
        elif name.startswith(('llvm.va_start', 'llvm.va_copy')):
            self.res_open(st, ins, 'va_list', args[0], ins.a[1])
        elif name.startswith('llvm.va_end'):
            self.res_close(st, ins, 'va_list', args[0], ins.a[1])
        elif ins.res:
            st.env[ins.res] = self.newsym(st, ins, ('expr',))
        return None

    # ------------------------------------------------------------ values that need a matching clean-up call
    RES = {'regcomp': ('regex', True), 'yinit': ('yaml parser', True), 'yload': ('yaml document', True),
           'regfree': ('regex', False), 'ydelete': ('yaml parser', False), 'ydocdelete': ('yaml document', False)}

    def resource(self, st, ins, k, args):
        kind, opens = self.RES[k]
        n = 1 if k == 'yload' else 0
        p = args[n]
        self.sites['alloc' if opens else 'free'].add(ins.id)
        if not opens:
            self.res_close(st, ins, kind, p, ins.a[1 + n])
            return None
        for i, a in enumerate(args):
            if a[0] in 'sa' and not (k == 'regcomp' and i != n):
                self.havoc(st, a)
        self.meta[ins.id] = ('call', k, 'any')
        bad = st.copy()
        if k == 'regcomp':
            sid = self.fresh(bad, ins.id)
            bad.syms[sid] = (1, INF, frozenset())
            if ins.res:
                bad.env[ins.res] = ('s', sid, 0)
                st.env[ins.res] = ('i', 0)
        elif ins.res:
            bad.env[ins.res] = ('i', 0)
            st.env[ins.res] = ('i', 1)
        self.res_open(st, ins, kind, p, ins.a[1 + n])
        return [st, bad]

    def res_open(self, st, ins, kind, p, op):
        b = self.base_of(p)
        if b is None:
            return
        if b[0][0] == 'a' and b[1] is not None:
            st.gh[('res', kind, b[0], b[1])] = ins.id
        elif b[0] in st.own and st.own[b[0]][0] == 'O':
            st.mem[(b[0], ('H', self.elt_org(self.origin(op))))] = ('h', kind)

    def res_close(self, st, ins, kind, p, op):
        b = self.base_of(p)
        if b is None:
            return
        k = ('res', kind, b[0], b[1])
        if b[0][0] == 'a':
            if k in st.gh:
                del st.gh[k]
            elif b[1] is not None and kind != 'va_list':
                self.ev('badfree', ins, 'clean-up of a %s that is not initialised here' % kind, st)
            return
        org = self.origin(op)
        st.mem[(b[0], ('HR', self.elt_org(org)))] = ('h', 1)
        self.note_embedded(st, b[0], b[1], org)

    def note_embedded(self, st, base, off, org):
        pass

    def res_moved(self, st, base, off, n):
        """the bytes of a local value were copied elsewhere: the copy is the one to clean up"""
        for k in [k for k in st.gh if k[0] == 'res' and k[2] == base and off <= k[3] < off + n]:
            del st.gh[k]

    def res_exit(self, st, ins):
        for k, iid in st.gh.items():
            if k[0] == 'res':
                self.ev('leak', self.info.byid.get(iid), 'a %s is not cleaned up' % k[1], st, lost=self.where(ins))

    # ------------------------------------------------------------ exits
    def at_exit(self, st, ins, rv):
        self.cur_exit = ins
        self.res_exit(st, ins)
        if self.contract is not None and self.contract.special == 'vaconsume' and st.gh.get('va') != 'end':
            self.ev('noconsume', ins, 'a variable argument is neither released nor kept', st)
        st.env = {}
        roots = [rv] if rv is not None and rv[0] in 'sac' else []
        if self.contract is not None and rv is not None and rv[0] == 's' and self.fn.rett[0] == 'ptr':
            o = st.own.get(rv[1])
            if o is not None and o[0] == 'F':
                self.ev('uaf', ins, 'returns %s after it was released' % self.desc(rv[1]), st)
            if self.contract.ret.startswith('own:') and o is not None and o[0] == 'C':
                self.ev('doublefree', ins, 'returns %s as new although it was handed over' % self.desc(rv[1]), st)
            m = self.meta.get(rv[1][0]) if isinstance(rv[1][0], int) else None
            if self.contract.ret.startswith('own:') and o is None and rv[2] == 0 and m is not None and m[0] == 'load' and \
                    m[1] is not None and 'coarse' not in st.gh and self.contract.ret != 'own:pnode':
                self.ev('freeborrowed', ins, 'returns a pointer found in a structure as a new object without taking a '
                        'reference', st)
            if self.contract.ret.startswith('own:') and o is not None and o[0] == 'B':
                self.ev('freeborrowed', ins, 'returns %s as a new object without taking a reference' %
                        self.desc(rv[1]), st)
        if self.contract is not None and rv is not None and rv[0] == 's' and rv[1] in st.own and \
                st.own[rv[1]][0] == 'O' and self.fn.rett[0] == 'ptr' and self.contract.ret in ('ptr', 'ptr!') and \
                st.own[rv[1]][1] != 'param':
            # documented as borrowed: the caller will not release it; must be held elsewhere
            roots = []
        self.check_exit(st, ins, rv)
        # consume_ok parameters
        self.exit_consumed = set()
        if self.contract is not None:
            for n, m in self.contract.args.items():
                if m == 'consume_ok' and n in self.params:
                    sid = self.params[n]
                    o = st.own.get(sid)
                    cls = self.retclass(st, rv)
                    if o is not None and cls == 'ok' and o[0] == 'O':
                        self.exit_consumed.add(n)
                    if o is not None and cls == 'fail' and o[0] in 'FC':
                        self.ev('consumefail', ins, '%s is released although the call fails' % self.desc(sid), st)
        if self.contract is not None and self.contract.ret == 'own:pnode' and rv is not None and rv[0] == 's' and \
                rv[1] not in st.own:
            # a node inside a new tree stands for the whole tree
            for sid in [x for x, o in st.own.items() if o[0] == 'O' and o[1] == 'pnode']:
                self.untrack(st, sid)
        reach = self.gc(st, None, None, roots)
        self.exit_consumed = set()
        if self.is_destructor():
            return
        # dangling pointers left in memory that outlives the call
        for dd in (st.mem, st.memo):
            for k, v in dd.items():
                if v[0] == 's' and v[1] in st.own and st.own[v[1]][0] == 'F' and k[0] in reach and \
                        k[0] != v[1] and isinstance(k[1], int):
                    ob = st.own.get(k[0])
                    if ob is not None and ob[0] == 'F':
                        continue
                    if k[0][0] == 'a':
                        continue
                    if k[0][0] == 'p' and k[1] == 0 and self.retclass(st, rv) == 'fail' and \
                            (self.di.param(self.fn, k[0][1]) or ('', '', ''))[2].endswith('* *'):
                        continue
                    t = st.memo.get((k[0], 'T'))
                    f = '%s.%s' % (self.di.struct_name(t[1]), self.di.field(t[1], k[1])) if t else \
                        ('%s' % k[0][1] if k[0][0] == 'g' else 'field at offset %s' % k[1])
                    ri = self.info.byid.get(st.own[v[1]][2])
                    self.ev('dangling', ri or ins, '%s still points to memory released here' % f, st)

    def is_destructor(self):
        """releases an object whose memory disappears with it"""
        if any(f == 'free_priv' for _, f in self.spec.slot_of.get(self.fname, ())):
            return True
        c = self.contract
        return c is not None and 'free' in c.args.values()

    def retclass(self, st, rv):
        """ok / fail / unknown according to the contract's return kind"""
        c = self.contract
        if c is None or rv is None:
            return 'unknown'
        k = c.ret
        if k.startswith('own:') or k == 'ptr' and c.special == 'fallible':
            if rv == ('i', 0):
                return 'fail'
            return 'ok' if self.nonnull(st, rv) else 'unknown'
        if k in ('int0', 'int', 'parse'):
            lo, hi = self.rng(st, rv)
            if hi < 0:
                return 'fail'
            if lo >= 0:
                return 'ok'
        return 'unknown'

    def check_exit(self, st, ins, rv):
        pass
