"""All rules together: one pass of the engine per function yields the events of every property."""
import collections

import contracts
import frontend
from memrules import MemEngine, NULLSTR
from failrules import FailMixin
from treerules import TreeMixin
from bounds import BoundsMixin
from shared import SharedMixin
from alias import AliasMixin
from typed import TypedMixin, post_typed
from progress import post_progress
from recur import RecurMixin
from family import FamilyMixin, post_family
from schema import SchemaMixin, post_schema
from restore import RestoreMixin
from backptr import BackMixin
from absent import AbsentMixin, post_absent
from atomic import AtomicMixin, post_atomic
from effects import EffectMixin, post_effects
from owns import OWN
from destroy import DestroyMixin, post_free_priv, post_overwrite


class RuleEngine(FamilyMixin, RecurMixin, SchemaMixin, TypedMixin, RestoreMixin, BackMixin, AliasMixin, SharedMixin, BoundsMixin, AbsentMixin, TreeMixin, AtomicMixin, FailMixin, DestroyMixin, EffectMixin, MemEngine):
    def __init__(self, *a, **k):
        MemEngine.__init__(self, *a, **k)
        self.fresh_priv = set()
        self.is_free_priv = any(f == 'free_priv' for _, f in self.spec.slot_of.get(self.fname, ()))
        self.privs = set()
        self.privs_freed = set()
        self.argroot = {}
        self.pend_ids = set()
        self.absent_args = []
        self.unset_use = {}
        self.effects = {}
        self.gmods = {}
        self.partials = {}
        self.wfields = set()
        self.ctor = set()
        self.owning_locals = self.find_owning_locals()
        self.ow_pending = {}
        self.calls_made = set()
        self.privarg = {}
        self.fam_store = {}
        self.fam_rel = {}
        self.privuse = {}
        self.keys_read = set()
        self.set_writes = {}
        self.child_refs = {}
        self.child_counts = {}
        self.priv_src = {}
        self.obl = collections.defaultdict(set)     # rule -> instances seen

    def find_owning_locals(self):
        """local variables that are structures owning what they point to"""
        out = {}
        for b in self.fn.blocks.values():
            for i in b:
                if i.op == 'alloca' and i.ty[0] == 'named' and self.di.struct_name(i.ty[1]) in OWN:
                    out[('a', i.res)] = self.di.struct_name(i.ty[1])
        return out

    max_states = 250000
    max_time = 240

    def export_facts(self):
        return dict(
            self.export_effects(),
            maybe_null=[(n, k, self.where(i), d, tr) for n, k, i, d, tr in self.maybe_null_args],
            absent_args=[(n, k, self.where(i), d, tr) for n, k, i, d, tr in self.absent_args],
            unset_use=list(self.unset_use.items()),
            null_deref=sorted(self.null_deref_params),
            partials=[(k[1], k[2]) + v for k, v in self.partials.items()],
            atomic_args=sorted(self.atomic_scope()),
            wfields=sorted(x for x in self.wfields if x[1]),
            ow_pending=[(k[1], k[2], sorted(k[3])) + v for k, v in self.ow_pending.items()],
            ctor=sorted(self.ctor),
            privuse=list(self.privuse.items()),
            fam_store=list(self.fam_store.items()), fam_rel=list(self.fam_rel.items()),
            keys_read=sorted(self.keys_read), set_writes=list(self.set_writes.items()),
            child_refs=list(self.child_refs.items()), child_counts=list(self.child_counts.items()), priv_src=self.priv_src,
            privs=sorted(self.privs), privs_freed=sorted(self.privs_freed),
            obl={k: len(v) for k, v in self.obl.items()},
        )


def post(pr, sp, R):
    """rules over the facts of all functions together"""
    out = null_args(pr, sp, R)
    out += post_absent(pr, sp, R)
    out += post_free_priv(pr, sp, R)
    out += post_overwrite(pr, sp, R)
    out += post_effects(pr, sp, R)
    out += post_atomic(pr, sp, R)
    out += post_typed(pr, sp, R)
    out += post_schema(pr, sp, R)
    out += post_progress(pr, sp, R)
    out += post_family(pr, sp, R)
    return out


def null_args(pr, sp, R):
    """a possibly failed allocation is passed to a function that uses it without a check"""
    need = {}
    for f, r in R.funcs.items():
        for n in r['facts']['null_deref']:
            need.setdefault(f, set()).add(n)
    for f in NULLSTR:
        need[f] = {0, 1}
    for f in ('snprintf', 'vsnprintf', 'fgets', 'fread', 'sprintf', 'vsprintf'):
        need[f] = {0}
    for f in ('read', 'regexec', 'qsort', 'qsort_r', 'regerror'):
        need[f] = {1} if f in ('read', 'regexec') else {2} if f == 'regerror' else {0}
    ch = True
    while ch:
        ch = False
        for f, r in R.funcs.items():
            for name, k, loc, d, tr in r['facts']['maybe_null']:
                if isinstance(d, tuple) and d[0] == 'p' and k in need.get(name, ()) and \
                        d[1] not in need.setdefault(f, set()):
                    need[f].add(d[1])
                    ch = True
    out = []
    seen = set()
    for f, r in R.funcs.items():
        for name, k, loc, d, tr in r['facts']['maybe_null']:
            if not isinstance(d, str) or k not in need.get(name, ()):
                continue
            key = (f, name, k, loc[0] if loc else None)
            if key in seen:
                continue
            seen.add(key)
            out.append(dict(kind='nullderef', func=f, loc=loc, msg='passes %s to %s() without checking it for NULL'
                            % (d, frontend.basename(name)), trace=tr or []))
    R.null_need = need
    return out
