%% module setpos setpos.rs
%% header
use vstd::std_specs::cmp::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::btree::*;
use super::boundedint::*;
use super::postrait::*;
use super::grid::*;
use super::gridbool::*;
%% prelude
broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::std_specs::btree::group_btree_axioms};
%% ghost trait SetPos
    /// what the backend asks of the position type
    spec fn stok() -> bool;
    /// the type of the value has room for the positions
    spec fn swf(&self) -> bool;
    /// the position is in the set
    spec fn has(&self, p: P) -> bool;
%% fn trait SetPos::contains :: ret=r
    requires Self::stok(), self.swf(), pos.pwf(),
    ensures r == self.has(*pos),
%% fn trait SetPos::insert
    requires Self::stok(), old(self).swf(), pos.pwf(),
    ensures final(self).swf(), forall|q: P| q.pwf() ==> #[trigger] final(self).has(q) == (q == pos || old(self).has(q)),
%% fn trait SetPos::remove
    requires Self::stok(), old(self).swf(), pos.pwf(),
    ensures final(self).swf(), forall|q: P| q.pwf() ==> #[trigger] final(self).has(q) == (q != *pos && old(self).has(q)),
%% fn trait SetPos::set
    requires Self::stok(), old(self).swf(), pos.pwf(),
    ensures final(self).swf(), forall|q: P| q.pwf() ==> #[trigger] final(self).has(q) == (if q == pos { add } else { old(self).has(q) }),
%% ghost impl <Gridbool as SetPos<P,WORDS,SIZE>>
    open spec fn stok() -> bool { gpos::<P>() }
    open spec fn swf(&self) -> bool { gbok::<P>(WORDS as int) }
    open spec fn has(&self, p: P) -> bool { bits(self.0@)[gix(p)] }
%% foreach F A = contains pos, insert &pos, remove pos
%% fn <Gridbool as SetPos<P,WORDS,SIZE>>::@F@ :: optional
% start
    proof {
        let a = @A@;
        assert forall|q: P| q.pwf() implies 0 <= #[trigger] gix(q) < pw::<P>() * ph::<P>() && ((gix(q) == gix(*a)) == (q == *a)) by { lemma_gix(q, *a); }
    }
%% endforeach
%% ghost impl <HashSet as SetPos<P,WORDS,SIZE>>
    open spec fn stok() -> bool { obeys_key_model::<P>() }
    open spec fn swf(&self) -> bool { true }
    open spec fn has(&self, p: P) -> bool { self@.contains(p) }
%% fn <HashSet as SetPos<P,WORDS,SIZE>>::contains
%% fn <HashSet as SetPos<P,WORDS,SIZE>>::insert
%% fn <HashSet as SetPos<P,WORDS,SIZE>>::remove
%% ghost impl <BTreeSet as SetPos<P,WORDS,SIZE>>
    open spec fn stok() -> bool { key_obeys_cmp_spec::<P>() }
    open spec fn swf(&self) -> bool { true }
    open spec fn has(&self, p: P) -> bool { self@.contains(p) }
%% fn <BTreeSet as SetPos<P,WORDS,SIZE>>::contains
%% fn <BTreeSet as SetPos<P,WORDS,SIZE>>::insert
%% fn <BTreeSet as SetPos<P,WORDS,SIZE>>::remove
