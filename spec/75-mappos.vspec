%% module mappos mappos.rs
%% header
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::btree::*;
use super::boundedint::*;
use super::postrait::*;
use super::dir::*;
use super::grid::*;
%% prelude
broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::std_specs::btree::group_btree_axioms};

/// q is the position displaced from p in direction d
pub open spec fn is_displ<P: PosT>(p: P, d: Dir, q: P) -> bool { q.pwf() && q.px() == p.px() + dx(d) && q.py() == p.py() + dy(d) }
pub open spec fn displ<P: PosT>(p: P, d: Dir) -> Option<P> { if exists|q: P| is_displ(p, d, q) { Some(choose|q: P| is_displ(p, d, q)) } else { None } }
pub proof fn lemma_displ<P: PosT>(p: P, d: Dir, q: P)
    requires is_displ(p, d, q),
    ensures displ(p, d) == Some(q),
{
    P::plaws();
}
/// the addition of positions and directions is the displacement
pub open spec fn addable<P: PosT + core::ops::Add<Dir, Output = Result<P, Error>>>() -> bool {
    (forall|p: P, d: Dir| p.pwf() ==> #[trigger] p.add_req(d))
    && forall|p: P, d: Dir, r: Result<P, Error>| p.pwf() && #[trigger] call_ensures(<P as core::ops::Add<Dir>>::add, (p, d), r) ==>
        match r { Ok(q) => is_displ(p, d, q), Err(_) => displ(p, d) is None }
}
/// a map of directions as a function
pub type CameFrom<P> = spec_fn(P) -> Option<Dir>;
/// the position after following k stored directions from p
pub open spec fn follow<P: PosT>(f: CameFrom<P>, p: P, k: int) -> Option<P>
    decreases k
{
    if k <= 0 { Some(p) } else {
        match follow(f, p, k - 1) {
            None => None,
            Some(q) => match f(q) { None => None, Some(d) => displ(q, d) },
        }
    }
}
/// the first k + 1 positions of the chain exist and none is the origin
pub open spec fn going<P: PosT>(f: CameFrom<P>, orig: P, dest: P, k: int) -> bool {
    forall|j: int| 0 <= j <= k ==> (#[trigger] follow(f, dest, j) matches Some(q) && q != orig)
}
/// what following the stored directions reports
pub open spec fn came_from<P: PosT>(f: CameFrom<P>, orig: P, dest: P, r: Result<Seq<Dir>, Error>) -> bool {
    if f(dest) is None { r == Err::<Seq<Dir>, Error>(Error::DestinationUnreachable) } else {
        match r {
            Ok(path) => going(f, orig, dest, path.len() - 1) && follow(f, dest, path.len() as int) == Some(orig)
                && forall|i: int| 0 <= i < path.len() ==> #[trigger] path[i] == opposite(f(follow(f, dest, path.len() - 1 - i)->0)->0),
            Err(Error::InvalidMovement) => exists|k: int| k >= 0 && going(f, orig, dest, k) && #[trigger] follow(f, dest, k + 1) is None,
            Err(Error::Loop) => forall|k: int| k >= 0 ==> #[trigger] going(f, orig, dest, k),
            _ => false,
        }
    }
}
pub proof fn lemma_follow_pwf<P: PosT>(f: CameFrom<P>, p: P, k: int)
    requires p.pwf(),
    ensures follow(f, p, k) matches Some(q) ==> q.pwf(),
    decreases k,
{
    if k > 0 { lemma_follow_pwf(f, p, k - 1); }
}
/// a chain that met the same position twice goes on for ever
pub proof fn lemma_cycle<P: PosT>(f: CameFrom<P>, orig: P, dest: P, i: int, j: int, k: int)
    requires 0 <= i < j, going(f, orig, dest, j), follow(f, dest, i) == follow(f, dest, j),
    ensures follow(f, dest, k) matches Some(q) && q != orig,
        k >= j ==> follow(f, dest, k) == follow(f, dest, k - (j - i)),
    decreases k,
{
    if k <= j { if k >= 0 { assert(follow(f, dest, k) is Some); } else { assert(follow(f, dest, 0) is Some); assert(follow(f, dest, k) == Some(dest)); } }
    else {
        lemma_cycle(f, orig, dest, i, j, k - 1);
        lemma_cycle(f, orig, dest, i, j, k - (j - i));
        assert(follow(f, dest, k - 1) == follow(f, dest, k - 1 - (j - i)));
    }
}
/// a chain of more positions than the grid has never ends
pub proof fn lemma_pigeon<P: PosT>(f: CameFrom<P>, orig: P, dest: P, n: int)
    requires gpos::<P>(), dest.pwf(), n >= pw::<P>() * ph::<P>(), going(f, orig, dest, n),
    ensures forall|k: int| k >= 0 ==> #[trigger] going(f, orig, dest, k),
{
    let s = Seq::new((n + 1) as nat, |i: int| gix(follow(f, dest, i)->0));
    assert forall|i: int| 0 <= i <= n implies 0 <= #[trigger] s[i] < n by {
        lemma_follow_pwf(f, dest, i); assert(follow(f, dest, i) is Some); lemma_gix(follow(f, dest, i)->0, dest);
    }
    if s.no_duplicates() {
        s.unique_seq_to_set();
        let r = vstd::set_lib::set_int_range(0, n);
        vstd::set_lib::lemma_int_range(0, n);
        assert(s.to_set().subset_of(r));
        vstd::set_lib::lemma_len_subset(s.to_set(), r);
        assert(false);
    }
    let (i, j) = choose|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j && s[i] == s[j];
    let a = if i < j { i } else { j }; let b = if i < j { j } else { i };
    lemma_follow_pwf(f, dest, a); lemma_follow_pwf(f, dest, b);
    assert(follow(f, dest, a) is Some && follow(f, dest, b) is Some);
    lemma_gix(follow(f, dest, a)->0, follow(f, dest, b)->0);
    assert(s[a] == s[b]);
    assert forall|k: int| k >= 0 implies #[trigger] going(f, orig, dest, k) by {
        assert forall|m: int| 0 <= m <= k implies (#[trigger] follow(f, dest, m) matches Some(q) && q != orig) by { lemma_cycle(f, orig, dest, a, b, m); }
    }
}
pub open spec fn map_fn<P: PosT, const WORDS: usize, const SIZE: usize, M: MapPos<Option<Dir>, P, WORDS, SIZE>>(m: M) -> CameFrom<P> { |p: P| m.at(p) }
%% ghost trait MapPos
    /// what the backend asks of the position type
    spec fn mtok() -> bool;
    /// the type of the value has room for the positions
    spec fn mwf(&self) -> bool;
    /// the item stored for a position
    spec fn at(&self, p: P) -> Item;
%% fn trait MapPos::new :: ret=r
    requires Self::mtok(),
    ensures r.mwf(), forall|p: P| p.pwf() ==> #[trigger] r.at(p) == item,
%% fn trait MapPos::get :: ret=r
    requires Self::mtok(), self.mwf(), pos.pwf(),
    ensures *r == self.at(*pos),
%% fn trait MapPos::set
    requires Self::mtok(), old(self).mwf(), pos.pwf(),
    ensures final(self).mwf(), forall|q: P| q.pwf() ==> #[trigger] final(self).at(q) == (if q == pos { item } else { old(self).at(q) }),
%% ghost impl <Grid as MapPos<Item,P,WORDS,SIZE>>
    open spec fn mtok() -> bool { gpos::<P>() }
    open spec fn mwf(&self) -> bool { gok::<P>(SIZE as int) }
    open spec fn at(&self, p: P) -> Item { self.0@[gix(p)] }
%% fn <Grid as MapPos<Item,P,WORDS,SIZE>>::new :: ret=r
% end
    proof {
        assert forall|p: P| p.pwf() implies 0 <= #[trigger] gix(p) < pw::<P>() * ph::<P>() by { lemma_gix(p, p); }
    }
%% fn <Grid as MapPos<Item,P,WORDS,SIZE>>::get
%% fn <Grid as MapPos<Item,P,WORDS,SIZE>>::set
% start
    proof { assert forall|q: P| q.pwf() implies 0 <= #[trigger] gix(q) < pw::<P>() * ph::<P>() && ((gix(q) == gix(pos)) == (q == pos)) by { lemma_gix(q, pos); } }
%% foreach M C = HashMap obeys_key_model, BTreeMap key_obeys_cmp_spec
%% ghost impl <(@M@,Item) as MapPos<Item,P,WORDS,SIZE>>
    open spec fn mtok() -> bool { @C@::<P>() }
    open spec fn mwf(&self) -> bool { true }
    open spec fn at(&self, p: P) -> Item { if self.0@.contains_key(p) { self.0@[p] } else { self.1 } }
%% fn <(@M@,Item) as MapPos<Item,P,WORDS,SIZE>>::new
%% fn <(@M@,Item) as MapPos<Item,P,WORDS,SIZE>>::get
%% fn <(@M@,Item) as MapPos<Item,P,WORDS,SIZE>>::set
%% endforeach
%% fn camefrom_into_path :: ret=r
    requires gpos::<P>(), pw::<P>() * ph::<P>() < usize::MAX, addable::<P>(), MapPosDir::mtok(), map.mwf(), orig.pwf(), dest.pwf(),
    ensures came_from(map_fn(map), *orig, *dest, match r { Ok(v) => Ok(v@), Err(e) => Err(e) }),
% start
    let ghost f = map_fn(map); let ghost mut k: int = 0; let ghost n = pw::<P>() * ph::<P>();
    proof {
        P::plaws(); P::Xtype::laws(); P::Ytype::laws();
        let w = pw::<P>(); let h = ph::<P>();
        assert(2 * (w - 1 + h - 1) <= usize::MAX) by (nonlinear_arith) requires w >= 1, h >= 1, w * h <= usize::MAX, w <= isize::MAX, h <= isize::MAX;
    }
% loop 1
    invariant
        gpos::<P>(), n == pw::<P>() * ph::<P>(), n < usize::MAX, addable::<P>(), MapPosDir::mtok(), map.mwf(), orig.pwf(), dest.pwf(), pos.pwf(),
        f == map_fn(map), f(*dest) is Some, 0 <= k, maxiter + k == n + 1, maxiter >= 1,
        going(f, *orig, *dest, k - 1), follow(f, *dest, k) == Some(pos),
        ret@.len() == k, forall|i: int| 0 <= i < k ==> #[trigger] ret@[i] == opposite(f(follow(f, *dest, k - 1 - i)->0)->0),
    decreases maxiter,
% loopstart 1
    proof {
        P::plaws(); assert(going(f, *orig, *dest, k));
        assert(follow(f, *dest, k + 1) == match f(pos) { None => None::<P>, Some(d) => displ(pos, d) });
        if maxiter == 1 { lemma_pigeon(f, *orig, *dest, k); }
    }
% loopend 1
    proof { k = k + 1; }
%% fn Sqrid::camefrom_into_path :: ret=r
    requires gpos::<P>(), pw::<P>() * ph::<P>() < usize::MAX, addable::<P>(), MapPosDir::mtok(), map.mwf(), orig.pwf(), dest.pwf(),
    ensures came_from(map_fn(map), *orig, *dest, match r { Ok(v) => Ok(v@), Err(e) => Err(e) }),
