%% module ties
%% header
use vstd::std_specs::cmp::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::btree::*;
use super::boundedint::*;
use super::postrait::*;
use super::pos::*;
use super::dir::*;
use super::posdir::*;
use super::grid::*;
use super::mappos::*;
use super::searchlib::*;
use super::error::Error;
%% prelude
/// the position types made by pos_create! meet what the searches ask of a position type
pub proof fn tie_pos<const XMAX: u16, const YMAX: u16>()
    ensures gpos::<Pos<XMAX, YMAX>>(), addable::<Pos<XMAX, YMAX>>(), pw::<Pos<XMAX, YMAX>>() * ph::<Pos<XMAX, YMAX>>() < usize::MAX,
        pw::<Pos<XMAX, YMAX>>() * ph::<Pos<XMAX, YMAX>>() + pw::<Pos<XMAX, YMAX>>() + ph::<Pos<XMAX, YMAX>>() <= usize::MAX,
{
    lemma_pos_size(XMAX, YMAX);
    assert forall|p: Pos<XMAX, YMAX>, d: Dir, r: Result<Pos<XMAX, YMAX>, Error>| p.pwf() && #[trigger] call_ensures(<Pos<XMAX, YMAX> as core::ops::Add<Dir>>::add, (p, d), r) implies
        match r { Ok(q) => is_displ(p, d, q), Err(_) => displ(p, d) is None } by {
        if r is Err && displ(p, d) is Some { let q = choose|q: Pos<XMAX, YMAX>| is_displ(p, d, q); assert(is_displ(p, d, q)); }
    }
}
pub proof fn tie_order<const XMAX: u16, const YMAX: u16>()
    ensures key_obeys_cmp_spec::<Pos<XMAX, YMAX>>(),
{
    reveal(vstd::laws_eq::obeys_eq_spec_properties); reveal(vstd::laws_cmp::obeys_cmp_partial_ord); reveal(vstd::laws_cmp::obeys_cmp_ord);
    reveal(vstd::laws_cmp::obeys_partial_cmp_spec_properties); reveal(vstd::laws_cmp::obeys_cmp_spec);
    broadcast use vstd::std_specs::btree::group_btree_axioms;
    assert(vstd::laws_cmp::obeys_cmp_spec::<Pos<XMAX, YMAX>>());
}
pub proof fn tie_step<const XMAX: u16, const YMAX: u16>()
    ensures go_ok::<Pos<XMAX, YMAX>, _>(pos_dir_add_ok::<XMAX, YMAX>), go_plain::<Pos<XMAX, YMAX>, _>(pos_dir_add_ok::<XMAX, YMAX>),
{
}
