%% module ucs ucs.rs
%% header
use vstd::std_specs::cmp::*;
use vstd::multiset::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::btree::*;
use super::boundedint::*;
use super::postrait::*;
use super::dir::*;
use super::grid::*;
use super::mappos::*;
use super::searchlib::*;
use super::bestfirst::*;
%% prelude
broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::std_specs::btree::group_btree_axioms};
/// what a movement-cost function returns
pub open spec fn cgv<P, G: Fn(P, Dir) -> Option<(P, usize)>>(go: G, p: P, d: Dir) -> Option<(P, usize)> {
    if exists|r: Option<(P, usize)>| call_ensures(go, (p, d), r) { choose|r: Option<(P, usize)>| call_ensures(go, (p, d), r) } else { None }
}
/// a movement-cost function: it can be called on every position, always returns the same, and stays in the grid
pub open spec fn cgo_ok<P: PosT, G: Fn(P, Dir) -> Option<(P, usize)>>(go: G) -> bool {
    (forall|p: P, d: Dir| p.pwf() ==> #[trigger] call_requires(go, (p, d)))
    && forall|p: P, d: Dir, r: Option<(P, usize)>| p.pwf() && #[trigger] call_ensures(go, (p, d), r) ==> r == cgv(go, p, d) && (r matches Some(q) ==> q.0.pwf())
}
/// moving in a direction leads to the neighbour in that direction, or nowhere
pub open spec fn cgo_plain<P: PosT, G: Fn(P, Dir) -> Option<(P, usize)>>(go: G) -> bool {
    forall|p: P, d: Dir, r: Option<(P, usize)>| p.pwf() && #[trigger] call_ensures(go, (p, d), r) ==> (r matches Some(q) ==> is_displ(p, d, q.0))
}
/// the movements of a function in the directions in use, and their costs
pub open spec fn cmoves<P: PosT, G: Fn(P, Dir) -> Option<(P, usize)>, const D: bool>(go: G) -> Moves<P> {
    |p: P, d: Dir| if !dir_ok::<D>(d) { None } else { match cgv(go, p, d) { Some(q) => Some((q.0, q.1 as nat)), None => None } }
}
pub proof fn lemma_cmoves<P: PosT, G: Fn(P, Dir) -> Option<(P, usize)>, const D: bool>(go: G)
    requires cgo_ok(go),
    ensures moves_in(cmoves::<P, G, D>(go)), cgo_plain(go) ==> moves_plain(cmoves::<P, G, D>(go)), dirs_in::<P, D>(cmoves::<P, G, D>(go)), consistent(cmoves::<P, G, D>(go), zero()),
{
    let e = cmoves::<P, G, D>(go);
    assert forall|p: P, d: Dir| p.pwf() && #[trigger] e(p, d) is Some implies (e(p, d)->0).0.pwf() && (cgo_plain(go) ==> is_displ(p, d, (e(p, d)->0).0)) by {
        let r = choose|r: Option<(P, usize)>| call_ensures(go, (p, d), r);
        assert(call_ensures(go, (p, d), r));
    }
}
pub open spec fn zero<P>() -> Costs<P> { |p: P| 0nat }
/// C24: the path leads from o to p, and no other has a lower total cost; it is empty when they are the same
pub open spec fn cheapest<P>(e: Moves<P>, o: P, p: P, path: Seq<Dir>) -> bool {
    walk(e, o, path) is Some && (walk(e, o, path)->0).0 == p && dist_is(e, o, p, (walk(e, o, path)->0).1) && (o == p ==> path.len() == 0)
}
/// C24: p cannot be reached at a total cost below the largest value of the cost type
pub open spec fn too_far<P>(e: Moves<P>, o: P, p: P) -> bool { forall|c: nat| c < inf() ==> !#[trigger] reach(e, o, p, c) }
/// every entry is at a position of the grid
pub proof fn lemma_entries_in<P: PosT>(e: Moves<P>, o: P, h: Costs<P>, g: Costs<P>, q: Heap<P>)
    requires bf_inv(e, o, h, g, q, None, Seq::empty(), 0),
    ensures forall|a: Ent<P>| #[trigger] q.count(a) > 0 ==> a.1.0.pwf() && g(a.1.0) < inf(),
{
    assert forall|a: Ent<P>| #[trigger] q.count(a) > 0 implies a.1.0.pwf() && g(a.1.0) < inf() by { assert(ent_ok(e, o, h, g, q, a)); }
}
impl<F: Fn(P, Dir) -> Option<(P, usize)>, MapPosUsize: MapPos<usize, P, WORDS, SIZE>, P: PosT, const D: bool, const WORDS: usize, const SIZE: usize> UcsIterator<F, MapPosUsize, P, D, WORDS, SIZE> {
    /// what next needs
    pub open spec fn wf(&self) -> bool { MapPosUsize::mtok() && self.cost.mwf() && cgo_ok(self.go) }
    pub open spec fn moves(&self) -> Moves<P> { cmoves::<P, F, D>(self.go) }
    pub open spec fn est(&self) -> Costs<P> { zero() }
    pub open spec fn costs(&self) -> Costs<P> { cost_fn(self.cost) }
    pub open spec fn heap(&self) -> Heap<P> { heap_items(self.frontier) }
    /// the search started at o
    pub open spec fn at(&self, o: P) -> bool { bf_inv(self.moves(), o, self.est(), self.costs(), self.heap(), None, Seq::empty(), 0) }
    pub open spec fn done(&self, p: P) -> bool { closed(self.est(), self.costs(), self.heap(), p) }
}
%% fn UcsIterator::new :: ret=r
    requires MapPosUsize::mtok(), cgo_ok(go), orig.pwf(),
    ensures r.wf(), r.go == go, r.at(*orig), forall|p: P| !#[trigger] r.done(p),
% end
    proof {
        let e = cmoves::<P, F, D>(go); let h: Costs<P> = zero();
        assert(r.costs()(*orig) == r.cost.at(*orig));
        assert forall|p: P| p.pwf() && p != *orig implies #[trigger] r.costs()(p) == inf() by { assert(r.cost.at(p) == usize::MAX); }
        assert forall|b: Dir| r.heap() == Multiset::<Ent<P>>::empty().insert(#[trigger] ent0(*orig, b)) implies r.at(*orig) && forall|p: P| !#[trigger] r.done(p) by {
            lemma_bf_start(e, *orig, h, r.costs(), r.heap(), b);
        }
        assert(r.heap() == Multiset::<Ent<P>>::empty().insert(ent0(*orig, Dir::N)));
    }
%% fn <UcsIterator as Iterator>::next :: ret=r
    requires old(self).wf(), exists|o: P| old(self).at(o),
    ensures
        final(self).wf(), final(self).go == old(self).go,
        // positions are yielded once each, by total cost, with the direction back to where they were reached from
        forall|o: P| #[trigger] old(self).at(o) ==> final(self).at(o) && match r {
            Some(y) => bf_yield(old(self).moves(), o, old(self).est(), old(self).costs(), old(self).heap(), final(self).costs(), final(self).heap(), y.0, y.1),
            None => final(self).cost == old(self).cost && (forall|p: P| #[trigger] final(self).done(p) == old(self).done(p))
                && forall|p: P, c: nat| #[trigger] reach(old(self).moves(), o, p, c) && c < inf() ==> old(self).done(p),
        },
% start
    let ghost e = self.moves(); let ghost h = self.est(); let ghost g0 = self.costs(); let ghost q0 = self.heap(); let ghost mut q = q0; let ghost ds = all_dirs::<D>();
    let ghost o0: P = choose|o: P| old(self).at(o);
    proof { lemma_cmoves::<P, F, D>(self.go); }
% loop 1
    invariant
        self.wf(), self.go == old(self).go, self.cost == old(self).cost, q == self.heap(), e == self.moves(), h == self.est(), g0 == self.costs(), q0 == old(self).heap(), ds == all_dirs::<D>(),
        dirs_in::<P, D>(e), moves_in(e), consistent(e, h), old(self).at(o0),
        forall|o: P| #[trigger] old(self).at(o) ==> bf_inv(e, o, h, g0, q, None, Seq::empty(), 0),
        forall|p: P| #[trigger] closed(h, g0, q, p) == closed(h, g0, q0, p),
    ensures q == Multiset::<Ent<P>>::empty(),
    decreases q.len(),
% loopstart 1
    let ghost a: Ent<P> = vxn1->0; let ghost mv = a.1; let ghost p = mv.0; let ghost r = self.heap();
    let ghost mut k: int = 0; let ghost mut cp = self.cost; let ghost mut qp = r;
    proof {
        assert(q.count(a) > 0);
        assert(bf_inv(e, o0, h, g0, q, None, Seq::empty(), 0));
        lemma_entries_in(e, o0, h, g0, q);
        assert(g0(p) == self.cost.at(p));
        assert(h(p) == 0);
        assert forall|o: P| #[trigger] old(self).at(o) implies (pri(a) > g0(p) + h(p) ==> bf_inv(e, o, h, g0, r, None, Seq::empty(), 0)) && (pri(a) <= g0(p) + h(p) ==> bf_mid(e, o, h, g0, q0, r, p, mv.1, ds, 0, g0, r)) by {
            lemma_bf_popped::<P, D>(e, o, h, g0, q0, q, a, r);
        }
        lemma_bf_popped::<P, D>(e, o0, h, g0, q0, q, a, r);
        q = r;
    }
% loop 2
    invariant
        self.wf(), self.go == old(self).go, e == self.moves(), h == self.est(), q0 == old(self).heap(), g0 == old(self).costs(), ds == all_dirs::<D>(),
        dirs_in::<P, D>(e), moves_in(e), consistent(e, h), old(self).at(o0), p == mv.0, {?pos: pos == p, ?}p.pwf(),
        0 <= k <= ds.len(), vxit2.wf(), vxit2.rem() =~= ds.skip(k),
        k == 0 ==> cp == self.cost && qp == self.heap(),
        k > 0 ==> bf_tried(e, h, p, ds[k - 1], cp, qp, self.cost, self.heap()),
        forall|o: P| #[trigger] old(self).at(o) ==> bf_mid(e, o, h, g0, q0, r, p, mv.1, ds, if k > 0 { k - 1 } else { 0 }, cost_fn(cp), qp),
    ensures vxit2.rem().len() == 0,
    decreases ds.len() - k,
% loopstart 2
    proof {
        assert forall|o: P| #[trigger] old(self).at(o) implies bf_mid(e, o, h, g0, q0, r, p, mv.1, ds, k, self.costs(), self.heap()) by {
            if k > 0 { lemma_bf_step::<P, D, WORDS, SIZE, MapPosUsize>(e, o, h, g0, q0, r, p, mv.1, k - 1, cp, qp, self.cost, self.heap()); }
        }
        cp = self.cost; qp = self.heap();
        assert(ds.skip(k)[0] == ds[k]);
        lemma_all_dirs::<D>(ds[k]); lemma_dir_vec(ds[k], ds[k]);
        lemma_bf_mid_inv(e, o0, h, g0, q0, r, p, mv.1, ds, k, self.costs(), self.heap());
        assert(closed(h, self.costs(), self.heap(), p));
        assert(self.costs()(p) == self.cost.at(p));
        assert forall|s: P| true implies #[trigger] self.costs()(s) == self.cost.at(s) by {}
        k = k + 1;
    }
% looppost 2
    proof {
        assert(k == ds.len() && ds[k - 1] == ds.last());
        assert forall|o: P| #[trigger] old(self).at(o) implies bf_inv(e, o, h, self.costs(), self.heap(), None, Seq::empty(), 0) && bf_yield(e, o, h, g0, q0, self.costs(), self.heap(), p, mv.1) by {
            lemma_bf_step::<P, D, WORDS, SIZE, MapPosUsize>(e, o, h, g0, q0, r, p, mv.1, k - 1, cp, qp, self.cost, self.heap());
            lemma_bf_next::<P, D>(e, o, h, g0, q0, r, p, mv.1, self.costs(), self.heap());
        }
    }
% looppost 1
    proof {
        assert forall|o: P, s: P, c: nat| #[trigger] old(self).at(o) && #[trigger] reach(e, o, s, c) && c < inf() implies old(self).done(s) by { lemma_bf_end(e, o, h, g0, q, s, c); }
    }
%% fn search_mapmov :: ret=r
    requires gpos::<P>(), MapPosUsize::mtok(), blank_default::<P, WORDS, SIZE, MapPosDir>(), cgo_ok(go), cgo_plain(go), orig.pwf(), dest.pwf(),
    ensures match r {
        Ok(m) => m.mwf() && best_tree(map_fn(m), cmoves::<P, F, D>(go), *orig, *dest),
        Err(err) => err == Error::DestinationUnreachable && too_far(cmoves::<P, F, D>(go), *orig, *dest),
    },
% start
    let ghost e = cmoves::<P, F, D>(go); let ghost h: Costs<P> = zero(); let ghost o = *orig; let ghost mut ys: Seq<P> = Seq::empty(); let ghost mut g: Costs<P>; let ghost mut q: Heap<P>;
    proof { lemma_cmoves::<P, F, D>(go); }
% loop 1
    invariant_except_break
        g == vxit1.costs(), q == vxit1.heap(), vxit1.at(o), ordered(e, o, map_fn(from), g, ys), all_closed(h, g, q, ys),
    invariant
        gpos::<P>(), MapPosDir::mtok(), from.mwf(), o.pwf(), dest.pwf(), e == cmoves::<P, F, D>(go), h == zero::<P>(), moves_in(e), o == *orig,
        vxit1.wf(), vxit1.go == go, !ys.contains(*dest),
        ys.len() <= pw::<P>() * ph::<P>(),
    ensures forall|c: nat| c < inf() ==> !#[trigger] reach(e, o, *dest, c),
    decreases pw::<P>() * ph::<P>() - ys.len(),
% looppre 1
    proof {
        g = vxit1.costs(); q = vxit1.heap();
        assert forall|r: P| r.pwf() implies (#[trigger] ys.contains(r)) == closed(h, g, q, r) by { assert(!vxit1.done(r)); }
    }
% loopstart 1
    let ghost f0 = map_fn(from); let ghost g2 = vxit1.costs(); let ghost q2 = vxit1.heap(); let ghost pp = vxn1.0; let ghost pd = vxn1.1; let ghost zs = ys.push(pp);
    proof {
        P::plaws();
        assert(bf_yield(e, o, h, g, q, g2, q2, pp, pd));
        lemma_push_contains(ys, pp);
        assert forall|m: MapPosDir| (forall|r: P| r.pwf() ==> #[trigger] m.at(r) == (if r == pp { Some(pd) } else { f0(r) })) implies
            ordered(e, o, #[trigger] map_fn(m), g2, zs) && tree(map_fn(m), e, o, rank_in(zs), g2) by {
            assert forall|r: P| r.pwf() implies #[trigger] map_fn(m)(r) == (if r == pp { Some(pd) } else { f0(r) }) by { assert(m.at(r) == map_fn(m)(r)); }
            lemma_ordered_push(e, o, h, g, q, g2, q2, pp, pd, ys, f0, map_fn(m));
            lemma_ordered_tree(e, o, map_fn(m), g2, zs);
        }
        let f1: CameFrom<P> = |r: P| if r == pp { Some(pd) } else { f0(r) };
        lemma_ordered_push(e, o, h, g, q, g2, q2, pp, pd, ys, f0, f1);
        g = g2; q = q2; ys = zs;
    }
%% fn search_path :: ret=r
    requires gpos::<P>(), pw::<P>() * ph::<P>() < usize::MAX, addable::<P>(), MapPosUsize::mtok(), blank_default::<P, WORDS, SIZE, MapPosDir>(), cgo_ok(go), cgo_plain(go), orig.pwf(), dest.pwf(),
    ensures match r {
        Ok(path) => cheapest(cmoves::<P, F, D>(go), *orig, *dest, path@),
        Err(err) => err == Error::DestinationUnreachable && too_far(cmoves::<P, F, D>(go), *orig, *dest),
    },
% start
    proof {
        lemma_cmoves::<P, F, D>(go);
        let e = cmoves::<P, F, D>(go);
        assert forall|f: CameFrom<P>, rank: spec_fn(P) -> nat, g: Costs<P>, q: P, r: Result<Seq<Dir>, Error>| #[trigger] tree(f, e, *orig, rank, g) && q.pwf() && f(q) is Some && #[trigger] came_from(f, *orig, q, r) implies
            (r matches Ok(path) && walk(e, *orig, path) == Some((q, g(q))) && (*orig == q ==> path.len() == 0)) by { lemma_tree_path(f, e, *orig, rank, g, q, r); if *orig == q { assert(follow(f, q, 0) == Some(q)); } }
    }
%% foreach B K = grid true; hash obeys_key_model::<P>(); btree key_obeys_cmp_spec::<P>()
%% fn search_path_@B@ :: ret=r
    requires gpos::<P>(), pw::<P>() * ph::<P>() < usize::MAX, addable::<P>(), @K@, cgo_ok(go), cgo_plain(go), orig.pwf(), dest.pwf(),
    ensures match r {
        Ok(path) => cheapest(cmoves::<P, F, D>(go), *orig, *dest, path@),
        Err(err) => err == Error::DestinationUnreachable && too_far(cmoves::<P, F, D>(go), *orig, *dest),
    },
% start
    proof { lemma_blank_grid::<P, WORDS, SIZE>(); }
%% fn Sqrid::ucs_path_@B@ :: ret=r
    requires gpos::<P>(), pw::<P>() * ph::<P>() < usize::MAX, addable::<P>(), @K@, cgo_ok(go), cgo_plain(go), orig.pwf(), dest.pwf(),
    ensures match r {
        Ok(path) => cheapest(cmoves::<P, F, D>(go), *orig, *dest, path@),
        Err(err) => err == Error::DestinationUnreachable && too_far(cmoves::<P, F, D>(go), *orig, *dest),
    },
% start
    proof { lemma_blank_grid::<P, WORDS, SIZE>(); }
%% endforeach
%% fn Sqrid::ucs_path :: ret=r
    requires gpos::<P>(), pw::<P>() * ph::<P>() < usize::MAX, addable::<P>(), true, cgo_ok(go), cgo_plain(go), orig.pwf(), dest.pwf(),
    ensures match r {
        Ok(path) => cheapest(cmoves::<P, F, D>(go), *orig, *dest, path@),
        Err(err) => err == Error::DestinationUnreachable && too_far(cmoves::<P, F, D>(go), *orig, *dest),
    },
% start
    proof { lemma_blank_grid::<P, WORDS, SIZE>(); }
