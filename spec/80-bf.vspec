%% module bf bf.rs
%% header
use vstd::std_specs::cmp::*;
use super::boundedint::*;
use super::postrait::*;
use super::dir::*;
use super::grid::*;
use super::gridbool::*;
use super::setpos::*;
use super::mappos::*;
use super::searchlib::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::btree::*;
%% prelude
broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::std_specs::btree::group_btree_axioms};
pub type PosSet<P> = spec_fn(P) -> bool;
pub open spec fn set_fn<P: PosT, const WORDS: usize, const SIZE: usize, S: SetPos<P, WORDS, SIZE>>(s: S) -> PosSet<P> { |p: P| s.has(p) }
pub open spec fn listed<P>(f: Seq<(P, Dir)>, p: P) -> bool { exists|i: int| 0 <= i < f.len() && (#[trigger] f[i]).0 == p }
pub open spec fn distinct<P>(f: Seq<(P, Dir)>) -> bool { forall|i: int, j: int| 0 <= i < j < f.len() ==> (#[trigger] f[i]).0 != (#[trigger] f[j]).0 }
/// p is entered from a position at distance n - 1 by the opposite of the direction a.1
pub open spec fn entered<P: PosT>(e: Moves<P>, o: P, a: (P, Dir), n: nat) -> bool {
    exists|p: P| n > 0 && p.pwf() && dist_is(e, o, p, (n - 1) as nat) && #[trigger] e(p, opposite(a.1)) == Some((a.0, 1nat))
}
/// C21: f lists the positions at distance n from o, each once, with the opposite of a direction they are entered by
pub open spec fn layer<P: PosT>(e: Moves<P>, o: P, f: Seq<(P, Dir)>, n: nat) -> bool {
    (forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).0.pwf() && dist_is(e, o, f[i].0, n) && (n > 0 ==> entered(e, o, f[i], n)))
    && (forall|q: P| #[trigger] dist_is(e, o, q, n) ==> listed(f, q))
    && distinct(f)
}
/// v and f hold the positions up to distance n, f those at distance n
pub open spec fn at_layer<P: PosT>(e: Moves<P>, o: P, v: PosSet<P>, f: Seq<(P, Dir)>, n: nat) -> bool {
    o.pwf() && layer(e, o, f, n) && (forall|p: P| p.pwf() ==> #[trigger] near(e, o, p, n) == (v(p) || listed(f, p)))
}
pub open spec fn succ<P>(e: Moves<P>, f: Seq<(P, Dir)>, q: P) -> bool { exists|j: int, d: Dir| 0 <= j < f.len() && #[trigger] e(f[j].0, d) == Some((q, 1nat)) }
pub open spec fn from_front<P>(e: Moves<P>, f: Seq<(P, Dir)>, a: (P, Dir)) -> bool { exists|j: int| 0 <= j < f.len() && e((#[trigger] f[j]).0, opposite(a.1)) == Some((a.0, 1nat)) }
/// one step of the traversal: f1 lists the positions entered from f0 that are new, once each
pub open spec fn expand<P: PosT>(e: Moves<P>, v0: PosSet<P>, f0: Seq<(P, Dir)>, v1: PosSet<P>, f1: Seq<(P, Dir)>) -> bool {
    (forall|p: P| p.pwf() ==> #[trigger] v1(p) == (v0(p) || listed(f0, p) || succ(e, f0, p)))
    && (forall|i: int| 0 <= i < f1.len() ==> (#[trigger] f1[i]).0.pwf() && !v0(f1[i].0) && !listed(f0, f1[i].0) && from_front(e, f0, f1[i]))
    && (forall|q: P| q.pwf() && #[trigger] succ(e, f0, q) && !v0(q) && !listed(f0, q) ==> listed(f1, q))
    && distinct(f1)
}
/// the front is what next can start from
pub open spec fn front_ok<P: PosT>(v: PosSet<P>, f: Seq<(P, Dir)>) -> bool {
    (forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).0.pwf()) && (f.len() == 1 || forall|i: int| 0 <= i < f.len() ==> v((#[trigger] f[i]).0))
}
pub proof fn lemma_expand<P: PosT>(e: Moves<P>, o: P, v0: PosSet<P>, f0: Seq<(P, Dir)>, v1: PosSet<P>, f1: Seq<(P, Dir)>, n: nat)
    requires moves_unit(e), moves_in(e), at_layer(e, o, v0, f0, n), expand(e, v0, f0, v1, f1),
    ensures at_layer(e, o, v1, f1, n + 1),
{
    assert forall|q: P| #[trigger] dist_is(e, o, q, n + 1) implies listed(f1, q) && succ(e, f0, q) by {
        lemma_reach_in(e, o, q, n + 1);
        let r = lemma_dist_back(e, o, q, n + 1);
        assert(dist_is(e, o, r.0, n)); assert(listed(f0, r.0));
        let j = choose|j: int| 0 <= j < f0.len() && (#[trigger] f0[j]).0 == r.0;
        assert(e(f0[j].0, r.1) == Some((q, 1nat)));
        assert(succ(e, f0, q));
        if near(e, o, q, n) { let c = choose|c: nat| c <= n && #[trigger] reach(e, o, q, c); assert(false); }
    }
    assert forall|q: P| #[trigger] succ(e, f0, q) implies reach(e, o, q, n + 1) by {
        let (j, d) = choose|j: int, d: Dir| 0 <= j < f0.len() && #[trigger] e(f0[j].0, d) == Some((q, 1nat));
        assert(dist_is(e, o, f0[j].0, n));
        lemma_reach_step(e, o, f0[j].0, n, d);
    }
    assert forall|p: P| p.pwf() implies #[trigger] near(e, o, p, n + 1) == (v1(p) || listed(f1, p)) by {
        lemma_near_split(e, o, p, n + 1);
        if v1(p) {
            if succ(e, f0, p) { assert(n + 1 <= n + 1 && reach(e, o, p, n + 1)); }
            else { assert(near(e, o, p, n)); }
        }
        if listed(f1, p) {
            let i = choose|i: int| 0 <= i < f1.len() && (#[trigger] f1[i]).0 == p;
            let j = choose|j: int| 0 <= j < f0.len() && e((#[trigger] f0[j]).0, opposite(f1[i].1)) == Some((f1[i].0, 1nat));
            assert(e(f0[j].0, opposite(f1[i].1)) == Some((p, 1nat)));
            assert(succ(e, f0, p));
            assert(n + 1 <= n + 1 && reach(e, o, p, n + 1));
        }
        if near(e, o, p, n + 1) { if !dist_is(e, o, p, n + 1) { assert(near(e, o, p, n)); assert(v0(p) || listed(f0, p)); } }
    }
    assert forall|i: int| 0 <= i < f1.len() implies (#[trigger] f1[i]).0.pwf() && dist_is(e, o, f1[i].0, n + 1) && entered(e, o, f1[i], n + 1) by {
        let q = f1[i].0;
        let j = choose|j: int| 0 <= j < f0.len() && e((#[trigger] f0[j]).0, opposite(f1[i].1)) == Some((f1[i].0, 1nat));
        assert(e(f0[j].0, opposite(f1[i].1)) == Some((q, 1nat)));
        assert(succ(e, f0, q));
        assert(!near(e, o, q, n));
        assert(dist_is(e, o, f0[j].0, n));
        assert(f0[j].0.pwf());
        assert forall|m: nat| #[trigger] reach(e, o, q, m) implies n + 1 <= m by { if m <= n { assert(near(e, o, q, n)); } }
        assert(((n + 1) - 1) as nat == n);
        assert(e(f0[j].0, opposite(f1[i].1)) == Some((f1[i].0, 1nat)));
    }
}
/// the state before the first step
pub proof fn lemma_start<P: PosT>(e: Moves<P>, o: P)
    requires moves_unit(e), moves_in(e), o.pwf(),
    ensures forall|v: PosSet<P>, f: Seq<(P, Dir)>| f.len() == 1 && f[0].0 == o && (forall|p: P| p.pwf() ==> !#[trigger] v(p)) ==> #[trigger] at_layer(e, o, v, f, 0),
{
    assert forall|v: PosSet<P>, f: Seq<(P, Dir)>| f.len() == 1 && f[0].0 == o && (forall|p: P| p.pwf() ==> !#[trigger] v(p)) implies #[trigger] at_layer(e, o, v, f, 0) by {
        lemma_reach_zero(e, o);
        assert forall|q: P| #[trigger] dist_is(e, o, q, 0) implies listed(f, q) by { lemma_reach_unit_zero(e, o, q); assert(f[0].0 == q); }
        assert forall|p: P| p.pwf() implies #[trigger] near(e, o, p, 0) == (v(p) || listed(f, p)) by {
            if near(e, o, p, 0) { let c = choose|c: nat| c <= 0 && #[trigger] reach(e, o, p, c); lemma_reach_unit_zero(e, o, p); assert(f[0].0 == p); }
            if listed(f, p) { assert(reach(e, o, p, 0)); }
        }
    }
}
/// the state of a step in which the first j positions of the front, and k directions of the next one, are done
pub open spec fn mid<P: PosT>(e: Moves<P>, v0: PosSet<P>, f0: Seq<(P, Dir)>, j: int, ds: Seq<Dir>, k: int, v: PosSet<P>, f: Seq<(P, Dir)>) -> bool {
    (forall|p: P| p.pwf() && #[trigger] v(p) ==> v0(p) || listed(f0, p) || succ(e, f0, p))
    && (forall|p: P| p.pwf() && v0(p) ==> #[trigger] v(p))
    && (forall|i: int| 0 <= i < j ==> v((#[trigger] f0[i]).0))
    && (k >= 0 ==> v(f0[j].0))
    && (forall|i: int, d: Dir| 0 <= i < j && #[trigger] e(f0[i].0, d) is Some ==> v((e(f0[i].0, d)->0).0))
    && (forall|i: int| 0 <= i < k && e(f0[j].0, #[trigger] ds[i]) is Some ==> v((e(f0[j].0, ds[i])->0).0))
    && (forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).0.pwf() && !v0(f[i].0) && !listed(f0, f[i].0) && v(f[i].0) && from_front(e, f0, f[i]))
    && (forall|q: P| q.pwf() && #[trigger] v(q) && !v0(q) && !listed(f0, q) ==> listed(f, q))
    && distinct(f)
}
pub proof fn lemma_mid_pos<P: PosT>(e: Moves<P>, v0: PosSet<P>, f0: Seq<(P, Dir)>, j: int, ds: Seq<Dir>, v: PosSet<P>, w: PosSet<P>, f: Seq<(P, Dir)>)
    requires moves_in(e), front_ok(v0, f0), mid(e, v0, f0, j, ds, -1, v, f), 0 <= j < f0.len(), forall|q: P| q.pwf() ==> #[trigger] w(q) == (q == f0[j].0 || v(q)),
    ensures mid(e, v0, f0, j, ds, 0, w, f),
{
    assert(listed(f0, f0[j].0));
    assert forall|i: int, d: Dir| 0 <= i < j && #[trigger] e(f0[i].0, d) is Some implies w((e(f0[i].0, d)->0).0) by { assert(f0[i].0.pwf()); }
    assert forall|q: P| q.pwf() && #[trigger] w(q) && !v0(q) && !listed(f0, q) implies listed(f, q) by { assert(v(q)); }
    assert forall|q: P| q.pwf() && #[trigger] w(q) implies v0(q) || listed(f0, q) || succ(e, f0, q) by { assert(q == f0[j].0 || v(q)); }
}
pub proof fn lemma_mid_none<P: PosT>(e: Moves<P>, v0: PosSet<P>, f0: Seq<(P, Dir)>, j: int, ds: Seq<Dir>, k: int, v: PosSet<P>, f: Seq<(P, Dir)>)
    requires mid(e, v0, f0, j, ds, k, v, f), 0 <= j < f0.len(), 0 <= k < ds.len(), e(f0[j].0, ds[k]) is None || v((e(f0[j].0, ds[k])->0).0),
    ensures mid(e, v0, f0, j, ds, k + 1, v, f),
{}
pub proof fn lemma_mid_some<P: PosT>(e: Moves<P>, v0: PosSet<P>, f0: Seq<(P, Dir)>, j: int, ds: Seq<Dir>, k: int, v: PosSet<P>, f: Seq<(P, Dir)>, w: PosSet<P>, a: (P, Dir))
    requires moves_in(e), front_ok(v0, f0), mid(e, v0, f0, j, ds, k, v, f), 0 <= j < f0.len(), 0 <= k < ds.len(), e(f0[j].0, ds[k]) == Some((a.0, 1nat)), a.0.pwf(), !v(a.0),
        opposite(a.1) == ds[k], forall|q: P| q.pwf() ==> #[trigger] w(q) == (q == a.0 || v(q)),
    ensures mid(e, v0, f0, j, ds, k + 1, w, f.push(a)),
{
    let g = f.push(a);
    assert(e(f0[j].0, opposite(a.1)) == Some((a.0, 1nat)));
    assert(from_front(e, f0, a));
    assert(succ(e, f0, a.0));
    if listed(f0, a.0) {
        let i = choose|i: int| 0 <= i < f0.len() && (#[trigger] f0[i]).0 == a.0;
        if f0.len() == 1 { assert(i == j); } else { assert(v0(f0[i].0)); }
        assert(v(a.0)); assert(false);
    }
    assert forall|i: int, d: Dir| 0 <= i < j && #[trigger] e(f0[i].0, d) is Some implies w((e(f0[i].0, d)->0).0) by { assert(f0[i].0.pwf()); }
    assert forall|i: int| 0 <= i < k + 1 && e(f0[j].0, #[trigger] ds[i]) is Some implies w((e(f0[j].0, ds[i])->0).0) by { assert(f0[j].0.pwf()); }
    assert forall|q: P| q.pwf() && #[trigger] w(q) && !v0(q) && !listed(f0, q) implies listed(g, q) by {
        if q == a.0 { assert(g[f.len() as int].0 == q); }
        else { assert(v(q)); let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]).0 == q; assert(g[i].0 == q); }
    }
    assert forall|q: P| q.pwf() && #[trigger] w(q) implies v0(q) || listed(f0, q) || succ(e, f0, q) by { assert(q == a.0 || v(q)); }
    assert forall|i: int| 0 <= i < g.len() implies (#[trigger] g[i]).0.pwf() && !v0(g[i].0) && !listed(f0, g[i].0) && w(g[i].0) && from_front(e, f0, g[i]) by {
        if i < f.len() { assert(g[i] == f[i]); }
    }
    assert forall|i: int, l: int| 0 <= i < l < g.len() implies (#[trigger] g[i]).0 != (#[trigger] g[l]).0 by { assert(g[i] == f[i]); if l < f.len() { assert(g[l] == f[l]); } else { assert(v(f[i].0)); } }
}
/// what trying one direction from pos does to the visited set and to the next front
pub open spec fn tried<P: PosT>(e: Moves<P>, pos: P, d: Dir, v: PosSet<P>, f: Seq<(P, Dir)>, w: PosSet<P>, g: Seq<(P, Dir)>) -> bool {
    match e(pos, d) {
        None => w == v && g == f,
        Some(a) => if v(a.0) { g == f && (forall|q: P| q.pwf() ==> #[trigger] w(q) == v(q)) } else {
            g.len() == f.len() + 1 && g == f.push(g.last()) && g.last().0 == a.0 && opposite(g.last().1) == d && (forall|q: P| q.pwf() ==> #[trigger] w(q) == (q == a.0 || v(q)))
        },
    }
}
pub proof fn lemma_mid_tried<P: PosT>(e: Moves<P>, v0: PosSet<P>, f0: Seq<(P, Dir)>, j: int, ds: Seq<Dir>, k: int, v: PosSet<P>, f: Seq<(P, Dir)>, w: PosSet<P>, g: Seq<(P, Dir)>)
    requires moves_in(e), moves_unit(e), front_ok(v0, f0), mid(e, v0, f0, j, ds, k, v, f), 0 <= j < f0.len(), 0 <= k < ds.len(), tried(e, f0[j].0, ds[k], v, f, w, g),
    ensures mid(e, v0, f0, j, ds, k + 1, w, g),
{
    assert(f0[j].0.pwf());
    match e(f0[j].0, ds[k]) {
        None => { lemma_mid_none(e, v0, f0, j, ds, k, v, f); }
        Some(a) => {
            assert(a.0.pwf());
            if v(a.0) { lemma_mid_none(e, v0, f0, j, ds, k, v, f); lemma_mid_same(e, v0, f0, j, ds, k + 1, v, w, f); }
            else { lemma_mid_some(e, v0, f0, j, ds, k, v, f, w, g.last()); }
        }
    }
}
pub proof fn lemma_mid_same<P: PosT>(e: Moves<P>, v0: PosSet<P>, f0: Seq<(P, Dir)>, j: int, ds: Seq<Dir>, k: int, v: PosSet<P>, w: PosSet<P>, f: Seq<(P, Dir)>)
    requires moves_in(e), front_ok(v0, f0), mid(e, v0, f0, j, ds, k, v, f), 0 <= j < f0.len(), forall|q: P| q.pwf() ==> #[trigger] w(q) == v(q),
    ensures mid(e, v0, f0, j, ds, k, w, f),
{
    assert forall|i: int| 0 <= i < j implies w((#[trigger] f0[i]).0) by { assert(f0[i].0.pwf()); }
    assert(f0[j].0.pwf());
    assert forall|i: int, d: Dir| 0 <= i < j && #[trigger] e(f0[i].0, d) is Some implies w((e(f0[i].0, d)->0).0) by { assert(f0[i].0.pwf()); }
    assert forall|q: P| q.pwf() && #[trigger] w(q) && !v0(q) && !listed(f0, q) implies listed(f, q) by { assert(v(q)); }
    assert forall|q: P| q.pwf() && #[trigger] w(q) implies v0(q) || listed(f0, q) || succ(e, f0, q) by { assert(v(q)); }
}
/// a position all of whose directions are done
pub proof fn lemma_mid_done<P: PosT, const D: bool>(e: Moves<P>, v0: PosSet<P>, f0: Seq<(P, Dir)>, j: int, v: PosSet<P>, f: Seq<(P, Dir)>)
    requires mid(e, v0, f0, j, all_dirs::<D>(), all_dirs::<D>().len() as int, v, f), 0 <= j < f0.len(), forall|p: P, d: Dir| #[trigger] e(p, d) is Some ==> dir_ok::<D>(d),
    ensures mid(e, v0, f0, j + 1, all_dirs::<D>(), -1, v, f),
{
    let ds = all_dirs::<D>();
    assert forall|i: int, d: Dir| 0 <= i < j + 1 && #[trigger] e(f0[i].0, d) is Some implies v((e(f0[i].0, d)->0).0) by {
        if i == j { lemma_all_dirs::<D>(d); let k = choose|k: int| 0 <= k < ds.len() && ds[k] == d; assert(e(f0[j].0, ds[k]) is Some); }
    }
}
pub proof fn lemma_mid_end<P: PosT>(e: Moves<P>, v0: PosSet<P>, f0: Seq<(P, Dir)>, ds: Seq<Dir>, v: PosSet<P>, f: Seq<(P, Dir)>)
    requires moves_in(e), front_ok(v0, f0), mid(e, v0, f0, f0.len() as int, ds, -1, v, f),
    ensures expand(e, v0, f0, v, f), front_ok(v, f),
{
    assert forall|p: P| p.pwf() implies #[trigger] v(p) == (v0(p) || listed(f0, p) || succ(e, f0, p)) by {
        if listed(f0, p) { let i = choose|i: int| 0 <= i < f0.len() && (#[trigger] f0[i]).0 == p; assert(v(f0[i].0)); }
        if succ(e, f0, p) { let (i, d) = choose|i: int, d: Dir| 0 <= i < f0.len() && #[trigger] e(f0[i].0, d) == Some((p, 1nat)); assert(v((e(f0[i].0, d)->0).0)); }
    }
    assert forall|q: P| q.pwf() && #[trigger] succ(e, f0, q) && !v0(q) && !listed(f0, q) implies listed(f, q) by { assert(v(q)); }
}
/// what a goal function returns
pub open spec fn fv<P, F: Fn(P) -> bool>(found: F, p: P) -> bool { exists|r: bool| r && call_ensures(found, (p,), r) }
/// a goal function: it can be called on every position and always returns the same
pub open spec fn found_ok<P: PosT, F: Fn(P) -> bool>(found: F) -> bool {
    (forall|p: P| p.pwf() ==> #[trigger] call_requires(found, (p,)))
    && forall|p: P, r: bool| p.pwf() && #[trigger] call_ensures(found, (p,), r) ==> r == fv(found, p)
}
/// distance from o
pub open spec fn dist_fn<P>(e: Moves<P>, o: P) -> spec_fn(P) -> nat { |p: P| choose|n: nat| dist_is(e, o, p, n) }
pub proof fn lemma_dist_fn<P>(e: Moves<P>, o: P, p: P, n: nat)
    requires dist_is(e, o, p, n),
    ensures dist_fn(e, o)(p) == n,
{
    let m = dist_fn(e, o)(p);
    assert(dist_is(e, o, p, m)); assert(reach(e, o, p, m) && reach(e, o, p, n));
}
/// the direction stored for q is one it is entered by, at a distance up to n
pub open spec fn mapped<P: PosT>(e: Moves<P>, o: P, f: CameFrom<P>, q: P, n: nat) -> bool {
    exists|m: nat| 0 < m <= n && #[trigger] dist_is(e, o, q, m) && entered(e, o, (q, f(q)->0), m)
}
/// f has directions for the positions at distances 1, ..., n - 1, and possibly for some at distance n
pub open spec fn mapping<P: PosT>(e: Moves<P>, o: P, f: CameFrom<P>, n: nat) -> bool {
    (forall|q: P| q.pwf() && #[trigger] f(q) is Some ==> mapped(e, o, f, q, n))
    && (forall|q: P, m: nat| 0 < m < n && #[trigger] dist_is(e, o, q, m) ==> f(q) is Some)
}
pub proof fn lemma_mapping_tree<P: PosT>(e: Moves<P>, o: P, f: CameFrom<P>, n: nat)
    requires moves_unit(e), moves_in(e), o.pwf(), mapping(e, o, f, n),
    ensures tree(f, e, o, dist_fn(e, o), dist_fn(e, o)),
{
    lemma_reach_zero(e, o); lemma_dist_fn(e, o, o, 0);
    assert forall|q: P| q.pwf() && q != o && #[trigger] f(q) is Some implies tree_at(f, e, o, dist_fn(e, o), dist_fn(e, o), q) by {
        assert(mapped(e, o, f, q, n));
        let m = choose|m: nat| 0 < m <= n && #[trigger] dist_is(e, o, q, m) && entered(e, o, (q, f(q)->0), m);
        let p = choose|p: P| m > 0 && p.pwf() && dist_is(e, o, p, (m - 1) as nat) && #[trigger] e(p, opposite(f(q)->0)) == Some((q, 1nat));
        lemma_dist_fn(e, o, q, m); lemma_dist_fn(e, o, p, (m - 1) as nat);
        if m == 1 { lemma_reach_unit_zero(e, o, p); } else { assert(f(p) is Some); }
        assert(e(p, opposite(f(q)->0)) == Some((q, 1nat)));
    }
}
pub proof fn lemma_mapping_next<P: PosT>(e: Moves<P>, o: P, f: CameFrom<P>, g: Seq<(P, Dir)>, n: nat)
    requires mapping(e, o, f, n), layer(e, o, g, n), forall|i: int| 0 <= i < g.len() ==> f((#[trigger] g[i]).0) is Some,
    ensures mapping(e, o, f, n + 1),
{
    assert forall|q: P, m: nat| 0 < m < n + 1 && #[trigger] dist_is(e, o, q, m) implies f(q) is Some by {
        if m == n { assert(listed(g, q)); let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).0 == q; assert(f(g[i].0) is Some); }
    }
    assert forall|q: P| q.pwf() && #[trigger] f(q) is Some implies mapped(e, o, f, q, n + 1) by {
        assert(mapped(e, o, f, q, n));
        let m = choose|m: nat| 0 < m <= n && #[trigger] dist_is(e, o, q, m) && entered(e, o, (q, f(q)->0), m);
        assert(dist_is(e, o, q, m) && 0 < m <= n + 1);
    }
}
pub proof fn lemma_mapping_set<P: PosT>(e: Moves<P>, o: P, f: CameFrom<P>, h: CameFrom<P>, a: (P, Dir), n: nat)
    requires moves_in(e), o.pwf(), n > 0, mapping(e, o, f, n), dist_is(e, o, a.0, n), entered(e, o, a, n), forall|q: P| q.pwf() ==> #[trigger] h(q) == (if q == a.0 { Some(a.1) } else { f(q) }),
    ensures mapping(e, o, h, n),
{
    assert forall|q: P| q.pwf() && #[trigger] h(q) is Some implies mapped(e, o, h, q, n) by {
        if q == a.0 { assert(dist_is(e, o, q, n) && 0 < n <= n); } else {
            assert(mapped(e, o, f, q, n));
            let m = choose|m: nat| 0 < m <= n && #[trigger] dist_is(e, o, q, m) && entered(e, o, (q, f(q)->0), m);
            assert(dist_is(e, o, q, m));
        }
    }
    assert forall|q: P, m: nat| 0 < m < n && #[trigger] dist_is(e, o, q, m) implies h(q) is Some by { lemma_reach_in(e, o, q, m); assert(f(q) is Some); }
}
/// positions yielded up to distance n
pub open spec fn yielded<P: PosT>(e: Moves<P>, o: P, done: Seq<P>, n: nat) -> bool {
    done.no_duplicates() && forall|i: int| 0 <= i < done.len() ==> (#[trigger] done[i]).pwf() && near(e, o, done[i], n)
}
pub proof fn lemma_yielded<P: PosT>(e: Moves<P>, o: P, done: Seq<P>, g: Seq<(P, Dir)>, n: nat)
    requires gpos::<P>(), n > 0, yielded(e, o, done, (n - 1) as nat), layer(e, o, g, n),
    ensures yielded(e, o, done + Seq::new(g.len(), |i: int| g[i].0), n), done.len() + g.len() <= pw::<P>() * ph::<P>(),
{
    let s = done + Seq::new(g.len(), |i: int| g[i].0);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).pwf() && near(e, o, s[i], n) by {
        lemma_near_split(e, o, s[i], n);
        if i < done.len() { assert(s[i] == done[i]); } else { assert(s[i] == g[i - done.len()].0); }
    }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
        let a = if i < j { i } else { j }; let b = if i < j { j } else { i };
        if b < done.len() { assert(s[a] == done[a] && s[b] == done[b]); }
        else if a >= done.len() { assert(s[a] == g[a - done.len()].0 && s[b] == g[b - done.len()].0); }
        else { assert(s[a] == done[a] && near(e, o, s[a], (n - 1) as nat)); assert(s[b] == g[b - done.len()].0); assert(dist_is(e, o, s[b], n)); }
    }
    lemma_card(s);
}
/// C22: p is a goal other than the origin, and none is closer
pub open spec fn nearest<P: PosT, F: Fn(P) -> bool>(e: Moves<P>, o: P, found: F, p: P, n: nat) -> bool {
    fv(found, p) && n > 0 && dist_is(e, o, p, n) && forall|q: P, m: nat| 0 < m < n && #[trigger] dist_is(e, o, q, m) ==> !fv(found, q)
}
/// C22: the path leads from the origin to p by allowed movements, and p is a goal to which no goal is closer
pub open spec fn best_path<P: PosT, F: Fn(P) -> bool>(e: Moves<P>, o: P, found: F, p: P, path: Seq<Dir>) -> bool {
    walk(e, o, path) is Some && (walk(e, o, path)->0).0 == p && (walk(e, o, path)->0).1 == path.len() && nearest(e, o, found, p, path.len())
}
/// C22: no goal other than the origin can be reached
pub open spec fn no_goal<P: PosT, F: Fn(P) -> bool>(e: Moves<P>, o: P, found: F) -> bool {
    forall|q: P, m: nat| 0 < m && #[trigger] dist_is(e, o, q, m) ==> !fv(found, q)
}
/// the set a backend starts with
pub open spec fn empty_default<P: PosT, const WORDS: usize, const SIZE: usize, S: SetPos<P, WORDS, SIZE> + Default>() -> bool {
    S::stok() && forall|s: S| #[trigger] call_ensures(S::default, (), s) ==> s.swf() && forall|p: P| p.pwf() ==> !#[trigger] s.has(p)
}
pub proof fn lemma_empty_grid<P: PosT, const WORDS: usize, const SIZE: usize>()
    requires gpos::<P>(),
    ensures empty_default::<P, WORDS, SIZE, Gridbool<P, WORDS>>(),
{
    assert forall|s: Gridbool<P, WORDS>| #[trigger] call_ensures(<Gridbool<P, WORDS> as Default>::default, (), s) implies
        <Gridbool<P, WORDS> as SetPos<P, WORDS, SIZE>>::swf(&s) && forall|p: P| p.pwf() ==> !#[trigger] <Gridbool<P, WORDS> as SetPos<P, WORDS, SIZE>>::has(&s, p) by {
        assert forall|p: P| p.pwf() implies !#[trigger] <Gridbool<P, WORDS> as SetPos<P, WORDS, SIZE>>::has(&s, p) by { lemma_gix(p, p); }
    }
}
impl<GoFn: Fn(P, Dir) -> Option<P>, MySetPos: SetPos<P, WORDS, SIZE>, P: PosT, const D: bool, const WORDS: usize, const SIZE: usize> BfIterator<GoFn, MySetPos, P, D, WORDS, SIZE> {
    /// what next needs
    pub open spec fn wf(&self) -> bool { MySetPos::stok() && self.visited.swf() && go_ok(self.go) && front_ok(set_fn(self.visited), self.nextfront@) }
    pub open spec fn moves(&self) -> Moves<P> { moves::<P, GoFn, D>(self.go) }
    /// the next group yielded is the one at distance n from o
    pub open spec fn at(&self, o: P, n: nat) -> bool { at_layer(self.moves(), o, set_fn(self.visited), self.nextfront@, n) }
}
%% fn <BfIterator as Iterator>::next :: ret=r
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).go == old(self).go,
        match r {
            Some(f) => f@.len() > 0 && f@ == old(self).nextfront@
                && expand(old(self).moves(), set_fn(old(self).visited), f@, set_fn(final(self).visited), final(self).nextfront@),
            None => old(self).nextfront@.len() == 0 && final(self).nextfront@.len() == 0,
        },
        // C21: the group at distance n is yielded, and the next group is the one at distance n + 1; no group when there is none
        forall|o: P, n: nat| #[trigger] old(self).at(o, n) ==> match r {
            Some(f) => layer(old(self).moves(), o, f@, n) && final(self).at(o, n + 1),
            None => forall|p: P| !#[trigger] dist_is(old(self).moves(), o, p, n),
        },
        // the first step is from the origin
        old(self).nextfront@.len() == 1 && (forall|p: P| p.pwf() ==> !#[trigger] old(self).visited.has(p)) ==> final(self).at(old(self).nextfront@[0].0, 1),
% start
    let ghost e = moves::<P, GoFn, D>(self.go); let ghost v0 = set_fn(self.visited); let ghost f0 = self.nextfront@; let ghost ds = all_dirs::<D>();
    proof { lemma_moves::<P, GoFn, D>(self.go); }
% loop 1
    invariant
        MySetPos::stok(), self.visited.swf(), self.go == old(self).go, go_ok(self.go), e == moves::<P, GoFn, D>(self.go), moves_in(e), moves_unit(e),
        v0 == set_fn(old(self).visited), ds == all_dirs::<D>(), front_ok(v0, f0), front@ == f0, vxi1 <= f0.len(),
        mid(e, v0, f0, vxi1 as int, ds, -1, set_fn(self.visited), self.nextfront@),
    decreases f0.len() - vxi1,
% loopstart 1
    let ghost j = vxi1 - 1; let ghost w0 = set_fn(self.visited); let ghost mut k: int = 0; let ghost mut vp = w0; let ghost mut fp = self.nextfront@; let ghost p0 = f0[j].0;
    proof { assert(p0.pwf()); }
% looppre 2
    proof { lemma_mid_pos(e, v0, f0, j, ds, w0, set_fn(self.visited), self.nextfront@); }
% loop 2
    invariant
        MySetPos::stok(), self.visited.swf(), self.go == old(self).go, go_ok(self.go), e == moves::<P, GoFn, D>(self.go), moves_in(e), moves_unit(e),
        v0 == set_fn(old(self).visited), ds == all_dirs::<D>(), front_ok(v0, f0), front@ == f0, 0 <= j < f0.len(), j == vxi1 - 1, p0 == f0[j].0, p0.pwf(), {?pos: pos == p0, ?}
        0 <= k <= ds.len(), vxit2.wf(), vxit2.rem() =~= ds.skip(k),
        k == 0 ==> mid(e, v0, f0, j, ds, 0, set_fn(self.visited), self.nextfront@),
        k > 0 ==> mid(e, v0, f0, j, ds, k - 1, vp, fp) && tried(e, p0, ds[k - 1], vp, fp, set_fn(self.visited), self.nextfront@),
    ensures vxit2.rem().len() == 0,
    decreases ds.len() - k,
% loopstart 2
    proof {
        if k > 0 { lemma_mid_tried(e, v0, f0, j, ds, k - 1, vp, fp, set_fn(self.visited), self.nextfront@); }
        vp = set_fn(self.visited); fp = self.nextfront@;
        assert(ds.skip(k)[0] == ds[k]);
        lemma_all_dirs::<D>(ds[k]); lemma_dir_vec(ds[k], ds[k]);
        k = k + 1;
    }
% looppost 2
    proof {
        assert(k == ds.len());
        lemma_mid_tried(e, v0, f0, j, ds, k - 1, vp, fp, set_fn(self.visited), self.nextfront@);
        lemma_mid_done::<P, D>(e, v0, f0, j, set_fn(self.visited), self.nextfront@);
    }
% looppost 1
    proof { lemma_mid_end(e, v0, f0, ds, set_fn(self.visited), self.nextfront@); }
% end
    proof {
        if f0.len() == 1 && (forall|p: P| p.pwf() ==> !#[trigger] old(self).visited.has(p)) {
            lemma_start(e, f0[0].0);
            assert(at_layer(e, f0[0].0, v0, f0, 0));
            lemma_expand(e, f0[0].0, v0, f0, set_fn(self.visited), self.nextfront@, 0);
        }
        assert forall|o: P, n: nat| #[trigger] old(self).at(o, n) implies layer(e, o, f0, n) && final(self).at(o, n + 1) by {
            lemma_expand(e, o, v0, f0, set_fn(self.visited), self.nextfront@, n);
        }
    }
%% fn BfIterator::new :: ret=r
    requires empty_default::<P, WORDS, SIZE, MySetPos>(), go_ok(go), orig.pwf(),
    ensures r.wf(), r.go == go, r.at(*orig, 1),
%% fn bf_iter :: ret=r
    requires empty_default::<P, WORDS, SIZE, MySetPos>(), go_ok(go), orig.pwf(),
    ensures r.wf(), r.go == go, r.at(*orig, 1),
%% fn search_mapmov :: ret=r
    requires gpos::<P>(), empty_default::<P, WORDS, SIZE, MySetPos>(), blank_default::<P, WORDS, SIZE, MapPosDir>(), go_ok(go), found_ok(found), orig.pwf(),
    ensures match r {
        Ok((p, m)) => m.mwf() && p.pwf() && m.at(p) is Some && nearest(moves::<P, GoFn, D>(go), *orig, found, p, dist_fn(moves::<P, GoFn, D>(go), *orig)(p))
            && tree(map_fn(m), moves::<P, GoFn, D>(go), *orig, dist_fn(moves::<P, GoFn, D>(go), *orig), dist_fn(moves::<P, GoFn, D>(go), *orig)),
        Err(err) => err == Error::DestinationUnreachable && no_goal(moves::<P, GoFn, D>(go), *orig, found),
    },
% start
    let ghost e = moves::<P, GoFn, D>(go); let ghost o = *orig; let ghost mut n: nat = 1; let ghost mut done: Seq<P> = Seq::empty();
    proof { lemma_moves::<P, GoFn, D>(go); }
% loop 1
    invariant_except_break vxit1.at(o, n),
    invariant
        gpos::<P>(), MapPosDir::mtok(), from.mwf(), go_ok(go), found_ok(found), o.pwf(), e == moves::<P, GoFn, D>(go), moves_unit(e), moves_in(e), o == *orig,
        vxit1.wf(), vxit1.go == go, n > 0, mapping(e, o, map_fn(from), n), yielded(e, o, done, (n - 1) as nat),
        forall|q: P, m: nat| 0 < m < n && #[trigger] dist_is(e, o, q, m) ==> !fv(found, q),
        done.len() <= pw::<P>() * ph::<P>(),
    ensures forall|p: P| !#[trigger] dist_is(e, o, p, n),
    decreases pw::<P>() * ph::<P>() - done.len(),
% loopstart 1
    let ghost g = vxs1@;
    proof {
        lemma_yielded(e, o, done, g, n);
        done = done + Seq::new(g.len(), |i: int| g[i].0);
        n = n + 1;
    }
% loop 2
    invariant
        gpos::<P>(), MapPosDir::mtok(), from.mwf(), go_ok(go), found_ok(found), o.pwf(), e == moves::<P, GoFn, D>(go), moves_unit(e), moves_in(e), o == *orig,
        n > 1, g == vxs1@, layer(e, o, g, (n - 1) as nat), mapping(e, o, map_fn(from), (n - 1) as nat), vxi2 <= g.len(),
        forall|q: P, m: nat| 0 < m < n - 1 && #[trigger] dist_is(e, o, q, m) ==> !fv(found, q),
        forall|i: int| 0 <= i < vxi2 ==> map_fn(from)((#[trigger] g[i]).0) is Some && !fv(found, g[i].0),
    decreases g.len() - vxi2,
% loopstart 2
    let ghost h0 = map_fn(from); let ghost a = g[vxi2 - 1];
    proof {
        lemma_dist_fn(e, o, a.0, (n - 1) as nat);
        assert forall|i: int| 0 <= i < vxi2 - 1 implies (#[trigger] g[i]).0 != a.0 by {}
        assert forall|m: MapPosDir| (forall|q: P| q.pwf() ==> #[trigger] m.at(q) == (if q == a.0 { Some(a.1) } else { h0(q) })) implies
            mapping(e, o, #[trigger] map_fn(m), (n - 1) as nat) && tree(map_fn(m), e, o, dist_fn(e, o), dist_fn(e, o)) by {
            let h = map_fn(m);
            assert forall|q: P| q.pwf() implies #[trigger] h(q) == (if q == a.0 { Some(a.1) } else { h0(q) }) by { assert(m.at(q) == h(q)); }
            lemma_mapping_set(e, o, h0, h, a, (n - 1) as nat);
            lemma_mapping_tree(e, o, h, (n - 1) as nat);
        }
    }
% looppost 2
    proof {
        lemma_mapping_next(e, o, map_fn(from), g, (n - 1) as nat);
        assert forall|q: P, m: nat| 0 < m < n && #[trigger] dist_is(e, o, q, m) implies !fv(found, q) by {
            if m == n - 1 { assert(listed(g, q)); let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).0 == q; assert(!fv(found, g[i].0)); }
        }
    }
% looppost 1
    proof {
        assert forall|q: P, m: nat| 0 < m && #[trigger] dist_is(e, o, q, m) implies !fv(found, q) by { lemma_dist_gap(e, o, n, q, m); }
    }
%% fn search_path :: ret=r
    requires gpos::<P>(), pw::<P>() * ph::<P>() < usize::MAX, addable::<P>(), empty_default::<P, WORDS, SIZE, MySetPos>(), blank_default::<P, WORDS, SIZE, MapPosDir>(),
        go_ok(go), go_plain(go), found_ok(found), orig.pwf(),
    ensures match r {
        Ok((p, path)) => best_path(moves::<P, GoFn, D>(go), *orig, found, p, path@),
        Err(err) => err == Error::DestinationUnreachable && no_goal(moves::<P, GoFn, D>(go), *orig, found),
    },
% start
    proof {
        lemma_moves::<P, GoFn, D>(go);
        let e = moves::<P, GoFn, D>(go); let d = dist_fn(e, *orig);
        assert forall|f: CameFrom<P>, q: P, r: Result<Seq<Dir>, Error>| tree(f, e, *orig, d, d) && q.pwf() && f(q) is Some && #[trigger] came_from(f, *orig, q, r) implies
            (r matches Ok(path) && walk(e, *orig, path) == Some((q, d(q)))) by { lemma_tree_path(f, e, *orig, d, d, q, r); }
        assert forall|s: Seq<Dir>| (#[trigger] walk(e, *orig, s)) is Some implies (walk(e, *orig, s)->0).1 == s.len() by { lemma_walk_unit(e, *orig, s); }
    }
%% foreach B K = grid true; hash obeys_key_model::<P>(); btree key_obeys_cmp_spec::<P>()
%% fn bf_iter_@B@ :: ret=r
    requires gpos::<P>(), @K@, go_ok(go), orig.pwf(),
    ensures r.wf(), r.go == go, r.at(*orig, 1),
% start
    proof { lemma_empty_grid::<P, WORDS, SIZE>(); }
%% fn Sqrid::bf_iter_@B@ :: ret=r
    requires gpos::<P>(), @K@, go_ok(go), orig.pwf(),
    ensures r.wf(), r.go == go, r.at(*orig, 1),
%% fn search_path_@B@ :: ret=r
    requires gpos::<P>(), pw::<P>() * ph::<P>() < usize::MAX, addable::<P>(), @K@, go_ok(go), go_plain(go), found_ok(found), orig.pwf(),
    ensures match r {
        Ok((p, path)) => best_path(moves::<P, GoFn, D>(go), *orig, found, p, path@),
        Err(err) => err == Error::DestinationUnreachable && no_goal(moves::<P, GoFn, D>(go), *orig, found),
    },
% start
    proof { lemma_empty_grid::<P, WORDS, SIZE>(); lemma_blank_grid::<P, WORDS, SIZE>(); }
%% fn Sqrid::bfs_path_@B@ :: ret=r
    requires gpos::<P>(), pw::<P>() * ph::<P>() < usize::MAX, addable::<P>(), @K@, go_ok(go), go_plain(go), found_ok(found), orig.pwf(),
    ensures match r {
        Ok((p, path)) => best_path(moves::<P, GoFn, D>(go), *orig, found, p, path@),
        Err(err) => err == Error::DestinationUnreachable && no_goal(moves::<P, GoFn, D>(go), *orig, found),
    },
%% endforeach
%% fn Sqrid::bf_iter :: ret=r
    requires gpos::<P>(), go_ok(go), orig.pwf(),
    ensures r.wf(), r.go == go, r.at(*orig, 1),
%% fn Sqrid::bfs_path :: ret=r
    requires gpos::<P>(), pw::<P>() * ph::<P>() < usize::MAX, addable::<P>(), go_ok(go), go_plain(go), found_ok(found), orig.pwf(),
    ensures match r {
        Ok((p, path)) => best_path(moves::<P, GoFn, D>(go), *orig, found, p, path@),
        Err(err) => err == Error::DestinationUnreachable && no_goal(moves::<P, GoFn, D>(go), *orig, found),
    },
