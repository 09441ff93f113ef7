%% module bestfirst
%% header
use vstd::std_specs::cmp::*;
use vstd::multiset::*;
use std::collections::BinaryHeap;
use std::cmp::Reverse;
use super::boundedint::*;
use super::postrait::*;
use super::dir::*;
use super::grid::*;
use super::mappos::*;
use super::searchlib::*;
use super::error::Error;
%% prelude
// ---- trusted: std::collections::BinaryHeap as a multiset from which a greatest element is popped ----
#[verifier::external_type_specification]
pub struct ExReverse<T>(Reverse<T>);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
#[verifier::reject_recursive_types(A)]
pub struct ExBinaryHeap<T, A: std::alloc::Allocator>(BinaryHeap<T, A>);
pub uninterp spec fn heap_items<T, A: std::alloc::Allocator>(h: BinaryHeap<T, A>) -> Multiset<T>;
/// the order of T
pub uninterp spec fn heap_le<T>(a: T, b: T) -> bool;
pub assume_specification<T: Ord, A: std::alloc::Allocator>[BinaryHeap::<T, A>::push](h: &mut BinaryHeap<T, A>, x: T)
    ensures heap_items(*final(h)) == heap_items(*old(h)).insert(x);
pub assume_specification<T: Ord, A: std::alloc::Allocator>[BinaryHeap::<T, A>::pop](h: &mut BinaryHeap<T, A>) -> (r: Option<T>)
    ensures match r {
        Some(x) => heap_items(*old(h)).count(x) > 0 && heap_items(*final(h)) == heap_items(*old(h)).remove(x) && forall|y: T| #[trigger] heap_items(*old(h)).count(y) > 0 ==> heap_le(y, x),
        None => heap_items(*old(h)) == Multiset::<T>::empty() && *final(h) == *old(h),
    };
pub assume_specification<T>[<BinaryHeap<T> as Default>::default]() -> (r: BinaryHeap<T>)
    ensures heap_items(r) == Multiset::<T>::empty();
pub assume_specification<T>[BinaryHeap::<T>::new]() -> (r: BinaryHeap<T>)
    ensures heap_items(r) == Multiset::<T>::empty();
/// tuples are ordered by their first component first, and `Reverse` reverses the order
#[verifier::external_body]
pub proof fn axiom_heap_le<P>(a: Ent<P>, b: Ent<P>)
    ensures heap_le(a, b) ==> pri(b) <= pri(a),
{}

// ---- best-first search with a consistent estimate ----
/// an entry of the frontier: its priority, a position, and the opposite of the direction it is entered by
pub type Ent<P> = (Reverse<usize>, (P, Dir));
pub type Heap<P> = Multiset<Ent<P>>;
/// costs of positions; usize::MAX for none
pub type Costs<P> = spec_fn(P) -> nat;
pub open spec fn pri<P>(a: Ent<P>) -> nat { a.0.0 as nat }
pub open spec fn ent0<P>(o: P, b: Dir) -> Ent<P> { (Reverse(0usize), (o, b)) }
pub open spec fn inf() -> nat { usize::MAX as nat }
/// an entry that is not stale
pub open spec fn live<P>(h: Costs<P>, g: Costs<P>, q: Heap<P>, a: Ent<P>) -> bool { q.count(a) > 0 && pri(a) <= g(a.1.0) + h(a.1.0) }
pub open spec fn is_open<P>(h: Costs<P>, g: Costs<P>, q: Heap<P>, p: P) -> bool { exists|a: Ent<P>| a.1.0 == p && #[trigger] live(h, g, q, a) }
/// the position has been yielded
pub open spec fn closed<P: PosT>(h: Costs<P>, g: Costs<P>, q: Heap<P>, p: P) -> bool { p.pwf() && g(p) < inf() && !is_open(h, g, q, p) }
/// no movement can lower the estimated total
pub open spec fn consistent<P: PosT>(e: Moves<P>, h: Costs<P>) -> bool {
    forall|p: P, d: Dir| p.pwf() && #[trigger] e(p, d) is Some ==> h(p) <= h((e(p, d)->0).0) + (e(p, d)->0).1
}
/// the entry was made from a position already yielded
pub open spec fn ent_ok<P: PosT>(e: Moves<P>, o: P, h: Costs<P>, g: Costs<P>, q: Heap<P>, a: Ent<P>) -> bool {
    q.count(a) == 1 && a.1.0.pwf() && g(a.1.0) < inf() && if a.1.0 == o { pri(a) == 0 } else { exists|p: P| ent_from(e, h, g, q, a, p) }
}
pub open spec fn ent_from<P: PosT>(e: Moves<P>, h: Costs<P>, g: Costs<P>, q: Heap<P>, a: Ent<P>, p: P) -> bool {
    closed(h, g, q, p) && (#[trigger] e(p, opposite(a.1.1)) matches Some(b) && b.0 == a.1.0 && pri(a) == g(p) + b.1 + h(a.1.0) && g(a.1.0) <= g(p) + b.1)
}
pub open spec fn least<P>(e: Moves<P>, o: P, p: P, n: nat) -> bool { forall|c: nat| #[trigger] reach(e, o, p, c) ==> n <= c }
/// the state of the search; the directions ds[k..] of x are still to be tried
pub open spec fn bf_inv<P: PosT>(e: Moves<P>, o: P, h: Costs<P>, g: Costs<P>, q: Heap<P>, x: Option<P>, ds: Seq<Dir>, k: int) -> bool {
    o.pwf() && g(o) == 0
    && (forall|p: P| p.pwf() ==> #[trigger] g(p) <= inf() && (g(p) < inf() ==> reach(e, o, p, g(p))))
    && (forall|p: P| #[trigger] closed(h, g, q, p) ==> least(e, o, p, g(p)))
    && (forall|p: P, d: Dir| closed(h, g, q, p) && #[trigger] e(p, d) is Some && (x == Some(p) ==> exists|i: int| 0 <= i < k && ds[i] == d) ==> g((e(p, d)->0).0) <= g(p) + (e(p, d)->0).1)
    && (forall|a: Ent<P>| #[trigger] q.count(a) > 0 ==> ent_ok(e, o, h, g, q, a))
    && (forall|a: Ent<P>, b: Ent<P>| #[trigger] q.count(a) > 0 && #[trigger] q.count(b) > 0 && a.1.0 == b.1.0 && pri(a) == pri(b) ==> a == b)
    && (x matches Some(p) ==> closed(h, g, q, p))
}
pub proof fn lemma_bf_start<P: PosT>(e: Moves<P>, o: P, h: Costs<P>, g: Costs<P>, q: Heap<P>, b: Dir)
    requires o.pwf(), g(o) == 0, forall|p: P| p.pwf() && p != o ==> #[trigger] g(p) == inf(), q == Multiset::<Ent<P>>::empty().insert((Reverse(0usize), (o, b))),
    ensures bf_inv(e, o, h, g, q, None, Seq::empty(), 0), forall|p: P| !closed(h, g, q, p),
{
    let a0: Ent<P> = (Reverse(0usize), (o, b));
    lemma_reach_zero(e, o);
    assert(live(h, g, q, a0));
    assert forall|p: P| !closed(h, g, q, p) by { if p.pwf() && g(p) < inf() { assert(p == o); assert(is_open(h, g, q, o)); } }
    assert forall|a: Ent<P>| #[trigger] q.count(a) > 0 implies a == a0 && q.count(a) == 1 by {}
}
/// every walk of finite cost ends at a yielded position, or a live entry estimates no more than its cost
pub proof fn lemma_bf_front<P: PosT>(e: Moves<P>, o: P, h: Costs<P>, g: Costs<P>, q: Heap<P>, s: Seq<Dir>)
    requires bf_inv(e, o, h, g, q, None, Seq::empty(), 0), moves_in(e), consistent(e, h), walk(e, o, s) is Some,
    ensures ({ let v = (walk(e, o, s)->0).0; let c = (walk(e, o, s)->0).1;
        c >= inf() || closed(h, g, q, v) || exists|a: Ent<P>| #[trigger] live(h, g, q, a) && pri(a) <= c + h(v) }),
    decreases s.len(),
{
    let v = (walk(e, o, s)->0).0; let c = (walk(e, o, s)->0).1;
    if s.len() == 0 {
        if !closed(h, g, q, o) { let a = choose|a: Ent<P>| a.1.0 == o && #[trigger] live(h, g, q, a); assert(live(h, g, q, a)); }
    } else {
        lemma_bf_front(e, o, h, g, q, s.drop_last());
        let u = (walk(e, o, s.drop_last())->0).0; let b = (walk(e, o, s.drop_last())->0).1; let d = s.last();
        lemma_walk_in(e, o, s.drop_last()); lemma_walk_in(e, o, s);
        assert(e(u, d) is Some && v == (e(u, d)->0).0 && c == b + (e(u, d)->0).1);
        if c < inf() {
            if closed(h, g, q, u) {
                assert(reach(e, o, u, b));
                assert(g(u) <= b);
                assert(g(v) <= c);
                if !closed(h, g, q, v) { let a = choose|a: Ent<P>| a.1.0 == v && #[trigger] live(h, g, q, a); assert(live(h, g, q, a) && pri(a) <= c + h(v)); }
            } else {
                let a = choose|a: Ent<P>| #[trigger] live(h, g, q, a) && pri(a) <= b + h(u);
                assert(live(h, g, q, a) && pri(a) <= c + h(v));
            }
        }
    }
}
pub proof fn lemma_ent_low<P: PosT>(e: Moves<P>, o: P, h: Costs<P>, g: Costs<P>, q: Heap<P>, a: Ent<P>)
    requires ent_ok(e, o, h, g, q, a),
    ensures a.1.0 != o ==> pri(a) >= g(a.1.0) + h(a.1.0),
{
    if a.1.0 != o { let p = choose|p: P| ent_from(e, h, g, q, a, p); }
}
/// entries stay correct when the entries of other positions change, and yielded positions keep their costs
pub proof fn lemma_ent_keep<P: PosT>(e: Moves<P>, o: P, h: Costs<P>, g: Costs<P>, q: Heap<P>, g2: Costs<P>, q2: Heap<P>, a: Ent<P>)
    requires ent_ok(e, o, h, g, q, a), q2.count(a) == 1, forall|p: P| #[trigger] closed(h, g, q, p) ==> closed(h, g2, q2, p) && g2(p) == g(p), g2(a.1.0) <= g(a.1.0),
    ensures ent_ok(e, o, h, g2, q2, a),
{
    if a.1.0 != o { let p = choose|p: P| ent_from(e, h, g, q, a, p); assert(ent_from(e, h, g2, q2, a, p)); }
}
pub proof fn lemma_bf_stale<P: PosT>(e: Moves<P>, o: P, h: Costs<P>, g: Costs<P>, q: Heap<P>, a: Ent<P>)
    requires bf_inv(e, o, h, g, q, None, Seq::empty(), 0), q.count(a) > 0, pri(a) > g(a.1.0) + h(a.1.0),
    ensures bf_inv(e, o, h, g, q.remove(a), None, Seq::empty(), 0), forall|p: P| #[trigger] closed(h, g, q.remove(a), p) == closed(h, g, q, p),
{
    let r = q.remove(a);
    assert forall|b: Ent<P>| #[trigger] live(h, g, r, b) == live(h, g, q, b) by {}
    assert forall|p: P| #[trigger] is_open(h, g, r, p) == is_open(h, g, q, p) by {
        if is_open(h, g, q, p) { let b = choose|b: Ent<P>| b.1.0 == p && #[trigger] live(h, g, q, b); assert(live(h, g, r, b)); }
    }
    assert forall|p: P| #[trigger] closed(h, g, r, p) == closed(h, g, q, p) by {}
    assert forall|b: Ent<P>| #[trigger] r.count(b) > 0 implies ent_ok(e, o, h, g, r, b) by {
        assert(q.count(b) > 0); assert(ent_ok(e, o, h, g, q, b)); assert(ent_ok(e, o, h, g, q, a));
        lemma_ent_keep(e, o, h, g, q, g, r, b);
    }
    assert forall|b: Ent<P>, c: Ent<P>| #[trigger] r.count(b) > 0 && #[trigger] r.count(c) > 0 && b.1.0 == c.1.0 && pri(b) == pri(c) implies b == c by { assert(q.count(b) > 0 && q.count(c) > 0); }
}
/// what yielding p with direction b means
pub open spec fn bf_yield<P: PosT>(e: Moves<P>, o: P, h: Costs<P>, g: Costs<P>, q: Heap<P>, g2: Costs<P>, q2: Heap<P>, p: P, b: Dir) -> bool {
    p.pwf() && !closed(h, g, q, p) && dist_is(e, o, p, g2(p)) && g2(p) < inf()
    && (forall|r: P| #[trigger] closed(h, g2, q2, r) == (r == p || closed(h, g, q, r)))
    && (forall|r: P| #[trigger] closed(h, g, q, r) ==> g2(r) == g(r))
    && (p != o ==> exists|r: P| closed(h, g, q, r) && (#[trigger] e(r, opposite(b)) matches Some(t) && t.0 == p && g2(p) == g(r) + t.1))
}
/// the yielded positions are what matters, not the frontier
pub proof fn lemma_bf_yield_same<P: PosT>(e: Moves<P>, o: P, h: Costs<P>, g: Costs<P>, q0: Heap<P>, q: Heap<P>, g2: Costs<P>, q2: Heap<P>, p: P, b: Dir)
    requires bf_yield(e, o, h, g, q, g2, q2, p, b), forall|r: P| #[trigger] closed(h, g, q, r) == closed(h, g, q0, r),
    ensures bf_yield(e, o, h, g, q0, g2, q2, p, b),
{
    hide(closed);
    assert forall|r: P| #[trigger] closed(h, g, q0, r) implies g2(r) == g(r) by { assert(closed(h, g, q, r)); }
    assert forall|r: P| #[trigger] closed(h, g2, q2, r) == (r == p || closed(h, g, q0, r)) by { assert(closed(h, g, q, r) == closed(h, g, q0, r)); }
    if p != o { let r = choose|r: P| closed(h, g, q, r) && (#[trigger] e(r, opposite(b)) matches Some(t) && t.0 == p && g2(p) == g(r) + t.1); assert(closed(h, g, q0, r) && e(r, opposite(b)) is Some); }
}
pub proof fn lemma_bf_pop<P: PosT>(e: Moves<P>, o: P, h: Costs<P>, g: Costs<P>, q: Heap<P>, a: Ent<P>, ds: Seq<Dir>)
    requires bf_inv(e, o, h, g, q, None, Seq::empty(), 0), moves_in(e), consistent(e, h), q.count(a) > 0, pri(a) <= g(a.1.0) + h(a.1.0), forall|b: Ent<P>| #[trigger] q.count(b) > 0 ==> pri(a) <= pri(b),
    ensures bf_inv(e, o, h, g, q.remove(a), Some(a.1.0), ds, 0), bf_yield(e, o, h, g, q, g, q.remove(a), a.1.0, a.1.1),
{
    let r = q.remove(a); let p = a.1.0;
    assert(ent_ok(e, o, h, g, q, a)); lemma_ent_low(e, o, h, g, q, a);
    assert(live(h, g, q, a));
    // least
    assert forall|c: nat| #[trigger] reach(e, o, p, c) implies g(p) <= c by {
        let s = choose|s: Seq<Dir>| #[trigger] walk(e, o, s) == Some((p, c));
        if p != o {
            lemma_bf_front(e, o, h, g, q, s);
            if c < inf() { let b = choose|b: Ent<P>| #[trigger] live(h, g, q, b) && pri(b) <= c + h(p); assert(q.count(b) > 0); assert(pri(a) <= pri(b)); }
        }
    }
    // no other live entry of p
    assert forall|b: Ent<P>| #[trigger] live(h, g, r, b) implies live(h, g, q, b) && b.1.0 != p by {
        assert(r.count(b) > 0); assert(q.count(b) > 0); assert(ent_ok(e, o, h, g, q, b));
        if b.1.0 == p { lemma_ent_low(e, o, h, g, q, b); assert(pri(b) == pri(a)); assert(a == b); assert(false); }
    }
    assert forall|b: Ent<P>| #[trigger] live(h, g, q, b) && b.1.0 != p implies live(h, g, r, b) by {}
    assert forall|s: P| #[trigger] closed(h, g, r, s) == (s == p || closed(h, g, q, s)) by {
        if s == p { if is_open(h, g, r, p) { let b = choose|b: Ent<P>| b.1.0 == p && #[trigger] live(h, g, r, b); assert(false); } }
        else {
            if is_open(h, g, r, s) { let b = choose|b: Ent<P>| b.1.0 == s && #[trigger] live(h, g, r, b); assert(live(h, g, q, b)); }
            if is_open(h, g, q, s) { let b = choose|b: Ent<P>| b.1.0 == s && #[trigger] live(h, g, q, b); assert(live(h, g, r, b)); }
        }
    }
    assert forall|b: Ent<P>| #[trigger] r.count(b) > 0 implies ent_ok(e, o, h, g, r, b) by {
        assert(q.count(b) > 0); assert(ent_ok(e, o, h, g, q, b));
        lemma_ent_keep(e, o, h, g, q, g, r, b);
    }
    assert forall|b: Ent<P>, c: Ent<P>| #[trigger] r.count(b) > 0 && #[trigger] r.count(c) > 0 && b.1.0 == c.1.0 && pri(b) == pri(c) implies b == c by { assert(q.count(b) > 0 && q.count(c) > 0); }
    assert forall|s: P, d: Dir| closed(h, g, r, s) && #[trigger] e(s, d) is Some && (Some(p) == Some(s) ==> exists|i: int| 0 <= i < 0 && ds[i] == d) implies g((e(s, d)->0).0) <= g(s) + (e(s, d)->0).1 by {
        assert(s != p); assert(closed(h, g, q, s));
    }
    if p != o { let s = choose|s: P| ent_from(e, h, g, q, a, s); assert(closed(h, g, q, s) && e(s, opposite(a.1.1)) is Some); }
}
/// a direction that leads nowhere, or to a position already reached as cheaply
pub proof fn lemma_bf_skip<P: PosT>(e: Moves<P>, o: P, h: Costs<P>, g: Costs<P>, q: Heap<P>, p: P, ds: Seq<Dir>, k: int)
    requires bf_inv(e, o, h, g, q, Some(p), ds, k), 0 <= k < ds.len(), e(p, ds[k]) matches Some(b) ==> g(b.0) <= g(p) + b.1,
    ensures bf_inv(e, o, h, g, q, Some(p), ds, k + 1),
{
    assert forall|s: P, d: Dir| closed(h, g, q, s) && #[trigger] e(s, d) is Some && (Some(p) == Some(s) ==> exists|i: int| 0 <= i < k + 1 && ds[i] == d) implies g((e(s, d)->0).0) <= g(s) + (e(s, d)->0).1 by {
        if s == p { let i = choose|i: int| 0 <= i < k + 1 && ds[i] == d; if i < k { assert(0 <= i < k && ds[i] == d); } }
    }
}
/// a direction that leads to a position not yet reached as cheaply
pub proof fn lemma_bf_relax<P: PosT>(e: Moves<P>, o: P, h: Costs<P>, g: Costs<P>, q: Heap<P>, p: P, ds: Seq<Dir>, k: int, g2: Costs<P>, a: Ent<P>)
    requires bf_inv(e, o, h, g, q, Some(p), ds, k), moves_in(e), 0 <= k < ds.len(), e(p, ds[k]) matches Some(b) && b.0 == a.1.0 && g(p) + b.1 < g(b.0) && pri(a) == g(p) + b.1 + h(b.0) && g2(b.0) == g(p) + b.1,
        opposite(a.1.1) == ds[k], forall|r: P| r.pwf() && r != a.1.0 ==> #[trigger] g2(r) == g(r),
    ensures bf_inv(e, o, h, g2, q.insert(a), Some(p), ds, k + 1), forall|r: P| #[trigger] closed(h, g2, q.insert(a), r) == closed(h, g, q, r), forall|r: P| #[trigger] closed(h, g, q, r) ==> g2(r) == g(r),
{
    let b = e(p, ds[k])->0; let v = b.0; let r = q.insert(a);
    assert(v.pwf());
    lemma_reach_step(e, o, p, g(p), ds[k]);
    assert(reach(e, o, v, g2(v)));
    assert(!closed(h, g, q, v));
    assert(v != o && v != p);
    assert(g2(v) < g(v) <= inf());
    assert(r.count(a) > 0 && live(h, g2, r, a));
    assert forall|c: Ent<P>| #[trigger] q.count(c) > 0 && c.1.0 == v implies pri(c) > pri(a) by { assert(ent_ok(e, o, h, g, q, c)); lemma_ent_low(e, o, h, g, q, c); }
    assert(q.count(a) == 0);
    assert forall|s: P| #[trigger] closed(h, g2, r, s) == closed(h, g, q, s) by {
        if s == v { assert(is_open(h, g2, r, v)); }
        else if s.pwf() {
            assert(g2(s) == g(s));
            if is_open(h, g2, r, s) { let c = choose|c: Ent<P>| c.1.0 == s && #[trigger] live(h, g2, r, c); assert(c != a); assert(live(h, g, q, c)); }
            if is_open(h, g, q, s) { let c = choose|c: Ent<P>| c.1.0 == s && #[trigger] live(h, g, q, c); assert(live(h, g2, r, c)); }
        }
    }
    assert forall|s: P| #[trigger] closed(h, g, q, s) implies g2(s) == g(s) by {}
    assert forall|c: Ent<P>| #[trigger] r.count(c) > 0 implies ent_ok(e, o, h, g2, r, c) by {
        if c == a { assert(closed(h, g2, r, p)); assert(ent_from(e, h, g2, r, a, p)); }
        else { assert(q.count(c) > 0); assert(ent_ok(e, o, h, g, q, c)); lemma_ent_keep(e, o, h, g, q, g2, r, c); }
    }
    assert forall|c: Ent<P>, d: Ent<P>| #[trigger] r.count(c) > 0 && #[trigger] r.count(d) > 0 && c.1.0 == d.1.0 && pri(c) == pri(d) implies c == d by {
        if c != a { assert(q.count(c) > 0); } if d != a { assert(q.count(d) > 0); }
    }
    assert forall|s: P, d: Dir| closed(h, g2, r, s) && #[trigger] e(s, d) is Some && (Some(p) == Some(s) ==> exists|i: int| 0 <= i < k + 1 && ds[i] == d) implies g2((e(s, d)->0).0) <= g2(s) + (e(s, d)->0).1 by {
        assert(closed(h, g, q, s)); let w = (e(s, d)->0).0; assert(w.pwf());
        if s == p { let i = choose|i: int| 0 <= i < k + 1 && ds[i] == d; if i < k { assert(0 <= i < k && ds[i] == d); } else { assert(w == v); } }
        else { assert(g(w) <= g(s) + (e(s, d)->0).1); }
    }
}
/// all directions of the position tried
pub proof fn lemma_bf_done<P: PosT, const D: bool>(e: Moves<P>, o: P, h: Costs<P>, g: Costs<P>, q: Heap<P>, p: P)
    requires bf_inv(e, o, h, g, q, Some(p), all_dirs::<D>(), all_dirs::<D>().len() as int), forall|p: P, d: Dir| #[trigger] e(p, d) is Some ==> dir_ok::<D>(d),
    ensures bf_inv(e, o, h, g, q, None, Seq::empty(), 0),
{
    let ds = all_dirs::<D>();
    assert forall|s: P, d: Dir| closed(h, g, q, s) && #[trigger] e(s, d) is Some implies g((e(s, d)->0).0) <= g(s) + (e(s, d)->0).1 by {
        lemma_all_dirs::<D>(d); let i = choose|i: int| 0 <= i < ds.len() && ds[i] == d; assert(0 <= i < ds.len() && ds[i] == d);
    }
}
/// with an empty frontier, everything that can be reached has been yielded
pub proof fn lemma_bf_end<P: PosT>(e: Moves<P>, o: P, h: Costs<P>, g: Costs<P>, q: Heap<P>, p: P, c: nat)
    requires bf_inv(e, o, h, g, q, None, Seq::empty(), 0), moves_in(e), consistent(e, h), q == Multiset::<Ent<P>>::empty(), reach(e, o, p, c), c < inf(),
    ensures closed(h, g, q, p),
{
    let s = choose|s: Seq<Dir>| #[trigger] walk(e, o, s) == Some((p, c));
    lemma_bf_front(e, o, h, g, q, s);
    if !closed(h, g, q, p) { let a = choose|a: Ent<P>| #[trigger] live(h, g, q, a) && pri(a) <= c + h(p); assert(q.count(a) > 0); }
}
/// positions in the order they were yielded, and the directions stored for them
pub open spec fn ordered<P: PosT>(e: Moves<P>, o: P, f: CameFrom<P>, g: Costs<P>, ys: Seq<P>) -> bool {
    ys.no_duplicates()
    && (forall|i: int| 0 <= i < ys.len() ==> (#[trigger] ys[i]).pwf() && f(ys[i]) is Some && (ys[i] != o ==> ordered_at(e, f, g, ys, i)))
    && (forall|p: P| p.pwf() && #[trigger] f(p) is Some ==> ys.contains(p))
}
pub open spec fn ordered_at<P: PosT>(e: Moves<P>, f: CameFrom<P>, g: Costs<P>, ys: Seq<P>, i: int) -> bool {
    exists|j: int| 0 <= j < i && e(#[trigger] ys[j], opposite(f(ys[i])->0)) == Some((ys[i], (g(ys[i]) - g(ys[j])) as nat)) && g(ys[j]) <= g(ys[i])
}
/// the yielded positions are those in ys
pub open spec fn all_closed<P: PosT>(h: Costs<P>, g: Costs<P>, q: Heap<P>, ys: Seq<P>) -> bool { forall|r: P| r.pwf() ==> (#[trigger] ys.contains(r)) == closed(h, g, q, r) }
pub proof fn lemma_push_contains<P>(ys: Seq<P>, p: P)
    ensures forall|r: P| #[trigger] ys.push(p).contains(r) == (r == p || ys.contains(r)), !ys.contains(p) && ys.no_duplicates() ==> ys.push(p).no_duplicates(),
{
    let zs = ys.push(p);
    assert forall|r: P| #[trigger] zs.contains(r) == (r == p || ys.contains(r)) by {
        if r == p { assert(zs[ys.len() as int] == p); }
        else {
            if ys.contains(r) { let i = choose|i: int| 0 <= i < ys.len() && ys[i] == r; assert(zs[i] == r); }
            if zs.contains(r) { let i = choose|i: int| 0 <= i < zs.len() && zs[i] == r; assert(ys[i] == r); }
        }
    }
    if !ys.contains(p) && ys.no_duplicates() {
        assert forall|i: int, j: int| 0 <= i < zs.len() && 0 <= j < zs.len() && i != j implies zs[i] != zs[j] by {
            if i < ys.len() { assert(ys.contains(ys[i])); } if j < ys.len() { assert(ys.contains(ys[j])); }
        }
    }
}
pub proof fn lemma_ordered_keep<P: PosT>(e: Moves<P>, f: CameFrom<P>, g: Costs<P>, f2: CameFrom<P>, g2: Costs<P>, ys: Seq<P>, p: P, i: int)
    requires 0 <= i < ys.len(), ordered_at(e, f, g, ys, i), f2(ys[i]) == f(ys[i]), forall|j: int| 0 <= j < ys.len() ==> g2(#[trigger] ys[j]) == g(ys[j]),
    ensures ordered_at(e, f2, g2, ys.push(p), i),
{
    let zs = ys.push(p);
    let j = choose|j: int| 0 <= j < i && e(#[trigger] ys[j], opposite(f(ys[i])->0)) == Some((ys[i], (g(ys[i]) - g(ys[j])) as nat)) && g(ys[j]) <= g(ys[i]);
    assert(zs[j] == ys[j] && zs[i] == ys[i]);
    assert(g2(ys[j]) == g(ys[j]) && g2(ys[i]) == g(ys[i]));
    assert(e(zs[j], opposite(f2(zs[i])->0)) == Some((zs[i], (g2(zs[i]) - g2(zs[j])) as nat)));
}
pub proof fn lemma_ordered_push<P: PosT>(e: Moves<P>, o: P, h: Costs<P>, g: Costs<P>, q: Heap<P>, g2: Costs<P>, q2: Heap<P>, p: P, b: Dir, ys: Seq<P>, f: CameFrom<P>, f2: CameFrom<P>)
    requires ordered(e, o, f, g, ys), all_closed(h, g, q, ys), bf_yield(e, o, h, g, q, g2, q2, p, b),
        forall|r: P| r.pwf() ==> #[trigger] f2(r) == (if r == p { Some(b) } else { f(r) }), gpos::<P>(),
    ensures ordered(e, o, f2, g2, ys.push(p)), all_closed(h, g2, q2, ys.push(p)), ys.len() < pw::<P>() * ph::<P>(),
{
    hide(closed);
    let zs = ys.push(p);
    assert(!ys.contains(p));
    lemma_push_contains(ys, p);
    assert forall|j: int| 0 <= j < ys.len() implies g2(#[trigger] ys[j]) == g(ys[j]) by { assert(ys.contains(ys[j])); assert(closed(h, g, q, ys[j])); }
    assert forall|i: int| 0 <= i < zs.len() implies (#[trigger] zs[i]).pwf() && f2(zs[i]) is Some && (zs[i] != o ==> ordered_at(e, f2, g2, zs, i)) by {
        if i < ys.len() {
            assert(zs[i] == ys[i]); assert(ys.contains(ys[i]));
            assert(f2(ys[i]) == f(ys[i]));
            if ys[i] != o { lemma_ordered_keep(e, f, g, f2, g2, ys, p, i); }
        } else {
            assert(zs[i] == p); assert(f2(p) == Some(b));
            if p != o {
                let r = choose|r: P| closed(h, g, q, r) && (#[trigger] e(r, opposite(b)) matches Some(t) && t.0 == p && g2(p) == g(r) + t.1);
                assert(r.pwf()) by { reveal(closed); }
                assert(ys.contains(r)); let j = choose|j: int| 0 <= j < ys.len() && ys[j] == r; assert(zs[j] == r);
                assert(g2(ys[j]) == g(ys[j]));
                assert(e(zs[j], opposite(f2(zs[i])->0)) == Some((zs[i], (g2(zs[i]) - g2(zs[j])) as nat)));
            }
        }
    }
    assert forall|r: P| r.pwf() && #[trigger] f2(r) is Some implies zs.contains(r) by { if r != p { assert(f(r) is Some); } }
    lemma_card(zs);
}
pub open spec fn rank_in<P>(ys: Seq<P>) -> spec_fn(P) -> nat { |p: P| ys.index_of(p) as nat }
pub proof fn lemma_ordered_tree<P: PosT>(e: Moves<P>, o: P, f: CameFrom<P>, g: Costs<P>, ys: Seq<P>)
    requires ordered(e, o, f, g, ys), g(o) == 0,
    ensures tree(f, e, o, rank_in(ys), g),
{
    assert forall|q: P| q.pwf() && q != o && #[trigger] f(q) is Some implies tree_at(f, e, o, rank_in(ys), g, q) by {
        assert(ys.contains(q));
        let i = ys.index_of(q);
        assert(0 <= i < ys.len() && ys[i] == q);
        assert(ordered_at(e, f, g, ys, i));
        let j = choose|j: int| 0 <= j < i && e(#[trigger] ys[j], opposite(f(ys[i])->0)) == Some((ys[i], (g(ys[i]) - g(ys[j])) as nat)) && g(ys[j]) <= g(ys[i]);
        let p = ys[j];
        assert(ys.contains(p)); let k = ys.index_of(p); assert(0 <= k < ys.len() && ys[k] == p); assert(k == j);
        assert(p.pwf() && f(p) is Some);
        assert(e(p, opposite(f(q)->0)) == Some((q, (g(q) - g(p)) as nat)));
    }
}
/// the stored costs as a function
pub open spec fn cost_fn<P: PosT, const WORDS: usize, const SIZE: usize, M: MapPos<usize, P, WORDS, SIZE>>(m: M) -> Costs<P> { |p: P| m.at(p) as nat }
/// what trying one direction from p does to the costs and to the frontier
pub open spec fn bf_tried<P: PosT, const WORDS: usize, const SIZE: usize, M: MapPos<usize, P, WORDS, SIZE>>(e: Moves<P>, h: Costs<P>, p: P, d: Dir, m: M, q: Heap<P>, m2: M, q2: Heap<P>) -> bool {
    let g = cost_fn(m); let g2 = cost_fn(m2);
    match e(p, d) {
        None => m2 == m && q2 == q,
        Some(b) => if g(p) + b.1 < g(b.0) {
            q2 == q.insert((Reverse((g(p) + b.1 + h(b.0)) as usize), (b.0, opposite(d)))) && g(p) + b.1 + h(b.0) <= usize::MAX
                && forall|r: P| r.pwf() ==> #[trigger] m2.at(r) == (if r == b.0 { g(p) + b.1 } else { g(r) })
        } else { m2 == m && q2 == q },
    }
}
pub proof fn lemma_bf_tried<P: PosT, const WORDS: usize, const SIZE: usize, M: MapPos<usize, P, WORDS, SIZE>>(e: Moves<P>, o: P, h: Costs<P>, p: P, ds: Seq<Dir>, k: int, m: M, q: Heap<P>, m2: M, q2: Heap<P>)
    requires bf_inv(e, o, h, cost_fn(m), q, Some(p), ds, k), moves_in(e), 0 <= k < ds.len(), bf_tried(e, h, p, ds[k], m, q, m2, q2),
    ensures bf_inv(e, o, h, cost_fn(m2), q2, Some(p), ds, k + 1),
        forall|r: P| #[trigger] closed(h, cost_fn(m2), q2, r) == closed(h, cost_fn(m), q, r), forall|r: P| closed(h, cost_fn(m), q, r) ==> #[trigger] m2.at(r) == m.at(r),
{
    let g = cost_fn(m); let g2 = cost_fn(m2);
    if e(p, ds[k]) is Some && g(p) + (e(p, ds[k])->0).1 < g((e(p, ds[k])->0).0) {
        let b = e(p, ds[k])->0;
        assert(closed(h, g, q, p));
        assert(b.0.pwf());
        let a: Ent<P> = (Reverse((g(p) + b.1 + h(b.0)) as usize), (b.0, opposite(ds[k])));
        lemma_dir_vec(ds[k], ds[k]); lemma_dir_group(ds[k], ds[k], ds[k]);
        assert forall|r: P| r.pwf() && r != a.1.0 implies #[trigger] g2(r) == g(r) by { assert(m2.at(r) == g(r)); }
        assert(m2.at(b.0) == g(p) + b.1);
        lemma_bf_relax(e, o, h, g, q, p, ds, k, g2, a);
        assert forall|r: P| closed(h, g, q, r) implies #[trigger] m2.at(r) == m.at(r) by { assert(g2(r) == g(r)); }
    } else { lemma_bf_skip(e, o, h, g, q, p, ds, k); }
}
/// yielded position with all directions tried
pub proof fn lemma_bf_yield_done<P: PosT, const D: bool>(e: Moves<P>, o: P, h: Costs<P>, g0: Costs<P>, q0: Heap<P>, g1: Costs<P>, q1: Heap<P>, g2: Costs<P>, q2: Heap<P>, p: P, b: Dir)
    requires bf_inv(e, o, h, g2, q2, Some(p), all_dirs::<D>(), all_dirs::<D>().len() as int), bf_yield(e, o, h, g0, q0, g1, q1, p, b), forall|p: P, d: Dir| #[trigger] e(p, d) is Some ==> dir_ok::<D>(d),
        forall|r: P| #[trigger] closed(h, g2, q2, r) == closed(h, g1, q1, r), forall|r: P| #[trigger] closed(h, g1, q1, r) ==> g2(r) == g1(r),
    ensures bf_inv(e, o, h, g2, q2, None, Seq::empty(), 0), bf_yield(e, o, h, g0, q0, g2, q2, p, b),
{
    lemma_bf_done::<P, D>(e, o, h, g2, q2, p);
    assert(closed(h, g1, q1, p)); assert(closed(h, g2, q2, p));
    assert forall|r: P| #[trigger] closed(h, g0, q0, r) implies g2(r) == g0(r) by { assert(closed(h, g1, q1, r)); }
    if p != o {
        let r = choose|r: P| closed(h, g0, q0, r) && (#[trigger] e(r, opposite(b)) matches Some(t) && t.0 == p && g1(p) == g0(r) + t.1);
        assert(closed(h, g0, q0, r) && e(r, opposite(b)) is Some);
    }
}
/// p, yielded with direction b, after k of its directions; what was yielded up to p is in g0, q0 and r
#[verifier::opaque]
pub open spec fn bf_mid<P: PosT>(e: Moves<P>, o: P, h: Costs<P>, g0: Costs<P>, q0: Heap<P>, r: Heap<P>, p: P, b: Dir, ds: Seq<Dir>, k: int, g: Costs<P>, q: Heap<P>) -> bool {
    bf_inv(e, o, h, g, q, Some(p), ds, k) && bf_yield(e, o, h, g0, q0, g0, r, p, b)
    && (forall|s: P| #[trigger] closed(h, g, q, s) == closed(h, g0, r, s))
    && (forall|s: P| #[trigger] closed(h, g0, r, s) ==> g(s) == g0(s))
}
pub open spec fn dirs_in<P, const D: bool>(e: Moves<P>) -> bool { forall|p: P, d: Dir| #[trigger] e(p, d) is Some ==> dir_ok::<D>(d) }
/// a position that is popped: either stale, or the next to yield
pub proof fn lemma_bf_popped<P: PosT, const D: bool>(e: Moves<P>, o: P, h: Costs<P>, g: Costs<P>, q0: Heap<P>, q: Heap<P>, a: Ent<P>, r: Heap<P>)
    requires bf_inv(e, o, h, g, q, None, Seq::empty(), 0), moves_in(e), consistent(e, h), q.count(a) > 0, r == q.remove(a), forall|b: Ent<P>| #[trigger] q.count(b) > 0 ==> heap_le(b, a),
        forall|s: P| #[trigger] closed(h, g, q, s) == closed(h, g, q0, s),
    ensures
        pri(a) > g(a.1.0) + h(a.1.0) ==> bf_inv(e, o, h, g, r, None, Seq::empty(), 0) && forall|s: P| #[trigger] closed(h, g, r, s) == closed(h, g, q0, s),
        pri(a) <= g(a.1.0) + h(a.1.0) ==> bf_mid(e, o, h, g, q0, r, a.1.0, a.1.1, all_dirs::<D>(), 0, g, r),
{
    reveal(bf_mid);
    if pri(a) > g(a.1.0) + h(a.1.0) {
        lemma_bf_stale(e, o, h, g, q, a);
        assert forall|s: P| #[trigger] closed(h, g, r, s) == closed(h, g, q0, s) by { assert(closed(h, g, q, s) == closed(h, g, q0, s)); }
    } else {
        assert forall|b: Ent<P>| #[trigger] q.count(b) > 0 implies pri(a) <= pri(b) by { axiom_heap_le(b, a); }
        lemma_bf_pop(e, o, h, g, q, a, all_dirs::<D>());
        lemma_bf_yield_same(e, o, h, g, q0, q, g, r, a.1.0, a.1.1);
    }
}
/// one direction more
pub proof fn lemma_bf_step<P: PosT, const D: bool, const WORDS: usize, const SIZE: usize, M: MapPos<usize, P, WORDS, SIZE>>(e: Moves<P>, o: P, h: Costs<P>, g0: Costs<P>, q0: Heap<P>, r: Heap<P>, p: P, b: Dir, k: int, cp: M, qp: Heap<P>, m: M, q: Heap<P>)
    requires moves_in(e), 0 <= k < all_dirs::<D>().len(), bf_mid(e, o, h, g0, q0, r, p, b, all_dirs::<D>(), k, cost_fn(cp), qp), bf_tried(e, h, p, all_dirs::<D>()[k], cp, qp, m, q),
    ensures bf_mid(e, o, h, g0, q0, r, p, b, all_dirs::<D>(), k + 1, cost_fn(m), q),
{
    reveal(bf_mid);
    let ds = all_dirs::<D>();
    lemma_bf_tried(e, o, h, p, ds, k, cp, qp, m, q);
    assert forall|s: P| #[trigger] closed(h, g0, r, s) implies cost_fn(m)(s) == g0(s) by { assert(closed(h, cost_fn(cp), qp, s)); assert(m.at(s) == cp.at(s)); }
    assert forall|s: P| #[trigger] closed(h, cost_fn(m), q, s) == closed(h, g0, r, s) by { assert(closed(h, cost_fn(cp), qp, s) == closed(h, g0, r, s)); }
}
/// all directions
pub proof fn lemma_bf_next<P: PosT, const D: bool>(e: Moves<P>, o: P, h: Costs<P>, g0: Costs<P>, q0: Heap<P>, r: Heap<P>, p: P, b: Dir, g: Costs<P>, q: Heap<P>)
    requires dirs_in::<P, D>(e), bf_mid(e, o, h, g0, q0, r, p, b, all_dirs::<D>(), all_dirs::<D>().len() as int, g, q),
    ensures bf_inv(e, o, h, g, q, None, Seq::empty(), 0), bf_yield(e, o, h, g0, q0, g, q, p, b),
{
    reveal(bf_mid);
    lemma_bf_yield_done::<P, D>(e, o, h, g0, q0, g0, r, g, q, p, b);
}
/// costs are those of walks
pub proof fn lemma_bf_mid_inv<P: PosT>(e: Moves<P>, o: P, h: Costs<P>, g0: Costs<P>, q0: Heap<P>, r: Heap<P>, p: P, b: Dir, ds: Seq<Dir>, k: int, g: Costs<P>, q: Heap<P>)
    requires bf_mid(e, o, h, g0, q0, r, p, b, ds, k, g, q),
    ensures bf_inv(e, o, h, g, q, Some(p), ds, k), closed(h, g, q, p),
{
    reveal(bf_mid);
}
/// f holds a tree of movements from o to p, along which p is reached at the smallest total cost
pub open spec fn best_tree<P: PosT>(f: CameFrom<P>, e: Moves<P>, o: P, p: P) -> bool {
    f(p) is Some && exists|rank: spec_fn(P) -> nat, g: Costs<P>| #[trigger] tree(f, e, o, rank, g) && dist_is(e, o, p, g(p))
}
