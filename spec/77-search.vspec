%% module searchlib
%% header
use vstd::std_specs::cmp::*;
use super::boundedint::*;
use super::postrait::*;
use super::dir::*;
use super::grid::*;
use super::mappos::*;
use super::error::Error;
%% prelude
/// What a movement function allows from a position in a direction: the next position and the cost of going there
pub type Moves<P> = spec_fn(P, Dir) -> Option<(P, nat)>;
/// movements lead to positions of the grid
pub open spec fn moves_in<P: PosT>(e: Moves<P>) -> bool { forall|p: P, d: Dir| p.pwf() && #[trigger] e(p, d) is Some ==> (e(p, d)->0).0.pwf() }
/// a movement in a direction leads to the neighbour in that direction
pub open spec fn moves_plain<P: PosT>(e: Moves<P>) -> bool { forall|p: P, d: Dir| p.pwf() && #[trigger] e(p, d) is Some ==> is_displ(p, d, (e(p, d)->0).0) }
pub open spec fn moves_unit<P>(e: Moves<P>) -> bool { forall|p: P, d: Dir| #[trigger] e(p, d) is Some ==> (e(p, d)->0).1 == 1 }
/// where the directions s lead to from o, and their total cost; None when some movement is not allowed
pub open spec fn walk<P>(e: Moves<P>, o: P, s: Seq<Dir>) -> Option<(P, nat)>
    decreases s.len()
{
    if s.len() == 0 { Some((o, 0)) } else {
        match walk(e, o, s.drop_last()) {
            None => None,
            Some(a) => match e(a.0, s.last()) { None => None, Some(b) => Some((b.0, a.1 + b.1)) },
        }
    }
}
/// p can be reached from o at total cost c
pub open spec fn reach<P>(e: Moves<P>, o: P, p: P, c: nat) -> bool { exists|s: Seq<Dir>| #[trigger] walk(e, o, s) == Some((p, c)) }
/// c is the smallest total cost at which p can be reached from o
pub open spec fn dist_is<P>(e: Moves<P>, o: P, p: P, c: nat) -> bool { reach(e, o, p, c) && forall|m: nat| #[trigger] reach(e, o, p, m) ==> c <= m }
/// p can be reached from o at total cost n or less
pub open spec fn near<P>(e: Moves<P>, o: P, p: P, n: nat) -> bool { exists|c: nat| c <= n && #[trigger] reach(e, o, p, c) }

pub proof fn lemma_walk_push<P>(e: Moves<P>, o: P, s: Seq<Dir>, d: Dir)
    ensures walk(e, o, s.push(d)) == match walk(e, o, s) {
        None => None,
        Some(a) => match e(a.0, d) { None => None::<(P, nat)>, Some(b) => Some((b.0, a.1 + b.1)) },
    },
{
    assert(s.push(d).drop_last() =~= s);
}
pub proof fn lemma_walk_unit<P>(e: Moves<P>, o: P, s: Seq<Dir>)
    requires moves_unit(e), walk(e, o, s) is Some,
    ensures (walk(e, o, s)->0).1 == s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_walk_unit(e, o, s.drop_last()); assert(e((walk(e, o, s.drop_last())->0).0, s.last()) is Some); }
}
pub proof fn lemma_walk_in<P: PosT>(e: Moves<P>, o: P, s: Seq<Dir>)
    requires moves_in(e), o.pwf(),
    ensures walk(e, o, s) matches Some(a) ==> a.0.pwf(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_walk_in(e, o, s.drop_last()); }
}
pub proof fn lemma_reach_in<P: PosT>(e: Moves<P>, o: P, p: P, c: nat)
    requires moves_in(e), o.pwf(), reach(e, o, p, c),
    ensures p.pwf(),
{
    let s = choose|s: Seq<Dir>| #[trigger] walk(e, o, s) == Some((p, c));
    lemma_walk_in(e, o, s);
}
pub proof fn lemma_reach_zero<P>(e: Moves<P>, o: P)
    ensures reach(e, o, o, 0), dist_is(e, o, o, 0),
{
    assert(walk(e, o, Seq::empty()) == Some((o, 0nat)));
}
pub proof fn lemma_reach_step<P>(e: Moves<P>, o: P, p: P, c: nat, d: Dir)
    requires reach(e, o, p, c), e(p, d) is Some,
    ensures reach(e, o, (e(p, d)->0).0, c + (e(p, d)->0).1),
{
    let s = choose|s: Seq<Dir>| #[trigger] walk(e, o, s) == Some((p, c));
    lemma_walk_push(e, o, s, d);
    assert(walk(e, o, s.push(d)) == Some(((e(p, d)->0).0, c + (e(p, d)->0).1)));
}
/// with movements of cost one, a position reached in n + 1 steps was entered from one reached in n steps
pub proof fn lemma_reach_back<P>(e: Moves<P>, o: P, q: P, n: nat) -> (r: (P, Dir))
    requires moves_unit(e), reach(e, o, q, n), n > 0,
    ensures reach(e, o, r.0, (n - 1) as nat), e(r.0, r.1) == Some((q, 1nat)),
{
    let s = choose|s: Seq<Dir>| #[trigger] walk(e, o, s) == Some((q, n));
    assert(s.len() > 0);
    let a = walk(e, o, s.drop_last())->0;
    assert(reach(e, o, a.0, a.1));
    assert(e(a.0, s.last()) is Some);
    (a.0, s.last())
}
pub proof fn lemma_reach_unit_zero<P>(e: Moves<P>, o: P, q: P)
    requires moves_unit(e), reach(e, o, q, 0),
    ensures q == o,
{
    let s = choose|s: Seq<Dir>| #[trigger] walk(e, o, s) == Some((q, 0nat));
    if s.len() > 0 { let a = walk(e, o, s.drop_last())->0; assert(e(a.0, s.last()) is Some); assert(false); }
}
/// near means: at some smallest distance not above n
pub proof fn lemma_near_dist<P>(e: Moves<P>, o: P, p: P, n: nat) -> (c: nat)
    requires near(e, o, p, n),
    ensures c <= n, dist_is(e, o, p, c),
    decreases n,
{
    if n > 0 && near(e, o, p, (n - 1) as nat) { lemma_near_dist(e, o, p, (n - 1) as nat) }
    else {
        let c = choose|c: nat| c <= n && #[trigger] reach(e, o, p, c);
        if c < n { assert(near(e, o, p, (n - 1) as nat)); assert(false); }
        assert forall|m: nat| #[trigger] reach(e, o, p, m) implies c <= m by {
            if m < c { assert(near(e, o, p, (n - 1) as nat)); }
        }
        c
    }
}
pub proof fn lemma_near_split<P>(e: Moves<P>, o: P, p: P, n: nat)
    ensures near(e, o, p, n) == (dist_is(e, o, p, n) || (n > 0 && near(e, o, p, (n - 1) as nat))),
{
    if near(e, o, p, n) {
        let c = lemma_near_dist(e, o, p, n);
        if c < n { assert(near(e, o, p, (n - 1) as nat)); }
    }
    if n > 0 && near(e, o, p, (n - 1) as nat) { let c = choose|c: nat| c <= n - 1 && #[trigger] reach(e, o, p, c); assert(c <= n && reach(e, o, p, c)); }
}
/// with movements of cost one, a position at distance n is entered from one at distance n - 1
pub proof fn lemma_dist_back<P>(e: Moves<P>, o: P, q: P, n: nat) -> (r: (P, Dir))
    requires moves_unit(e), dist_is(e, o, q, n), n > 0,
    ensures dist_is(e, o, r.0, (n - 1) as nat), e(r.0, r.1) == Some((q, 1nat)),
{
    let r = lemma_reach_back(e, o, q, n);
    assert forall|m: nat| #[trigger] reach(e, o, r.0, m) implies n - 1 <= m by { lemma_reach_step(e, o, r.0, m, r.1); }
    r
}
/// when no position is at distance n, none is further away
pub proof fn lemma_dist_gap<P>(e: Moves<P>, o: P, n: nat, q: P, m: nat)
    requires moves_unit(e), n > 0, forall|p: P| !#[trigger] dist_is(e, o, p, n), dist_is(e, o, q, m),
    ensures m < n,
    decreases m,
{
    if m > n { let r = lemma_dist_back(e, o, q, m); lemma_dist_gap(e, o, n, r.0, (m - 1) as nat); }
}
/// no more different positions than the grid has
pub proof fn lemma_card<P: PosT>(s: Seq<P>)
    requires gpos::<P>(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).pwf(), s.no_duplicates(),
    ensures s.len() <= pw::<P>() * ph::<P>(),
{
    let n = pw::<P>() * ph::<P>();
    let t = Seq::new(s.len(), |i: int| gix(s[i]));
    assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] < n by { assert(s[i].pwf()); lemma_gix(s[i], s[i]); }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { assert(s[i].pwf() && s[j].pwf()); lemma_gix(s[i], s[j]); }
    t.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, n);
    if s.len() > 0 { assert(t[0] < n); } else { assert(n >= 0) by (nonlinear_arith) requires n == pw::<P>() * ph::<P>(), pw::<P>() > 0, ph::<P>() > 0; }
    assert(t.to_set().subset_of(vstd::set_lib::set_int_range(0, n)));
    vstd::set_lib::lemma_len_subset(t.to_set(), vstd::set_lib::set_int_range(0, n));
}
/// positions at distances 0, ..., n
pub proof fn lemma_layers<P: PosT>(e: Moves<P>, o: P, q: P, n: nat) -> (s: Seq<P>)
    requires moves_unit(e), dist_is(e, o, q, n),
    ensures s.len() == n + 1, forall|i: int| 0 <= i <= n ==> dist_is(e, o, #[trigger] s[i], i as nat),
    decreases n,
{
    if n == 0 { seq![q] } else {
        let r = lemma_dist_back(e, o, q, n);
        let t = lemma_layers(e, o, r.0, (n - 1) as nat);
        t.push(q)
    }
}
/// with movements of cost one, distances are below the number of positions
pub proof fn lemma_dist_bound<P: PosT>(e: Moves<P>, o: P, q: P, n: nat)
    requires gpos::<P>(), moves_in(e), moves_unit(e), o.pwf(), dist_is(e, o, q, n),
    ensures n < pw::<P>() * ph::<P>(),
{
    let s = lemma_layers(e, o, q, n);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).pwf() by { lemma_reach_in(e, o, s[i], i as nat); }
    lemma_card(s);
}

/// f is a tree of movements: each position but the origin stores the opposite of a movement into it from an
/// earlier one, and cost adds up the costs of the movements
pub open spec fn tree<P: PosT>(f: CameFrom<P>, e: Moves<P>, o: P, rank: spec_fn(P) -> nat, cost: spec_fn(P) -> nat) -> bool {
    cost(o) == 0 && forall|q: P| q.pwf() && q != o && #[trigger] f(q) is Some ==> tree_at(f, e, o, rank, cost, q)
}
pub open spec fn tree_at<P: PosT>(f: CameFrom<P>, e: Moves<P>, o: P, rank: spec_fn(P) -> nat, cost: spec_fn(P) -> nat, q: P) -> bool {
    exists|p: P| p.pwf() && (p == o || f(p) is Some) && rank(p) < rank(q) && cost(p) <= cost(q)
        && #[trigger] e(p, opposite(f(q)->0)) == Some((q, (cost(q) - cost(p)) as nat))
}
pub proof fn lemma_follow_shift<P: PosT>(f: CameFrom<P>, q: P, k: int)
    requires f(q) is Some, displ(q, f(q)->0) is Some, k >= 0,
    ensures follow(f, q, k + 1) == follow(f, displ(q, f(q)->0)->0, k),
    decreases k,
{
    if k > 0 { lemma_follow_shift(f, q, k - 1); }
    else { assert(follow(f, q, 0) == Some(q)); }
}
/// the chain from q ends at the origin, and gives a walk to q
pub open spec fn chain<P: PosT>(f: CameFrom<P>, o: P, q: P, s: Seq<Dir>) -> bool {
    going(f, o, q, s.len() - 1) && follow(f, q, s.len() as int) == Some(o)
    && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == opposite(f(follow(f, q, s.len() - 1 - i)->0)->0)
}
pub proof fn lemma_back<P: PosT>(p: P, b: Dir, q: P)
    requires p.pwf(), is_displ(p, opposite(b), q),
    ensures is_displ(q, b, p), displ(q, b) == Some(p),
{
    lemma_dir_vec(b, b);
    lemma_displ(q, b, p);
}
pub proof fn lemma_chain_push<P: PosT>(f: CameFrom<P>, o: P, q: P, p: P, t: Seq<Dir>)
    requires f(q) is Some, q != o, displ(q, f(q)->0) == Some(p), chain(f, o, p, t),
    ensures chain(f, o, q, t.push(opposite(f(q)->0))),
{
    hide(opposite); hide(displ);
    let s = t.push(opposite(f(q)->0));
    assert forall|k: int| 1 <= k <= s.len() implies #[trigger] follow(f, q, k) == follow(f, p, k - 1) by { lemma_follow_shift(f, q, k - 1); }
    assert(follow(f, q, 0) == Some(q));
    assert forall|j: int| 0 <= j <= s.len() - 1 implies (#[trigger] follow(f, q, j) matches Some(r) && r != o) by {
        if j > 0 { assert(follow(f, p, j - 1) is Some); }
    }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == opposite(f(follow(f, q, s.len() - 1 - i)->0)->0) by {
        if i < t.len() { assert(s[i] == t[i]); assert(s.len() - 1 - i >= 1); }
    }
}
pub proof fn lemma_chain<P: PosT>(f: CameFrom<P>, e: Moves<P>, o: P, rank: spec_fn(P) -> nat, cost: spec_fn(P) -> nat, q: P) -> (s: Seq<Dir>)
    requires tree(f, e, o, rank, cost), moves_plain(e), o.pwf(), q.pwf(), q == o || f(q) is Some,
    ensures chain(f, o, q, s), walk(e, o, s) == Some((q, cost(q))),
    decreases rank(q),
{
    if q == o { assert(walk(e, o, Seq::empty()) == Some((o, 0nat))); Seq::empty() } else {
        assert(tree_at(f, e, o, rank, cost, q));
        let b = f(q)->0;
        let p = choose|p: P| p.pwf() && (p == o || f(p) is Some) && rank(p) < rank(q) && cost(p) <= cost(q)
            && #[trigger] e(p, opposite(b)) == Some((q, (cost(q) - cost(p)) as nat));
        let t = lemma_chain(f, e, o, rank, cost, p);
        lemma_walk_push(e, o, t, opposite(b));
        assert(is_displ(p, opposite(b), q));
        lemma_back(p, b, q);
        lemma_chain_push(f, o, q, p, t);
        t.push(opposite(b))
    }
}
/// what following the directions of a tree reports is the walk
pub proof fn lemma_tree_path<P: PosT>(f: CameFrom<P>, e: Moves<P>, o: P, rank: spec_fn(P) -> nat, cost: spec_fn(P) -> nat, q: P, r: Result<Seq<Dir>, Error>)
    requires tree(f, e, o, rank, cost), moves_plain(e), o.pwf(), q.pwf(), f(q) is Some, came_from(f, o, q, r),
    ensures r matches Ok(path) && walk(e, o, path) == Some((q, cost(q))),
{
    let s = lemma_chain(f, e, o, rank, cost, q);
    let n = s.len() as int;
    assert(follow(f, q, n) == Some(o));
    match r {
        Ok(path) => {
            let m = path.len() as int;
            if m > n { assert(follow(f, q, n)->0 != o); }
            if m < n { assert(follow(f, q, m)->0 != o); }
            assert(path =~= s);
        }
        Err(Error::InvalidMovement) => {
            let k = choose|k: int| k >= 0 && going(f, o, q, k) && #[trigger] follow(f, q, k + 1) is None;
            if k >= n { assert(follow(f, q, n)->0 != o); }
            else if k + 1 < n { assert(follow(f, q, k + 1) is Some); }
            assert(false);
        }
        Err(Error::Loop) => { assert(going(f, o, q, n)); assert(follow(f, q, n)->0 != o); }
        Err(_) => {}
    }
}

/// what a movement function returns
pub open spec fn gv<P, G: Fn(P, Dir) -> Option<P>>(go: G, p: P, d: Dir) -> Option<P> {
    if exists|r: Option<P>| call_ensures(go, (p, d), r) { choose|r: Option<P>| call_ensures(go, (p, d), r) } else { None }
}
/// a movement function: it can be called on every position, always returns the same, and stays in the grid
pub open spec fn go_ok<P: PosT, G: Fn(P, Dir) -> Option<P>>(go: G) -> bool {
    (forall|p: P, d: Dir| p.pwf() ==> #[trigger] call_requires(go, (p, d)))
    && forall|p: P, d: Dir, r: Option<P>| p.pwf() && #[trigger] call_ensures(go, (p, d), r) ==> r == gv(go, p, d) && (r matches Some(q) ==> q.pwf())
}
/// moving in a direction leads to the neighbour in that direction, or nowhere
pub open spec fn go_plain<P: PosT, G: Fn(P, Dir) -> Option<P>>(go: G) -> bool {
    forall|p: P, d: Dir, r: Option<P>| p.pwf() && #[trigger] call_ensures(go, (p, d), r) ==> (r matches Some(q) ==> is_displ(p, d, q))
}
/// the movements of a function in the directions in use
pub open spec fn moves<P: PosT, G: Fn(P, Dir) -> Option<P>, const D: bool>(go: G) -> Moves<P> {
    |p: P, d: Dir| if !dir_ok::<D>(d) { None } else { match gv(go, p, d) { Some(q) => Some((q, 1nat)), None => None } }
}
pub proof fn lemma_moves<P: PosT, G: Fn(P, Dir) -> Option<P>, const D: bool>(go: G)
    requires go_ok(go),
    ensures moves_unit(moves::<P, G, D>(go)), moves_in(moves::<P, G, D>(go)), go_plain(go) ==> moves_plain(moves::<P, G, D>(go)),
{
    let e = moves::<P, G, D>(go);
    assert forall|p: P, d: Dir| p.pwf() && #[trigger] e(p, d) is Some implies (e(p, d)->0).0.pwf() && (go_plain(go) ==> is_displ(p, d, (e(p, d)->0).0)) by {
        let r = choose|r: Option<P>| call_ensures(go, (p, d), r);
        assert(call_ensures(go, (p, d), r));
    }
}
/// the map a backend starts with
pub open spec fn blank_default<P: PosT, const WORDS: usize, const SIZE: usize, M: MapPos<Option<Dir>, P, WORDS, SIZE> + Default>() -> bool {
    M::mtok() && forall|m: M| #[trigger] call_ensures(M::default, (), m) ==> m.mwf() && forall|p: P| p.pwf() ==> (#[trigger] m.at(p)) is None
}
pub proof fn lemma_blank_grid<P: PosT, const WORDS: usize, const SIZE: usize>()
    requires gpos::<P>(),
    ensures blank_default::<P, WORDS, SIZE, Grid<Option<Dir>, P, SIZE>>(),
{
    assert forall|m: Grid<Option<Dir>, P, SIZE>| #[trigger] call_ensures(<Grid<Option<Dir>, P, SIZE> as Default>::default, (), m) implies
        <Grid<Option<Dir>, P, SIZE> as MapPos<Option<Dir>, P, WORDS, SIZE>>::mwf(&m) && forall|p: P| p.pwf() ==> (#[trigger] <Grid<Option<Dir>, P, SIZE> as MapPos<Option<Dir>, P, WORDS, SIZE>>::at(&m, p)) is None by {
        assert forall|p: P| p.pwf() implies (#[trigger] <Grid<Option<Dir>, P, SIZE> as MapPos<Option<Dir>, P, WORDS, SIZE>>::at(&m, p)) is None by {
            lemma_gix(p, p); assert(call_ensures(<Option<Dir> as Default>::default, (), m.0@[gix(p)]));
        }
    }
}
