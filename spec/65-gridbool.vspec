%% module gridbool gridbool.rs
%% header
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::core::*;
use std::fmt;
use crate::vxlib::vxfmt::*;
use super::boundedint::*;
use super::postrait::*;
use super::pos::*;
use super::grid::*;
%% prelude
broadcast use {super::vxlib::convax::axiom_try_from_refl, super::vxlib::convax::axiom_try_into_refl,
    super::vxlib::convax::axiom_try_from_blanket, super::vxlib::convax::axiom_try_into_blanket, super::vxlib::vxfmt::shows};

/// bit number b of a word, counting from the most significant one
pub open spec fn wbit(w: u32, b: int) -> bool { (w & (0x80000000u32 >> (b as u32))) != 0 }
/// bit number i of a bitmap
pub open spec fn bitat(s: Seq<u32>, i: int) -> bool { wbit(s[i / 32], i % 32) }
pub open spec fn bits(s: Seq<u32>) -> Seq<bool> { Seq::new((s.len() * 32) as nat, |i: int| bitat(s, i)) }
/// a bitmap type with enough words for one bit per position, and not a whole word more
pub open spec fn gbok<P: PosT>(words: int) -> bool {
    gpos::<P>() && pw::<P>() * ph::<P>() <= words * 32 && pw::<P>() * ph::<P>() >= words * 32 - 32
}
/// the bits without a position are clear
pub open spec fn clear(s: Seq<u32>, n: int) -> bool { forall|i: int| n <= i < s.len() * 32 ==> !#[trigger] bits(s)[i] }
pub proof fn lemma_bit(w: u32, a: u32, b: u32)
    requires a < 32, b < 32,
    ensures
        ((w | (0x80000000u32 >> a)) & (0x80000000u32 >> b) != 0) == (a == b || (w & (0x80000000u32 >> b) != 0)),
        ((w & !(0x80000000u32 >> a)) & (0x80000000u32 >> b) != 0) == (a != b && (w & (0x80000000u32 >> b) != 0)),
        0u32 & (0x80000000u32 >> b) == 0, 0xffffffffu32 & (0x80000000u32 >> b) != 0,
        (!(0xffffffffu32 >> a) & (0x80000000u32 >> b) != 0) == (b < a),
{
    assert(((w | (0x80000000u32 >> a)) & (0x80000000u32 >> b) != 0) == (a == b || (w & (0x80000000u32 >> b) != 0))) by (bit_vector) requires a < 32, b < 32;
    assert(((w & !(0x80000000u32 >> a)) & (0x80000000u32 >> b) != 0) == (a != b && (w & (0x80000000u32 >> b) != 0))) by (bit_vector) requires a < 32, b < 32;
    assert(0u32 & (0x80000000u32 >> b) == 0 && 0xffffffffu32 & (0x80000000u32 >> b) != 0) by (bit_vector) requires b < 32;
    assert((!(0xffffffffu32 >> a) & (0x80000000u32 >> b) != 0) == (b < a)) by (bit_vector) requires a < 32, b < 32;
}
/// other ways of writing the same arithmetic on words
pub proof fn lemma_mask(i: usize)
    ensures i >> 5 == i / 32, i & 31 == i % 32, 31 - i % 32 == 31 - (i & 31), ((i % 32) as u32) == (i % 32),
        forall|w: u32, k: u32| k < 32 ==> (#[trigger] (w & (0x80000000u32 >> k)) == 0x80000000u32 >> k) == (w & (0x80000000u32 >> k) != 0)
            && (w & (0x80000000u32 >> k) == 0 || w & (0x80000000u32 >> k) > 0),
        forall|k: u32| k < 32 ==> #[trigger] (1u32 << ((31 - k) as u32)) == 0x80000000u32 >> k,
        forall|w: u32, k: u32| k < 32 ==> (#[trigger] (w >> ((31 - k) as u32)) & 1 == 1) == (w & (0x80000000u32 >> k) != 0) && ((w >> ((31 - k) as u32)) & 1 != 0) == (w & (0x80000000u32 >> k) != 0),
        1u32 << ((31 - (i & 31)) as usize) == 0x80000000u32 >> ((i % 32) as u32), 1u32 << ((31 - i % 32) as usize) == 0x80000000u32 >> ((i % 32) as u32),
        0x80000000u32 >> (i & 31) == 0x80000000u32 >> ((i % 32) as u32),
        forall|w: u32, k: u32| k < 32 ==> ((#[trigger] (w << k)) & 0x80000000 != 0) == (w & (0x80000000u32 >> k) != 0),
{
    assert(i >> 5 == i / 32 && i & 31 == i % 32) by (bit_vector);
    let q = (i % 32) as u32; let j0 = (31 - i % 32) as usize; let m0 = i & 31;
    assert(1u32 << j0 == 0x80000000u32 >> q) by (bit_vector) requires q < 32, j0 == sub(31usize, q as usize);
    assert(0x80000000u32 >> m0 == 0x80000000u32 >> q) by (bit_vector) requires q < 32, m0 == q as usize;
    assert forall|w: u32, k: u32| k < 32 implies (#[trigger] (w & (0x80000000u32 >> k)) == 0x80000000u32 >> k) == (w & (0x80000000u32 >> k) != 0) by {
        assert((w & (0x80000000u32 >> k) == 0x80000000u32 >> k) == (w & (0x80000000u32 >> k) != 0)) by (bit_vector) requires k < 32;
    }
    assert forall|k: u32| k < 32 implies #[trigger] (1u32 << ((31 - k) as u32)) == 0x80000000u32 >> k by {
        let j = (31 - k) as u32;
        assert(1u32 << j == 0x80000000u32 >> k) by (bit_vector) requires k < 32, j == sub(31u32, k);
    }
    assert forall|w: u32, k: u32| k < 32 implies (#[trigger] (w >> ((31 - k) as u32)) & 1 == 1) == (w & (0x80000000u32 >> k) != 0) && ((w >> ((31 - k) as u32)) & 1 != 0) == (w & (0x80000000u32 >> k) != 0) by {
        let j = (31 - k) as u32;
        assert(((w >> j) & 1 == 1) == (w & (0x80000000u32 >> k) != 0) && ((w >> j) & 1 != 0) == (w & (0x80000000u32 >> k) != 0)) by (bit_vector) requires k < 32, j == sub(31u32, k);
    }
    assert forall|w: u32, k: u32| k < 32 implies ((#[trigger] (w << k)) & 0x80000000 != 0) == (w & (0x80000000u32 >> k) != 0) by {
        assert(((w << k) & 0x80000000 != 0) == (w & (0x80000000u32 >> k) != 0)) by (bit_vector) requires k < 32;
    }
}
/// setting one bit of one word sets that bit of the bitmap and no other
pub proof fn lemma_set_bit(s: Seq<u32>, i: int, v: bool)
    requires 0 <= i < s.len() * 32,
    ensures ({
        let w = s[i / 32]; let m = 0x80000000u32 >> ((i % 32) as u32);
        let t = s.update(i / 32, if v { w | m } else { w & !m });
        0 <= i / 32 < s.len() && bits(t) =~= bits(s).update(i, v)
    }),
{
    let w = s[i / 32]; let m = 0x80000000u32 >> ((i % 32) as u32);
    let t = s.update(i / 32, if v { w | m } else { w & !m });
    assert forall|k: int| 0 <= k < bits(t).len() implies #[trigger] bits(t)[k] == bits(s).update(i, v)[k] by {
        if k / 32 == i / 32 {
            lemma_bit(w, (i % 32) as u32, (k % 32) as u32);
        }
    }
}
/// two words with the same bits are the same
pub proof fn lemma_word_ext(a: u32, b: u32)
    requires forall|k: int| 0 <= k < 32 ==> #[trigger] wbit(a, k) == wbit(b, k),
    ensures a == b,
{
    assert(wbit(a, 0) == wbit(b, 0)); assert(wbit(a, 1) == wbit(b, 1)); assert(wbit(a, 2) == wbit(b, 2)); assert(wbit(a, 3) == wbit(b, 3)); assert(wbit(a, 4) == wbit(b, 4)); assert(wbit(a, 5) == wbit(b, 5)); assert(wbit(a, 6) == wbit(b, 6)); assert(wbit(a, 7) == wbit(b, 7)); assert(wbit(a, 8) == wbit(b, 8)); assert(wbit(a, 9) == wbit(b, 9)); assert(wbit(a, 10) == wbit(b, 10)); assert(wbit(a, 11) == wbit(b, 11)); assert(wbit(a, 12) == wbit(b, 12)); assert(wbit(a, 13) == wbit(b, 13)); assert(wbit(a, 14) == wbit(b, 14)); assert(wbit(a, 15) == wbit(b, 15)); assert(wbit(a, 16) == wbit(b, 16)); assert(wbit(a, 17) == wbit(b, 17)); assert(wbit(a, 18) == wbit(b, 18)); assert(wbit(a, 19) == wbit(b, 19)); assert(wbit(a, 20) == wbit(b, 20)); assert(wbit(a, 21) == wbit(b, 21)); assert(wbit(a, 22) == wbit(b, 22)); assert(wbit(a, 23) == wbit(b, 23)); assert(wbit(a, 24) == wbit(b, 24)); assert(wbit(a, 25) == wbit(b, 25)); assert(wbit(a, 26) == wbit(b, 26)); assert(wbit(a, 27) == wbit(b, 27)); assert(wbit(a, 28) == wbit(b, 28)); assert(wbit(a, 29) == wbit(b, 29)); assert(wbit(a, 30) == wbit(b, 30)); assert(wbit(a, 31) == wbit(b, 31));
    assert(a == b) by (bit_vector) requires
        (a & (0x80000000u32 >> 0u32) != 0) == (b & (0x80000000u32 >> 0u32) != 0),
        (a & (0x80000000u32 >> 1u32) != 0) == (b & (0x80000000u32 >> 1u32) != 0),
        (a & (0x80000000u32 >> 2u32) != 0) == (b & (0x80000000u32 >> 2u32) != 0),
        (a & (0x80000000u32 >> 3u32) != 0) == (b & (0x80000000u32 >> 3u32) != 0),
        (a & (0x80000000u32 >> 4u32) != 0) == (b & (0x80000000u32 >> 4u32) != 0),
        (a & (0x80000000u32 >> 5u32) != 0) == (b & (0x80000000u32 >> 5u32) != 0),
        (a & (0x80000000u32 >> 6u32) != 0) == (b & (0x80000000u32 >> 6u32) != 0),
        (a & (0x80000000u32 >> 7u32) != 0) == (b & (0x80000000u32 >> 7u32) != 0),
        (a & (0x80000000u32 >> 8u32) != 0) == (b & (0x80000000u32 >> 8u32) != 0),
        (a & (0x80000000u32 >> 9u32) != 0) == (b & (0x80000000u32 >> 9u32) != 0),
        (a & (0x80000000u32 >> 10u32) != 0) == (b & (0x80000000u32 >> 10u32) != 0),
        (a & (0x80000000u32 >> 11u32) != 0) == (b & (0x80000000u32 >> 11u32) != 0),
        (a & (0x80000000u32 >> 12u32) != 0) == (b & (0x80000000u32 >> 12u32) != 0),
        (a & (0x80000000u32 >> 13u32) != 0) == (b & (0x80000000u32 >> 13u32) != 0),
        (a & (0x80000000u32 >> 14u32) != 0) == (b & (0x80000000u32 >> 14u32) != 0),
        (a & (0x80000000u32 >> 15u32) != 0) == (b & (0x80000000u32 >> 15u32) != 0),
        (a & (0x80000000u32 >> 16u32) != 0) == (b & (0x80000000u32 >> 16u32) != 0),
        (a & (0x80000000u32 >> 17u32) != 0) == (b & (0x80000000u32 >> 17u32) != 0),
        (a & (0x80000000u32 >> 18u32) != 0) == (b & (0x80000000u32 >> 18u32) != 0),
        (a & (0x80000000u32 >> 19u32) != 0) == (b & (0x80000000u32 >> 19u32) != 0),
        (a & (0x80000000u32 >> 20u32) != 0) == (b & (0x80000000u32 >> 20u32) != 0),
        (a & (0x80000000u32 >> 21u32) != 0) == (b & (0x80000000u32 >> 21u32) != 0),
        (a & (0x80000000u32 >> 22u32) != 0) == (b & (0x80000000u32 >> 22u32) != 0),
        (a & (0x80000000u32 >> 23u32) != 0) == (b & (0x80000000u32 >> 23u32) != 0),
        (a & (0x80000000u32 >> 24u32) != 0) == (b & (0x80000000u32 >> 24u32) != 0),
        (a & (0x80000000u32 >> 25u32) != 0) == (b & (0x80000000u32 >> 25u32) != 0),
        (a & (0x80000000u32 >> 26u32) != 0) == (b & (0x80000000u32 >> 26u32) != 0),
        (a & (0x80000000u32 >> 27u32) != 0) == (b & (0x80000000u32 >> 27u32) != 0),
        (a & (0x80000000u32 >> 28u32) != 0) == (b & (0x80000000u32 >> 28u32) != 0),
        (a & (0x80000000u32 >> 29u32) != 0) == (b & (0x80000000u32 >> 29u32) != 0),
        (a & (0x80000000u32 >> 30u32) != 0) == (b & (0x80000000u32 >> 30u32) != 0),
        (a & (0x80000000u32 >> 31u32) != 0) == (b & (0x80000000u32 >> 31u32) != 0);
}
// C17: the same value at every position, and equality
pub proof fn lemma_eq<P: PosT>(s: Seq<u32>, t: Seq<u32>)
    requires gpos::<P>(), s.len() == t.len(), clear(s, pw::<P>() * ph::<P>()), clear(t, pw::<P>() * ph::<P>()),
        forall|i: int| 0 <= i < pw::<P>() * ph::<P>() && i < s.len() * 32 ==> #[trigger] bits(s)[i] == bits(t)[i],
    ensures s == t,
{
    assert forall|w: int| 0 <= w < s.len() implies s[w] == t[w] by {
        assert forall|k: int| 0 <= k < 32 implies #[trigger] wbit(s[w], k) == wbit(t[w], k) by {
            let i = w * 32 + k;
            assert(i / 32 == w && i % 32 == k);
            assert(bits(s)[i] == wbit(s[w], k) && bits(t)[i] == wbit(t[w], k));
            if i >= pw::<P>() * ph::<P>() { assert(!bits(s)[i] && !bits(t)[i]); }
        }
        lemma_word_ext(s[w], t[w]);
    }
    assert(s =~= t);
}
pub open spec fn all_false(n: nat) -> Seq<bool> { Seq::new(n, |i: int| false) }
/// a four-cycle of assignments: (x, y), and the three further images under the clockwise rotation
pub proof fn lemma_rot4<T>(s: Seq<T>, n: int, x: int, y: int, v0: T, v1: T, v2: T, v3: T)
    requires 0 <= y <= x < n - 1 - y, s.len() >= n * n,
    ensures ({
        let i0 = y * n + x; let i1 = x * n + (n - 1 - y); let i2 = (n - 1 - y) * n + (n - 1 - x); let i3 = (n - 1 - x) * n + y;
        let t = s.update(i0, v0).update(i1, v1).update(i2, v2).update(i3, v3);
        &&& 0 <= i0 < n * n && 0 <= i1 < n * n && 0 <= i2 < n * n && 0 <= i3 < n * n
        &&& i0 != i1 && i0 != i2 && i0 != i3 && i1 != i2 && i1 != i3 && i2 != i3
        &&& t.len() == s.len()
        &&& forall|a: int, b: int| inr(n, n, a, b) ==> #[trigger] cell(t, n, a, b) ==
            (if a == x && b == y { v0 } else if a == n - 1 - y && b == x { v1 } else if a == n - 1 - x && b == n - 1 - y { v2 }
             else if a == y && b == n - 1 - x { v3 } else { cell(s, n, a, b) })
    }),
{
    let i0 = y * n + x; let i1 = x * n + (n - 1 - y); let i2 = (n - 1 - y) * n + (n - 1 - x); let i3 = (n - 1 - x) * n + y;
    lemma_cell(n, n, x, y, n - 1 - y, x); lemma_cell(n, n, x, y, n - 1 - x, n - 1 - y); lemma_cell(n, n, x, y, y, n - 1 - x);
    lemma_cell(n, n, n - 1 - y, x, n - 1 - x, n - 1 - y); lemma_cell(n, n, n - 1 - y, x, y, n - 1 - x);
    lemma_cell(n, n, n - 1 - x, n - 1 - y, y, n - 1 - x); lemma_cell(n, n, y, n - 1 - x, y, n - 1 - x);
    let t = s.update(i0, v0).update(i1, v1).update(i2, v2).update(i3, v3);
    assert forall|a: int, b: int| inr(n, n, a, b) implies #[trigger] cell(t, n, a, b) ==
            (if a == x && b == y { v0 } else if a == n - 1 - y && b == x { v1 } else if a == n - 1 - x && b == n - 1 - y { v2 }
             else if a == y && b == n - 1 - x { v3 } else { cell(s, n, a, b) }) by {
        lemma_cell(n, n, a, b, x, y); lemma_cell(n, n, a, b, n - 1 - y, x);
        lemma_cell(n, n, a, b, n - 1 - x, n - 1 - y); lemma_cell(n, n, a, b, y, n - 1 - x);
    }
}
%% derive Gridbool : PartialEq
%% fn <Gridbool as PartialEq>::eq :: ret=r
    ensures r == (self.0@ == other.0@),
% start
    proof { super::vxlib::convax::axiom_array_eq::<WORDS>(); }
%% fn Gridbool::ALL_TRUE :: ret=r
    requires gpos::<P>(),
    ensures gbok::<P>(WORDS as int), clear(r.0@, pw::<P>() * ph::<P>()), forall|i: int| 0 <= i < pw::<P>() * ph::<P>() ==> #[trigger] bits(r.0@)[i],
%% fn Gridbool::ALL_FALSE :: ret=r
    requires gpos::<P>(),
    ensures gbok::<P>(WORDS as int), clear(r.0@, pw::<P>() * ph::<P>()), bits(r.0@) =~= all_false((WORDS * 32) as nat),
% start
    proof { P::plaws(); }
%% fn Gridbool::repeat :: ret=r
    requires gpos::<P>(),
    ensures gbok::<P>(WORDS as int), clear(r.0@, pw::<P>() * ph::<P>()),
        forall|i: int| 0 <= i < pw::<P>() * ph::<P>() ==> #[trigger] bits(r.0@)[i] == value,
% start
    proof { P::plaws(); }
% end
    proof {
        let n = pw::<P>() * ph::<P>();
        lemma_std_bits(); lemma_mask(n as usize);
        assert forall|i: int| 0 <= i < WORDS * 32 implies #[trigger] bits(r.0@)[i] == (value && i < n) by {
            lemma_bit(0, (n % 32) as u32, (i % 32) as u32);
        }
    }
%% fn Gridbool::set_t
    requires gbok::<P>(WORDS as int), posref.pwf(),
    ensures bits(final(self).0@) =~= bits(old(self).0@).update(gix(*posref), true),
% start
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); lemma_gix(*posref, *posref); lemma_set_bit(self.0@, gix(*posref), true); lemma_mask(gix(*posref) as usize); }
%% fn Gridbool::set_f
    requires gbok::<P>(WORDS as int), posref.pwf(),
    ensures bits(final(self).0@) =~= bits(old(self).0@).update(gix(*posref), false),
% start
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); lemma_gix(*posref, *posref); lemma_set_bit(self.0@, gix(*posref), false); lemma_mask(gix(*posref) as usize); }
%% fn Gridbool::set
    requires gbok::<P>(WORDS as int), posref.pwf(),
    ensures bits(final(self).0@) =~= bits(old(self).0@).update(gix(*posref), value),
% start
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); lemma_gix(*posref, *posref); lemma_set_bit(self.0@, gix(*posref), value); lemma_mask(gix(*posref) as usize); }
%% fn Gridbool::get :: ret=r
    requires gbok::<P>(WORDS as int), posref.pwf(),
    ensures r == bits(self.0@)[gix(*posref)],
% start
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); lemma_gix(*posref, *posref); lemma_mask(gix(*posref) as usize); }
%% fn Gridbool::into_inner :: ret=r
    ensures r == self.0,
%% fn Gridbool::as_inner :: ret=r
    ensures *r == self.0,
%% fn Gridbool::as_inner_mut :: ret=r
    ensures *r == old(self).0, final(self).0 == *final(r),
%% fn Gridbool::iter :: defun=map|PosTIter<true, P>|P|bool
%% fn Gridbool::iter__base :: ret=r
    ensures r.wf(), r.rem() =~= pcoords::<P>(true, 0, pw::<P>() * ph::<P>() - 1),
%% fn Gridbool::iter__item :: ret=r
    requires gbok::<P>(WORDS as int), vxn.pwf(),
    ensures r == bits(self.0@)[gix(vxn)],
%% fn Gridbool::iter_pos :: defun=map|PosTIter<true, P>|P|(P, bool)
%% fn Gridbool::iter_pos__base :: ret=r
    ensures r.wf(), r.rem() =~= pcoords::<P>(true, 0, pw::<P>() * ph::<P>() - 1),
%% fn Gridbool::iter_pos__item :: ret=r
    requires gbok::<P>(WORDS as int), vxn.pwf(),
    ensures r.0 == vxn, r.1 == bits(self.0@)[gix(vxn)],
%% fn Gridbool::iter_t :: defun=filter|PosTIter<true, P>|&P|bool
%% fn Gridbool::iter_t__base :: ret=r
    ensures r.wf(), r.rem() =~= pcoords::<P>(true, 0, pw::<P>() * ph::<P>() - 1),
%% fn Gridbool::iter_t__item :: ret=r
    requires gbok::<P>(WORDS as int), vxn.pwf(),
    ensures r == bits(self.0@)[gix(*vxn)],
%% fn Gridbool::iter_f :: defun=filter|PosTIter<true, P>|&P|bool
%% fn Gridbool::iter_f__base :: ret=r
    ensures r.wf(), r.rem() =~= pcoords::<P>(true, 0, pw::<P>() * ph::<P>() - 1),
%% fn Gridbool::iter_f__item :: ret=r
    requires gbok::<P>(WORDS as int), vxn.pwf(),
    ensures r == !bits(self.0@)[gix(*vxn)],
%% foreach F V = set_iter_t true, set_iter_f false
%% fn Gridbool::@F@
    requires gbok::<P>(WORDS as int), forall|i: int| 0 <= i < positer.rest().len() ==> (#[trigger] positer.rest()[i]).pwf(),
    ensures bits(final(self).0@) =~= set_seq(bits(old(self).0@), positer.rest(), @V@),
% start
    let ghost s0 = positer.rest(); let ghost g0 = bits(self.0@);
% loop 1
    invariant gbok::<P>(WORDS as int), forall|i: int| 0 <= i < s0.len() ==> (#[trigger] s0[i]).pwf(),
        vxit1.rest().len() <= s0.len(), vxit1.rest() =~= s0.skip(s0.len() - vxit1.rest().len()),
        bits(self.0@) =~= set_seq(g0, s0.take(s0.len() - vxit1.rest().len()), @V@),
    ensures vxit1.rest().len() == 0,
    decreases vxit1.rest().len(),
% loopstart 1
    proof { let k = s0.len() - vxit1.rest().len() - 1; assert(pos == s0[k]); assert(s0.take(k + 1).drop_last() =~= s0.take(k)); }
% looppost 1
    proof { assert(s0.take(s0.len() as int) =~= s0); }
%% endforeach
%% fn Gridbool::flip_h
    requires gbok::<P>(WORDS as int),
    ensures forall|x: int, y: int| inr(pw::<P>(), ph::<P>(), x, y) ==> #[trigger] cell(bits(final(self).0@), pw::<P>(), x, y) == cell(bits(old(self).0@), pw::<P>(), pw::<P>() - 1 - x, y),
        forall|i: int| pw::<P>() * ph::<P>() <= i < WORDS * 32 ==> #[trigger] bits(final(self).0@)[i] == bits(old(self).0@)[i],
% start
    let ghost w = pw::<P>(); let ghost h = ph::<P>(); let ghost s0 = bits(self.0@);
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); }
% loop 1
    invariant
        w == pw::<P>(), h == ph::<P>(), gbok::<P>(WORDS as int), s0.len() == WORDS * 32,
        forall|i: int| w * h <= i < WORDS * 32 ==> #[trigger] bits(self.0@)[i] == s0[i],
        vxit1.wf(), vxit1.rem().len() <= h, vxit1.rem() =~= int_range(h - vxit1.rem().len(), h - 1),
        forall|x: int, y: int| inr(w, h, x, y) ==> #[trigger] cell(bits(self.0@), w, x, y) ==
            cell(s0, w, if y < h - vxit1.rem().len() { w - 1 - x } else { x }, y),
    ensures vxit1.rem().len() == 0,
    decreases vxit1.rem().len(),
% loopstart 1
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); }
% loop 2
    invariant
        w == pw::<P>(), h == ph::<P>(), gbok::<P>(WORDS as int), s0.len() == WORDS * 32, vxi2 <= vxe2, vxe2 == w / 2, y.wf(), inr(w, h, 0, y.v()),
        forall|i: int| w * h <= i < WORDS * 32 ==> #[trigger] bits(self.0@)[i] == s0[i],
        forall|x: int, yy: int| inr(w, h, x, yy) ==> #[trigger] cell(bits(self.0@), w, x, yy) ==
            cell(s0, w, if yy < y.v() || (yy == y.v() && (x < vxi2 || x > w - 1 - vxi2)) { w - 1 - x } else { x }, yy),
    decreases vxe2 - vxi2,
% loopstart 2
    proof {
        P::plaws(); P::Xtype::laws(); P::Ytype::laws();
        lemma_swap(bits(self.0@), w, h, x as int, y.v(), w - 1 - x, y.v());
    }
%% fn Gridbool::flip_v
    requires gbok::<P>(WORDS as int),
    ensures forall|x: int, y: int| inr(pw::<P>(), ph::<P>(), x, y) ==> #[trigger] cell(bits(final(self).0@), pw::<P>(), x, y) == cell(bits(old(self).0@), pw::<P>(), x, ph::<P>() - 1 - y),
        forall|i: int| pw::<P>() * ph::<P>() <= i < WORDS * 32 ==> #[trigger] bits(final(self).0@)[i] == bits(old(self).0@)[i],
% start
    let ghost w = pw::<P>(); let ghost h = ph::<P>(); let ghost s0 = bits(self.0@);
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); }
% loop 1
    invariant
        w == pw::<P>(), h == ph::<P>(), gbok::<P>(WORDS as int), s0.len() == WORDS * 32, vxi1 <= vxe1, vxe1 == h / 2,
        forall|i: int| w * h <= i < WORDS * 32 ==> #[trigger] bits(self.0@)[i] == s0[i],
        forall|x: int, y: int| inr(w, h, x, y) ==> #[trigger] cell(bits(self.0@), w, x, y) ==
            cell(s0, w, x, if y < vxi1 || y > h - 1 - vxi1 { h - 1 - y } else { y }),
    decreases vxe1 - vxi1,
% loopstart 1
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); }
% loop 2
    invariant
        w == pw::<P>(), h == ph::<P>(), gbok::<P>(WORDS as int), s0.len() == WORDS * 32, inr(w, h, 0, y as int), y < h / 2,
        forall|i: int| w * h <= i < WORDS * 32 ==> #[trigger] bits(self.0@)[i] == s0[i],
        vxit2.wf(), vxit2.rem().len() <= w, vxit2.rem() =~= int_range(w - vxit2.rem().len(), w - 1),
        forall|x: int, yy: int| inr(w, h, x, yy) ==> #[trigger] cell(bits(self.0@), w, x, yy) ==
            cell(s0, w, x, if yy < y || yy > h - 1 - y || ((yy == y || yy == h - 1 - y) && x < w - vxit2.rem().len()) { h - 1 - yy } else { yy }),
    ensures vxit2.rem().len() == 0,
    decreases vxit2.rem().len(),
% loopstart 2
    proof {
        P::plaws(); P::Xtype::laws(); P::Ytype::laws();
        lemma_swap(bits(self.0@), w, h, x.v(), y as int, x.v(), h - 1 - y);
    }
%% foreach F SX SY CW = rotate_cw y W-x true, rotate_cc W-y x false
%% fn Gridbool::@F@
    requires gbok::<Pos<XYMAX, XYMAX>>(WORDS as int),
    ensures forall|x: int, y: int| inr(XYMAX + 1, XYMAX + 1, x, y) ==> #[trigger] cell(bits(final(self).0@), XYMAX + 1, x, y) ==
            ({ let W = XYMAX as int; cell(bits(old(self).0@), XYMAX + 1, @SX@, @SY@) }),
        forall|i: int| (XYMAX + 1) * (XYMAX + 1) <= i < WORDS * 32 ==> #[trigger] bits(final(self).0@)[i] == bits(old(self).0@)[i],
% start
    let ghost n = XYMAX + 1; let ghost s0 = bits(self.0@);
    proof { lemma_pos_size(XYMAX, XYMAX); }
% loop 1
    invariant n == XYMAX + 1, s0.len() == WORDS * 32, gbok::<Pos<XYMAX, XYMAX>>(WORDS as int), vxi1 <= vxe1, vxe1 == n / 2,
        forall|i: int| n * n <= i < WORDS * 32 ==> #[trigger] bits(self.0@)[i] == s0[i],
        rot_inv(s0, bits(self.0@), n, @CW@, vxi1 as int, vxi1 as int),
    decreases vxe1 - vxi1,
% loop 2
    invariant n == XYMAX + 1, s0.len() == WORDS * 32, gbok::<Pos<XYMAX, XYMAX>>(WORDS as int), y < n / 2, y <= vxi2 <= vxe2, vxe2 == n - 1 - y,
        forall|i: int| n * n <= i < WORDS * 32 ==> #[trigger] bits(self.0@)[i] == s0[i],
        rot_inv(s0, bits(self.0@), n, @CW@, vxi2 as int, y as int),
    decreases vxe2 - vxi2,
% loopstart 2
    let ghost t = bits(self.0@);
    proof { lemma_pos_size(XYMAX, XYMAX); }
% loopend 2
    proof {
        let a = x as int; let b = y as int; let u = bits(self.0@);
        let i0 = b * n + a; let i1 = a * n + (n - 1 - b); let i2 = (n - 1 - b) * n + (n - 1 - a); let i3 = (n - 1 - a) * n + b;
        lemma_rot4(t, n, a, b, if @CW@ { t[i3] } else { t[i1] }, if @CW@ { t[i0] } else { t[i2] }, if @CW@ { t[i1] } else { t[i3] }, if @CW@ { t[i2] } else { t[i0] });
        assert(cell(t, n, a, b) == t[i0] && cell(t, n, n - 1 - b, a) == t[i1] && cell(t, n, n - 1 - a, n - 1 - b) == t[i2] && cell(t, n, b, n - 1 - a) == t[i3]);
        assert(u =~= t.update(i0, if @CW@ { t[i3] } else { t[i1] }).update(i1, if @CW@ { t[i0] } else { t[i2] }).update(i2, if @CW@ { t[i1] } else { t[i3] }).update(i3, if @CW@ { t[i2] } else { t[i0] }));
        assert forall|x2: int, y2: int| inr(n, n, x2, y2) implies #[trigger] cell(u, n, x2, y2) ==
            (if !rot_done(n, x2, y2, a + 1, b) { cell(s0, n, x2, y2) } else if @CW@ { cell(s0, n, y2, n - 1 - x2) } else { cell(s0, n, n - 1 - y2, x2) }) by {
            assert(cell(t, n, x2, y2) == cell(t, n, x2, y2));
        }
    }
%% endforeach
%% fn <Gridbool as Default>::default :: ret=r
    ensures gpos::<P>() ==> gbok::<P>(WORDS as int) && clear(r.0@, pw::<P>() * ph::<P>()) && bits(r.0@) =~= all_false((WORDS * 32) as nat),
% start
    assume(gpos::<P>()); // VX-SCOPE: a trait method takes no precondition; the contract promises nothing otherwise
%% fn <Gridbool as Index<&P>>::index :: ret=r
    ensures *r == bits(self.0@)[gix(*pos)],
%% fn <Gridbool as Index<P>>::index :: ret=r
    ensures *r == bits(self.0@)[gix(pos)],
%% inherent <Gridbool as FromIterator<P>>
%% fn <Gridbool as FromIterator<P>>::from_iter :: ret=r ;; rename=from_iter_pos
    requires gpos::<P>(), forall|i: int| 0 <= i < iter.rest().len() ==> (#[trigger] iter.rest()[i]).pwf(),
    ensures gbok::<P>(WORDS as int), bits(r.0@) =~= set_seq(all_false((WORDS * 32) as nat), iter.rest(), true),
        clear(r.0@, pw::<P>() * ph::<P>()),
% start
    let ghost s0 = iter.rest();
% end
    proof { lemma_set_seq_out(all_false((WORDS * 32) as nat), s0, true); }
%% inherent <Gridbool as FromIterator<bool>>
%% fn <Gridbool as FromIterator<bool>>::from_iter :: ret=r ;; rename=from_iter_bool ;; panic=iter.rest().len() != pw::<P>() * ph::<P>()
    requires gpos::<P>(), allow_panic() || iter.rest().len() == pw::<P>() * ph::<P>(),
    ensures gbok::<P>(WORDS as int), clear(r.0@, pw::<P>() * ph::<P>()), iter.rest().len() == pw::<P>() * ph::<P>(),
        forall|i: int| 0 <= i < pw::<P>() * ph::<P>() ==> #[trigger] bits(r.0@)[i] == iter.rest()[i],
% start
    let ghost s0 = iter.rest(); let ghost n = pw::<P>() * ph::<P>();
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); }
% loop 1
    invariant n == pw::<P>() * ph::<P>(), gbok::<P>(WORDS as int), s0 == iter.rest(), clear(gb.0@, n),
        allow_panic() || s0.len() == n,
        vxit1.wf(), vxit1.rem().len() <= n, vxit1.rem() =~= pcoords::<P>(true, n - vxit1.rem().len(), n - 1),
        n - vxit1.rem().len() <= s0.len(), it.rest() =~= s0.skip(n - vxit1.rem().len()),
        forall|i: int| 0 <= i < n - vxit1.rem().len() ==> #[trigger] bits(gb.0@)[i] == s0[i],
    ensures vxit1.rem().len() == 0,
    decreases vxit1.rem().len(),
% loopstart 1
    proof { P::plaws(); let k = n - vxit1.rem().len() - 1; lemma_unix(pw::<P>(), ph::<P>(), k); assert(gix(pos) == k); }
%% inherent <Gridbool as Display>
%% fn <Gridbool as Display>::fmt :: ret=r ;; eager=items
    requires gbok::<P>(WORDS as int),
    ensures fpad(*final(f)) == fpad(*old(f)),
        r is Ok ==> fout(*final(f)) == fout(*old(f)) + grid_text(fpad(*old(f)), pw::<P>(), ph::<P>(), bool_cells::<P>(bits(self.0@))),
% start
    let ghost cells = bool_cells::<P>(bits(self.0@)); let ghost n = pw::<P>() * ph::<P>();
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); reveal_strlit("#"); reveal_strlit("."); assert("#"@ =~= seq!['#']); assert("."@ =~= seq!['.']); }
% loop 1
    invariant gbok::<P>(WORDS as int), cells == bool_cells::<P>(bits(self.0@)), n == pw::<P>() * ph::<P>(), vxv.len() <= n,
        texts(&vxv, cells.take(vxv.len() as int)), "#"@ == seq!['#'], "."@ == seq!['.'],
        vxit1.wf(), vxit1.rem() =~= pcoords::<P>(true, 0, n - 1).skip(vxv.len() as int),
    ensures vxv.len() == n,
    decreases vxit1.rem().len(),
% loopstart 1
    proof { P::plaws(); P::Xtype::laws(); P::Ytype::laws(); lemma_unix(pw::<P>(), ph::<P>(), vxv.len() as int); lemma_gix(vxp, vxp); assert(gix(vxp) == vxv.len()); }
% loopend 1
    proof { assert(cells[vxv.len() - 1] =~= vxm@); assert(cells.take(vxv.len() as int) =~= cells.take(vxv.len() - 1).push(vxm@)); }
% looppost 1
    proof { assert(views(vxv@) =~= cells); }
%% postlude
/// the bits after setting the positions to v in order
pub open spec fn set_seq<P: PosT>(s: Seq<bool>, items: Seq<P>, v: bool) -> Seq<bool>
    decreases items.len()
{
    if items.len() == 0 { s } else { set_seq(s, items.drop_last(), v).update(gix(items.last()), v) }
}
pub proof fn lemma_set_seq_out<P: PosT>(s: Seq<bool>, items: Seq<P>, v: bool)
    requires gpos::<P>(), forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]).pwf(),
    ensures set_seq(s, items, v).len() == s.len(), forall|i: int| pw::<P>() * ph::<P>() <= i < s.len() ==> #[trigger] set_seq(s, items, v)[i] == s[i],
    decreases items.len(),
{
    if items.len() > 0 {
        lemma_gix(items.last(), items.last());
        assert forall|i: int| 0 <= i < items.len() - 1 implies (#[trigger] items.drop_last()[i]).pwf() by { assert(items.drop_last()[i] == items[i]); }
        lemma_set_seq_out(s, items.drop_last(), v);
    }
}
// C18: exactly the given positions are set
pub proof fn lemma_set_seq<P: PosT>(s: Seq<bool>, items: Seq<P>, v: bool, p: P)
    requires gpos::<P>(), p.pwf(), s.len() >= pw::<P>() * ph::<P>(), forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]).pwf(),
    ensures set_seq(s, items, v).len() == s.len(),
        set_seq(s, items, v)[gix(p)] == (if items.contains(p) { v } else { s[gix(p)] }),
    decreases items.len(),
{
    lemma_gix(p, p);
    if items.len() > 0 {
        lemma_gix(p, items.last());
        let l = items.drop_last();
        assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).pwf() by { assert(l[i] == items[i]); }
        lemma_set_seq(s, l, v, p);
        if l.contains(p) { let k = choose|k: int| 0 <= k < l.len() && l[k] == p; assert(items[k] == p); }
        if items.contains(p) && items.last() != p { let k = choose|k: int| 0 <= k < items.len() && items[k] == p; assert(l[k] == p); }
        assert(items[items.len() - 1] == items.last());
    }
}
impl<P: PosT, const WORDS: usize> IndexSpecImpl<P> for Gridbool<P, WORDS> {
    open spec fn index_req(&self, index: &P) -> bool { gbok::<P>(WORDS as int) && index.pwf() }
}
impl<P: PosT, const WORDS: usize> IndexSpecImpl<&P> for Gridbool<P, WORDS> {
    open spec fn index_req(&self, index: &&P) -> bool { gbok::<P>(WORDS as int) && index.pwf() }
}
impl<P: PosT, const WORDS: usize> PartialEqSpecImpl for Gridbool<P, WORDS> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.0@ == other.0@ }
}
/// the text of each cell
pub open spec fn bool_cells<P: PosT>(b: Seq<bool>) -> Seq<Seq<char>> {
    Seq::new((pw::<P>() * ph::<P>()) as nat, |i: int| if b[i] { seq!['#'] } else { seq!['.'] })
}
