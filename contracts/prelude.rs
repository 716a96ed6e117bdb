// ---- trusted prelude: everything here is assumed, never proved -------------
// Order, equality and cloning of the point type T (T: Ord + Clone is lawful).
pub uninterp spec fn lt<T>(a: T, b: T) -> bool;

pub broadcast axiom fn ax_lt_irrefl<T>(a: T, b: T)
    ensures #[trigger] lt(a, b) ==> a != b && !lt(b, a);
pub broadcast axiom fn ax_lt_trans<T>(a: T, b: T, c: T)
    requires #[trigger] lt(a, b), #[trigger] lt(b, c)
    ensures lt(a, c);
pub broadcast axiom fn ax_lt_total<T>(a: T, b: T)
    ensures #[trigger] lt(a, b) || a == b || lt(b, a);
pub broadcast group grp_order { ax_lt_irrefl, ax_lt_trans, ax_lt_total }

pub open spec fn le<T>(a: T, b: T) -> bool { lt(a, b) || a == b }
pub open spec fn cmp_s<T>(a: T, b: T) -> Ordering { if lt(a, b) { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }

// assumed of T: `<`, `==` and `clone` are lawful. The other comparisons are proved from them, as
// PartialOrd and Ord oblige an implementation to have them.
#[verifier::external_body] pub fn vlt<T>(a: &T, b: &T) -> (r: bool) ensures r == lt(*a, *b) { unimplemented!() }
#[verifier::external_body] pub fn veq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body] pub fn vclone<T>(a: &T) -> (r: T) ensures r == *a { unimplemented!() }
pub fn vle<T>(a: &T, b: &T) -> (r: bool) ensures r == le(*a, *b) { vlt(a, b) || veq(a, b) }
pub fn vgt<T>(a: &T, b: &T) -> (r: bool) ensures r == lt(*b, *a) { vlt(b, a) }
pub fn vge<T>(a: &T, b: &T) -> (r: bool) ensures r == le(*b, *a) { vle(b, a) }
pub fn vne<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a != *b) { !veq(a, b) }
pub fn vcmp<T>(a: &T, b: &T) -> (r: Ordering) ensures r == cmp_s(*a, *b) { if vlt(a, b) { Ordering::Less } else if veq(a, b) { Ordering::Equal } else { Ordering::Greater } }
pub fn vpartial_cmp<T>(a: &T, b: &T) -> (r: Option<Ordering>) ensures r == Some(cmp_s(*a, *b)) { Some(vcmp(a, b)) }
pub fn vmax<T>(a: T, b: T) -> (r: T) ensures r == (if lt(b, a) { a } else { b }) { if vlt(&b, &a) { a } else { b } }
pub fn vmin<T>(a: T, b: T) -> (r: T) ensures r == (if lt(b, a) { b } else { a }) { if vlt(&b, &a) { b } else { a } }
pub fn ord_eq(a: Ordering, b: Ordering) -> (r: bool) ensures r == (a == b) {
    match (a, b) { (Ordering::Less, Ordering::Less) => true, (Ordering::Equal, Ordering::Equal) => true, (Ordering::Greater, Ordering::Greater) => true, _ => false }
}
pub fn band(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
pub fn bor(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }

pub fn mem_replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { let mut b = b; std::mem::swap(a, &mut b); b }
pub fn opt_replace<T>(a: &mut Option<T>, b: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(b) { mem_replace(a, Some(b)) }
// subtraction, default and borrow as the type gives them
pub uninterp spec fn s_sub<T>(a: T, b: T) -> T;
pub uninterp spec fn s_default<T>() -> T;
pub uninterp spec fn s_borrow<B, X>(b: B) -> X;
#[verifier::external_body] pub fn vsub<T>(a: T, b: T) -> (r: T) ensures r == s_sub(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vdefault<T>() -> (r: T) ensures r == s_default::<T>() { unimplemented!() }
#[verifier::external_body] pub fn vborrow<B, X>(b: &B) -> (r: &X) ensures *r == s_borrow::<B, X>(*b) { unimplemented!() }

// Finite types.
pub trait Finite: Sized {
    fn MINIMUM_c() -> (r: Self) ensures r == s_min::<Self>();
    fn MAXIMUM_c() -> (r: Self) ensures r == s_max::<Self>();
    fn pred(&self) -> (r: Option<Self>) ensures r == s_pred(*self);
    fn succ(&self) -> (r: Option<Self>) ensures r == s_succ(*self);
}
pub uninterp spec fn s_min<T>() -> T;
pub uninterp spec fn s_max<T>() -> T;
pub uninterp spec fn s_pred<T>(a: T) -> Option<T>;
pub uninterp spec fn s_succ<T>(a: T) -> Option<T>;
pub broadcast axiom fn ax_min<T: Finite>(a: T)
    ensures #![trigger lt(a, s_min::<T>())] #![trigger lt(s_min::<T>(), a)] le(s_min::<T>(), a);
pub broadcast axiom fn ax_max<T: Finite>(a: T)
    ensures #![trigger lt(s_max::<T>(), a)] #![trigger lt(a, s_max::<T>())] le(a, s_max::<T>());
pub broadcast axiom fn ax_succ<T: Finite>(a: T)
    ensures (#[trigger] s_succ(a)) matches Some(b) ==> lt(a, b) && s_pred(b) == Some(a),
            s_succ(a) is None <==> a == s_max::<T>();
pub broadcast axiom fn ax_pred<T: Finite>(a: T)
    ensures (#[trigger] s_pred(a)) matches Some(b) ==> lt(b, a) && s_succ(b) == Some(a),
            s_pred(a) is None <==> a == s_min::<T>();
pub broadcast axiom fn ax_succ_gap<T: Finite>(a: T, x: T)
    ensures #![trigger s_succ(a), lt(a, x)] #![trigger s_succ(a), lt(x, a)]
            s_succ(a) matches Some(b) ==> (lt(a, x) <==> le(b, x));
pub broadcast axiom fn ax_pred_gap<T: Finite>(a: T, x: T)
    ensures #![trigger s_pred(a), lt(x, a)] #![trigger s_pred(a), lt(a, x)]
            s_pred(a) matches Some(b) ==> (lt(x, a) <==> le(x, b));
pub broadcast group grp_fin { ax_min, ax_max, ax_succ, ax_pred, ax_succ_gap, ax_pred_gap }

// Reference implementations: what std's and few's collections are assumed to do is proved here of
// plain vectors, so the assumption is that they behave like these, and it cannot be contradictory.
pub open spec fn opt<A>(o: Option<A>) -> Seq<A> { match o { Some(x) => seq![x], None => seq![] } }
pub mod model {
use super::*;
// Owned iterators: a finite sequence consumed from both ends.
pub struct It<A> { v: Vec<A> }
impl<A> View for It<A> { type V = Seq<A>; closed spec fn view(&self) -> Seq<A> { self.v@ } }
pub fn It_next<A>(s: &mut It<A>) -> (r: Option<A>)
    ensures old(s)@.len() == 0 ==> r is None && final(s)@ == old(s)@,
            old(s)@.len() > 0 ==> r == Some(old(s)@[0]) && final(s)@ == old(s)@.skip(1)
{ if s.v.len() == 0 { None } else { let x = s.v.remove(0); proof { assert(s.v@ =~= old(s).v@.skip(1)); } Some(x) } }
pub fn It_next_back<A>(s: &mut It<A>) -> (r: Option<A>)
    ensures old(s)@.len() == 0 ==> r is None && final(s)@ == old(s)@,
            old(s)@.len() > 0 ==> r == Some(old(s)@.last()) && final(s)@ == old(s)@.drop_last()
{ s.v.pop() }
pub fn It_rev<A>(s: It<A>) -> (r: It<A>) ensures r@ == s@.reverse()
{
    let mut s = s; let ghost s0 = s@;
    let mut w: Vec<A> = Vec::new();
    while s.v.len() > 0
        invariant w@ + s@.reverse() == s0.reverse()
        decreases s@.len()
    {
        let ghost (w1, s1) = (w@, s@);
        let x = s.v.pop(); w.push(x.unwrap());
        proof { assert(w@ + s@.reverse() =~= w1 + s1.reverse()); }
    }
    proof { assert(w@ + s@.reverse() =~= w@); }
    It { v: w }
}
pub fn It_to_vec<A>(s: It<A>) -> (r: Vec<A>) ensures r@ == s@ { s.v }
pub fn It_from_vec<A>(s: Vec<A>) -> (r: It<A>) ensures r@ == s@ { It { v: s } }
pub fn It_from_option<A>(s: Option<A>) -> (r: It<A>) ensures r@ == opt(s)
{ let mut v = Vec::new(); if let Some(x) = s { v.push(x); } proof { assert(v@ =~= opt(s)); } It { v } }
pub fn It_len<A>(s: &It<A>) -> (r: usize) ensures r == s@.len() { s.v.len() }
pub fn Vec_take_all<A>(s: &mut Vec<A>) -> (r: It<A>) ensures r@ == old(s)@, final(s)@ == Seq::<A>::empty()
{ let mut v = Vec::new(); v.append(s); proof { assert(v@ =~= old(s)@); } It { v } }
pub fn Vec_first<'a, A>(s: &'a Vec<A>) -> (r: Option<&'a A>)
    ensures s@.len() == 0 ==> r is None, s@.len() > 0 ==> r is Some && *r->0 == s@[0] { if s.len() == 0 { None } else { Some(&s[0]) } }
pub fn Vec_last<'a, A>(s: &'a Vec<A>) -> (r: Option<&'a A>)
    ensures s@.len() == 0 ==> r is None, s@.len() > 0 ==> r is Some && *r->0 == s@.last() { if s.len() == 0 { None } else { Some(&s[s.len() - 1]) } }
pub fn Vec_get<'a, A>(s: &'a Vec<A>, i: usize) -> (r: Option<&'a A>)
    ensures i >= s@.len() ==> r is None, i < s@.len() ==> r is Some && *r->0 == s@[i as int] { if i >= s.len() { None } else { Some(&s[i]) } }
pub fn It_count<A>(s: It<A>) -> (r: usize) ensures r == s@.len() { s.v.len() }
pub fn It_last<A>(s: It<A>) -> (r: Option<A>)
    ensures s@.len() == 0 ==> r is None, s@.len() > 0 ==> r == Some(s@.last()) { let mut s = s; s.v.pop() }
pub fn It_chain<A>(s: It<A>, o: It<A>) -> (r: It<A>) ensures r@ == s@ + o@
{ let (mut s, mut o) = (s, o); s.v.append(&mut o.v); s }

// Borrowing iterators.
pub struct ItR<'a, A> { v: Vec<&'a A> }
spec fn derefs<'a, A>(v: Seq<&'a A>) -> Seq<A> { Seq::new(v.len(), |i: int| *v[i]) }
impl<'a, A> View for ItR<'a, A> { type V = Seq<A>; closed spec fn view(&self) -> Seq<A> { derefs(self.v@) } }
pub fn ItR_next<'a, A>(s: &mut ItR<'a, A>) -> (r: Option<&'a A>)
    ensures old(s)@.len() == 0 ==> r is None && final(s)@ == old(s)@,
            old(s)@.len() > 0 ==> r is Some && *r->0 == old(s)@[0] && final(s)@ == old(s)@.skip(1)
{ if s.v.len() == 0 { None } else { let x = s.v.remove(0); proof { assert(s@ =~= old(s)@.skip(1)); } Some(x) } }
pub fn ItR_next_back<'a, A>(s: &mut ItR<'a, A>) -> (r: Option<&'a A>)
    ensures old(s)@.len() == 0 ==> r is None && final(s)@ == old(s)@,
            old(s)@.len() > 0 ==> r is Some && *r->0 == old(s)@.last() && final(s)@ == old(s)@.drop_last()
{ let r = s.v.pop(); proof { if old(s)@.len() > 0 { assert(s@ =~= old(s)@.drop_last()); } } r }
pub fn ItR_rev<'a, A>(s: ItR<'a, A>) -> (r: ItR<'a, A>) ensures r@ == s@.reverse()
{ let r = It_rev(It { v: s.v }); proof { assert(derefs(r.v@) =~= s@.reverse()); } ItR { v: r.v } }
pub fn ItR_to_vec<'a, A>(s: ItR<'a, A>) -> (r: Vec<&'a A>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> *(#[trigger] r@[i]) == s@[i] { s.v }
pub fn ItR_from_refs<'a, A>(s: Vec<&'a A>) -> (r: ItR<'a, A>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> (#[trigger] r@[i]) == *s@[i] { ItR { v: s } }
pub fn ItR_from_vec<'a, A>(s: &'a Vec<A>) -> (r: ItR<'a, A>) ensures r@ == s@
{
    let mut v: Vec<&'a A> = Vec::new(); let mut i: usize = 0;
    while i < s.len()
        invariant i == v@.len(), i <= s@.len(), forall|k: int| 0 <= k < i ==> *(#[trigger] v@[k]) == s@[k]
        decreases s@.len() - i
    { v.push(&s[i]); i = i + 1; }
    proof { assert(derefs(v@) =~= s@); }
    ItR { v }
}
pub fn ItR_len<'a, A>(s: &ItR<'a, A>) -> (r: usize) ensures r == s@.len() { s.v.len() }
pub fn ItR_count<'a, A>(s: ItR<'a, A>) -> (r: usize) ensures r == s@.len() { s.v.len() }
pub fn ItR_last<'a, A>(s: ItR<'a, A>) -> (r: Option<&'a A>)
    ensures s@.len() == 0 ==> r is None, s@.len() > 0 ==> r is Some && *r->0 == s@.last() { let mut s = s; s.v.pop() }
pub fn ItR_chain<'a, A>(s: ItR<'a, A>, o: ItR<'a, A>) -> (r: ItR<'a, A>) ensures r@ == s@ + o@
{ let ghost (s0, o0) = (s@, o@); let (mut s, mut o) = (s, o); s.v.append(&mut o.v); proof { assert(s@ =~= s0 + o0); } s }

// crate `few`
pub enum Few<A> { Zero, One(A), Two(A, A) }
impl<A> View for Few<A> { type V = Seq<A>; open spec fn view(&self) -> Seq<A> {
    match *self { Few::Zero => seq![], Few::One(a) => seq![a], Few::Two(a, b) => seq![a, b] } } }
pub fn Few_to_it<A>(s: Few<A>) -> (r: It<A>) ensures r@ == s@
{
    let mut v = Vec::new();
    match s { Few::Zero => {}, Few::One(a) => { v.push(a); }, Few::Two(a, b) => { v.push(a); v.push(b); } }
    proof { assert(v@ =~= s@); }
    It { v }
}

// std::collections::BTreeSet, ordered by the element's Ord (only used with Tine).
pub struct BSet<A> { v: Vec<A> }
impl<A> View for BSet<A> { type V = Seq<A>; closed spec fn view(&self) -> Seq<A> { self.v@ } }
pub fn BSet_new<A>() -> (r: BSet<A>) ensures r@ == Seq::<A>::empty() { BSet { v: Vec::new() } }
pub fn BSet_iter<'a, A>(s: &'a BSet<A>) -> (r: ItR<'a, A>) ensures r@ == s@ { ItR_from_vec(&s.v) }
pub fn BSet_into_iter<A>(s: BSet<A>) -> (r: It<A>) ensures r@ == s@ { It { v: s.v } }
pub fn BSet_len<A>(s: &BSet<A>) -> (r: usize) ensures r == s@.len() { s.v.len() }
pub fn BSet_is_empty<A>(s: &BSet<A>) -> (r: bool) ensures r == (s@.len() == 0) { s.v.len() == 0 }
pub fn BSet_clear<A>(s: &mut BSet<A>) ensures final(s)@ == Seq::<A>::empty() { s.v = Vec::new(); }
pub fn BSet_eq<A>(a: &BSet<A>, b: &BSet<A>) -> (r: bool) ensures r == (a@ == b@)
{
    if a.v.len() != b.v.len() { return false; }
    let mut i: usize = 0;
    while i < a.v.len()
        invariant i <= a@.len(), a@.len() == b@.len(), a.v@ == a@, b.v@ == b@, forall|k: int| 0 <= k < i ==> a@[k] == b@[k]
        decreases a@.len() - i
    { if !veq(&a.v[i], &b.v[i]) { return false; } i = i + 1; }
    proof { assert(a@ =~= b@); }
    true
}
pub fn BSet_clone<A>(s: &BSet<A>) -> (r: BSet<A>) ensures r@ == s@
{
    let mut v: Vec<A> = Vec::new(); let mut i: usize = 0;
    while i < s.v.len()
        invariant i == v@.len(), i <= s@.len(), s.v@ == s@, forall|k: int| 0 <= k < i ==> v@[k] == s@[k]
        decreases s@.len() - i
    { v.push(vclone(&s.v[i])); i = i + 1; }
    proof { assert(v@ =~= s@); }
    BSet { v }
}
pub fn BSet_first<'a, A>(s: &'a BSet<A>) -> (r: Option<&'a A>)
    ensures s@.len() == 0 ==> r is None, s@.len() > 0 ==> r is Some && *r->0 == s@[0] { if s.v.len() == 0 { None } else { Some(&s.v[0]) } }
pub fn BSet_last<'a, A>(s: &'a BSet<A>) -> (r: Option<&'a A>)
    ensures s@.len() == 0 ==> r is None, s@.len() > 0 ==> r is Some && *r->0 == s@.last() { if s.v.len() == 0 { None } else { Some(&s.v[s.v.len() - 1]) } }
pub fn BSet_pop_first<A>(s: &mut BSet<A>) -> (r: Option<A>)
    ensures old(s)@.len() == 0 ==> r is None && final(s)@ == old(s)@,
            old(s)@.len() > 0 ==> r == Some(old(s)@[0]) && final(s)@ == old(s)@.skip(1)
{ if s.v.len() == 0 { None } else { let x = s.v.remove(0); proof { assert(s.v@ =~= old(s).v@.skip(1)); } Some(x) } }
pub fn BSet_pop_last<A>(s: &mut BSet<A>) -> (r: Option<A>)
    ensures old(s)@.len() == 0 ==> r is None && final(s)@ == old(s)@,
            old(s)@.len() > 0 ==> r == Some(old(s)@.last()) && final(s)@ == old(s)@.drop_last() { s.v.pop() }
pub fn BSet_from_it<T>(s: It<Tine<T>>) -> (r: BSet<Tine<T>>)
    requires wfo(s@) ensures r@ == s@ { BSet { v: s.v } }
// where t belongs: everything before is below it; whether it is there
fn precedes<T>(a: &Tine<T>, b: &Tine<T>) -> (r: bool)
    requires t_ok(*a), t_ok(*b)
    ensures r == plt(tpos(*a), tpos(*b))
{
    proof { reveal(plt); }
    let ab = match a { Tine::Lower(x) => x, Tine::Point(x) => x, Tine::Upper(x) => x };
    let bb = match b { Tine::Lower(x) => x, Tine::Point(x) => x, Tine::Upper(x) => x };
    let (al, bl) = (match a { Tine::Lower(_) => true, _ => false }, match b { Tine::Lower(_) => true, _ => false });
    let av = match ab { Bound::Include(x) => Some(x), Bound::Exclude(x) => Some(x), Bound::Infinite => None };
    let bv_ = match bb { Bound::Include(x) => Some(x), Bound::Exclude(x) => Some(x), Bound::Infinite => None };
    match (av, bv_) {
        (Some(x), Some(y)) => vlt(x, y),
        (None, Some(_)) => al,
        (Some(_), None) => !bl,
        (None, None) => al && !bl,
    }
}
fn find<T>(s: &Vec<Tine<T>>, t: &Tine<T>) -> (r: (usize, bool))
    requires wfo(s@), t_ok(*t)
    ensures r.0 <= s@.len(), r.1 ==> r.0 < s@.len(), left_of(s@, tpos(*t)) == s@.take(r.0 as int), tine_at(s@, tpos(*t)) == (if r.1 { Some(s@[r.0 as int]) } else { None }),
        right_of(s@, tpos(*t)) == s@.skip(r.0 + (if r.1 { 1int } else { 0 }))
{
    broadcast use grp_pos;
    let mut i: usize = 0;
    while i < s.len() && precedes(&s[i], t)
        invariant i <= s@.len(), wfo(s@), t_ok(*t), forall|k: int| 0 <= k < i ==> plt(tpos(#[trigger] s@[k]), tpos(*t))
        ensures i <= s@.len(), i < s@.len() ==> !plt(tpos(s@[i as int]), tpos(*t))
        decreases s@.len() - i
    { i = i + 1; }
    let b = i < s.len() && !precedes(t, &s[i]);
    proof {
        let p = tpos(*t);
        let a = s@.take(i as int); let m = if b { Some(s@[i as int]) } else { None }; let z = s@.skip(i + (if b { 1int } else { 0 }));
        assert(s@ =~= a + opt(m) + z);
        assert forall|j: int| 0 <= j < z.len() implies plt(p, tpos(#[trigger] z[j])) by {
            let k = j + i + (if b { 1int } else { 0 });
            assert(z[j] == s@[k]);
            if k > i { assert(plt(tpos(s@[i as int]), tpos(s@[k]))); }
        }
        lemma_cut_unique(s@, p, a, m, z);
    }
    (i, b)
}
pub fn BSet_insert<T>(s: &mut BSet<Tine<T>>, t: Tine<T>) -> (r: bool)
    requires wfo(old(s)@), t_ok(t),
    ensures r == (tine_at(old(s)@, tpos(t)) is None),
            !r ==> final(s)@ == old(s)@,
            r ==> final(s)@ == left_of(old(s)@, tpos(t)) + seq![t] + right_of(old(s)@, tpos(t))
{
    let (i, b) = find(&s.v, &t);
    if b { return false; }
    s.v.insert(i, t);
    proof { assert(s@ =~= left_of(old(s)@, tpos(t)) + seq![t] + right_of(old(s)@, tpos(t))); }
    true
}
pub fn BSet_replace<T>(s: &mut BSet<Tine<T>>, t: Tine<T>) -> (r: Option<Tine<T>>)
    requires wfo(old(s)@), t_ok(t),
    ensures r == tine_at(old(s)@, tpos(t)),
            final(s)@ == left_of(old(s)@, tpos(t)) + seq![t] + right_of(old(s)@, tpos(t))
{
    let (i, b) = find(&s.v, &t);
    let r = if b { Some(s.v.remove(i)) } else { None };
    s.v.insert(i, t);
    proof { assert(s@ =~= left_of(old(s)@, tpos(t)) + seq![t] + right_of(old(s)@, tpos(t))); }
    r
}
pub fn BSet_take<T>(s: &mut BSet<Tine<T>>, t: &Tine<T>) -> (r: Option<Tine<T>>)
    requires wfo(old(s)@), t_ok(*t),
    ensures r == tine_at(old(s)@, tpos(*t)),
            final(s)@ == left_of(old(s)@, tpos(*t)) + right_of(old(s)@, tpos(*t))
{
    let (i, b) = find(&s.v, t);
    let r = if b { Some(s.v.remove(i)) } else { None };
    proof { assert(s@ =~= left_of(old(s)@, tpos(*t)) + right_of(old(s)@, tpos(*t))); }
    r
}
pub fn BSet_remove<T>(s: &mut BSet<Tine<T>>, t: &Tine<T>) -> (r: bool)
    requires wfo(old(s)@), t_ok(*t),
    ensures r == (tine_at(old(s)@, tpos(*t)) is Some),
            final(s)@ == left_of(old(s)@, tpos(*t)) + right_of(old(s)@, tpos(*t))
{ BSet_take(s, t).is_some() }
pub fn BSet_contains<T>(s: &BSet<Tine<T>>, t: &Tine<T>) -> (r: bool)
    requires wfo(s@), t_ok(*t),
    ensures r == (tine_at(s@, tpos(*t)) is Some) { find(&s.v, t).1 }
pub fn BSet_get<'a, T>(s: &'a BSet<Tine<T>>, t: &Tine<T>) -> (r: Option<&'a Tine<T>>)
    requires wfo(s@), t_ok(*t),
    ensures r is Some == (tine_at(s@, tpos(*t)) is Some), r is Some ==> *r->0 == tine_at(s@, tpos(*t))->0
{ let (i, b) = find(&s.v, t); if b { Some(&s.v[i]) } else { None } }
pub fn BSet_split_off<T>(s: &mut BSet<Tine<T>>, t: &Tine<T>) -> (r: BSet<Tine<T>>)
    requires wfo(old(s)@), t_ok(*t),
    ensures final(s)@ == left_of(old(s)@, tpos(*t)),
            r@ == opt(tine_at(old(s)@, tpos(*t))) + right_of(old(s)@, tpos(*t))
{
    let (i, b) = find(&s.v, t);
    let v = s.v.split_off(i);
    proof { assert(v@ =~= opt(tine_at(old(s)@, tpos(*t))) + right_of(old(s)@, tpos(*t))); assert(s@ =~= left_of(old(s)@, tpos(*t))); }
    BSet { v }
}
pub fn BSet_append<T>(s: &mut BSet<Tine<T>>, o: &mut BSet<Tine<T>>)
    requires wfo(old(s)@), wfo(old(o)@), wfo(old(s)@ + old(o)@)
    ensures final(s)@ == old(s)@ + old(o)@, final(o)@ == Seq::<Tine<T>>::empty()
{ s.v.append(&mut o.v); }
} // mod model
pub use model::*;

pub struct Arr1<A> { pub f0: A }
pub struct Arr2<A> { pub f0: A, pub f1: A }
pub struct Arr3<A> { pub f0: A, pub f1: A, pub f2: A }
pub struct Arr4<A> { pub f0: A, pub f1: A, pub f2: A, pub f3: A }
pub struct Arr5<A> { pub f0: A, pub f1: A, pub f2: A, pub f3: A, pub f4: A }
pub struct Arr6<A> { pub f0: A, pub f1: A, pub f2: A, pub f3: A, pub f4: A, pub f5: A }
pub struct Arr7<A> { pub f0: A, pub f1: A, pub f2: A, pub f3: A, pub f4: A, pub f5: A, pub f6: A }
pub struct Arr8<A> { pub f0: A, pub f1: A, pub f2: A, pub f3: A, pub f4: A, pub f5: A, pub f6: A, pub f7: A }

// ---- text -------------------------------------------------------------------
// The text of a point and the result of reading one: `Display` and `FromStr` of T.
pub uninterp spec fn txt<T>(a: T) -> Seq<char>;
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct PErr<T> { a: core::marker::PhantomData<T> }
pub uninterp spec fn parse_s<T>(s: Seq<char>) -> Result<T, PErr<T>>;
#[verifier::external_body] pub fn vparse<T>(s: &str) -> (r: Result<T, PErr<T>>) ensures r == parse_s::<T>(s@) { unimplemented!() }

// A formatter: what has been written, whether the sink has failed, whether flags are default.
#[verifier::external_body] pub struct Fmt { a: u8 }
pub struct FmtErr {}
impl View for Fmt { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Fmt { pub uninterp spec fn failed(&self) -> bool; pub uninterp spec fn plain(&self) -> bool; }
pub enum FArg { Lit(char), Show(Ghost<Seq<char>>) }
pub enum FArgs { Nil, Cons(FArg, Box<FArgs>) }
pub open spec fn fargs_on(s: Seq<char>, a: FArgs) -> Seq<char> decreases a {
    match a { FArgs::Nil => s, FArgs::Cons(FArg::Lit(c), r) => fargs_on(s.push(c), *r), FArgs::Cons(FArg::Show(t), r) => fargs_on(s + t@, *r) }
}
// f became g, the text from there on being s
pub open spec fn wrote(f: Fmt, g: Fmt, s: Seq<char>, r: Result<(), FmtErr>) -> bool {
    g.plain() == f.plain() && (f.failed() ==> g.failed()) && (r is Ok ==> g@ == s) && (r is Err ==> g.failed())
}
#[verifier::external_body] pub fn Fmt_write(f: &mut Fmt, a: FArgs) -> (r: Result<(), FmtErr>) ensures wrote(*old(f), *final(f), fargs_on(old(f)@, a), r) { unimplemented!() }
#[verifier::external_body] pub fn Fmt_write_str(f: &mut Fmt, a: &str) -> (r: Result<(), FmtErr>) ensures wrote(*old(f), *final(f), old(f)@ + a@, r) { unimplemented!() }
#[verifier::external_body] pub fn Fmt_write_char(f: &mut Fmt, a: char) -> (r: Result<(), FmtErr>) ensures wrote(*old(f), *final(f), old(f)@.push(a), r) { unimplemented!() }
#[verifier::external_body] pub fn Fmt_show<T>(f: &mut Fmt, a: &T) -> (r: Result<(), FmtErr>)
    ensures final(f).plain() == old(f).plain(), old(f).plain() ==> wrote(*old(f), *final(f), old(f)@ + txt(*a), r) { unimplemented!() }

// str: its characters, and its length in bytes.
pub open spec fn clen(c: char) -> nat { let n = c as u32; if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 } }
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) } }
// byte offset n is where character k starts
pub open spec fn char_cut(s: Seq<char>, n: int, k: int) -> bool { 0 <= k <= s.len() && blen(s.take(k)) == n }
pub open spec fn at_char(s: Seq<char>, n: int) -> bool { exists|k: int| char_cut(s, n, k) }
pub open spec fn char_at(s: Seq<char>, n: int) -> int { choose|k: int| char_cut(s, n, k) }
pub open spec fn pre(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub open spec fn suf(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
// p occurs nowhere in s; x, y are what stands before and after its first occurrence
pub open spec fn absent(p: Seq<char>, s: Seq<char>) -> bool { forall|i: int| 0 <= i <= s.len() ==> !pre(p, #[trigger] s.skip(i)) }
pub open spec fn first_split(s: Seq<char>, p: Seq<char>, x: Seq<char>, y: Seq<char>) -> bool { s == x + p + y && forall|i: int| 0 <= i < x.len() ==> !pre(p, #[trigger] s.skip(i)) }
// Assumed: literals (short), and the length in bytes. The rest is proved of vstd's str primitives.
#[verifier::external_body] pub fn slit(g: Ghost<Seq<char>>) -> (r: &'static str) requires g@.len() <= 1000 ensures r@ == g@ { unimplemented!() }
#[verifier::external_body] pub fn str_len(a: &str) -> (r: usize) ensures r == blen(a@), r <= isize::MAX { unimplemented!() }
pub mod text {
use super::*;
use vstd::string::*;
// p stands at character i of a
fn at_str(a: &str, p: &str, i: usize) -> (r: bool)
    requires i <= a@.len()
    ensures r == pre(p@, a@.skip(i as int))
{
    let n = p.unicode_len();
    if n > a.unicode_len() - i { return false; }
    let mut j: usize = 0;
    while j < n
        invariant j <= n, n == p@.len(), i + n <= a@.len(), a@.len() <= usize::MAX, forall|k: int| 0 <= k < j ==> p@[k] == a@[i + k]
        decreases n - j
    {
        if p.get_char(j) != a.get_char(i + j) { proof { assert(a@.skip(i as int).take(n as int)[j as int] == a@[i + j]); } return false; }
        j = j + 1;
    }
    proof { assert(a@.skip(i as int).take(n as int) =~= p@); }
    true
}
fn at_chr(a: &str, p: char, i: usize) -> (r: bool)
    requires i <= a@.len()
    ensures r == pre(seq![p], a@.skip(i as int))
{
    if i == a.unicode_len() { return false; }
    proof { assert(a@.skip(i as int).take(1)[0] == a@[i as int]); assert(seq![p][0] == p); if a@[i as int] == p { assert(a@.skip(i as int).take(1) =~= seq![p]); } }
    a.get_char(i) == p
}
// the first / last place where p stands
fn first_str(a: &str, p: &str) -> (r: Option<usize>)
    ensures r is None ==> absent(p@, a@),
        r matches Some(i) ==> i <= a@.len() && pre(p@, a@.skip(i as int)) && forall|j: int| 0 <= j < i ==> !pre(p@, #[trigger] a@.skip(j))
{
    let n = a.unicode_len(); let mut i: usize = 0;
    while i < n
        invariant i <= n, n == a@.len(), forall|j: int| 0 <= j < i ==> !pre(p@, #[trigger] a@.skip(j))
        decreases n - i
    { if at_str(a, p, i) { return Some(i); } i = i + 1; }
    if at_str(a, p, n) { Some(n) } else { None }
}
fn last_str(a: &str, p: &str) -> (r: Option<usize>)
    ensures r is None ==> absent(p@, a@),
        r matches Some(i) ==> i <= a@.len() && pre(p@, a@.skip(i as int)) && forall|j: int| i < j <= a@.len() ==> !pre(p@, #[trigger] a@.skip(j))
{
    let n = a.unicode_len(); let mut i: usize = n;
    while i > 0
        invariant i <= n, n == a@.len(), forall|j: int| i < j <= n ==> !pre(p@, #[trigger] a@.skip(j))
        decreases i
    { if at_str(a, p, i) { return Some(i); } i = i - 1; }
    if at_str(a, p, 0) { Some(0) } else { None }
}
fn first_chr(a: &str, p: char) -> (r: Option<usize>)
    ensures r is None ==> absent(seq![p], a@),
        r matches Some(i) ==> i <= a@.len() && pre(seq![p], a@.skip(i as int)) && forall|j: int| 0 <= j < i ==> !pre(seq![p], #[trigger] a@.skip(j))
{
    let n = a.unicode_len(); let mut i: usize = 0;
    while i < n
        invariant i <= n, n == a@.len(), forall|j: int| 0 <= j < i ==> !pre(seq![p], #[trigger] a@.skip(j))
        decreases n - i
    { if at_chr(a, p, i) { return Some(i); } i = i + 1; }
    None
}
fn last_chr(a: &str, p: char) -> (r: Option<usize>)
    ensures r is None ==> absent(seq![p], a@),
        r matches Some(i) ==> i <= a@.len() && pre(seq![p], a@.skip(i as int)) && forall|j: int| i < j <= a@.len() ==> !pre(seq![p], #[trigger] a@.skip(j))
{
    let n = a.unicode_len(); let mut i: usize = n;
    while i > 0
        invariant i <= n, n == a@.len(), forall|j: int| i < j <= n ==> !pre(seq![p], #[trigger] a@.skip(j))
        decreases i
    { if at_chr(a, p, i) { return Some(i); } i = i - 1; }
    if at_chr(a, p, 0) { Some(0) } else { None }
}
proof fn cut3(a: Seq<char>, p: Seq<char>, i: int)
    requires 0 <= i <= a.len(), pre(p, a.skip(i))
    ensures i + p.len() <= a.len(), a == a.subrange(0, i) + p + a.subrange(i + p.len(), a.len() as int), i == 0 ==> a == p + a.subrange(p.len() as int, a.len() as int), i + p.len() == a.len() ==> a == a.subrange(0, i) + p
{
    assert(a.skip(i).take(p.len() as int) =~= a.subrange(i, i + p.len()));
    assert(a =~= a.subrange(0, i) + a.subrange(i, i + p.len()) + a.subrange(i + p.len(), a.len() as int));
    if i == 0 { assert(a =~= p + a.subrange(p.len() as int, a.len() as int)); }
    if i + p.len() == a.len() { assert(a =~= a.subrange(0, i) + p); }
}
pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@)
{
    if a.unicode_len() != b.unicode_len() { return false; }
    proof { assert(a@.skip(0) =~= a@); assert(a@.take(a@.len() as int) =~= a@); }
    at_str(a, b, 0)
}
pub fn str_is_empty(a: &str) -> (r: bool) ensures r == (a@.len() == 0) { a.unicode_len() == 0 }
// the character at whose start byte n lies
proof fn cut_once(s: Seq<char>, n: int, k: int, l: int)
    requires char_cut(s, n, k), 0 <= l <= s.len()
    ensures l < k ==> blen(s.take(l)) < n, k < l ==> n < blen(s.take(l)), char_at(s, n) == k
    decreases s.len() - l + k
{
    assert(char_cut(s, n, char_at(s, n)));
    mono(s, l, k); mono(s, k, l); mono(s, k, char_at(s, n)); mono(s, char_at(s, n), k);
}
proof fn mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= s.len(), 0 <= j <= s.len()
    ensures i < j ==> blen(s.take(i)) < blen(s.take(j)), i == j ==> blen(s.take(i)) == blen(s.take(j))
    decreases j - i
{
    if i < j {
        mono(s, i, j - 1);
        assert(s.take(j).drop_last() =~= s.take(j - 1));
    }
}
fn char_of(a: &str, n: usize) -> (r: usize)
    requires at_char(a@, n as int)
    ensures r == char_at(a@, n as int), r <= a@.len()
{
    let mut k: usize = 0; let mut m: usize = 0; let l = a.unicode_len();
    let ghost w = char_at(a@, n as int);
    proof { assert(char_cut(a@, n as int, w)); assert(a@.take(0) =~= Seq::<char>::empty()); }
    while m < n
        invariant m <= n, k <= w, w <= l, l == a@.len(), char_cut(a@, n as int, w), w == char_at(a@, n as int), m == blen(a@.take(k as int))
        decreases n - m
    {
        proof {
            cut_once(a@, n as int, w, k as int);
            assert(a@.take(k + 1).drop_last() =~= a@.take(k as int));
            cut_once(a@, n as int, w, k + 1);
        }
        let c = a.get_char(k) as u32;
        m = m + (if c < 0x80 { 1 } else if c < 0x800 { 2 } else if c < 0x10000 { 3 } else { 4 });
        k = k + 1;
    }
    proof { cut_once(a@, n as int, w, k as int); }
    k
}
pub fn str_to<'a>(a: &'a str, i: std::ops::RangeTo<usize>) -> (r: &'a str)
    requires at_char(a@, i.end as int)
    ensures r@ == a@.take(char_at(a@, i.end as int))
{ let k = char_of(a, i.end); a.substring_char(0, k) }
pub fn str_from<'a>(a: &'a str, i: std::ops::RangeFrom<usize>) -> (r: &'a str)
    requires at_char(a@, i.start as int)
    ensures r@ == a@.skip(char_at(a@, i.start as int))
{ let k = char_of(a, i.start); a.substring_char(k, a.unicode_len()) }
pub fn str_range<'a>(a: &'a str, i: std::ops::Range<usize>) -> (r: &'a str)
    requires i.start <= i.end, at_char(a@, i.start as int), at_char(a@, i.end as int)
    ensures r@ == a@.subrange(char_at(a@, i.start as int), char_at(a@, i.end as int))
{
    let j = char_of(a, i.start); let k = char_of(a, i.end);
    proof { mono(a@, k as int, j as int); assert(char_cut(a@, i.start as int, j as int)); assert(char_cut(a@, i.end as int, k as int)); }
    a.substring_char(j, k)
}
pub fn strc_starts_with(a: &str, p: char) -> (r: bool) ensures r == pre(seq![p], a@) { proof { assert(a@.skip(0) =~= a@); } at_chr(a, p, 0) }
pub fn strc_ends_with(a: &str, p: char) -> (r: bool) ensures r == suf(seq![p], a@)
{
    let n = a.unicode_len();
    if n == 0 { return false; }
    proof { assert(a@.skip(n - 1).take(1) =~= a@.skip(n - 1)); }
    at_chr(a, p, n - 1)
}
pub fn strc_contains(a: &str, p: char) -> (r: bool) ensures r == (exists|i: int| 0 <= i <= a@.len() && pre(seq![p], #[trigger] a@.skip(i))) { first_chr(a, p).is_some() }
pub fn strc_strip_prefix<'a>(a: &'a str, p: char) -> (r: Option<&'a str>)
    ensures r is Some == pre(seq![p], a@), r is Some ==> a@ == seq![p] + r->0@
{ if strc_starts_with(a, p) { proof { assert(a@.skip(0) =~= a@); cut3(a@, seq![p], 0); } Some(a.substring_char(1, a.unicode_len())) } else { None } }
pub fn strc_strip_suffix<'a>(a: &'a str, p: char) -> (r: Option<&'a str>)
    ensures r is Some == suf(seq![p], a@), r is Some ==> a@ == r->0@ + seq![p]
{ if strc_ends_with(a, p) { proof { assert(a@.skip(a@.len() - 1).take(1) =~= a@.skip(a@.len() - 1)); cut3(a@, seq![p], a@.len() - 1); } Some(a.substring_char(0, a.unicode_len() - 1)) } else { None } }
pub fn strc_split_once<'a>(a: &'a str, p: char) -> (r: Option<(&'a str, &'a str)>)
    ensures r is None ==> absent(seq![p], a@),
        r matches Some(xy) ==> first_split(a@, seq![p], xy.0@, xy.1@)
{ let n = a.unicode_len(); match first_chr(a, p) { None => None, Some(i) => { proof { cut3(a@, seq![p], i as int); } Some((a.substring_char(0, i), a.substring_char(i + 1, n))) } } }
pub fn strc_rsplit_once<'a>(a: &'a str, p: char) -> (r: Option<(&'a str, &'a str)>)
    ensures r is None ==> absent(seq![p], a@),
        r matches Some(xy) ==> a@ == xy.0@ + seq![p] + xy.1@ && (forall|i: int| xy.0@.len() < i <= a@.len() ==> !pre(seq![p], #[trigger] a@.skip(i)))
{ let n = a.unicode_len(); match last_chr(a, p) { None => None, Some(i) => { proof { cut3(a@, seq![p], i as int); } Some((a.substring_char(0, i), a.substring_char(i + 1, n))) } } }
pub fn strs_starts_with(a: &str, p: &str) -> (r: bool) ensures r == pre(p@, a@) { proof { assert(a@.skip(0) =~= a@); } at_str(a, p, 0) }
pub fn strs_ends_with(a: &str, p: &str) -> (r: bool) ensures r == suf(p@, a@)
{
    let (n, m) = (a.unicode_len(), p.unicode_len());
    if n < m { return false; }
    proof { assert(a@.skip(n - m).take(m as int) =~= a@.skip(n - m)); }
    at_str(a, p, n - m)
}
pub fn strs_contains(a: &str, p: &str) -> (r: bool) ensures r == (exists|i: int| 0 <= i <= a@.len() && pre(p@, #[trigger] a@.skip(i))) { first_str(a, p).is_some() }
pub fn strs_strip_prefix<'a>(a: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures r is Some == pre(p@, a@), r is Some ==> a@ == p@ + r->0@
{ if strs_starts_with(a, p) { proof { assert(a@.skip(0) =~= a@); cut3(a@, p@, 0); } Some(a.substring_char(p.unicode_len(), a.unicode_len())) } else { None } }
pub fn strs_strip_suffix<'a>(a: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures r is Some == suf(p@, a@), r is Some ==> a@ == r->0@ + p@
{ if strs_ends_with(a, p) { proof { assert(a@.skip(a@.len() - p@.len()).take(p@.len() as int) =~= a@.skip(a@.len() - p@.len())); cut3(a@, p@, a@.len() - p@.len()); } Some(a.substring_char(0, a.unicode_len() - p.unicode_len())) } else { None } }
pub fn strs_split_once<'a>(a: &'a str, p: &str) -> (r: Option<(&'a str, &'a str)>)
    ensures r is None ==> absent(p@, a@),
        r matches Some(xy) ==> first_split(a@, p@, xy.0@, xy.1@)
{ let n = a.unicode_len(); match first_str(a, p) { None => None, Some(i) => { proof { cut3(a@, p@, i as int); } Some((a.substring_char(0, i), a.substring_char(i + p.unicode_len(), n))) } } }
pub fn strs_rsplit_once<'a>(a: &'a str, p: &str) -> (r: Option<(&'a str, &'a str)>)
    ensures r is None ==> absent(p@, a@),
        r matches Some(xy) ==> a@ == xy.0@ + p@ + xy.1@ && (forall|i: int| xy.0@.len() < i <= a@.len() ==> !pre(p@, #[trigger] a@.skip(i)))
{ let n = a.unicode_len(); match last_str(a, p) { None => None, Some(i) => { proof { cut3(a@, p@, i as int); } Some((a.substring_char(0, i), a.substring_char(i + p.unicode_len(), n))) } } }
} // mod text
pub use text::*;
