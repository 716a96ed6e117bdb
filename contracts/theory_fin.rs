// ---- theory of finite point types (all proved) --------------------------------
// the least / greatest point a bound admits
pub open spec fn n_lo<T>(b: Bound<T>) -> Option<T> { match b { Bound::Include(x) => Some(x), Bound::Exclude(x) => s_succ(x), Bound::Infinite => Some(s_min()) } }
pub open spec fn n_hi<T>(b: Bound<T>) -> Option<T> { match b { Bound::Include(x) => Some(x), Bound::Exclude(x) => s_pred(x), Bound::Infinite => Some(s_max()) } }
pub open spec fn cl<T>(l: T, u: T) -> RawInterval<T> { mk(Bound::Include(l), Bound::Include(u)) }
pub open spec fn norm<T>(r: RawInterval<T>) -> RawInterval<T> {
    if r is Empty { RawInterval::Empty } else {
        match (n_lo(lob(r)->0), n_hi(upb(r)->0)) { (Some(l), Some(u)) => cl(l, u), _ => RawInterval::Empty }
    }
}
pub open spec fn d_lo<T>(b: Bound<T>) -> Bound<T> { match b { Bound::Include(x) => match s_pred(x) { Some(y) => Bound::Exclude(y), None => Bound::Infinite }, _ => b } }
pub open spec fn d_hi<T>(b: Bound<T>) -> Bound<T> { match b { Bound::Include(x) => match s_succ(x) { Some(y) => Bound::Exclude(y), None => Bound::Infinite }, _ => b } }
pub open spec fn denorm<T>(r: RawInterval<T>) -> RawInterval<T> { if r is Empty { RawInterval::Empty } else { mk(d_lo(lob(r)->0), d_hi(upb(r)->0)) } }
// normal form: empty, or inclusive finite ends
pub open spec fn canr<T>(r: RawInterval<T>) -> bool { match r { RawInterval::Empty => true, RawInterval::Point(_) => true, RawInterval::Closed(l, u) => lt(l, u), _ => false } }
pub open spec fn lo<T>(r: RawInterval<T>) -> T { bv(lob(r)->0)->0 }
pub open spec fn hi<T>(r: RawInterval<T>) -> T { bv(upb(r)->0)->0 }
// no finite bound of a denormalised interval is inclusive
pub open spec fn dnf<T>(r: RawInterval<T>) -> bool { r is Empty || (!(lob(r)->0 is Include) && !(upb(r)->0 is Include)) }

pub broadcast group grp_all { grp_order, grp_fin }

#[verifier::spinoff_prover]
proof fn lemma_norm<T: Finite>(r: RawInterval<T>)
    ensures canr(norm(r)), wfr(norm(r)), forall|x: T| #[trigger] mem(norm(r), x) == mem(r, x), canr(r) ==> norm(r) == r, norm(norm(r)) == norm(r),
{
    broadcast use grp_order, grp_fin;
    if !(r is Empty) {
        let l = n_lo(lob(r)->0); let u = n_hi(upb(r)->0);
        if l is Some && u is Some { lemma_mk(Bound::Include(l->0), Bound::Include(u->0)); }
        assert forall|x: T| #[trigger] mem(norm(r), x) == mem(r, x) by { lemma_n_lo(lob(r)->0, x); lemma_n_hi(upb(r)->0, x); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_n_lo<T: Finite>(b: Bound<T>, x: T)
    ensures above(b, x) == (n_lo(b) is Some && le(n_lo(b)->0, x))
{ broadcast use grp_order, grp_fin; if b is Exclude { ax_succ_gap(b->Exclude_0, x); if lt(b->Exclude_0, x) { assert(s_succ(b->Exclude_0) is Some) by { if b->Exclude_0 == s_max::<T>() { ax_max(x); } } } } if b is Infinite { ax_min(x); } }
#[verifier::spinoff_prover]
proof fn lemma_n_hi<T: Finite>(b: Bound<T>, x: T)
    ensures below(b, x) == (n_hi(b) is Some && le(x, n_hi(b)->0))
{ broadcast use grp_order, grp_fin; if b is Exclude { ax_pred_gap(b->Exclude_0, x); if lt(x, b->Exclude_0) { assert(s_pred(b->Exclude_0) is Some) by { if b->Exclude_0 == s_min::<T>() { ax_min(x); } } } } if b is Infinite { ax_max(x); } }
#[verifier::spinoff_prover]
proof fn lemma_d_lo<T: Finite>(b: Bound<T>, x: T)
    ensures above(d_lo(b), x) == above(b, x), n_lo(d_lo(b)) == n_lo(b)
{ broadcast use grp_order, grp_fin; if b is Include { ax_pred_gap(b->Include_0, x); ax_min(x); if s_pred(b->Include_0) is Some { ax_succ_gap(s_pred(b->Include_0)->0, x); } } }
#[verifier::spinoff_prover]
proof fn lemma_d_hi<T: Finite>(b: Bound<T>, x: T)
    ensures below(d_hi(b), x) == below(b, x), n_hi(d_hi(b)) == n_hi(b)
{ broadcast use grp_order, grp_fin; if b is Include { ax_succ_gap(b->Include_0, x); ax_max(x); if s_succ(b->Include_0) is Some { ax_pred_gap(s_succ(b->Include_0)->0, x); } } }
#[verifier::spinoff_prover]
proof fn lemma_denorm<T: Finite>(r: RawInterval<T>)
    requires wfr(r)
    ensures wfr(denorm(r)), dnf(denorm(r)), forall|x: T| #[trigger] mem(denorm(r), x) == mem(r, x), denorm(denorm(r)) == denorm(r), norm(denorm(r)) == norm(r),
        !(r is Empty) ==> lob(denorm(r)) == Some(d_lo(lob(r)->0)) && upb(denorm(r)) == Some(d_hi(upb(r)->0)), (denorm(r) is Empty) == (r is Empty),
{
    broadcast use grp_order;
    if !(r is Empty) {
        lemma_wfr(r);
        let l = lob(r)->0; let u = upb(r)->0;
        lemma_mk(d_lo(l), d_hi(u));
        lemma_d_gap(l, u);
        assert forall|x: T| #[trigger] mem(denorm(r), x) == mem(r, x) by { lemma_d_lo(l, x); lemma_d_hi(u, x); }
        lemma_d_lo(l, s_min()); lemma_d_hi(u, s_min());
    }
}
#[verifier::spinoff_prover]
proof fn lemma_d_gap<T: Finite>(l: Bound<T>, u: Bound<T>)
    requires nonempty(l, u)
    ensures nonempty(d_lo(l), d_hi(u))
{ broadcast use grp_order, grp_fin; }
// a normal form is determined by its members
#[verifier::spinoff_prover]
proof fn lemma_canr_eq<T: Finite>(a: RawInterval<T>, b: RawInterval<T>)
    requires canr(a), canr(b), forall|x: T| #[trigger] mem(a, x) == mem(b, x)
    ensures a == b
{
    broadcast use grp_order;
    if !(a is Empty) { assert(mem(a, lo(a)) == mem(b, lo(a))); assert(mem(a, hi(a)) == mem(b, hi(a))); }
    if !(b is Empty) { assert(mem(a, lo(b)) == mem(b, lo(b))); assert(mem(a, hi(b)) == mem(b, hi(b))); }
}
// a before b, with some point in neither between them
pub open spec fn gap2<T>(a: RawInterval<T>, b: RawInterval<T>) -> bool { lt(hi(a), lo(b)) && s_succ(hi(a)) != Some(lo(b)) }
// s is f cut into its maximal runs, in ascending order
pub open spec fn parts<T>(s: Seq<RawInterval<T>>, f: spec_fn(T) -> bool) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> canr(#[trigger] s[i]) && !(s[i] is Empty)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] gap2(s[i], s[j])
    &&& forall|x: T| #[trigger] anyr(s, x) == f(x)
}
pub open spec fn comp_f<T>(a: RawInterval<T>) -> spec_fn(T) -> bool { |x: T| !mem(a, x) }
pub open spec fn minus_f<T>(a: RawInterval<T>, b: RawInterval<T>) -> spec_fn(T) -> bool { |x: T| mem(a, x) && !mem(b, x) }
pub open spec fn union_f<T>(a: RawInterval<T>, b: RawInterval<T>) -> spec_fn(T) -> bool { |x: T| mem(a, x) || mem(b, x) }
pub open spec fn iv<T>(s: Seq<Interval<T>>) -> Seq<RawInterval<T>> { s.map_values(|i: Interval<T>| i.0) }
pub open spec fn norms<T>(s: Seq<RawInterval<T>>) -> Seq<RawInterval<T>> { s.map_values(|r: RawInterval<T>| norm(r)) }
pub open spec fn ivs<T>(s: Seq<RawInterval<T>>) -> Seq<Interval<T>> { s.map_values(|r: RawInterval<T>| Interval(r)) }
#[verifier::spinoff_prover]
proof fn lemma_any2<T: Finite>(s: Seq<RawInterval<T>>)
    requires s.len() <= 2
    ensures forall|x: T| #[trigger] anyr(s, x) == ((s.len() > 0 && mem(s[0], x)) || (s.len() > 1 && mem(s[1], x)))
{
    assert forall|x: T| #[trigger] anyr(s, x) == ((s.len() > 0 && mem(s[0], x)) || (s.len() > 1 && mem(s[1], x))) by {
        if anyr(s, x) { let i = choose|i: int| 0 <= i < s.len() && mem(#[trigger] s[i], x); assert(i == 0 || i == 1); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_comp_n<T: Finite>(a: RawInterval<T>)
    requires canr(a)
    ensures parts(nonempties(norms(comp(a))), comp_f(a)), comp(a).len() <= 2
{
    broadcast use grp_order;
    lemma_comp(a);
    let c = comp(a); let n = norms(c); let s = nonempties(n);
    lemma_nonempties_small(n);
    lemma_any2(s); lemma_any2(n); lemma_any2(c);
    if c.len() > 0 { lemma_norm(c[0]); } if c.len() > 1 { lemma_norm(c[1]); }
    assert forall|x: T| #[trigger] anyr(s, x) == !mem(a, x) by {
        assert(anyr(c, x) == !mem(a, x));
        if c.len() > 0 { assert(mem(n[0], x) == mem(c[0], x)); } if c.len() > 1 { assert(mem(n[1], x) == mem(c[1], x)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] gap2(s[i], s[j]) by {
        assert(s[0] == norm(c[0]) && s[1] == norm(c[1]));
        broadcast use grp_fin;
        lemma_mk(Bound::Include(s_min()), Bound::Include(s_pred(lo(a))->0)); lemma_mk(Bound::Include(s_succ(hi(a))->0), Bound::Include(s_max()));
    }
}
#[verifier::spinoff_prover]
proof fn lemma_diff_n<T: Finite>(a: RawInterval<T>, b: RawInterval<T>)
    requires canr(a), canr(b)
    ensures parts(norms(diff(a, b)), minus_f(a, b)), diff(a, b).len() <= 2
{
    broadcast use grp_order;
    lemma_diff(a, b);
    let c = diff(a, b); let n = norms(c);
    lemma_any2(n); lemma_any2(c);
    if c.len() > 0 { lemma_norm(c[0]); } if c.len() > 1 { lemma_norm(c[1]); }
    assert forall|x: T| #[trigger] anyr(n, x) == (mem(a, x) && !mem(b, x)) by {
        assert(anyr(c, x) == (mem(a, x) && !mem(b, x)));
        if c.len() > 0 { assert(mem(n[0], x) == mem(c[0], x)); } if c.len() > 1 { assert(mem(n[1], x) == mem(c[1], x)); }
    }
    let m = comp(b).map_values(|q: RawInterval<T>| inter(a, q));
    lemma_nonempties_small(m); lemma_comp(b);
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] mem(c[i], lo(a)) || mem(c[i], hi(a)) by {
        if comp(b).len() == 1 { assert(c[i] == m[0]); lemma_piece(a, comp(b)[0]); }
        if comp(b).len() == 2 { assert(c[i] == m[0] || c[i] == m[1]); if c[i] == m[0] { lemma_piece(a, comp(b)[0]); } else { lemma_piece(a, comp(b)[1]); } }
    }
    assert forall|i: int| 0 <= i < n.len() implies canr(#[trigger] n[i]) && !(n[i] is Empty) by {
        lemma_norm(c[i]);
        assert(mem(c[i], lo(a)) || mem(c[i], hi(a)));
        assert(mem(n[i], lo(a)) == mem(c[i], lo(a)) && mem(n[i], hi(a)) == mem(c[i], hi(a)));
    }
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies #[trigger] gap2(n[i], n[j]) by {
        assert(comp(b).len() == 2);
        assert(c[0] == m[0] && c[1] == m[1]);
        assert(!(b is Empty));
        assert(n[0] == norm(inter(a, mk(Bound::Infinite, Bound::Exclude(lo(b))))));
        assert(n[1] == norm(inter(a, mk(Bound::Exclude(hi(b)), Bound::Infinite))));
        lemma_inter(a, comp(b)[0]); lemma_inter(a, comp(b)[1]);
        assert(mem(n[0], hi(n[0]))); assert(mem(n[1], lo(n[1])));
        assert(mem(c[0], hi(n[0]))); assert(mem(c[1], lo(n[1])));
        assert(mem(comp(b)[0], hi(n[0]))); assert(mem(comp(b)[1], lo(n[1])));
        assert(lt(hi(n[0]), lo(b)) && lt(hi(b), lo(n[1])));
        ax_succ_gap(hi(n[0]), lo(b)); ax_succ_gap(hi(n[0]), lo(n[1])); 
        broadcast use grp_fin;
    }
}
// a non-empty meet of a normal form with an unbounded interval keeps an end of it
#[verifier::spinoff_prover]
proof fn lemma_piece<T: Finite>(a: RawInterval<T>, q: RawInterval<T>)
    requires canr(a), !(inter(a, q) is Empty), !(q is Empty), lob(q)->0 is Infinite || upb(q)->0 is Infinite
    ensures mem(inter(a, q), lo(a)) || mem(inter(a, q), hi(a))
{
    broadcast use grp_order;
    lemma_inter(a, q);
    lemma_mk(lmax(lob(a)->0, lob(q)->0), umin(upb(a)->0, upb(q)->0));
}
#[verifier::spinoff_prover]
proof fn lemma_union_n<T: Finite>(a: RawInterval<T>, b: RawInterval<T>)
    requires canr(a), canr(b)
    ensures parts(norms(union2(denorm(a), denorm(b))), union_f(a, b)) || parts(norms(union2(denorm(b), denorm(a))), union_f(a, b)),
        union2(denorm(a), denorm(b)).len() <= 2, union2(denorm(a), denorm(b)).len() < 2 ==> union2(denorm(a), denorm(b)) == union2(denorm(b), denorm(a)),
        union2(denorm(a), denorm(b)).len() == 2 ==> union2(denorm(b), denorm(a)) == union2(denorm(a), denorm(b)).reverse(),
{
    broadcast use grp_order;
    let da = denorm(a); let db = denorm(b);
    lemma_denorm(a); lemma_denorm(b); lemma_norm(a); lemma_norm(b);
    lemma_union2(da, db); lemma_union2(db, da); lemma_hull(da, db);
    let c = union2(da, db); let d = union2(db, da);
    assert(c.len() < 2 ==> c =~= d);
    assert(c.len() == 2 ==> d =~= c.reverse());
    let f = union_f(a, b);
    let n = norms(c); let m = norms(d);
    lemma_any2(n); lemma_any2(c); lemma_any2(m); lemma_any2(d);
    if c.len() > 0 { lemma_norm(c[0]); } if c.len() > 1 { lemma_norm(c[1]); }
    assert forall|x: T| #[trigger] anyr(n, x) == f(x) by {
        assert(anyr(c, x) == (mem(da, x) || mem(db, x)));
        assert(mem(da, x) == mem(a, x) && mem(db, x) == mem(b, x));
        if c.len() > 0 { assert(mem(n[0], x) == mem(c[0], x)); } if c.len() > 1 { assert(mem(n[1], x) == mem(c[1], x)); }
    }
    assert forall|x: T| #[trigger] anyr(m, x) == f(x) by { assert(anyr(n, x) == f(x)); if c.len() == 2 { assert(m[0] == n[1] && m[1] == n[0]); } }
    if c.len() == 2 {
        assert(c[0] == da && c[1] == db);
        assert(n[0] == a && n[1] == b && m[0] == b && m[1] == a);
        lemma_gap(a, b);
        assert(gap2(a, b) || gap2(b, a));
    } else if c.len() == 1 {
        assert(!(n[0] is Empty)) by {
            let z = if a is Empty { b } else { a };
            assert(f(lo(z))); assert(anyr(n, lo(z)) == f(lo(z)));
        }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_gap<T: Finite>(a: RawInterval<T>, b: RawInterval<T>)
    requires canr(a), canr(b), !(a is Empty), !(b is Empty), !touch(denorm(a), denorm(b))
    ensures gap2(a, b) || gap2(b, a)
{
    broadcast use grp_order;
    lemma_denorm(a); lemma_denorm(b);
    lemma_touch_sep(denorm(a), denorm(b));
    assert(lob(a) == Some(Bound::Include(lo(a))) && upb(a) == Some(Bound::Include(hi(a))));
    assert(lob(b) == Some(Bound::Include(lo(b))) && upb(b) == Some(Bound::Include(hi(b))));
    if sep(d_hi(upb(a)->0), d_lo(lob(b)->0)) { lemma_gap1(hi(a), lo(b)); } else { lemma_gap1(hi(b), lo(a)); }
}
#[verifier::spinoff_prover]
proof fn lemma_gap1<T: Finite>(h: T, l: T)
    requires sep(d_hi(Bound::Include(h)), d_lo(Bound::Include(l)))
    ensures lt(h, l), s_succ(h) != Some(l)
{
    broadcast use grp_order, grp_fin;
}
#[verifier::spinoff_prover]
proof fn lemma_norms_step<T: Finite>(s: Seq<RawInterval<T>>, k: int)
    requires 0 <= k <= s.len()
    ensures k < s.len() ==> norms(s.take(k + 1)) == norms(s.take(k)).push(norm(s[k])) && s.skip(k)[0] == s[k] && s.skip(k).skip(1) == s.skip(k + 1),
        k == 0 ==> norms(s.take(k)) == Seq::<RawInterval<T>>::empty(), k == s.len() ==> norms(s.take(k)) == norms(s)
{ lemma_take_step(s, k); if k < s.len() { assert(norms(s.take(k + 1)) =~= norms(s.take(k)).push(norm(s[k]))); } else { assert(s.take(k) =~= s); } if k == 0 { assert(norms(s.take(k)) =~= Seq::empty()); } }
#[verifier::spinoff_prover]
proof fn lemma_ivs_step<T: Finite>(s: Seq<RawInterval<T>>, k: int)
    requires 0 <= k <= s.len()
    ensures k < s.len() ==> ivs(s.take(k + 1)) == ivs(s.take(k)).push(Interval(s[k])) && s.skip(k)[0] == s[k] && s.skip(k).skip(1) == s.skip(k + 1),
        k == 0 ==> ivs(s.take(k)) == Seq::<Interval<T>>::empty(), k == s.len() ==> ivs(s.take(k)) == ivs(s), iv(ivs(s)) == s
{ lemma_take_step(s, k); assert(iv(ivs(s)) =~= s); if k < s.len() { assert(ivs(s.take(k + 1)) =~= ivs(s.take(k)).push(Interval(s[k]))); } else { assert(s.take(k) =~= s); } if k == 0 { assert(ivs(s.take(k)) =~= Seq::empty()); } }
// filtering out the empty ones commutes with taking the raw intervals
pub open spec fn nonempties_i<T>(s: Seq<Interval<T>>) -> Seq<Interval<T>> { s.filter(|i: Interval<T>| !(i.0 is Empty)) }
#[verifier::spinoff_prover]
proof fn lemma_nonempties_i_step<T: Finite>(s: Seq<Interval<T>>, k: int)
    requires 0 <= k <= s.len()
    ensures k < s.len() ==> nonempties_i(s.take(k + 1)) == (if s[k].0 is Empty { nonempties_i(s.take(k)) } else { nonempties_i(s.take(k)).push(s[k]) }),
        k < s.len() ==> s.skip(k)[0] == s[k] && s.skip(k).skip(1) == s.skip(k + 1),
        k == 0 ==> nonempties_i(s.take(k)) == Seq::<Interval<T>>::empty(), k == s.len() ==> s.take(k) == s
{ reveal(Seq::filter); lemma_take_step(s, k); if k == s.len() { assert(s.take(k) =~= s); } }
#[verifier::spinoff_prover]
proof fn lemma_nonempties_iv<T: Finite>(s: Seq<RawInterval<T>>)
    ensures iv(nonempties_i(ivs(s))) == nonempties(s)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        assert(ivs(s).drop_last() =~= ivs(d));
        lemma_nonempties_iv(d);
        assert(iv(nonempties_i(ivs(s))) =~= nonempties(s));
    } else { assert(iv(nonempties_i(ivs(s))) =~= nonempties(s)); }
}

// a convex set has at most one run
#[verifier::spinoff_prover]
proof fn lemma_parts_convex<T: Finite>(s: Seq<RawInterval<T>>, f: spec_fn(T) -> bool)
    requires parts(s, f), forall|x: T, y: T, z: T| f(x) && f(z) && #[trigger] lt(x, y) && #[trigger] lt(y, z) ==> f(y)
    ensures s.len() <= 1, s.len() == 0 ==> forall|x: T| !#[trigger] f(x), s.len() == 1 ==> forall|x: T| #[trigger] mem(s[0], x) == f(x)
{
    broadcast use grp_order;
    if s.len() > 1 {
        assert(gap2(s[0], s[1]));
        let h = hi(s[0]); let l = lo(s[1]);
        assert(mem(s[0], h)); assert(mem(s[1], l));
        assert(anyr(s, h) == f(h)); assert(anyr(s, l) == f(l));
        ax_succ(h); ax_max(l); ax_succ_gap(h, l);
        let y = s_succ(h)->0;
        assert(lt(h, y) && lt(y, l));
        assert(f(y)); assert(anyr(s, y) == f(y));
        let i = choose|i: int| 0 <= i < s.len() && mem(#[trigger] s[i], y);
        if i > 1 { assert(gap2(s[1], s[i])); assert(mem(s[1], hi(s[1]))); }
        assert(false);
    }
    assert forall|x: T| #[trigger] f(x) == anyr(s, x) by { assert(anyr(s, x) == f(x)); }
    if s.len() == 1 { assert forall|x: T| #[trigger] mem(s[0], x) == f(x) by { assert(f(x) == anyr(s, x)); if anyr(s, x) { let i = choose|i: int| 0 <= i < s.len() && mem(#[trigger] s[i], x); } } }
}
// taking an end point off
pub open spec fn popped<T>(a: RawInterval<T>, e: T, b: RawInterval<T>) -> bool { canr(b) && forall|x: T| #[trigger] mem(b, x) == (mem(a, x) && x != e) }
#[verifier::spinoff_prover]
proof fn lemma_pop<T: Finite>(a: RawInterval<T>, e: T, s: Seq<Interval<T>>)
    requires canr(a), !(a is Empty), e == lo(a) || e == hi(a), parts(iv(s), minus_f(a, RawInterval::Point(e)))
    ensures popped(a, e, if s.len() == 0 { RawInterval::Empty } else { s[0].0 })
{
    broadcast use grp_order;
    let f = minus_f(a, RawInterval::Point(e));
    lemma_parts_convex(iv(s), f);
    let b = if s.len() == 0 { RawInterval::<T>::Empty } else { s[0].0 };
    if s.len() > 0 { assert(iv(s)[0] == b); assert(canr(iv(s)[0])); }
    assert forall|x: T| #[trigger] mem(b, x) == (mem(a, x) && x != e) by { assert(f(x) == (mem(a, x) && x != e)); }
}
// the ends of a normal form are its least and greatest members
#[verifier::spinoff_prover]
proof fn lemma_ends<T: Finite>(a: RawInterval<T>)
    requires canr(a)
    ensures !(a is Empty) ==> mem(a, lo(a)) && mem(a, hi(a)), a is Empty ==> forall|x: T| !#[trigger] mem(a, x),
        forall|x: T| #[trigger] mem(a, x) ==> le(lo(a), x) && le(x, hi(a)), lob(a) is Some ==> lob(a) == Some(Bound::Include(lo(a))) && upb(a) == Some(Bound::Include(hi(a))),
        (lo(a) == hi(a)) == (a is Point) || a is Empty,
{ broadcast use grp_order; }
// the other ways of writing a normal form without one of its ends
#[verifier::spinoff_prover]
proof fn lemma_pops<T: Finite>(a: RawInterval<T>)
    requires canr(a), !(a is Empty)
    ensures popped(a, lo(a), norm(mk(Bound::Exclude(lo(a)), Bound::Include(hi(a))))), popped(a, hi(a), norm(mk(Bound::Include(lo(a)), Bound::Exclude(hi(a))))),
        match s_succ(lo(a)) { Some(n) => popped(a, lo(a), norm(mk(Bound::Include(n), Bound::Include(hi(a))))) && (!le(n, hi(a)) ==> popped(a, lo(a), RawInterval::Empty)), None => popped(a, lo(a), RawInterval::Empty) },
        match s_pred(hi(a)) { Some(n) => popped(a, hi(a), norm(mk(Bound::Include(lo(a)), Bound::Include(n)))) && (!le(lo(a), n) ==> popped(a, hi(a), RawInterval::Empty)), None => popped(a, hi(a), RawInterval::Empty) },
        lo(a) == hi(a) ==> popped(a, lo(a), RawInterval::Empty),
{
    broadcast use grp_order;
    let l = lo(a); let h = hi(a); let ex = mk(Bound::Exclude(l), Bound::Include(h)); let ey = mk(Bound::Include(l), Bound::Exclude(h));
    lemma_ends(a);
    lemma_mk(Bound::Exclude(l), Bound::Include(h)); lemma_mk(Bound::Include(l), Bound::Exclude(h));
    lemma_norm(ex); lemma_norm(ey);
    assert forall|x: T| #[trigger] mem(a, x) == (le(l, x) && le(x, h)) by {}
    assert forall|x: T| #[trigger] mem(norm(ex), x) == (mem(a, x) && x != l) by { assert(mem(ex, x) == mem(norm(ex), x)); }
    assert forall|x: T| #[trigger] mem(norm(ey), x) == (mem(a, x) && x != h) by { assert(mem(ey, x) == mem(norm(ey), x)); }
    broadcast use grp_fin;
    if s_succ(l) is Some {
        let n = s_succ(l)->0; let e = mk(Bound::Include(n), Bound::Include(h));
        lemma_mk(Bound::Include(n), Bound::Include(h)); lemma_norm(e);
        assert forall|x: T| #[trigger] mem(norm(e), x) == (mem(a, x) && x != l) by { assert(mem(e, x) == mem(norm(e), x)); ax_succ_gap(l, x); }
        if !le(n, h) { assert forall|x: T| !(#[trigger] mem(a, x) && x != l) by { ax_succ_gap(l, x); } }
    } else { assert forall|x: T| !(#[trigger] mem(a, x) && x != l) by { ax_max(x); } }
    if s_pred(h) is Some {
        let n = s_pred(h)->0; let e = mk(Bound::Include(l), Bound::Include(n));
        lemma_mk(Bound::Include(l), Bound::Include(n)); lemma_norm(e);
        assert forall|x: T| #[trigger] mem(norm(e), x) == (mem(a, x) && x != h) by { assert(mem(e, x) == mem(norm(e), x)); ax_pred_gap(h, x); }
        if !le(l, n) { assert forall|x: T| !(#[trigger] mem(a, x) && x != h) by { ax_pred_gap(h, x); } }
    } else { assert forall|x: T| !(#[trigger] mem(a, x) && x != h) by { ax_min(x); } }
}
#[verifier::spinoff_prover]
proof fn lemma_canr_ops<T: Finite>(a: RawInterval<T>, b: RawInterval<T>)
    requires canr(a), canr(b)
    ensures wfr(a), wfr(b), canr(inter(a, b)), norm(inter(a, b)) == inter(a, b), canr(hull(a, b)), norm(hull(a, b)) == hull(a, b), clos(a) == a, norm(a) == a
{
    broadcast use grp_order;
    lemma_inter(a, b); lemma_hull(a, b); lemma_norm(inter(a, b)); lemma_norm(hull(a, b)); lemma_norm(a);
    if !(a is Empty) && !(b is Empty) { lemma_mk(lmax(lob(a)->0, lob(b)->0), umin(upb(a)->0, upb(b)->0)); }
}

#[verifier::spinoff_prover]
proof fn lemma_norms_reverse<T: Finite>(s: Seq<RawInterval<T>>)
    ensures norms(s.reverse()) == norms(s).reverse(), s.reverse().reverse() == s, norms(s).reverse().reverse() == norms(s), iv(ivs(norms(s))) == norms(s), iv(ivs(norms(s).reverse())) == norms(s).reverse()
{ assert(norms(s.reverse()) =~= norms(s).reverse()); assert(s.reverse().reverse() =~= s); assert(norms(s).reverse().reverse() =~= norms(s)); assert(iv(ivs(norms(s))) =~= norms(s)); assert(iv(ivs(norms(s).reverse())) =~= norms(s).reverse()); }
