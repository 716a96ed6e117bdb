// ---- the properties, as lemmas over the functions the contracts name --------
// B01: lemma_B01_pointwise, lemma_B01_lattice (theory_raw)
#[verifier::spinoff_prover]
proof fn prop_R01<T>(l: Bound<T>, u: Bound<T>, x: T)
    ensures mem(mk(l, u), x) == (above(l, x) && below(u, x)), wfr(mk(l, u)),
        nonempty(l, u) ==> lob(mk(l, u)) == Some(l) && upb(mk(l, u)) == Some(u), !nonempty(l, u) ==> mk(l, u) is Empty,
        mem(RawInterval::Full, x), !mem(RawInterval::Empty, x), mem(RawInterval::Point(x), x),
{ lemma_mk(l, u); broadcast use grp_order; }
#[verifier::spinoff_prover]
proof fn prop_R02<T>(a: RawInterval<T>, b: RawInterval<T>, c: RawInterval<T>, x: T)
    requires wfr(a), wfr(b), wfr(c)
    ensures mem(inter(a, b), x) == (mem(a, x) && mem(b, x)), wfr(inter(a, b)), inter(a, b) == inter(b, a),
        // the meet: whatever lies inside both lies inside the result
        inter(c, a) == c && inter(c, b) == c ==> inter(c, inter(a, b)) == c, inter(a, a) == a,
        mem(a, x) && mem(b, x) ==> !(inter(a, b) is Empty),
{
    lemma_inter(a, b); lemma_inter(b, a); lemma_inter(a, a); lemma_wfr(a); lemma_wfr(b); lemma_wfr(c);
    if !(a is Empty) && !(b is Empty) {
        let (la, ua, lb, ub) = (lob(a)->0, upb(a)->0, lob(b)->0, upb(b)->0);
        lemma_B01_lattice(la, lb, la); lemma_B01_lattice(ua, ub, ua); lemma_mk(lmax(la, lb), umin(ua, ub));
        if !(c is Empty) && inter(c, a) == c && inter(c, b) == c {
            let (lc, uc) = (lob(c)->0, upb(c)->0);
            lemma_mk(lmax(lc, la), umin(uc, ua)); lemma_mk(lmax(lc, lb), umin(uc, ub));
            lemma_meet_bounds(lc, la, lb, uc, ua, ub);
            lemma_mk(lmax(lc, lmax(la, lb)), umin(uc, umin(ua, ub)));
        }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_meet_bounds<T>(lc: Bound<T>, la: Bound<T>, lb: Bound<T>, uc: Bound<T>, ua: Bound<T>, ub: Bound<T>)
    requires lmax(lc, la) == lc, lmax(lc, lb) == lc, umin(uc, ua) == uc, umin(uc, ub) == uc, nonempty(lc, uc)
    ensures lmax(lc, lmax(la, lb)) == lc, umin(uc, umin(ua, ub)) == uc, nonempty(lmax(la, lb), umin(ua, ub))
{ broadcast use grp_order; }
#[verifier::spinoff_prover]
proof fn prop_R03<T>(a: RawInterval<T>, b: RawInterval<T>, c: RawInterval<T>, x: T)
    requires wfr(a), wfr(b), wfr(c)
    ensures wfr(hull(a, b)), mem(a, x) || mem(b, x) ==> mem(hull(a, b), x), (hull(a, b) is Empty) == (a is Empty && b is Empty),
        // least: any interval covering both covers the result
        hull(a, c) == c && hull(b, c) == c ==> hull(hull(a, b), c) == c, hull(a, hull(a, b)) == hull(a, b),
        wfr(clos(a)), mem(a, x) ==> mem(clos(a), x), clos(clos(a)) == clos(a),
{
    lemma_hull(a, b); lemma_hull_upper(a, b);
    if hull(a, c) == c && hull(b, c) == c { lemma_hull_least(a, b, c); }
    lemma_clos(a); lemma_clos(clos(a));
}
#[verifier::spinoff_prover]
proof fn prop_R04<T>(a: RawInterval<T>, b: RawInterval<T>, x: T)
    requires wfr(a), wfr(b)
    ensures anyr(comp(a), x) == !mem(a, x), wfrs(comp(a)), anyr(diff(a, b), x) == (mem(a, x) && !mem(b, x)), wfrs(diff(a, b)), noempty(diff(a, b)),
{ lemma_comp(a); lemma_diff(a, b); }
#[verifier::spinoff_prover]
proof fn prop_R05<T>(a: RawInterval<T>, b: RawInterval<T>, x: T)
    requires wfr(a), wfr(b)
    ensures anyr(union2(a, b), x) == (mem(a, x) || mem(b, x)), anyr(union2(b, a), x) == (mem(a, x) || mem(b, x)), wfrs(union2(a, b)), noempty(union2(a, b)),
        adj(a, b) == adj(b, a), union2(a, b).len() <= 2, union2(a, b).len() == 2 ==> !touch(union2(a, b)[0], union2(a, b)[1]),
{ lemma_union2(a, b); lemma_union2(b, a); lemma_touch_sym(a, b); lemma_adj_sym(a, b); lemma_union2_apart(a, b); }
#[verifier::spinoff_prover]
proof fn lemma_adj_sym<T>(a: RawInterval<T>, b: RawInterval<T>) ensures adj(a, b) == adj(b, a) { }
#[verifier::spinoff_prover]
proof fn lemma_union2_apart<T>(a: RawInterval<T>, b: RawInterval<T>)
    requires wfr(a), wfr(b)
    ensures noempty(union2(a, b)), union2(a, b).len() <= 2, union2(a, b).len() == 2 ==> !touch(union2(a, b)[0], union2(a, b)[1])
{ lemma_hull(a, b); }
#[verifier::spinoff_prover]
proof fn prop_R06<T>(s: Seq<RawInterval<T>>, c: RawInterval<T>, x: T)
    requires wfrs(s)
    ensures wfr(fold_hull(s)), anyr(s, x) ==> mem(fold_hull(s), x),
        wfr(c) && (forall|i: int| 0 <= i < s.len() ==> hull(#[trigger] s[i], c) == c) ==> hull(fold_hull(s), c) == c,
        s.len() > 0 ==> mem(fold_inter(s), x) == allr(s, x),
{
    lemma_fold_hull(s); lemma_fold_inter(s);
    if anyr(s, x) { let i = choose|i: int| 0 <= i < s.len() && mem(#[trigger] s[i], x); assert(wfr(s[i])); assert(hull(s[i], fold_hull(s)) == fold_hull(s)); lemma_hull(s[i], fold_hull(s)); }
    if wfr(c) && (forall|i: int| 0 <= i < s.len() ==> hull(#[trigger] s[i], c) == c) { lemma_fold_hull_least(s, c); }
}
#[verifier::spinoff_prover]
proof fn lemma_fold_hull_least<T>(s: Seq<RawInterval<T>>, c: RawInterval<T>)
    requires wfrs(s), wfr(c), forall|i: int| 0 <= i < s.len() ==> hull(#[trigger] s[i], c) == c
    ensures hull(fold_hull(s), c) == c
    decreases s.len()
{
    if s.len() == 0 { lemma_hull(RawInterval::Empty, c); } else {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies hull(#[trigger] d[i], c) == c by { assert(d[i] == s[i]); }
        assert forall|i: int| 0 <= i < d.len() implies wfr(#[trigger] d[i]) by { assert(d[i] == s[i]); }
        lemma_fold_hull_least(d, c); lemma_fold_hull(d);
        assert(wfr(s.last()) && hull(s[s.len() - 1], c) == c);
        lemma_hull_least(fold_hull(d), s.last(), c);
    }
}
#[verifier::spinoff_prover]
proof fn prop_N01<T: Finite>(a: RawInterval<T>, b: RawInterval<T>, x: T)
    requires wfr(a), wfr(b)
    ensures mem(norm(a), x) == mem(a, x), mem(denorm(a), x) == mem(a, x), canr(norm(a)), dnf(denorm(a)),
        norm(norm(a)) == norm(a), denorm(denorm(a)) == denorm(a), norm(denorm(a)) == norm(a),
        (forall|y: T| #[trigger] mem(a, y) == mem(b, y)) ==> norm(a) == norm(b),
{
    lemma_norm(a); lemma_denorm(a); lemma_norm(b);
    if forall|y: T| #[trigger] mem(a, y) == mem(b, y) {
        assert forall|y: T| #[trigger] mem(norm(a), y) == mem(norm(b), y) by { assert(mem(a, y) == mem(b, y)); }
        lemma_canr_eq(norm(a), norm(b));
    }
}
// the integer contracts (r == None at the end, x -+ 1 otherwise) give what a finite type owes
pub open spec fn ip(lo: int, x: int) -> Option<int> { if x == lo { None } else { Some(x - 1) } }
pub open spec fn is(hi: int, x: int) -> Option<int> { if x == hi { None } else { Some(x + 1) } }
#[verifier::spinoff_prover]
proof fn prop_N02(lo: int, hi: int, x: int, y: int)
    requires lo <= x <= hi, lo <= y <= hi
    ensures
        is(hi, x) is None <==> x == hi, ip(lo, x) is None <==> x == lo,
        is(hi, x) matches Some(z) ==> lo <= z <= hi && x < z && ip(lo, z) == Some(x) && (x < y <==> z <= y),
        ip(lo, x) matches Some(z) ==> lo <= z <= hi && z < x && is(hi, z) == Some(x) && (y < x <==> y <= z),
{ }
#[verifier::spinoff_prover]
proof fn prop_I01<T: Finite>(a: RawInterval<T>, x: T)
    ensures mem(norm(a), x) == mem(a, x), canr(norm(a)), canr(RawInterval::Point(x)), canr(RawInterval::<T>::Empty)
{ lemma_norm(a); }
#[verifier::spinoff_prover]
proof fn prop_I02<T: Finite>(a: Interval<T>, b: Interval<T>)
    requires canr(a.0), canr(b.0)
    ensures (a.0 == b.0) == (forall|y: T| #[trigger] mem(a.0, y) == mem(b.0, y))
{
    if forall|y: T| #[trigger] mem(a.0, y) == mem(b.0, y) { lemma_canr_eq(a.0, b.0); }
}
#[verifier::spinoff_prover]
proof fn prop_I03<T: Finite>(a: RawInterval<T>, b: RawInterval<T>, x: T)
    requires canr(a), canr(b)
    ensures mem(inter(a, b), x) == (mem(a, x) && mem(b, x)), canr(inter(a, b)), !(inter(a, b) is Empty) == (exists|y: T| #[trigger] mem(a, y) && mem(b, y)),
        mem(a, x) || mem(b, x) ==> mem(hull(a, b), x), canr(hull(a, b)),
        !(a is Empty) && !(b is Empty) ==> lo(hull(a, b)) == (if lt(lo(b), lo(a)) { lo(b) } else { lo(a) }) && hi(hull(a, b)) == (if lt(hi(a), hi(b)) { hi(b) } else { hi(a) }),
{
    lemma_canr_ops(a, b); lemma_inter(a, b); lemma_hull(a, b); lemma_ends(inter(a, b)); broadcast use grp_order;
    let i = inter(a, b);
    if !(i is Empty) { assert(mem(a, lo(i)) && mem(b, lo(i))) by { assert(mem(i, lo(i))); } }
    if exists|y: T| #[trigger] mem(a, y) && mem(b, y) { let y = choose|y: T| #[trigger] mem(a, y) && mem(b, y); assert(mem(i, y)); }
}
// the pieces of a result: nonempty normal forms, ascending, never adjacent, exactly the set
#[verifier::spinoff_prover]
proof fn prop_I04<T>(s: Seq<RawInterval<T>>, f: spec_fn(T) -> bool, x: T)
    requires parts(s, f)
    ensures anyr(s, x) == f(x), noempty(s), forall|i: int, j: int| 0 <= i < j < s.len() ==> lt(#[trigger] hi(s[i]), #[trigger] lo(s[j])) && s_succ(hi(s[i])) != Some(lo(s[j])),
{ assert forall|i: int, j: int| 0 <= i < j < s.len() implies lt(#[trigger] hi(s[i]), #[trigger] lo(s[j])) && s_succ(hi(s[i])) != Some(lo(s[j])) by { assert(gap2(s[i], s[j])); } }
// each step yields the least (greatest) remaining point and removes just it
#[verifier::spinoff_prover]
proof fn prop_I05<T: Finite>(a: RawInterval<T>, b: RawInterval<T>, x: T)
    requires canr(a), !(a is Empty), popped(a, lo(a), b) || popped(a, hi(a), b)
    ensures canr(b), mem(a, lo(a)), mem(a, hi(a)), mem(a, x) ==> le(lo(a), x) && le(x, hi(a)),
        popped(a, lo(a), b) ==> mem(b, x) == (mem(a, x) && x != lo(a)) && (mem(b, x) ==> lt(lo(a), x)),
        popped(a, hi(a), b) ==> mem(b, x) == (mem(a, x) && x != hi(a)) && (mem(b, x) ==> lt(x, hi(a))),
{ lemma_ends(a); broadcast use grp_order; }
#[verifier::spinoff_prover]
proof fn prop_I06<T: Finite>(a: RawInterval<T>, x: T)
    requires canr(a)
    ensures (a is Empty) == (forall|y: T| !#[trigger] mem(a, y)), mem(a, x) ==> le(lo(a), x) && le(x, hi(a)), !(a is Empty) ==> mem(a, lo(a)) && mem(a, hi(a)),
        lob(a) is Some ==> lob(a)->0 == Bound::Include(lo(a)) && upb(a)->0 == Bound::Include(hi(a)),
{ lemma_ends(a); if forall|y: T| !#[trigger] mem(a, y) { if !(a is Empty) { assert(mem(a, lo(a))); } } }
// ---- trees --------------------------------------------------------------------
#[verifier::spinoff_prover]
proof fn lemma_same_or<T>(r: Seq<Tine<T>>, r2: Seq<Tine<T>>, s: Seq<Tine<T>>, t: Seq<Tine<T>>)
    requires wf(r), wf(r2), forall|p: Pos<T>| #[trigger] tri(r, p) == or3(tri(s, p), tri(t, p)), forall|p: Pos<T>| #[trigger] tri(r2, p) == or3(tri(t, p), tri(s, p))
    ensures r == r2
{ lemma_determined(r, r2); }
#[verifier::spinoff_prover]
proof fn lemma_same_and<T>(r: Seq<Tine<T>>, r2: Seq<Tine<T>>, s: Seq<Tine<T>>, t: Seq<Tine<T>>)
    requires wf(r), wf(r2), forall|p: Pos<T>| #[trigger] tri(r, p) == and3(tri(s, p), tri(t, p)), forall|p: Pos<T>| #[trigger] tri(r2, p) == and3(tri(t, p), tri(s, p))
    ensures r == r2
{ lemma_determined(r, r2); }
// union, intersection, difference of trees, by points; and of a tree with one interval
#[verifier::spinoff_prover]
proof fn prop_T01<T>(s: Seq<Tine<T>>, t: Seq<Tine<T>>, i: RawInterval<T>, r: Seq<Tine<T>>, r2: Seq<Tine<T>>, q: Seq<Tine<T>>, x: T)
    requires wf(s), wf(t), wf(r), wf(r2), wf(q), wfr(i), forall|p: Pos<T>| #[trigger] tri(r, p) == or3(tri(s, p), tri(t, p)), forall|p: Pos<T>| #[trigger] tri(r2, p) == or3(tri(t, p), tri(s, p)),
        forall|p: Pos<T>| #[trigger] tri(q, p) == or3(tri(s, p), itri(i, p))
    ensures tri(r, Pos::At(x)).m == (tri(s, Pos::At(x)).m || tri(t, Pos::At(x)).m), r == r2, s == t ==> r == s, tri(q, Pos::At(x)).m == (tri(s, Pos::At(x)).m || mem(i, x)),
{
    lemma_same_or(r, r2, s, t); lemma_itri(i);
    assert(itri(i, Pos::At(x)).m == mem(i, x)); assert(tri(q, Pos::At(x)) == or3(tri(s, Pos::At(x)), itri(i, Pos::At(x)))); assert(tri(r, Pos::At(x)) == or3(tri(s, Pos::At(x)), tri(t, Pos::At(x))));
    if s == t { assert forall|p: Pos<T>| #[trigger] tri(r, p) == tri(s, p) by {} lemma_determined(r, s); }
}
#[verifier::spinoff_prover]
proof fn prop_T02<T>(s: Seq<Tine<T>>, t: Seq<Tine<T>>, i: RawInterval<T>, r: Seq<Tine<T>>, r2: Seq<Tine<T>>, q: Seq<Tine<T>>, x: T)
    requires wf(s), wf(t), wf(r), wf(r2), wf(q), wfr(i), forall|p: Pos<T>| #[trigger] tri(r, p) == and3(tri(s, p), tri(t, p)), forall|p: Pos<T>| #[trigger] tri(r2, p) == and3(tri(t, p), tri(s, p)),
        forall|p: Pos<T>| #[trigger] tri(q, p) == and3(tri(s, p), itri(i, p))
    ensures tri(r, Pos::At(x)).m == (tri(s, Pos::At(x)).m && tri(t, Pos::At(x)).m), r == r2, s == t ==> r == s, tri(q, Pos::At(x)).m == (tri(s, Pos::At(x)).m && mem(i, x)),
{
    lemma_same_and(r, r2, s, t); lemma_itri(i);
    assert(itri(i, Pos::At(x)).m == mem(i, x)); assert(tri(q, Pos::At(x)) == and3(tri(s, Pos::At(x)), itri(i, Pos::At(x)))); assert(tri(r, Pos::At(x)) == and3(tri(s, Pos::At(x)), tri(t, Pos::At(x))));
    if s == t { assert forall|p: Pos<T>| #[trigger] tri(r, p) == tri(s, p) by {} lemma_determined(r, s); }
}
#[verifier::spinoff_prover]
proof fn prop_T03<T>(s: Seq<Tine<T>>, t: Seq<Tine<T>>, i: RawInterval<T>, r: Seq<Tine<T>>, q: Seq<Tine<T>>, x: T)
    requires wf(s), wf(t), wf(r), wf(q), wfr(i), forall|p: Pos<T>| #[trigger] tri(r, p) == sub3(tri(s, p), tri(t, p)), forall|p: Pos<T>| #[trigger] tri(q, p) == sub3(tri(s, p), itri(i, p))
    ensures tri(r, Pos::At(x)).m == (tri(s, Pos::At(x)).m && !tri(t, Pos::At(x)).m), tri(q, Pos::At(x)).m == (tri(s, Pos::At(x)).m && !mem(i, x)),
        s == t ==> r.len() == 0, (forall|p: Pos<T>| and3(#[trigger] tri(s, p), itri(i, p)) == c3(false)) ==> q == s,
{
    lemma_itri(i);
    assert(itri(i, Pos::At(x)).m == mem(i, x)); assert(tri(q, Pos::At(x)) == sub3(tri(s, Pos::At(x)), itri(i, Pos::At(x)))); assert(tri(r, Pos::At(x)) == sub3(tri(s, Pos::At(x)), tri(t, Pos::At(x))));
    if s == t { let e = Seq::<Tine<T>>::empty(); lemma_nothing(e); assert forall|p: Pos<T>| #[trigger] tri(r, p) == tri(e, p) by {} lemma_determined(r, e); }
    if forall|p: Pos<T>| and3(#[trigger] tri(s, p), itri(i, p)) == c3(false) { assert forall|p: Pos<T>| #[trigger] tri(q, p) == tri(s, p) by { assert(and3(tri(s, p), itri(i, p)) == c3(false)); } lemma_determined(q, s); }
}
#[verifier::spinoff_prover]
proof fn prop_T04<T>(s: Seq<Tine<T>>, x: T)
    requires wf(s)
    ensures wf(comp_seq(s)), tri(comp_seq(s), Pos::At(x)).m == !tri(s, Pos::At(x)).m, comp_seq(comp_seq(s)) == s,
{
    lemma_comp_seq(s); let c = comp_seq(s); lemma_comp_seq(c); lemma_ends_tri(s);
    assert(tri(c, Pos::At(x)) == notp(Pos::At(x), tri(s, Pos::At(x))));
    assert forall|p: Pos<T>| #[trigger] tri(comp_seq(c), p) == tri(s, p) by { assert(tri(comp_seq(c), p) == notp(p, tri(c, p))); assert(tri(c, p) == notp(p, tri(s, p))); }
    lemma_determined(comp_seq(c), s);
}
// what a list of intervals covers depends on the intervals in it, not on their order
#[verifier::spinoff_prover]
proof fn lemma_ior_any<T>(s: Seq<RawInterval<T>>, p: Pos<T>)
    ensures ior(s, p).b == (exists|i: int| 0 <= i < s.len() && itri(#[trigger] s[i], p).b), ior(s, p).m == (exists|i: int| 0 <= i < s.len() && itri(#[trigger] s[i], p).m), ior(s, p).f == (exists|i: int| 0 <= i < s.len() && itri(#[trigger] s[i], p).f),
    decreases s.len()
{
    if s.len() > 0 {
        let z = s.skip(1);
        lemma_ior_any(z, p);
        assert forall|i: int| 0 <= i < z.len() implies #[trigger] z[i] == s[i + 1] by {}
        if ior(z, p).b { let i = choose|i: int| 0 <= i < z.len() && itri(#[trigger] z[i], p).b; assert(itri(s[i + 1], p).b); }
        if ior(z, p).m { let i = choose|i: int| 0 <= i < z.len() && itri(#[trigger] z[i], p).m; assert(itri(s[i + 1], p).m); }
        if ior(z, p).f { let i = choose|i: int| 0 <= i < z.len() && itri(#[trigger] z[i], p).f; assert(itri(s[i + 1], p).f); }
        if exists|i: int| 0 <= i < s.len() && itri(#[trigger] s[i], p).b { let i = choose|i: int| 0 <= i < s.len() && itri(#[trigger] s[i], p).b; if i > 0 { assert(itri(z[i - 1], p).b); } }
        if exists|i: int| 0 <= i < s.len() && itri(#[trigger] s[i], p).m { let i = choose|i: int| 0 <= i < s.len() && itri(#[trigger] s[i], p).m; if i > 0 { assert(itri(z[i - 1], p).m); } }
        if exists|i: int| 0 <= i < s.len() && itri(#[trigger] s[i], p).f { let i = choose|i: int| 0 <= i < s.len() && itri(#[trigger] s[i], p).f; if i > 0 { assert(itri(z[i - 1], p).f); } }
    }
}
pub open spec fn same_items<A>(a: Seq<A>, b: Seq<A>) -> bool { forall|x: A| #[trigger] a.contains(x) == b.contains(x) }
#[verifier::spinoff_prover]
proof fn lemma_ior_same<T>(a: Seq<RawInterval<T>>, b: Seq<RawInterval<T>>, p: Pos<T>)
    requires same_items(a, b)
    ensures ior(a, p) == ior(b, p)
{
    lemma_ior_any(a, p); lemma_ior_any(b, p);
    assert forall|i: int| 0 <= i < a.len() implies exists|j: int| 0 <= j < b.len() && b[j] == #[trigger] a[i] by { assert(a.contains(a[i])); assert(b.contains(a[i])); }
    assert forall|i: int| 0 <= i < b.len() implies exists|j: int| 0 <= j < a.len() && a[j] == #[trigger] b[i] by { assert(b.contains(b[i])); assert(a.contains(b[i])); }
}
#[verifier::spinoff_prover]
proof fn prop_T05<T>(s: Seq<Tine<T>>, t: Seq<Tine<T>>, a: Seq<RawInterval<T>>, b: Seq<RawInterval<T>>, ra: Seq<Tine<T>>, rb: Seq<Tine<T>>, x: T)
    requires wf(s), wf(t), wf(ra), wf(rb), wfrs(a), wfrs(b), same_items(a, b),
        forall|p: Pos<T>| #[trigger] tri(ra, p) == ior(a, p), forall|p: Pos<T>| #[trigger] tri(rb, p) == ior(b, p)
    ensures (s == t) == (forall|p: Pos<T>| #[trigger] tri(s, p) == tri(t, p)), s == t ==> tri(s, Pos::At(x)).m == tri(t, Pos::At(x)).m,
        ra == rb, tri(ra, Pos::At(x)).m == anyr(a, x),
{
    if forall|p: Pos<T>| #[trigger] tri(s, p) == tri(t, p) { lemma_determined(s, t); }
    assert forall|p: Pos<T>| #[trigger] tri(ra, p) == tri(rb, p) by { lemma_ior_same(a, b, p); assert(tri(rb, p) == ior(b, p)); }
    lemma_determined(ra, rb);
    lemma_ior_mem(a, x);
}
// the listed intervals cover the tree, ascend, and no two of them touch
#[verifier::spinoff_prover]
proof fn prop_T06<T>(s: Seq<Tine<T>>, x: T)
    requires wf(s)
    ensures wfrs(pcs(s)), noempty(pcs(s)), apart(pcs(s)), ascending(pcs(s)), anyr(pcs(s), x) == tri(s, Pos::At(x)).m,
{
    lemma_cover(s); lemma_pcs_ascending(s);
    let a = pcs(s);
    lemma_ior_mem(a, x);
    assert(tri(s, Pos::At(x)) == ior(a, Pos::At(x)));
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies !#[trigger] touch(a[i], a[j]) by { lemma_touch_sep(a[i], a[j]); if i < j { assert(sep(upb(a[i])->0, lob(a[j])->0)); } else { assert(sep(upb(a[j])->0, lob(a[i])->0)); } }
}
#[verifier::spinoff_prover]
proof fn prop_T07<T>(s: Seq<Tine<T>>, x: T)
    requires wf(s)
    ensures (s.len() == 0) == (pcs(s).len() == 0), s.len() == 0 ==> !tri(s, Pos::At(x)).m, s == one_seq(RawInterval::<T>::Full) ==> tri(s, Pos::At(x)).m,
        (s == one_seq(RawInterval::<T>::Full)) == (forall|p: Pos<T>| #[trigger] tri(s, p) == itri(RawInterval::<T>::Full, p)),
        s.len() > 0 ==> tb(s[0]) == lob(pcs(s)[0])->0 && tb(s.last()) == upb(pcs(s).last())->0,
        wfr(enc(s)), tri(s, Pos::At(x)).m ==> mem(enc(s), x), s.len() > 0 ==> lob(enc(s)) == Some(tb(s[0])) && upb(enc(s)) == Some(tb(s.last())),
{
    lemma_wf_wfq(s); lemma_cover(s); lemma_enc(s); lemma_pcs_ascending(s);
    let f = RawInterval::<T>::Full;
    lemma_one(f);
    if s.len() == 0 { lemma_nothing(s); } else {
        lemma_front(s); lemma_back(s); assert(t_ok(s[0])); assert(t_ok(s.last()));
        if !pt_ok(s.last()) { assert(t_ok(s[s.len() - 2])); lemma_mk_tri(s[s.len() - 2], s.last(), tpos(s[0])); }
    }
    if forall|p: Pos<T>| #[trigger] tri(s, p) == itri(f, p) { assert forall|p: Pos<T>| #[trigger] tri(s, p) == tri(one_seq(f), p) by { assert(tri(s, p) == itri(f, p)); } lemma_determined(s, one_seq(f)); }
    lemma_itri_full(Pos::At(x));
}
// ---- selections ---------------------------------------------------------------
// a selection's operations are determined by membership: whatever satisfies the same membership equation is the same selection
#[verifier::spinoff_prover]
proof fn prop_S01<T: Finite>(s: Seq<Tine<T>>, t: Seq<Tine<T>>, r: Seq<Tine<T>>, r2: Seq<Tine<T>>)
    requires canon(s), canon(t), canon(r), canon(r2), forall|x: T| #[trigger] smem(r, x) == (smem(s, x) || smem(t, x)), forall|x: T| #[trigger] smem(r2, x) == (smem(t, x) || smem(s, x))
    ensures r == r2, s == t ==> r == s, (forall|x: T| #[trigger] smem(t, x) ==> smem(s, x)) ==> r == s,
{
    lemma_canon_eq(r, r2);
    if forall|x: T| #[trigger] smem(t, x) ==> smem(s, x) { assert forall|x: T| #[trigger] smem(r, x) == smem(s, x) by { assert(smem(t, x) ==> smem(s, x)); } lemma_canon_eq(r, s); }
}
#[verifier::spinoff_prover]
proof fn lemma_anyr_same<T>(a: Seq<RawInterval<T>>, b: Seq<RawInterval<T>>, x: T)
    requires same_items(a, b)
    ensures anyr(a, x) == anyr(b, x)
{
    if anyr(a, x) { let i = choose|i: int| 0 <= i < a.len() && mem(#[trigger] a[i], x); assert(a.contains(a[i])); assert(b.contains(a[i])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(mem(b[j], x)); }
    if anyr(b, x) { let i = choose|i: int| 0 <= i < b.len() && mem(#[trigger] b[i], x); assert(b.contains(b[i])); assert(a.contains(b[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; assert(mem(a[j], x)); }
}
// collecting the same intervals in another order gives the same selection
#[verifier::spinoff_prover]
proof fn prop_S01_order<T: Finite>(a: Seq<RawInterval<T>>, b: Seq<RawInterval<T>>, r: Seq<Tine<T>>, r2: Seq<Tine<T>>)
    requires canon(r), canon(r2), same_items(a, b), forall|x: T| #[trigger] smem(r, x) == anyr(a, x), forall|x: T| #[trigger] smem(r2, x) == anyr(b, x)
    ensures r == r2
{
    assert forall|x: T| #[trigger] smem(r, x) == smem(r2, x) by { lemma_anyr_same(a, b, x); assert(smem(r2, x) == anyr(b, x)); }
    lemma_canon_eq(r, r2);
}
#[verifier::spinoff_prover]
proof fn prop_S02<T: Finite>(s: Seq<Tine<T>>, t: Seq<Tine<T>>, r: Seq<Tine<T>>, r2: Seq<Tine<T>>)
    requires canon(s), canon(t), canon(r), canon(r2), forall|x: T| #[trigger] smem(r, x) == (smem(s, x) && smem(t, x)), forall|x: T| #[trigger] smem(r2, x) == (smem(t, x) && smem(s, x))
    ensures r == r2, s == t ==> r == s, (forall|x: T| #[trigger] smem(s, x) ==> smem(t, x)) ==> r == s,
{
    lemma_canon_eq(r, r2);
    if forall|x: T| #[trigger] smem(s, x) ==> smem(t, x) { assert forall|x: T| #[trigger] smem(r, x) == smem(s, x) by { assert(smem(s, x) ==> smem(t, x)); } lemma_canon_eq(r, s); }
}
#[verifier::spinoff_prover]
proof fn prop_S03<T: Finite>(s: Seq<Tine<T>>, t: Seq<Tine<T>>, r: Seq<Tine<T>>)
    requires canon(s), canon(t), canon(r), forall|x: T| #[trigger] smem(r, x) == (smem(s, x) && !smem(t, x))
    ensures s == t ==> r.len() == 0, (forall|x: T| !(#[trigger] smem(s, x) && smem(t, x))) ==> r == s,
{
    lemma_canon_ends(r);
    if forall|x: T| !(#[trigger] smem(s, x) && smem(t, x)) { assert forall|x: T| #[trigger] smem(r, x) == smem(s, x) by { assert(!(smem(s, x) && smem(t, x))); } lemma_canon_eq(r, s); }
}
#[verifier::spinoff_prover]
proof fn prop_S04<T: Finite>(s: Seq<Tine<T>>, c: Seq<Tine<T>>, cc: Seq<Tine<T>>, u: Seq<Tine<T>>, i: Seq<Tine<T>>)
    requires canon(s), canon(c), canon(cc), canon(u), canon(i), forall|x: T| #[trigger] smem(c, x) == !smem(s, x), forall|x: T| #[trigger] smem(cc, x) == !smem(c, x),
        forall|x: T| #[trigger] smem(u, x) == (smem(s, x) || smem(c, x)), forall|x: T| #[trigger] smem(i, x) == (smem(s, x) && smem(c, x))
    ensures cc == s, u == one_seq(RawInterval::<T>::Full), i.len() == 0, c != s,
{
    lemma_canon_ends(u); lemma_canon_ends(i);
    assert forall|x: T| #[trigger] smem(cc, x) == smem(s, x) by { assert(smem(c, x) == !smem(s, x)); }
    lemma_canon_eq(cc, s);
    assert(smem(c, s_min::<T>()) == !smem(s, s_min::<T>()));
    assert forall|x: T| #[trigger] smem(u, x) by { assert(smem(c, x) == !smem(s, x)); }
    assert forall|x: T| !(#[trigger] smem(i, x)) by { assert(smem(c, x) == !smem(s, x)); }
}
#[verifier::spinoff_prover]
proof fn prop_S05<T: Finite>(s: Seq<Tine<T>>, t: Seq<Tine<T>>)
    requires canon(s), canon(t)
    ensures (s == t) == (forall|x: T| #[trigger] smem(s, x) == smem(t, x)), (s.len() == 0) == (forall|x: T| !(#[trigger] smem(s, x))), (s == one_seq(RawInterval::<T>::Full)) == (forall|x: T| #[trigger] smem(s, x)),
{ lemma_canon_ends(s); if forall|x: T| #[trigger] smem(s, x) == smem(t, x) { lemma_canon_eq(s, t); } }
#[verifier::spinoff_prover]
proof fn prop_S06<T: Finite>(s: Seq<Tine<T>>, x: T)
    requires canon(s)
    ensures ({ let n = norms(pcs(s));
        &&& forall|i: int| 0 <= i < n.len() ==> canr(#[trigger] n[i]) && !(n[i] is Empty)
        &&& forall|i: int, j: int| 0 <= i < j < n.len() ==> #[trigger] gap2(n[i], n[j])
        &&& anyr(n, x) == smem(s, x)
        &&& iv(ivs(n)) == n
    })
{ lemma_canon_parts(s); let n = norms(pcs(s)); assert(anyr(n, x) == smf(s)(x)); assert(iv(ivs(n)) =~= n); }
// successive steps from either end: in order, nothing twice, nothing skipped
#[verifier::spinoff_prover]
proof fn prop_S07<T: Finite>(s: Seq<RawInterval<T>>, x: T, t: Seq<RawInterval<T>>, y: T, u: Seq<RawInterval<T>>, z: T)
    requires runs(s), runs(t), runs(u)
    ensures took_first(s, x, t) && took_first(t, y, u) ==> lt(x, y) && !(anyr(s, z) && lt(x, z) && lt(z, y)),
        took_last(s, x, t) && took_last(t, y, u) ==> lt(y, x) && !(anyr(s, z) && lt(y, z) && lt(z, x)),
        took_first(s, x, t) && took_last(t, y, u) ==> lt(x, y) && (anyr(u, z) ==> lt(x, z) && lt(z, y)),
        took_last(s, x, t) && took_first(t, y, u) ==> lt(y, x) && (anyr(u, z) ==> lt(y, z) && lt(z, x)),
        (s.len() == 0) == (forall|w: T| !(#[trigger] anyr(s, w))),
{
    broadcast use grp_order;
    if s.len() > 0 { lemma_ends(s[0]); assert(mem(s[0], lo(s[0]))); assert(anyr(s, lo(s[0]))); }
    if took_first(s, x, t) || took_last(s, x, t) { assert(anyr(t, z) == (anyr(s, z) && z != x)); assert(anyr(t, y) == (anyr(s, y) && y != x)); assert(anyr(t, x) == (anyr(s, x) && x != x)); }
    if took_first(t, y, u) || took_last(t, y, u) { assert(anyr(u, z) == (anyr(t, z) && z != y)); assert(anyr(t, y)); }
}
#[verifier::spinoff_prover]
proof fn prop_S08<T: Finite>(s: Seq<Tine<T>>, x: T, y: T, e: RawInterval<T>)
    requires canon(s), canr(e)
    ensures least(s, x) && least(s, y) ==> x == y, greatest(s, x) && greatest(s, y) ==> x == y,
        !(e is Empty) && least(s, lo(e)) && greatest(s, hi(e)) ==> smem(s, lo(e)) && smem(s, hi(e)) && (smem(s, x) ==> mem(e, x)),
{ broadcast use grp_order; lemma_ends(e); if !(e is Empty) { assert(mem(e, x) == (le(lo(e), x) && le(x, hi(e)))) by { lemma_mem_ends(e, x); } } }
#[verifier::spinoff_prover]
proof fn lemma_mem_ends<T>(e: RawInterval<T>, x: T) requires canr(e), !(e is Empty) ensures mem(e, x) == (le(lo(e), x) && le(x, hi(e))) { broadcast use grp_order; }
// R07: notation round-trips; what is not notation is rejected
pub proof fn prop_R07<T>(a: RawInterval<T>, b: RawInterval<T>, s: Seq<char>, r: Option<RawInterval<T>>)
    requires text_ok::<T>(), wfr(a), wfr(b)
    ensures
        write(s, a) == s + text(a),
        reads(text(a), r) <==> r == Some(a),
        text(a) == text(b) ==> a == b,
        reads::<T>(s, r) ==> (r is Some <==> notation::<T>(s)),
{
    lemma_write(s, a);
    lemma_round(a, r);
    lemma_round(b, Some(a));
    lemma_round(a, Some(a));
    if reads::<T>(s, r) {
        reveal(reads);
        if s != t_none() && parse_s::<T>(s) is Err {
            if s.contains(',') {
                let (x, y) = lemma_comma_cut(s);
                assert(halves(read_l::<T>(x), read_u::<T>(y), r));
                if notation::<T>(s) {
                    let (x2, y2) = choose|x2: Seq<char>, y2: Seq<char>| #[trigger] csplit(s, x2, y2) && read_l::<T>(x2) is Some && read_u::<T>(y2) is Some;
                    lemma_csplit_unique(s, x, y, x2, y2);
                }
            } else if notation::<T>(s) {
                let (x2, y2) = choose|x2: Seq<char>, y2: Seq<char>| #[trigger] csplit(s, x2, y2) && read_l::<T>(x2) is Some && read_u::<T>(y2) is Some;
                assert(s[x2.len() as int] == ',');
            }
        }
    }
}
// enclosing the pieces one after another
#[verifier::spinoff_prover]
proof fn lemma_within<T>(a: RawInterval<T>, c: RawInterval<T>)
    requires wfr(a), wfr(c), !(a is Empty), !(c is Empty)
    ensures (hull(a, c) == c) == (lmin(lob(a)->0, lob(c)->0) == lob(c)->0 && umax(upb(a)->0, upb(c)->0) == upb(c)->0)
{ broadcast use grp_order; lemma_wfr(a); lemma_wfr(c); lemma_hull(a, c); }
#[verifier::spinoff_prover]
proof fn lemma_sep_within<T>(a: RawInterval<T>, b: RawInterval<T>)
    requires wfr(a), wfr(b), !(a is Empty), !(b is Empty), sep(upb(a)->0, lob(b)->0)
    ensures lmin(lob(b)->0, lob(a)->0) == lob(a)->0, umax(upb(a)->0, upb(b)->0) == upb(b)->0
{ broadcast use grp_order; lemma_wfr(a); lemma_wfr(b); }
#[verifier::spinoff_prover]
proof fn lemma_enc_fold<T>(s: Seq<Tine<T>>)
    requires wf(s)
    ensures wfrs(pcs(s)), fold_hull(pcs(s)) == enc(s)
{
    lemma_cover(s); lemma_pcs_ascending(s); lemma_enc(s); prop_T07(s, arbitrary::<T>());
    let q = pcs(s); let c = enc(s); let n = q.len() - 1;
    lemma_fold_hull(q);
    if s.len() > 0 {
        let f = fold_hull(q);
        assert(hull(q[0], f) == f && hull(q[n], f) == f);
        lemma_hull(q[0], f); lemma_hull(c, f);
        assert forall|i: int| 0 <= i < q.len() implies hull(#[trigger] q[i], c) == c by {
            lemma_within(q[i], c); lemma_within(q[0], q[0]); lemma_hull(q[i], q[i]);
            if i > 0 { assert(sep(upb(q[0])->0, lob(q[i])->0)); lemma_sep_within(q[0], q[i]); }
            if i < n { assert(sep(upb(q[i])->0, lob(q[n])->0)); lemma_sep_within(q[i], q[n]); }
            broadcast use grp_order;
        }
        lemma_within(q[0], f); lemma_within(q[n], f); lemma_within(c, f);
    }
}
