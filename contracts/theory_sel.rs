// ---- selections: trees of denormalised intervals over a finite type (all proved) -------------
pub open spec fn smem<T>(s: Seq<Tine<T>>, x: T) -> bool { tri(s, Pos::At(x)).m }
pub open spec fn smf<T>(s: Seq<Tine<T>>) -> spec_fn(T) -> bool { |x: T| smem(s, x) }
pub open spec fn rmf<T>(r: RawInterval<T>) -> spec_fn(T) -> bool { |x: T| mem(r, x) }
// how a set of points is marked: members are inside on every side, the others see their neighbours
pub open spec fn ctri<T>(f: spec_fn(T) -> bool, p: Pos<T>) -> Tri {
    match p {
        Pos::Neg => Tri { b: false, m: false, f: f(s_min()) },
        Pos::Inf => Tri { b: f(s_max()), m: false, f: false },
        Pos::At(x) => if f(x) { c3(true) } else { Tri { b: s_pred(x) matches Some(y) && f(y), m: false, f: s_succ(x) matches Some(y) && f(y) } },
    }
}
#[verifier::opaque]
pub open spec fn canon<T>(s: Seq<Tine<T>>) -> bool { wf(s) && forall|p: Pos<T>| #[trigger] tri(s, p) == ctri(smf(s), p) }
#[verifier::spinoff_prover]
proof fn lemma_canon<T: Finite>(s: Seq<Tine<T>>)
    requires canon(s)
    ensures wf(s), forall|p: Pos<T>| #[trigger] tri(s, p) == ctri(smf(s), p)
{ reveal(canon); }
// the same points, the same tree
#[verifier::spinoff_prover]
proof fn lemma_canon_eq<T: Finite>(s: Seq<Tine<T>>, t: Seq<Tine<T>>)
    requires canon(s), canon(t), forall|x: T| #[trigger] smem(s, x) == smem(t, x)
    ensures s == t
{
    lemma_canon(s); lemma_canon(t);
    assert forall|p: Pos<T>| #[trigger] tri(s, p) == tri(t, p) by {
        assert(tri(t, p) == ctri(smf(t), p));
        assert forall|x: T| #[trigger] smf(s)(x) == smf(t)(x) by { assert(smem(s, x) == smem(t, x)); }
        assert(smf(s) =~= smf(t));
    }
    lemma_determined(s, t);
}
// a denormalised interval ends next to its last points, and at infinity only at the ends of the type
#[verifier::spinoff_prover]
proof fn lemma_denorm_at<T: Finite>(a: T, b: T, x: T)
    requires le(a, b)
    ensures ({
        let l = d_lo(Bound::Include(a)); let u = d_hi(Bound::Include(b)); let m = |y: T| le(a, y) && le(y, b);
        &&& nonempty(l, u) && !(l is Include) && !(u is Include)
        &&& (l is Infinite) == m(s_min()) && (u is Infinite) == m(s_max())
        &&& (bv(l) matches Some(v) ==> lt(v, a)) && (bv(u) matches Some(v) ==> lt(b, v))
        &&& bv(l) == Some(x) ==> !m(x) && s_succ(x) == Some(a) && !(s_pred(x) matches Some(y) && m(y))
        &&& bv(u) == Some(x) ==> !m(x) && s_pred(x) == Some(b) && !(s_succ(x) matches Some(y) && m(y))
        &&& above(l, x) == le(a, x) && below(u, x) == le(x, b)
        &&& !m(x) && bv(l) != Some(x) && bv(u) != Some(x) ==> !(s_succ(x) matches Some(y) && m(y)) && !(s_pred(x) matches Some(y) && m(y))
    })
{
    broadcast use grp_order, grp_fin;
    lemma_d_lo(Bound::Include(a), x); lemma_d_hi(Bound::Include(b), x);
    ax_min(a); ax_min(b); ax_max(a); ax_max(b); ax_min(x); ax_max(x);
    ax_succ(x); ax_pred(x); ax_succ(b); ax_pred(a);
    ax_succ_gap(x, a); ax_pred_gap(x, a); ax_succ_gap(x, b); ax_pred_gap(x, b);
}
#[verifier::spinoff_prover]
proof fn lemma_denorm_tri<T: Finite>(r: RawInterval<T>, p: Pos<T>)
    requires canr(r)
    ensures itri(denorm(r), p) == ctri(rmf(r), p)
{
    lemma_denorm(r); lemma_ends(r);
    let d = denorm(r); let f = rmf(r);
    if !(d is Empty) {
        let a = lo(r); let b = hi(r);
        lemma_wfr(r);
        let l = d_lo(Bound::Include(a)); let u = d_hi(Bound::Include(b));
        lemma_denorm_at(a, b, a);
        lemma_mk(l, u);
        assert(!(d is Point));
        assert forall|x: T| #[trigger] f(x) == (le(a, x) && le(x, b)) by { lemma_denorm_at(a, b, x); }
        reveal(plt);
        if p is At { lemma_denorm_at(a, b, p->0); lemma_denorm_pos(a, b, p->0); }
    } else {
        assert forall|x: T| !(#[trigger] f(x)) by {}
    }
}
#[verifier::spinoff_prover]
proof fn lemma_denorm_pos<T: Finite>(a: T, b: T, x: T)
    requires le(a, b)
    ensures ({
        let l = d_lo(Bound::Include(a)); let u = d_hi(Bound::Include(b));
        &&& bv(l) != Some(x) && bv(u) != Some(x) ==> (plt(tpos(Tine::Lower(l)), Pos::At(x)) && plt(Pos::At(x), tpos(Tine::Upper(u)))) == (le(a, x) && le(x, b))
        &&& !(bv(l) == Some(x) && bv(u) == Some(x))
        &&& bv(u) == Some(x) ==> plt(tpos(Tine::Lower(l)), Pos::At(x))
        &&& bv(l) == Some(x) ==> plt(Pos::At(x), tpos(Tine::Upper(u)))
    })
{ broadcast use grp_order; lemma_denorm_at(a, b, x); reveal(plt); }
pub open spec fn orf<T>(f: spec_fn(T) -> bool, g: spec_fn(T) -> bool) -> spec_fn(T) -> bool { |x: T| f(x) || g(x) }
#[verifier::spinoff_prover]
proof fn lemma_canon_from<T: Finite>(s: Seq<Tine<T>>, f: spec_fn(T) -> bool)
    requires wf(s), forall|p: Pos<T>| #[trigger] tri(s, p) == ctri(f, p)
    ensures canon(s), forall|x: T| #[trigger] smem(s, x) == f(x)
{
    assert forall|x: T| #[trigger] smem(s, x) == f(x) by { assert(tri(s, Pos::At(x)) == ctri(f, Pos::At(x))); }
    assert(smf(s) =~= f) by { assert forall|x: T| #[trigger] smf(s)(x) == f(x) by { assert(smem(s, x) == f(x)); } }
    reveal(canon);
}
#[verifier::spinoff_prover]
proof fn lemma_canon_none<T: Finite>(s: Seq<Tine<T>>)
    requires s.len() == 0
    ensures canon(s), forall|x: T| !(#[trigger] smem(s, x))
{
    lemma_nothing(s);
    let f = |x: T| false;
    assert forall|p: Pos<T>| #[trigger] tri(s, p) == ctri(f, p) by {}
    lemma_canon_from(s, f);
}
#[verifier::spinoff_prover]
proof fn lemma_canon_one<T: Finite>(r: RawInterval<T>)
    requires canr(r)
    ensures wfr(denorm(r)), canon(one_seq(denorm(r))), forall|x: T| #[trigger] smem(one_seq(denorm(r)), x) == mem(r, x)
{
    let s = one_seq(denorm(r));
    lemma_denorm(r); lemma_one(denorm(r));
    assert forall|p: Pos<T>| #[trigger] tri(s, p) == ctri(rmf(r), p) by { lemma_denorm_tri(r, p); assert(tri(s, p) == itri(denorm(r), p)); }
    lemma_canon_from(s, rmf(r));
    assert forall|x: T| #[trigger] smem(s, x) == mem(r, x) by { assert(smem(s, x) == rmf(r)(x)); }
}
#[verifier::spinoff_prover]
proof fn lemma_ctri_or<T: Finite>(f: spec_fn(T) -> bool, g: spec_fn(T) -> bool, p: Pos<T>) ensures or3(ctri(f, p), ctri(g, p)) == ctri(orf(f, g), p) { }
// uniting with a denormalised interval, or with another selection, keeps the form
#[verifier::spinoff_prover]
proof fn lemma_canon_add<T: Finite>(s: Seq<Tine<T>>, i: RawInterval<T>, r: Seq<Tine<T>>)
    requires canon(s), canr(i)
    ensures (wf(r) && forall|p: Pos<T>| #[trigger] tri(r, p) == or3(tri(s, p), itri(denorm(i), p))) ==> (canon(r) && forall|x: T| #[trigger] smem(r, x) == (smem(s, x) || mem(i, x)))
{
  if wf(r) && forall|p: Pos<T>| #[trigger] tri(r, p) == or3(tri(s, p), itri(denorm(i), p)) {
    lemma_canon(s);
    let f = orf(smf(s), rmf(i));
    assert forall|p: Pos<T>| #[trigger] tri(r, p) == ctri(f, p) by { lemma_denorm_tri(i, p); lemma_ctri_or(smf(s), rmf(i), p); assert(tri(s, p) == ctri(smf(s), p)); }
    lemma_canon_from(r, f);
    assert forall|x: T| #[trigger] smem(r, x) == (smem(s, x) || mem(i, x)) by { assert(smem(r, x) == f(x)); }
  }
}
#[verifier::spinoff_prover]
proof fn lemma_canon_or<T: Finite>(s: Seq<Tine<T>>, t: Seq<Tine<T>>, r: Seq<Tine<T>>)
    requires canon(s), canon(t)
    ensures (wf(r) && forall|p: Pos<T>| #[trigger] tri(r, p) == or3(tri(s, p), tri(t, p))) ==> (canon(r) && forall|x: T| #[trigger] smem(r, x) == (smem(s, x) || smem(t, x)))
{
  if wf(r) && forall|p: Pos<T>| #[trigger] tri(r, p) == or3(tri(s, p), tri(t, p)) {
    lemma_canon(s); lemma_canon(t);
    let f = orf(smf(s), smf(t));
    assert forall|p: Pos<T>| #[trigger] tri(r, p) == ctri(f, p) by { lemma_ctri_or(smf(s), smf(t), p); assert(tri(s, p) == ctri(smf(s), p)); assert(tri(t, p) == ctri(smf(t), p)); }
    lemma_canon_from(r, f);
    assert forall|x: T| #[trigger] smem(r, x) == (smem(s, x) || smem(t, x)) by { assert(smem(r, x) == f(x)); }
  }
}
// as a property of the two trees, for use in contracts
#[verifier::spinoff_prover]
proof fn lemma_canon_ends<T: Finite>(s: Seq<Tine<T>>)
    requires canon(s)
    ensures (s.len() == 0) == (forall|x: T| !(#[trigger] smem(s, x))), (s == one_seq(RawInterval::<T>::Full)) == (forall|x: T| #[trigger] smem(s, x)),
{
    lemma_canon(s);
    let e = Seq::<Tine<T>>::empty();
    lemma_canon_none(e);
    if s.len() == 0 { lemma_canon_none(s); }
    if forall|x: T| !(#[trigger] smem(s, x)) { lemma_canon_eq(s, e); }
    let f = RawInterval::<T>::Full; let o = one_seq(f);
    lemma_one(f); lemma_itri(f);
    assert forall|x: T| #[trigger] smem(o, x) by { assert(tri(o, Pos::At(x)) == itri(f, Pos::At(x))); assert(mem(f, x)); }
    if forall|x: T| #[trigger] smem(s, x) {
        assert forall|p: Pos<T>| #[trigger] tri(s, p) == tri(o, p) by { lemma_itri_full(p); assert(tri(o, p) == itri(f, p)); if p is At { assert(smem(s, p->0)); } else { assert(smem(s, s_min::<T>())); assert(smem(s, s_max::<T>())); } }
        lemma_determined(s, o);
    }
}
// ---- the intervals of a selection, normalised
#[verifier::spinoff_prover]
proof fn lemma_anyr_norms<T: Finite>(s: Seq<RawInterval<T>>, x: T)
    ensures anyr(norms(s), x) == anyr(s, x)
{
    let n = norms(s);
    if anyr(n, x) { let i = choose|i: int| 0 <= i < n.len() && mem(#[trigger] n[i], x); lemma_norm(s[i]); assert(mem(s[i], x)); }
    if anyr(s, x) { let i = choose|i: int| 0 <= i < s.len() && mem(#[trigger] s[i], x); lemma_norm(s[i]); assert(mem(n[i], x)); }
}
// the bounds of the intervals are tines of the sequence
#[verifier::spinoff_prover]
proof fn lemma_pcs_tines<T: Finite>(q: Seq<Tine<T>>, i: int)
    requires wfq(q), 0 <= i < pcs(q).len()
    ensures exists|a: int| 0 <= a < q.len() && #[trigger] tb(q[a]) == lob(pcs(q)[i])->0 && (trip(q[a]).f || pt_ok(q[a])),
        exists|b: int| 0 <= b < q.len() && #[trigger] tb(q[b]) == upb(pcs(q)[i])->0 && (trip(q[b]).b || pt_ok(q[b])),
    decreases q.len()
{
    lemma_front(q);
    assert(t_ok(q[0]));
    let z = prest(q);
    if i == 0 {
        if !pt_ok(q[0]) { assert(t_ok(q[1])); lemma_mk_tri(q[0], q[1], tpos(q[0])); assert(tb(q[1]) == upb(pcs(q)[0])->0); }
        assert(tb(q[0]) == lob(pcs(q)[0])->0);
        assert(pt_ok(q[0]) ==> tb(q[0]) == upb(pcs(q)[0])->0);
    } else {
        lemma_pcs_tines(z, i - 1);
        assert(pcs(q)[i] == pcs(z)[i - 1]);
        let k = q.len() - z.len();
        let a = choose|a: int| 0 <= a < z.len() && #[trigger] tb(z[a]) == lob(pcs(z)[i - 1])->0 && (trip(z[a]).f || pt_ok(z[a]));
        let b = choose|b: int| 0 <= b < z.len() && #[trigger] tb(z[b]) == upb(pcs(z)[i - 1])->0 && (trip(z[b]).b || pt_ok(z[b]));
        assert(z[a] == q[a + k]); assert(z[b] == q[b + k]);
        assert(tb(q[a + k]) == lob(pcs(q)[i])->0); assert(tb(q[b + k]) == upb(pcs(q)[i])->0);
    }
}
#[verifier::spinoff_prover]
proof fn lemma_tine_tri<T: Finite>(s: Seq<Tine<T>>, a: int)
    requires wf(s), 0 <= a < s.len()
    ensures t_ok(s[a]), tri(s, tpos(s[a])) == trip(s[a])
{
    assert(wfo(s)) by { reveal(wf); }
    assert(t_ok(s[a]));
    let p = tpos(s[a]);
    lemma_tri(s, p); lemma_at_index(s, a);
}
// in a selection every tine excludes its point, and membership starts or ends right next to it
#[verifier::spinoff_prover]
proof fn lemma_canon_tine<T: Finite>(s: Seq<Tine<T>>, a: int)
    requires canon(s), 0 <= a < s.len()
    ensures t_ok(s[a]), !pt_ok(s[a]), !(tb(s[a]) is Include), bv(tb(s[a])) matches Some(x) ==> !smem(s, x),
        trip(s[a]).f ==> (n_lo(tb(s[a])) matches Some(y) && smem(s, y)),
        trip(s[a]).b ==> (n_hi(tb(s[a])) matches Some(y) && smem(s, y)),
{
    lemma_canon(s); lemma_tine_tri(s, a);
    let p = tpos(s[a]);
    assert(tri(s, p) == ctri(smf(s), p));
}
#[verifier::spinoff_prover]
proof fn lemma_canon_bounds<T: Finite>(l: Bound<T>, u: Bound<T>, f: spec_fn(T) -> bool)
    requires nonempty(l, u), !(l is Include), !(u is Include), n_lo(l) matches Some(y) && f(y), n_hi(u) matches Some(y) && f(y), bv(l) matches Some(x) ==> !f(x), bv(u) matches Some(x) ==> !f(x)
    ensures le(n_lo(l)->0, n_hi(u)->0)
{
    broadcast use grp_order, grp_fin;
    ax_min(n_hi(u)->0); ax_max(n_lo(l)->0);
    if l is Exclude && u is Exclude { ax_succ_gap(l->Exclude_0, u->Exclude_0); ax_pred_gap(u->Exclude_0, n_lo(l)->0); }
    if l is Infinite && u is Exclude { ax_pred_gap(u->Exclude_0, s_min::<T>()); ax_min(u->Exclude_0); }
}
#[verifier::spinoff_prover]
proof fn lemma_canon_piece<T: Finite>(s: Seq<Tine<T>>, i: int)
    requires canon(s), 0 <= i < pcs(s).len()
    ensures ({
        let p = pcs(s)[i];
        &&& wfr(p) && !(p is Empty) && !(lob(p)->0 is Include) && !(upb(p)->0 is Include)
        &&& canr(norm(p)) && !(norm(p) is Empty) && n_lo(lob(p)->0) == Some(lo(norm(p))) && n_hi(upb(p)->0) == Some(hi(norm(p)))
    })
{
    lemma_canon(s); lemma_wf_wfq(s); lemma_pcs_ascending(s); lemma_pcs_tines(s, i);
    let p = pcs(s)[i];
    assert(wfr(p) && !(p is Empty));
    lemma_wfr(p); lemma_norm(p);
    let a = choose|a: int| 0 <= a < s.len() && #[trigger] tb(s[a]) == lob(p)->0 && (trip(s[a]).f || pt_ok(s[a]));
    let b = choose|b: int| 0 <= b < s.len() && #[trigger] tb(s[b]) == upb(p)->0 && (trip(s[b]).b || pt_ok(s[b]));
    lemma_canon_tine(s, a); lemma_canon_tine(s, b);
    let l = lob(p)->0; let u = upb(p)->0;
    lemma_canon_bounds(l, u, smf(s));
    lemma_mk(Bound::Include(n_lo(l)->0), Bound::Include(n_hi(u)->0));
}
#[verifier::spinoff_prover]
proof fn lemma_sep_gap<T: Finite>(u: Bound<T>, l: Bound<T>)
    requires sep(u, l), !(u is Include), !(l is Include), n_hi(u) is Some, n_lo(l) is Some
    ensures lt(n_hi(u)->0, n_lo(l)->0), s_succ(n_hi(u)->0) != Some(n_lo(l)->0)
{ broadcast use grp_order, grp_fin; }
// the maximal runs of a selection
#[verifier::spinoff_prover]
proof fn lemma_canon_parts<T: Finite>(s: Seq<Tine<T>>)
    requires canon(s)
    ensures parts(norms(pcs(s)), smf(s)), wfq(s), wf(s)
{
    lemma_canon(s); lemma_cover(s); lemma_pcs_ascending(s);
    let q = pcs(s); let n = norms(q);
    assert forall|i: int| 0 <= i < n.len() implies canr(#[trigger] n[i]) && !(n[i] is Empty) by { lemma_canon_piece(s, i); }
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies #[trigger] gap2(n[i], n[j]) by { lemma_canon_piece(s, i); lemma_canon_piece(s, j); lemma_sep_gap(upb(q[i])->0, lob(q[j])->0); }
    assert forall|x: T| #[trigger] anyr(n, x) == smf(s)(x) by { lemma_anyr_norms(q, x); lemma_ior_mem(q, x); assert(tri(s, Pos::At(x)) == ior(q, Pos::At(x))); }
}
// ---- iterating: what is left, as normalised intervals in ascending order
pub open spec fn runs<T>(s: Seq<RawInterval<T>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> canr(#[trigger] s[i]) && !(s[i] is Empty)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] lt(hi(s[i]), lo(s[j]))
}
pub open spec fn rem<T>(cur: RawInterval<T>, p: Seq<RawInterval<T>>, back: RawInterval<T>) -> Seq<RawInterval<T>> { ne1(cur) + norms(p) + ne1(back) }
// x was the least / greatest point, and now exactly it is gone
pub open spec fn took_first<T>(s: Seq<RawInterval<T>>, x: T, t: Seq<RawInterval<T>>) -> bool {
    &&& anyr(s, x) && forall|y: T| #[trigger] anyr(s, y) ==> le(x, y)
    &&& forall|y: T| #[trigger] anyr(t, y) == (anyr(s, y) && y != x)
}
pub open spec fn took_last<T>(s: Seq<RawInterval<T>>, x: T, t: Seq<RawInterval<T>>) -> bool {
    &&& anyr(s, x) && forall|y: T| #[trigger] anyr(s, y) ==> le(y, x)
    &&& forall|y: T| #[trigger] anyr(t, y) == (anyr(s, y) && y != x)
}
#[verifier::spinoff_prover]
proof fn lemma_any_cat<T: Finite>(a: Seq<RawInterval<T>>, b: Seq<RawInterval<T>>, x: T)
    ensures anyr(a + b, x) == (anyr(a, x) || anyr(b, x))
{
    let c = a + b;
    if anyr(a, x) { let i = choose|i: int| 0 <= i < a.len() && mem(#[trigger] a[i], x); assert(mem(c[i], x)); }
    if anyr(b, x) { let i = choose|i: int| 0 <= i < b.len() && mem(#[trigger] b[i], x); assert(mem(c[i + a.len()], x)); }
    if anyr(c, x) { let i = choose|i: int| 0 <= i < c.len() && mem(#[trigger] c[i], x); if i < a.len() { assert(mem(a[i], x)); } else { assert(mem(b[i - a.len()], x)); } }
}
#[verifier::spinoff_prover]
proof fn lemma_any_ne1<T: Finite>(a: RawInterval<T>, x: T) ensures anyr(ne1(a), x) == mem(a, x) { if mem(a, x) { assert(mem(ne1(a)[0], x)); } }
#[verifier::spinoff_prover]
proof fn lemma_take_first<T: Finite>(s: Seq<RawInterval<T>>, b: RawInterval<T>)
    requires runs(s), s.len() > 0, popped(s[0], lo(s[0]), b)
    ensures runs(ne1(b) + s.skip(1)), took_first(s, lo(s[0]), ne1(b) + s.skip(1))
{
    broadcast use grp_order;
    let a = s[0]; let x = lo(a); let z = s.skip(1); let t = ne1(b) + z;
    lemma_ends(a); lemma_ends(b);
    assert(s =~= ne1(a) + z);
    assert forall|i: int| 0 <= i < z.len() implies canr(#[trigger] z[i]) && !(z[i] is Empty) && lt(hi(a), lo(z[i])) by { assert(z[i] == s[i + 1]); assert(lt(hi(s[0]), lo(s[i + 1]))); }
    if !(b is Empty) { assert(mem(b, hi(b))); assert(mem(a, hi(b))); }
    assert forall|i: int| 0 <= i < t.len() implies canr(#[trigger] t[i]) && !(t[i] is Empty) by { if i >= ne1(b).len() { assert(t[i] == z[i - ne1(b).len()]); } else { assert(t[i] == b); } }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] lt(hi(t[i]), lo(t[j])) by {
        assert(t[j] == z[j - ne1(b).len()]);
        if i < ne1(b).len() { assert(t[i] == b); } else { assert(t[i] == s[i - ne1(b).len() + 1]); assert(t[j] == s[j - ne1(b).len() + 1]); }
    }
    assert(mem(a, x)); assert(mem(s[0], x));
    assert forall|y: T| #[trigger] anyr(s, y) implies le(x, y) by {
        let i = choose|i: int| 0 <= i < s.len() && mem(#[trigger] s[i], y);
        lemma_ends(s[i]);
        if i > 0 { assert(lt(hi(s[0]), lo(s[i]))); }
    }
    assert forall|y: T| #[trigger] anyr(t, y) == (anyr(s, y) && y != x) by {
        lemma_any_cat(ne1(a), z, y); lemma_any_cat(ne1(b), z, y); lemma_any_ne1(a, y); lemma_any_ne1(b, y);
        assert(mem(b, y) == (mem(a, y) && y != x));
        if anyr(z, x) { let i = choose|i: int| 0 <= i < z.len() && mem(#[trigger] z[i], x); lemma_ends(z[i]); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_take_last<T: Finite>(s: Seq<RawInterval<T>>, b: RawInterval<T>)
    requires runs(s), s.len() > 0, popped(s.last(), hi(s.last()), b)
    ensures runs(s.drop_last() + ne1(b)), took_last(s, hi(s.last()), s.drop_last() + ne1(b))
{
    broadcast use grp_order;
    let n = s.len() - 1; let a = s[n]; let x = hi(a); let z = s.drop_last(); let t = z + ne1(b);
    lemma_ends(a); lemma_ends(b);
    assert(s =~= z + ne1(a));
    assert forall|i: int| 0 <= i < z.len() implies canr(#[trigger] z[i]) && !(z[i] is Empty) && lt(hi(z[i]), lo(a)) by { assert(z[i] == s[i]); assert(lt(hi(s[i]), lo(s[n]))); }
    if !(b is Empty) { assert(mem(b, lo(b))); assert(mem(a, lo(b))); }
    assert forall|i: int| 0 <= i < t.len() implies canr(#[trigger] t[i]) && !(t[i] is Empty) by { if i < n { assert(t[i] == z[i]); } else { assert(t[i] == b); } }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] lt(hi(t[i]), lo(t[j])) by {
        assert(t[i] == z[i]);
        if j >= n { assert(t[j] == b); } else { assert(t[i] == s[i]); assert(t[j] == s[j]); }
    }
    assert(mem(a, x)); assert(mem(s[n], x));
    assert forall|y: T| #[trigger] anyr(s, y) implies le(y, x) by {
        let i = choose|i: int| 0 <= i < s.len() && mem(#[trigger] s[i], y);
        lemma_ends(s[i]);
        if i < n { assert(lt(hi(s[i]), lo(s[n]))); }
    }
    assert forall|y: T| #[trigger] anyr(t, y) == (anyr(s, y) && y != x) by {
        lemma_any_cat(z, ne1(a), y); lemma_any_cat(z, ne1(b), y); lemma_any_ne1(a, y); lemma_any_ne1(b, y);
        assert(mem(b, y) == (mem(a, y) && y != x));
        if anyr(z, x) { let i = choose|i: int| 0 <= i < z.len() && mem(#[trigger] z[i], x); lemma_ends(z[i]); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_sel_front<T: Finite>(cur: RawInterval<T>, p: Seq<RawInterval<T>>, back: RawInterval<T>)
    requires runs(rem(cur, p, back))
    ensures canr(cur), canr(back),
        !(cur is Empty) ==> rem(cur, p, back).len() > 0 && forall|b: RawInterval<T>| #[trigger] popped(cur, lo(cur), b) ==> runs(rem(b, p, back)) && took_first(rem(cur, p, back), lo(cur), rem(b, p, back)),
        cur is Empty && p.len() > 0 ==> rem(cur, p, back).len() > 0 && canr(norm(p[0])) && norm(norm(p[0])) == norm(p[0]) && !(norm(p[0]) is Empty) && forall|b: RawInterval<T>| #[trigger] popped(norm(p[0]), lo(norm(p[0])), b) ==> runs(rem(b, p.skip(1), back)) && took_first(rem(cur, p, back), lo(norm(p[0])), rem(b, p.skip(1), back)),
        cur is Empty && p.len() == 0 && !(back is Empty) ==> rem(cur, p, back).len() > 0 && forall|b: RawInterval<T>| #[trigger] popped(back, lo(back), b) ==> runs(rem(cur, p, b)) && took_first(rem(cur, p, back), lo(back), rem(cur, p, b)),
        cur is Empty && p.len() == 0 && back is Empty ==> rem(cur, p, back).len() == 0,
{
    let s = rem(cur, p, back);
    if !(cur is Empty) {
        assert(s[0] == cur);
        assert forall|b: RawInterval<T>| #[trigger] popped(cur, lo(cur), b) implies runs(rem(b, p, back)) && took_first(s, lo(cur), rem(b, p, back)) by { lemma_take_first(s, b); assert(rem(b, p, back) =~= ne1(b) + s.skip(1)); }
    } else if p.len() > 0 {
        assert(s[0] == norms(p)[0]); assert(norms(p)[0] == norm(p[0]));
        lemma_norm(p[0]);
        assert forall|b: RawInterval<T>| #[trigger] popped(norm(p[0]), lo(norm(p[0])), b) implies runs(rem(b, p.skip(1), back)) && took_first(s, lo(norm(p[0])), rem(b, p.skip(1), back)) by { lemma_take_first(s, b); assert(rem(b, p.skip(1), back) =~= ne1(b) + s.skip(1)); }
    } else if !(back is Empty) {
        assert(s =~= seq![back]);
        assert forall|b: RawInterval<T>| #[trigger] popped(back, lo(back), b) implies runs(rem(cur, p, b)) && took_first(s, lo(back), rem(cur, p, b)) by { lemma_take_first(s, b); assert(rem(cur, p, b) =~= ne1(b) + s.skip(1)); }
    }
    if !(back is Empty) { assert(s[s.len() - 1] == back); }
}
#[verifier::spinoff_prover]
proof fn lemma_sel_back<T: Finite>(cur: RawInterval<T>, p: Seq<RawInterval<T>>, back: RawInterval<T>)
    requires runs(rem(cur, p, back))
    ensures canr(cur), canr(back),
        !(back is Empty) ==> rem(cur, p, back).len() > 0 && forall|b: RawInterval<T>| #[trigger] popped(back, hi(back), b) ==> runs(rem(cur, p, b)) && took_last(rem(cur, p, back), hi(back), rem(cur, p, b)),
        back is Empty && p.len() > 0 ==> rem(cur, p, back).len() > 0 && canr(norm(p.last())) && norm(norm(p.last())) == norm(p.last()) && !(norm(p.last()) is Empty) && forall|b: RawInterval<T>| #[trigger] popped(norm(p.last()), hi(norm(p.last())), b) ==> runs(rem(cur, p.drop_last(), b)) && took_last(rem(cur, p, back), hi(norm(p.last())), rem(cur, p.drop_last(), b)),
        back is Empty && p.len() == 0 && !(cur is Empty) ==> rem(cur, p, back).len() > 0 && forall|b: RawInterval<T>| #[trigger] popped(cur, hi(cur), b) ==> runs(rem(b, p, back)) && took_last(rem(cur, p, back), hi(cur), rem(b, p, back)),
        cur is Empty && p.len() == 0 && back is Empty ==> rem(cur, p, back).len() == 0,
{
    let s = rem(cur, p, back); let n = s.len() - 1;
    if !(cur is Empty) { assert(s[0] == cur); }
    if !(back is Empty) {
        assert(s[n] == back);
        assert forall|b: RawInterval<T>| #[trigger] popped(back, hi(back), b) implies runs(rem(cur, p, b)) && took_last(s, hi(back), rem(cur, p, b)) by { lemma_take_last(s, b); assert(rem(cur, p, b) =~= s.drop_last() + ne1(b)); }
    } else if p.len() > 0 {
        assert(s[n] == norms(p).last()); assert(norms(p).last() == norm(p.last()));
        lemma_norm(p.last());
        assert forall|b: RawInterval<T>| #[trigger] popped(norm(p.last()), hi(norm(p.last())), b) implies runs(rem(cur, p.drop_last(), b)) && took_last(s, hi(norm(p.last())), rem(cur, p.drop_last(), b)) by { lemma_take_last(s, b); assert(rem(cur, p.drop_last(), b) =~= s.drop_last() + ne1(b)); }
    } else if !(cur is Empty) {
        assert(s =~= seq![cur]);
        assert forall|b: RawInterval<T>| #[trigger] popped(cur, hi(cur), b) implies runs(rem(b, p, back)) && took_last(s, hi(cur), rem(b, p, back)) by { lemma_take_last(s, b); assert(rem(b, p, back) =~= s.drop_last() + ne1(b)); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_sel_start<T: Finite>(s: Seq<Tine<T>>)
    requires canon(s)
    ensures runs(rem(RawInterval::Empty, pcs(s), RawInterval::Empty)), forall|x: T| #[trigger] anyr(rem(RawInterval::Empty, pcs(s), RawInterval::Empty), x) == smem(s, x)
{
    lemma_canon_parts(s);
    let n = norms(pcs(s)); let r = rem(RawInterval::<T>::Empty, pcs(s), RawInterval::Empty);
    assert(r =~= n);
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies #[trigger] lt(hi(n[i]), lo(n[j])) by { assert(gap2(n[i], n[j])); }
    assert forall|x: T| #[trigger] anyr(r, x) == smem(s, x) by { assert(anyr(n, x) == smf(s)(x)); }
}
pub open spec fn least<T>(s: Seq<Tine<T>>, x: T) -> bool { smem(s, x) && forall|y: T| #[trigger] smem(s, y) ==> le(x, y) }
pub open spec fn greatest<T>(s: Seq<Tine<T>>, x: T) -> bool { smem(s, x) && forall|y: T| #[trigger] smem(s, y) ==> le(y, x) }
#[verifier::spinoff_prover]
proof fn lemma_sel_ends<T: Finite>(s: Seq<Tine<T>>)
    requires canon(s)
    ensures canr(norm(enc(s))), (norm(enc(s)) is Empty) == (s.len() == 0), (pcs(s).len() == 0) == (s.len() == 0), wf(s), wfr(enc(s)),
        s.len() > 0 ==> ({
            let f = norm(pcs(s)[0]); let l = norm(pcs(s).last());
            &&& canr(f) && canr(l) && !(f is Empty) && !(l is Empty) && least(s, lo(f)) && greatest(s, hi(l))
            &&& lob(f) == Some(Bound::Include(lo(f))) && upb(l) == Some(Bound::Include(hi(l)))
            &&& norm(enc(s)) == cl(lo(f), hi(l)) && lo(norm(enc(s))) == lo(f) && hi(norm(enc(s))) == hi(l)
            &&& n_lo(tb(s[0])) == Some(lo(f)) && n_hi(tb(s.last())) == Some(hi(l))
        }),
{
    broadcast use grp_order;
    lemma_canon_parts(s); lemma_enc(s); lemma_norm(enc(s)); lemma_sel_start(s); lemma_pcs_ascending(s);
    let q = pcs(s); let n = norms(q);
    if s.len() == 0 { lemma_nothing(s); } else {
        lemma_front(s); lemma_back(s);
        assert(t_ok(s[0])); assert(t_ok(s.last()));
        let k = q.len() - 1;
        lemma_canon_piece(s, 0); lemma_canon_piece(s, k);
        lemma_canon_tine(s, 0); lemma_canon_tine(s, s.len() - 1);
        if !pt_ok(s.last()) { assert(t_ok(s[s.len() - 2])); lemma_mk_tri(s[s.len() - 2], s.last(), tpos(s[0])); }
        let f = norm(q[0]); let l = norm(q.last());
        lemma_ends(f); lemma_ends(l);
        assert(n[0] == f); assert(n[k] == l);
        assert(mem(n[0], lo(f))); assert(mem(n[k], hi(l)));
        assert(smem(s, lo(f))) by { assert(anyr(n, lo(f)) == smf(s)(lo(f))); }
        assert(smem(s, hi(l))) by { assert(anyr(n, hi(l)) == smf(s)(hi(l))); }
        assert forall|y: T| #[trigger] smem(s, y) implies le(lo(f), y) && le(y, hi(l)) by {
            assert(anyr(n, y) == smf(s)(y));
            let i = choose|i: int| 0 <= i < n.len() && mem(#[trigger] n[i], y);
            lemma_ends(n[i]);
            if i > 0 { assert(gap2(n[0], n[i])); } if i < k { assert(gap2(n[i], n[k])); }
        }
        lemma_mk(Bound::Include(lo(f)), Bound::Include(hi(l)));
    }
}
// collecting: what has been added and what is still to come
#[verifier::spinoff_prover]
proof fn lemma_any_skip<T: Finite>(s: Seq<RawInterval<T>>, x: T)
    requires s.len() > 0
    ensures anyr(s, x) == (mem(s[0], x) || anyr(s.skip(1), x))
{ assert(s =~= seq![s[0]] + s.skip(1)); lemma_any_cat(seq![s[0]], s.skip(1), x); if mem(s[0], x) { assert(mem(seq![s[0]][0], x)); } if anyr(seq![s[0]], x) { } }
pub open spec fn pts<T>(s: Seq<T>) -> Seq<RawInterval<T>> { s.map_values(|x: T| RawInterval::Point(x)) }
pub open spec fn canrs<T>(s: Seq<RawInterval<T>>) -> bool { forall|i: int| 0 <= i < s.len() ==> canr(#[trigger] s[i]) }
#[verifier::spinoff_prover]
proof fn lemma_denorm_mem<T: Finite>(i: RawInterval<T>)
    requires canr(i)
    ensures wfr(i), wfr(denorm(i)), forall|x: T| (#[trigger] itri(denorm(i), Pos::At(x))).m == mem(i, x)
{
    lemma_norm(i); lemma_denorm(i); lemma_itri(denorm(i));
    assert forall|x: T| (#[trigger] itri(denorm(i), Pos::At(x))).m == mem(i, x) by { assert(mem(denorm(i), x) == mem(i, x)); }
}
#[verifier::spinoff_prover]
proof fn lemma_collect<T: Finite>(s: Seq<Tine<T>>, i: RawInterval<T>)
    requires canon(s), canr(i)
    ensures wf(s), wfr(i), wfr(denorm(i)),
        forall|r: Seq<Tine<T>>| #[trigger] wf(r) && (forall|p: Pos<T>| #[trigger] tri(r, p) == or3(tri(s, p), itri(denorm(i), p))) ==> canon(r) && (forall|x: T| #[trigger] smem(r, x) == (smem(s, x) || mem(i, x))),
{
    lemma_canon(s); lemma_denorm_mem(i);
    assert forall|r: Seq<Tine<T>>| #[trigger] wf(r) && (forall|p: Pos<T>| #[trigger] tri(r, p) == or3(tri(s, p), itri(denorm(i), p))) implies canon(r) && (forall|x: T| #[trigger] smem(r, x) == (smem(s, x) || mem(i, x))) by { lemma_canon_add(s, i, r); }
}
// a list to collect from, taken from the front
#[verifier::spinoff_prover]
proof fn lemma_list<T: Finite>(s: Seq<Interval<T>>)
    requires canrs(iv(s))
    ensures s.len() > 0 ==> canr(s[0].0) && canrs(iv(s.skip(1))) && forall|x: T| #![trigger anyr(iv(s), x)] #![trigger anyr(iv(s.skip(1)), x)] #![trigger mem(s[0].0, x)] anyr(iv(s), x) == (mem(s[0].0, x) || anyr(iv(s.skip(1)), x)), s.len() == 0 ==> forall|x: T| !(#[trigger] anyr(iv(s), x))
{
    if s.len() > 0 {
        let z = iv(s.skip(1));
        assert(iv(s)[0] == s[0].0);
        assert(iv(s).skip(1) =~= z);
        assert forall|i: int| 0 <= i < z.len() implies canr(#[trigger] z[i]) by { assert(iv(s)[i + 1] == z[i]); }
        assert forall|x: T| #[trigger] anyr(iv(s), x) == (mem(s[0].0, x) || anyr(z, x)) by { lemma_any_skip(iv(s), x); }
    }
}
// a list collected by way of its denormalised intervals
pub open spec fn denorms<T>(s: Seq<RawInterval<T>>) -> Seq<RawInterval<T>> { s.map_values(|r: RawInterval<T>| denorm(r)) }
#[verifier::spinoff_prover]
proof fn lemma_ior_denorms<T: Finite>(s: Seq<RawInterval<T>>, p: Pos<T>)
    requires canrs(s)
    ensures ior(denorms(s), p) == ctri(|x: T| anyr(s, x), p)
    decreases s.len()
{
    let f = |x: T| anyr(s, x);
    if s.len() == 0 { assert forall|x: T| !#[trigger] f(x) by {} } else {
        let z = s.skip(1); let g = |x: T| anyr(z, x);
        assert forall|i: int| 0 <= i < z.len() implies canr(#[trigger] z[i]) by { assert(z[i] == s[i + 1]); }
        lemma_ior_denorms(z, p);
        assert(canr(s[0])); lemma_denorm_tri(s[0], p);
        assert(denorms(s).skip(1) =~= denorms(z)); assert(denorms(s)[0] == denorm(s[0]));
        assert forall|x: T| #[trigger] f(x) == (rmf(s[0])(x) || g(x)) by { lemma_any_skip(s, x); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_collect_all<T: Finite>(s: Seq<RawInterval<T>>)
    requires canrs(s)
    ensures wfrs(denorms(s)),
        forall|t: Seq<Tine<T>>| #[trigger] wf(t) && (forall|p: Pos<T>| #[trigger] tri(t, p) == ior(denorms(s), p)) ==> canon(t) && (forall|x: T| #[trigger] smem(t, x) == anyr(s, x)),
{
    let d = denorms(s);
    assert forall|i: int| 0 <= i < d.len() implies wfr(#[trigger] d[i]) by { assert(canr(s[i])); lemma_denorm_mem(s[i]); }
    assert forall|t: Seq<Tine<T>>| #[trigger] wf(t) && (forall|p: Pos<T>| #[trigger] tri(t, p) == ior(d, p)) implies canon(t) && (forall|x: T| #[trigger] smem(t, x) == anyr(s, x)) by {
        let f = |x: T| anyr(s, x);
        assert forall|x: T| #[trigger] smem(t, x) == anyr(s, x) by { assert(tri(t, Pos::At(x)) == ior(d, Pos::At(x))); lemma_ior_denorms(s, Pos::At(x)); assert(f(x) == anyr(s, x)); }
        assert forall|x: T| #[trigger] smf(t)(x) == f(x) by { assert(smem(t, x) == anyr(s, x)); }
        assert(smf(t) =~= f);
        assert forall|p: Pos<T>| #[trigger] tri(t, p) == ctri(smf(t), p) by { lemma_ior_denorms(s, p); }
        reveal(canon);
    }
}
// one interval on its own
#[verifier::spinoff_prover]
proof fn lemma_opt_one<T: Finite>()
    ensures forall|i: Interval<T>| canr(i.0) ==> canrs(iv(#[trigger] opt(Some(i)))) && (forall|x: T| #[trigger] anyr(iv(opt(Some(i))), x) == mem(i.0, x))
{
    assert forall|i: Interval<T>| canr(i.0) implies canrs(iv(#[trigger] opt(Some(i)))) && (forall|x: T| #[trigger] anyr(iv(opt(Some(i))), x) == mem(i.0, x)) by {
        let s = iv(opt(Some(i)));
        assert(s.len() == 1 && s[0] == i.0);
        assert forall|x: T| #[trigger] anyr(s, x) == mem(i.0, x) by { if mem(i.0, x) { assert(mem(s[0], x)); } }
    }
}
// everything, before and after denormalising
#[verifier::spinoff_prover]
proof fn lemma_full<T: Finite>()
    ensures canon(one_seq(RawInterval::<T>::Full)), forall|x: T| #[trigger] smem(one_seq(RawInterval::<T>::Full), x)
{
    broadcast use grp_order, grp_fin;
    let f = RawInterval::<T>::Full;
    lemma_norm(f); lemma_canon_one(norm(f));
    assert(denorm(norm(f)) == f);
}
#[verifier::spinoff_prover]
proof fn lemma_list_raw<T: Finite>(s: Seq<RawInterval<T>>)
    ensures s.len() > 0 ==> forall|x: T| #![trigger anyr(s, x)] #![trigger anyr(s.skip(1), x)] #![trigger mem(s[0], x)] anyr(s, x) == (mem(s[0], x) || anyr(s.skip(1), x)), s.len() == 0 ==> forall|x: T| !(#[trigger] anyr(s, x))
{
    if s.len() > 0 {
        let z = s.skip(1);
        assert forall|x: T| #[trigger] anyr(s, x) == (mem(s[0], x) || anyr(z, x)) by {
            if anyr(s, x) && !mem(s[0], x) { let i = choose|i: int| 0 <= i < s.len() && mem(#[trigger] s[i], x); assert(z[i - 1] == s[i]); }
            if anyr(z, x) { let i = choose|i: int| 0 <= i < z.len() && mem(#[trigger] z[i], x); assert(s[i + 1] == z[i]); }
        }
    }
}
// the pieces of a tree have its members
#[verifier::spinoff_prover]
proof fn lemma_pcs_mem<T: Finite>(t: Seq<Tine<T>>)
    requires wf(t)
    ensures forall|x: T| #[trigger] anyr(pcs(t), x) == smem(t, x)
{
    lemma_cover(t); lemma_pcs_ascending(t);
    let q = pcs(t);
    assert forall|x: T| #[trigger] anyr(q, x) == smem(t, x) by { lemma_ior_mem(q, x); assert(tri(t, Pos::At(x)) == ior(q, Pos::At(x))); }
}
#[verifier::spinoff_prover]
proof fn lemma_points<T: Finite>(s: Seq<T>)
    ensures s.len() > 0 ==> forall|x: T| #![trigger anyr(pts(s), x)] #![trigger anyr(pts(s.skip(1)), x)] #![trigger mem(RawInterval::Point(s[0]), x)] anyr(pts(s), x) == (x == s[0] || anyr(pts(s.skip(1)), x)), s.len() == 0 ==> forall|x: T| !(#[trigger] anyr(pts(s), x))
{
    broadcast use grp_order;
    if s.len() > 0 {
        assert(pts(s).skip(1) =~= pts(s.skip(1)));
        assert forall|x: T| #[trigger] anyr(pts(s), x) == (x == s[0] || anyr(pts(s.skip(1)), x)) by { lemma_any_skip(pts(s), x); assert(mem(RawInterval::Point(s[0]), x) == (x == s[0])); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_from_tree<T: Finite>(t: Seq<Tine<T>>)
    requires wf(t)
    ensures canrs(iv(ivs(norms(pcs(t))))), forall|x: T| #[trigger] anyr(iv(ivs(norms(pcs(t)))), x) == smem(t, x)
{
    lemma_cover(t); lemma_pcs_ascending(t);
    let q = pcs(t); let n = norms(q);
    assert(iv(ivs(n)) =~= n);
    assert forall|i: int| 0 <= i < n.len() implies canr(#[trigger] n[i]) by { lemma_norm(q[i]); }
    assert forall|x: T| #[trigger] anyr(n, x) == smem(t, x) by { lemma_anyr_norms(q, x); lemma_ior_mem(q, x); assert(tri(t, Pos::At(x)) == ior(q, Pos::At(x))); }
}
// what every selection's tree says of itself
#[verifier::spinoff_prover]
proof fn lemma_sel_all<T: Finite>()
    ensures forall|s: Seq<Tine<T>>| #[trigger] canon(s) ==> wf(s) && (pcs(s).len() == 0) == (s.len() == 0) && ((s.len() == 0) == (forall|x: T| !(#[trigger] smem(s, x)))) && ((s == one_seq(RawInterval::<T>::Full)) == (forall|x: T| #[trigger] smem(s, x)))
{
    assert forall|s: Seq<Tine<T>>| #[trigger] canon(s) implies wf(s) && (pcs(s).len() == 0) == (s.len() == 0) && ((s.len() == 0) == (forall|x: T| !(#[trigger] smem(s, x)))) && ((s == one_seq(RawInterval::<T>::Full)) == (forall|x: T| #[trigger] smem(s, x))) by {
        lemma_canon(s); lemma_sel_ends(s); lemma_canon_ends(s);
    }
}
