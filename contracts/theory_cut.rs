// ---- a calculus of cuts, for code that takes sequences apart and puts them together (all proved) ----
#[verifier::opaque]
pub open spec fn allb<T>(x: Seq<Tine<T>>, p: Pos<T>) -> bool { forall|j: int| 0 <= j < x.len() ==> plt(tpos(#[trigger] x[j]), p) }
#[verifier::opaque]
pub open spec fn alla<T>(x: Seq<Tine<T>>, p: Pos<T>) -> bool { forall|j: int| 0 <= j < x.len() ==> plt(p, tpos(#[trigger] x[j])) }
#[verifier::opaque]
pub open spec fn ord<T>(s: Seq<Tine<T>>) -> bool { wfo(s) }
pub broadcast proof fn cut_ord<T>(s: Seq<Tine<T>>) ensures #![trigger ord(s)] #![trigger wfo(s)] ord(s) == wfo(s) { reveal(ord); }

pub broadcast proof fn cut_left<T>(s: Seq<Tine<T>>, p: Pos<T>)
    ensures ord(s) ==> allb(#[trigger] left_of(s, p), p) && ord(left_of(s, p))
{ reveal(ord); reveal(allb); if wfo(s) { lemma_cut(s, p); } }
pub broadcast proof fn cut_right<T>(s: Seq<Tine<T>>, p: Pos<T>)
    ensures ord(s) ==> alla(#[trigger] right_of(s, p), p) && ord(right_of(s, p))
{ reveal(ord); reveal(alla); if wfo(s) { lemma_cut(s, p); } }
pub broadcast proof fn cut_at<T>(s: Seq<Tine<T>>, p: Pos<T>)
    ensures ord(s) && (#[trigger] tine_at(s, p)) is Some ==> t_ok(tine_at(s, p)->0) && tpos(tine_at(s, p)->0) == p
{ reveal(ord); if wfo(s) { lemma_cut(s, p); } }

// below / above a position
pub broadcast proof fn cut_b_cat<T>(x: Seq<Tine<T>>, y: Seq<Tine<T>>, p: Pos<T>)
    ensures #[trigger] allb(x + y, p) == (allb(x, p) && allb(y, p))
{
    reveal(allb);
    if allb(x + y, p) {
        assert forall|j: int| 0 <= j < x.len() implies plt(tpos(#[trigger] x[j]), p) by { assert((x + y)[j] == x[j]); }
        assert forall|j: int| 0 <= j < y.len() implies plt(tpos(#[trigger] y[j]), p) by { assert((x + y)[j + x.len()] == y[j]); }
    }
}
pub broadcast proof fn cut_a_cat<T>(x: Seq<Tine<T>>, y: Seq<Tine<T>>, p: Pos<T>)
    ensures #[trigger] alla(x + y, p) == (alla(x, p) && alla(y, p))
{
    reveal(alla);
    if alla(x + y, p) {
        assert forall|j: int| 0 <= j < x.len() implies plt(p, tpos(#[trigger] x[j])) by { assert((x + y)[j] == x[j]); }
        assert forall|j: int| 0 <= j < y.len() implies plt(p, tpos(#[trigger] y[j])) by { assert((x + y)[j + x.len()] == y[j]); }
    }
}
pub broadcast proof fn cut_b_trans<T>(x: Seq<Tine<T>>, p: Pos<T>, q: Pos<T>)
    requires #[trigger] allb(x, p), #[trigger] plt(p, q)
    ensures allb(x, q)
{ broadcast use grp_pos; reveal(allb); }
pub broadcast proof fn cut_a_trans<T>(x: Seq<Tine<T>>, p: Pos<T>, q: Pos<T>)
    requires #[trigger] alla(x, q), #[trigger] plt(p, q)
    ensures alla(x, p)
{ broadcast use grp_pos; reveal(alla); }
pub broadcast proof fn cut_b_none<T>(x: Seq<Tine<T>>, p: Pos<T>) ensures x.len() == 0 ==> #[trigger] allb(x, p) { reveal(allb); }
pub broadcast proof fn cut_a_none<T>(x: Seq<Tine<T>>, p: Pos<T>) ensures x.len() == 0 ==> #[trigger] alla(x, p) { reveal(alla); }
pub broadcast proof fn cut_b_one<T>(t: Tine<T>, p: Pos<T>) ensures #[trigger] allb(seq![t], p) == plt(tpos(t), p) { reveal(allb); if allb(seq![t], p) { assert(seq![t][0] == t); } }
pub broadcast proof fn cut_a_one<T>(t: Tine<T>, p: Pos<T>) ensures #[trigger] alla(seq![t], p) == plt(p, tpos(t)) { reveal(alla); if alla(seq![t], p) { assert(seq![t][0] == t); } }
pub broadcast proof fn cut_b_opt<T>(m: Option<Tine<T>>, p: Pos<T>) ensures #[trigger] allb(opt(m), p) == (m is Some ==> plt(tpos(m->0), p)) { reveal(allb); if m is Some && allb(opt(m), p) { assert(opt(m)[0] == m->0); } }
pub broadcast proof fn cut_a_opt<T>(m: Option<Tine<T>>, p: Pos<T>) ensures #[trigger] alla(opt(m), p) == (m is Some ==> plt(p, tpos(m->0))) { reveal(alla); if m is Some && alla(opt(m), p) { assert(opt(m)[0] == m->0); } }
pub broadcast proof fn cut_opt_none<T>(m: Option<Tine<T>>) ensures m is None ==> (#[trigger] opt(m)).len() == 0, m is Some ==> opt(m) == seq![m->0] { }

// cutting a concatenation
pub broadcast proof fn cut_cat_r<T>(x: Seq<Tine<T>>, y: Seq<Tine<T>>, p: Pos<T>)
    ensures
        #![trigger left_of(x + y, p)] #![trigger tine_at(x + y, p)] #![trigger right_of(x + y, p)]
        ord(x + y) && ord(y) && allb(x, p) ==> left_of(x + y, p) == x + left_of(y, p) && tine_at(x + y, p) == tine_at(y, p) && right_of(x + y, p) == right_of(y, p)
{ reveal(ord); if ord(x + y) && ord(y) && allb(x, p) { reveal(allb); lemma_tri_suffix(x, y, p); } }
pub broadcast proof fn cut_cat_l<T>(x: Seq<Tine<T>>, y: Seq<Tine<T>>, p: Pos<T>)
    ensures
        #![trigger left_of(x + y, p)] #![trigger tine_at(x + y, p)] #![trigger right_of(x + y, p)]
        ord(x + y) && ord(x) && alla(y, p) ==> left_of(x + y, p) == left_of(x, p) && tine_at(x + y, p) == tine_at(x, p) && right_of(x + y, p) == right_of(x, p) + y
{ reveal(ord); if ord(x + y) && ord(x) && alla(y, p) { reveal(alla); lemma_tri_prefix(x, y, p); } }
pub broadcast proof fn cut_all_b<T>(x: Seq<Tine<T>>, p: Pos<T>)
    ensures
        #![trigger left_of(x, p)] #![trigger tine_at(x, p)] #![trigger right_of(x, p)]
        ord(x) && allb(x, p) ==> left_of(x, p) == x && tine_at(x, p) is None && right_of(x, p) == Seq::<Tine<T>>::empty()
{ reveal(ord); if ord(x) && allb(x, p) { reveal(allb); let e = Seq::<Tine<T>>::empty(); assert(x =~= x + opt(None::<Tine<T>>) + e); lemma_cut_unique(x, p, x, None, e); } }
pub broadcast proof fn cut_all_a<T>(x: Seq<Tine<T>>, p: Pos<T>)
    ensures
        #![trigger left_of(x, p)] #![trigger tine_at(x, p)] #![trigger right_of(x, p)]
        ord(x) && alla(x, p) ==> left_of(x, p) == Seq::<Tine<T>>::empty() && tine_at(x, p) is None && right_of(x, p) == x
{ reveal(ord); if ord(x) && alla(x, p) { reveal(alla); let e = Seq::<Tine<T>>::empty(); assert(x =~= e + opt(None::<Tine<T>>) + x); lemma_cut_unique(x, p, e, None, x); } }
pub broadcast proof fn cut_one<T>(t: Tine<T>, p: Pos<T>)
    ensures
        #![trigger left_of(seq![t], p)] #![trigger tine_at(seq![t], p)] #![trigger right_of(seq![t], p)]
        t_ok(t) && p == tpos(t) ==> left_of(seq![t], p) == Seq::<Tine<T>>::empty() && tine_at(seq![t], p) == Some(t) && right_of(seq![t], p) == Seq::<Tine<T>>::empty()
{ if t_ok(t) && p == tpos(t) { let e = Seq::<Tine<T>>::empty(); let s = seq![t]; assert(s =~= e + opt(Some(t)) + e); lemma_cut_unique(s, p, e, Some(t), e); } }

// ordered concatenations
pub broadcast proof fn cut_ord_none<T>(x: Seq<Tine<T>>) ensures x.len() == 0 ==> #[trigger] ord(x) { reveal(ord); }
pub broadcast proof fn cut_ord_one<T>(t: Tine<T>) ensures t_ok(t) ==> #[trigger] ord(seq![t]) { reveal(ord); }
pub broadcast proof fn cut_ord_parts<T>(x: Seq<Tine<T>>, y: Seq<Tine<T>>) ensures #[trigger] ord(x + y) ==> ord(x) && ord(y) { reveal(ord); if wfo(x + y) { lemma_wfo_parts(x, y); } }
pub broadcast proof fn cut_ord_at<T>(x: Seq<Tine<T>>, y: Seq<Tine<T>>, p: Pos<T>)
    requires ord(x), ord(y), #[trigger] allb(x, p), #[trigger] alla(y, p)
    ensures ord(#[trigger] (x + y))
{ reveal(ord); reveal(allb); reveal(alla); lemma_glue(p, x, None, y); assert(x + opt(None::<Tine<T>>) + y =~= x + y); }
pub broadcast proof fn cut_ord_app<T>(x: Seq<Tine<T>>, t: Tine<T>)
    requires ord(x), t_ok(t), allb(x, tpos(t))
    ensures #[trigger] ord(x + seq![t])
{ reveal(ord); reveal(allb); let e = Seq::<Tine<T>>::empty(); lemma_glue(tpos(t), x, Some(t), e); assert(x + opt(Some(t)) + e =~= x + seq![t]); }
pub broadcast proof fn cut_ord_pre<T>(z: Seq<Tine<T>>, t: Tine<T>)
    requires ord(z), t_ok(t), alla(z, tpos(t))
    ensures #[trigger] ord(seq![t] + z)
{ reveal(ord); reveal(alla); let e = Seq::<Tine<T>>::empty(); lemma_glue(tpos(t), e, Some(t), z); assert(e + opt(Some(t)) + z =~= seq![t] + z); }
pub broadcast proof fn cut_ord_put<T>(x: Seq<Tine<T>>, t: Tine<T>, z: Seq<Tine<T>>)
    requires ord(x), ord(z), t_ok(t), allb(x, tpos(t)), alla(z, tpos(t))
    ensures #[trigger] ord(x + seq![t] + z), tine_at(x + seq![t] + z, tpos(t)) == Some(t), left_of(x + seq![t] + z, tpos(t)) == x, right_of(x + seq![t] + z, tpos(t)) == z
{ reveal(ord); reveal(allb); reveal(alla); lemma_glue(tpos(t), x, Some(t), z); assert(x + opt(Some(t)) + z =~= x + seq![t] + z); }
pub broadcast proof fn cut_nil_l<T>(x: Seq<Tine<T>>, y: Seq<Tine<T>>) ensures x.len() == 0 ==> #[trigger] (x + y) == y { if x.len() == 0 { assert(x + y =~= y); } }
pub broadcast proof fn cut_nil_r<T>(x: Seq<Tine<T>>, y: Seq<Tine<T>>) ensures y.len() == 0 ==> #[trigger] (x + y) == x { if y.len() == 0 { assert(x + y =~= x); } }
pub broadcast group grp_cut {
    cut_ord, cut_left, cut_right, cut_at, cut_b_cat, cut_a_cat, cut_b_trans, cut_a_trans, cut_b_none, cut_a_none, cut_b_one, cut_a_one, cut_b_opt, cut_a_opt, cut_opt_none,
    cut_cat_r, cut_cat_l, cut_all_b, cut_all_a, cut_one, cut_ord_none, cut_ord_one, cut_ord_parts, cut_ord_at, cut_ord_app, cut_ord_pre, cut_ord_put, cut_nil_l, cut_nil_r
}
// two positions in one well formed sequence, in the terms of the calculus
#[verifier::spinoff_prover]
proof fn lemma_two<T>(s: Seq<Tine<T>>, l: Pos<T>, u: Pos<T>)
    requires wf(s), plt(l, u)
    ensures ord(s), ord(left_of(s, l)), ord(mid_of(s, l, u)), ord(right_of(s, u)),
        right_of(s, l) == mid_of(s, l, u) + (opt(tine_at(s, u)) + right_of(s, u)), left_of(s, u) == left_of(s, l) + opt(tine_at(s, l)) + mid_of(s, l, u),
        allb(left_of(s, l), l), allb(left_of(s, l), u), alla(mid_of(s, l, u), l), allb(mid_of(s, l, u), u), alla(right_of(s, u), u), alla(right_of(s, u), l),
        tine_at(s, l) is Some ==> t_ok(tine_at(s, l)->0) && tpos(tine_at(s, l)->0) == l, tine_at(s, u) is Some ==> t_ok(tine_at(s, u)->0) && tpos(tine_at(s, u)->0) == u,
{
    reveal(ord); reveal(allb); reveal(alla); broadcast use grp_pos;
    assert(wfo(s)) by { reveal(wf); }
    lemma_cut2(s, l, u); lemma_cut(s, l); lemma_cut(s, u);
    let m = mid_of(s, l, u);
    assert(right_of(s, l) =~= m + (opt(tine_at(s, u)) + right_of(s, u)));
    assert forall|j: int| 0 <= j < m.len() implies plt(l, tpos(#[trigger] m[j])) && plt(tpos(m[j]), u) by { assert(mid_of(s, l, u)[j] == m[j]); }
}
proof fn lemma_wf_ord<T>(s: Seq<Tine<T>>) requires wf(s) ensures ord(s), wfo(s) { reveal(ord); reveal(wf); }
pub open spec fn lastopt<A>(s: Seq<A>) -> Option<A> { if s.len() > 0 { Some(s.last()) } else { None } }
pub open spec fn firstopt<A>(s: Seq<A>) -> Option<A> { if s.len() > 0 { Some(s[0]) } else { None } }
