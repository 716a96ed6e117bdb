// ---- intervals read off a tine sequence (all proved) -------------------------------
pub open spec fn itri<T>(r: RawInterval<T>, p: Pos<T>) -> Tri {
    match r {
        RawInterval::Empty => c3(false),
        RawInterval::Point(x) => point3(Tine::Point(Bound::Include(x)), p),
        _ => span3(Tine::Lower(lob(r)->0), Tine::Upper(upb(r)->0), p),
    }
}
#[verifier::spinoff_prover]
proof fn lemma_itri<T>(r: RawInterval<T>)
    requires wfr(r)
    ensures
        !(r is Empty) && !(r is Point) ==> span_ok(Tine::Lower(lob(r)->0), Tine::Upper(upb(r)->0)),
        r matches RawInterval::Point(x) ==> pt_ok(Tine::Point(Bound::Include(x))),
        forall|x: T| (#[trigger] itri(r, Pos::At(x))).m == mem(r, x),
{ broadcast use grp_order; reveal(plt); }
#[verifier::spinoff_prover]
proof fn lemma_itri_full<T>(p: Pos<T>) ensures itri(RawInterval::<T>::Full, p) == (match p { Pos::Neg => Tri { b: false, m: false, f: true }, Pos::Inf => Tri { b: true, m: false, f: false }, _ => c3(true) })
{ reveal(plt); }
pub open spec fn ior<T>(s: Seq<RawInterval<T>>, p: Pos<T>) -> Tri decreases s.len() { if s.len() == 0 { c3(false) } else { or3(itri(s[0], p), ior(s.skip(1), p)) } }

pub open spec fn pex<T>(t: Tine<T>) -> bool { t is Point && t->Point_0 is Exclude }
// the first / last interval of a sequence, and what is left
pub open spec fn phead<T>(q: Seq<Tine<T>>) -> RawInterval<T> { if pt_ok(q[0]) { RawInterval::Point(bv(tb(q[0]))->0) } else { mk(tb(q[0]), tb(q[1])) } }
pub open spec fn prest<T>(q: Seq<Tine<T>>) -> Seq<Tine<T>> { if pt_ok(q[0]) || (pex(q[1]) && q.len() > 2) { q.skip(1) } else { q.skip(2) } }
pub open spec fn plast<T>(q: Seq<Tine<T>>) -> RawInterval<T> { if pt_ok(q.last()) { RawInterval::Point(bv(tb(q.last()))->0) } else { mk(tb(q[q.len() - 2]), tb(q.last())) } }
pub open spec fn pinit<T>(q: Seq<Tine<T>>) -> Seq<Tine<T>> { if pt_ok(q.last()) || (pex(q[q.len() - 2]) && q.len() > 2) { q.drop_last() } else { q.take(q.len() - 2) } }
pub open spec fn pcs<T>(q: Seq<Tine<T>>) -> Seq<RawInterval<T>> decreases q.len() {
    if q.len() == 0 || (q.len() == 1 && !pt_ok(q[0])) { seq![] } else { seq![phead(q)] + pcs(prest(q)) }
}
// sequences met while iterating: a lower bound (or point) first, an upper bound (or point) last
pub open spec fn wfq<T>(q: Seq<Tine<T>>) -> bool {
    wfo(q) && chain(q) && (q.len() > 0 ==> (pt_ok(q[0]) || trip(q[0]).f) && (pt_ok(q.last()) || trip(q.last()).b) && (q.len() == 1 ==> pt_ok(q[0])))
}
#[verifier::spinoff_prover]
proof fn lemma_wfq_part<T>(q: Seq<Tine<T>>, i: int, j: int)
    requires wfo(q), chain(q), 0 <= i <= j <= q.len()
    ensures wfo(q.subrange(i, j)), chain(q.subrange(i, j))
{
    let x = q.subrange(i, j);
    assert forall|k: int| 0 <= k < x.len() implies t_ok(#[trigger] x[k]) by { assert(x[k] == q[k + i]); }
    assert forall|a: int, b: int| 0 <= a < b < x.len() implies #[trigger] plt(tpos(x[a]), tpos(x[b])) by { assert(plt(tpos(q[a + i]), tpos(q[b + i]))); }
    assert forall|k: int| 0 < k < x.len() implies trip(x[k - 1]).f == trip(#[trigger] x[k]).b by { assert(trip(q[k + i - 1]).f == trip(q[k + i]).b); }
}
#[verifier::spinoff_prover]
proof fn lemma_front<T>(q: Seq<Tine<T>>)
    requires wfq(q), q.len() > 0
    ensures wfq(prest(q)), pcs(q) == seq![phead(q)] + pcs(prest(q)), pcs(q).len() > 0, pcs(q)[0] == phead(q), pcs(q).skip(1) == pcs(prest(q)),
        prest(q).len() < q.len(), q.len() >= 2 || pt_ok(q[0]),
        !pt_ok(q[0]) ==> trip(q[0]).f && trip(q[1]).b && plt(tpos(q[0]), tpos(q[1])),
{
    assert(pcs(q).skip(1) =~= pcs(prest(q)));
    assert(t_ok(q[0]));
    let k = q.len() - prest(q).len();
    assert(prest(q) =~= q.subrange(k as int, q.len() as int));
    lemma_wfq_part(q, k as int, q.len() as int);
    if !pt_ok(q[0]) { assert(trip(q[0]).f == trip(q[1]).b); assert(t_ok(q[1])); }
    let z = prest(q);
    if z.len() > 0 {
        assert(z.last() == q.last());
        assert(z[0] == q[k as int]); assert(trip(q[k as int - 1]).f == trip(q[k as int]).b); assert(t_ok(q[k as int]));
    }
}
#[verifier::spinoff_prover]
proof fn lemma_back1<T>(q: Seq<Tine<T>>)
    requires wfq(q), q.len() > 0
    ensures wfq(pinit(q)), pinit(q).len() < q.len(), q.len() >= 2 || pt_ok(q.last()),
        !pt_ok(q.last()) ==> trip(q.last()).b && trip(q[q.len() - 2]).f && plt(tpos(q[q.len() - 2]), tpos(q.last())),
{
    let n = q.len() as int;
    assert(t_ok(q[n - 1]));
    let z = pinit(q);
    let k = z.len() as int;
    assert(z =~= q.subrange(0, k));
    lemma_wfq_part(q, 0, k);
    if n >= 2 { assert(trip(q[n - 2]).f == trip(q[n - 1]).b); assert(t_ok(q[n - 2])); }
    if k > 0 {
        assert(z[0] == q[0]);
        assert(z.last() == q[k - 1]); assert(trip(q[k - 1]).f == trip(q[k]).b); assert(t_ok(q[k - 1]));
    }
}
#[verifier::spinoff_prover]
proof fn lemma_back<T>(q: Seq<Tine<T>>)
    requires wfq(q), q.len() > 0
    ensures wfq(pinit(q)), pcs(q) == pcs(pinit(q)).push(plast(q)), pcs(q).len() > 0, pcs(q).last() == plast(q), pcs(q).drop_last() == pcs(pinit(q)),
        pinit(q).len() < q.len(), q.len() >= 2 || pt_ok(q.last()),
        !pt_ok(q.last()) ==> trip(q.last()).b && trip(q[q.len() - 2]).f && plt(tpos(q[q.len() - 2]), tpos(q.last())),
    decreases q.len()
{
    lemma_back1(q); lemma_front(q);
    let z = prest(q); let y = pinit(q); let n = q.len() as int;
    assert(t_ok(q[0])); assert(t_ok(q[n - 1]));
    if z.len() == 0 {
        if n >= 2 { assert(trip(q[n - 2]).f == trip(q[n - 1]).b); assert(t_ok(q[n - 2])); }
        assert(y.len() == 0);
        assert(pcs(q) =~= pcs(y).push(plast(q)));
    } else {
        lemma_back(z);
        assert(z.last() == q.last());
        if z.len() >= 2 { assert(z[z.len() - 2] == q[n - 2]); }
        assert(plast(z) == plast(q));
        lemma_front(z);
        assert(t_ok(q[1])); assert(trip(q[0]).f == trip(q[1]).b);
        if n >= 3 { assert(t_ok(q[2])); assert(trip(q[1]).f == trip(q[2]).b); }
        assert(y.len() > 0);
        assert(y[0] == q[0]);
        lemma_front(y);
        if y.len() > 1 { assert(y[1] == q[1]); }
        assert(phead(y) == phead(q));
        assert(prest(y) =~= pinit(z));
        assert(pcs(q) =~= pcs(y).push(plast(q)));
    }
    assert(pcs(q).drop_last() =~= pcs(y));
}
#[verifier::spinoff_prover]
proof fn lemma_wf_wfq<T>(s: Seq<Tine<T>>)
    requires wf(s)
    ensures wfq(s)
{ reveal(wf); if s.len() > 0 { assert(t_ok(s[0])); assert(t_ok(s.last())); } }

// below the first tine there is nothing
#[verifier::spinoff_prover]
proof fn lemma_tri_below<T>(s: Seq<Tine<T>>, p: Pos<T>)
    requires wfo(s), s.len() > 0 ==> plt(p, tpos(s[0]))
    ensures tri(s, p) == c3(false), left_of(s, p).len() == 0, tine_at(s, p) is None
{
    broadcast use grp_pos;
    let e = Seq::<Tine<T>>::empty();
    assert(s =~= e + opt(None::<Tine<T>>) + s);
    assert forall|j: int| 0 <= j < s.len() implies plt(p, tpos(#[trigger] s[j])) by { if j > 0 { assert(plt(tpos(s[0]), tpos(s[j]))); } }
    lemma_cut_unique(s, p, e, None, s);
    reveal(tri);
}
// membership of a sequence after its first tine
#[verifier::spinoff_prover]
proof fn lemma_tri_head<T>(q: Seq<Tine<T>>, p: Pos<T>)
    requires wfo(q), q.len() > 0
    ensures wfo(q.skip(1)),
        plt(p, tpos(q[0])) ==> tri(q, p) == c3(false),
        p == tpos(q[0]) ==> tri(q, p) == (Tri { b: false, m: trip(q[0]).m, f: trip(q[0]).f }) && tri(q.skip(1), p) == c3(false),
        plt(tpos(q[0]), p) && q.len() > 1 && plt(p, tpos(q[1])) ==> tri(q, p) == c3(trip(q[0]).f) && tri(q.skip(1), p) == c3(false),
        plt(tpos(q[0]), p) && q.len() > 1 && p == tpos(q[1]) ==> tri(q, p) == (Tri { b: trip(q[0]).f, m: trip(q[1]).m, f: trip(q[1]).f }),
        plt(tpos(q[0]), p) && q.len() > 1 && plt(tpos(q[1]), p) ==> tri(q, p) == tri(q.skip(1), p),
        plt(tpos(q[0]), p) && q.len() == 1 ==> tri(q, p) == c3(trip(q[0]).f) && tri(q.skip(1), p) == c3(false),
{
    broadcast use grp_pos;
    let x = seq![q[0]]; let y = q.skip(1); let e = Seq::<Tine<T>>::empty();
    assert(q =~= x + y);
    lemma_wfo_parts(x, y);
    lemma_first(q);
    if y.len() > 0 { assert(plt(tpos(q[0]), tpos(q[1]))); assert(y[0] == q[1]); lemma_first(y); }
    if plt(p, tpos(q[0])) { lemma_tri_below(q, p); }
    if p == tpos(q[0]) { reveal(tri); lemma_tri_below(y, p); }
    if plt(tpos(q[0]), p) {
        lemma_tri_suffix(x, y, p);
        assert(out(x) == trip(q[0]).f);
        if y.len() == 0 || plt(p, tpos(y[0])) { lemma_tri_below(y, p); }
        else if plt(tpos(y[0]), p) {
            lemma_cut(y, p);
            let a = left_of(y, p);
            if a.len() == 0 { let m = opt(tine_at(y, p)); let r = right_of(y, p); assert(y =~= m + r); if m.len() > 0 { assert(y[0] == m[0]); } else { assert(y[0] == r[0]); assert(plt(p, tpos(r[0]))); } }
            reveal(tri);
        } else { reveal(tri); }
    }
}
// the intervals cover exactly what the sequence says
#[verifier::spinoff_prover]
proof fn lemma_mk_tri<T>(l: Tine<T>, u: Tine<T>, p: Pos<T>)
    requires t_ok(l), t_ok(u), trip(l).f, trip(u).b, plt(tpos(l), tpos(u))
    ensures tpos(Tine::Lower(tb(l))) == tpos(l), tpos(Tine::Upper(tb(u))) == tpos(u), wfr(mk(tb(l), tb(u))), !(mk(tb(l), tb(u)) is Empty),
        lob(mk(tb(l), tb(u))) == Some(tb(l)), upb(mk(tb(l), tb(u))) == Some(tb(u)),
        itri(mk(tb(l), tb(u)), p) == (if p == tpos(l) { Tri { b: false, m: trip(l).m, f: true } } else if p == tpos(u) { Tri { b: true, m: trip(u).m, f: false } } else { c3(plt(tpos(l), p) && plt(p, tpos(u))) }),
{ lemma_mk(tb(l), tb(u)); reveal(plt); broadcast use grp_order; }
#[verifier::spinoff_prover]
proof fn lemma_cover_point<T>(q: Seq<Tine<T>>, p: Pos<T>)
    requires wfq(q), q.len() > 0, pt_ok(q[0])
    ensures tri(q, p) == or3(itri(phead(q), p), tri(q.skip(1), p))
{
    broadcast use grp_pos;
    lemma_tri_head(q, p);
    let y = q.skip(1);
    if q.len() > 1 { assert(y[0] == q[1]); assert(plt(tpos(q[0]), tpos(q[1]))); assert(t_ok(q[1])); assert(trip(q[0]).f == trip(q[1]).b); lemma_tri_head(y, p); }
    else { lemma_tri_below(y, p); }
    assert(itri(phead(q), p) == point3(q[0], p));
}
#[verifier::spinoff_prover]
proof fn lemma_cover_pair<T>(q: Seq<Tine<T>>, p: Pos<T>)
    requires wfq(q), q.len() > 1, !pt_ok(q[0]), q.len() == 2 ==> !trip(q.last()).f
    ensures tri(q, p) == or3(itri(phead(q), p), tri(prest(q), p))
{
    broadcast use plt_irrefl, plt_total;
    lemma_front(q);
    let y = q.skip(1);
    assert(t_ok(q[0])); assert(t_ok(q[1]));
    lemma_mk_tri(q[0], q[1], p);
    lemma_tri_head(q, p);
    assert(y[0] == q[1]);
    lemma_tri_head(y, p);
    let z = y.skip(1);
    if q.len() > 2 { assert(plt(tpos(q[1]), tpos(q[2]))); assert(z[0] == q[2]); assert(y[1] == q[2]); }
    if pex(q[1]) && q.len() > 2 {
        assert(prest(q) =~= y);
        if plt(p, tpos(q[0])) { plt_trans(p, tpos(q[0]), tpos(q[1])); }
    } else {
        assert(prest(q) =~= z);
        assert(!trip(q[1]).f) by { if q.len() == 2 { assert(q.last() == q[1]); } else if trip(q[1]).f { assert(pex(q[1])); } }
        if plt(p, tpos(q[0])) { plt_trans(p, tpos(q[0]), tpos(q[1])); }
        if q.len() > 2 && !plt(tpos(q[1]), p) { if plt(p, tpos(q[1])) { plt_trans(p, tpos(q[1]), tpos(q[2])); } lemma_tri_below(z, p); }
        if q.len() == 2 { lemma_tri_below(z, p); } else { lemma_tri_head(z, p); }
    }
    if plt(tpos(q[1]), p) { plt_trans(tpos(q[0]), tpos(q[1]), p); }
}
#[verifier::spinoff_prover]
proof fn lemma_cover_at<T>(q: Seq<Tine<T>>, p: Pos<T>)
    requires wfq(q), q.len() > 0 ==> !trip(q.last()).f
    ensures tri(q, p) == ior(pcs(q), p)
    decreases q.len()
{
    if q.len() == 0 { lemma_tri_below(q, p); }
    else {
        lemma_front(q);
        let z = prest(q);
        if z.len() > 0 { assert(z.last() == q.last()); }
        lemma_cover_at(z, p);
        if pt_ok(q[0]) { lemma_cover_point(q, p); } else { lemma_cover_pair(q, p); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_cover<T>(s: Seq<Tine<T>>)
    requires wf(s)
    ensures wfq(s), forall|p: Pos<T>| #[trigger] tri(s, p) == ior(pcs(s), p)
{
    lemma_wf_wfq(s);
    assert(s.len() > 0 ==> !trip(s.last()).f) by { reveal(wf); }
    assert forall|p: Pos<T>| #[trigger] tri(s, p) == ior(pcs(s), p) by { lemma_cover_at(s, p); }
}
// the intervals are proper, ascending and never touch
pub open spec fn lpos<T>(b: Bound<T>) -> Pos<T> { tpos(Tine::Lower(b)) }
pub open spec fn ascending<T>(s: Seq<RawInterval<T>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> wfr(#[trigger] s[i]) && !(s[i] is Empty)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] sep(upb(s[i])->0, lob(s[j])->0)
}
#[verifier::spinoff_prover]
proof fn lemma_pcs_ascending<T>(q: Seq<Tine<T>>)
    requires wfq(q)
    ensures ascending(pcs(q)),
        pcs(q).len() > 0 ==> q.len() > 0 && lob(pcs(q)[0]) == Some(tb(q[0])) && lpos(tb(q[0])) == tpos(q[0]),
        forall|i: int| 1 <= i < pcs(q).len() ==> plt(tpos(q[0]), lpos(lob(#[trigger] pcs(q)[i])->0)),
    decreases q.len()
{
    broadcast use grp_pos;
    if q.len() > 0 {
        lemma_front(q);
        let z = prest(q); let s = pcs(q); let w = pcs(z); let h = phead(q);
        lemma_pcs_ascending(z);
        assert(t_ok(q[0]));
        if !pt_ok(q[0]) { assert(t_ok(q[1])); lemma_mk(tb(q[0]), tb(q[1])); }
        assert(wfr(h) && !(h is Empty) && lob(h) == Some(tb(q[0]))) by { reveal(plt); broadcast use grp_order; }
        assert forall|i: int| 1 <= i < s.len() implies plt(tpos(q[0]), lpos(lob(#[trigger] s[i])->0)) && sep(upb(h)->0, lob(s[i])->0) by {
            assert(s[i] == w[i - 1]);
            let k = q.len() - z.len();
            assert(z[0] == q[k as int]);
            assert(plt(tpos(q[0]), tpos(q[k as int])));
            if k == 2 { assert(plt(tpos(q[1]), tpos(q[2]))); }
            reveal(plt); broadcast use grp_order;
        }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] sep(upb(s[i])->0, lob(s[j])->0) by {
            if i > 0 { assert(s[i] == w[i - 1]); assert(s[j] == w[j - 1]); } else { assert(s[0] == h); }
        }
        assert forall|i: int| 0 <= i < s.len() implies wfr(#[trigger] s[i]) && !(s[i] is Empty) by { if i > 0 { assert(s[i] == w[i - 1]); } }
    }
}
// membership of an interval sequence, pointwise
#[verifier::spinoff_prover]
proof fn lemma_ior_mem<T>(s: Seq<RawInterval<T>>, x: T)
    requires wfrs(s)
    ensures ior(s, Pos::At(x)).m == anyr(s, x)
    decreases s.len()
{
    if s.len() > 0 {
        let z = s.skip(1);
        assert forall|i: int| 0 <= i < z.len() implies wfr(#[trigger] z[i]) by { assert(z[i] == s[i + 1]); }
        lemma_ior_mem(z, x);
        lemma_itri(s[0]);
        assert(itri(s[0], Pos::At(x)).m == mem(s[0], x));
        if mem(s[0], x) { assert(anyr(s, x)); }
        if anyr(z, x) { let i = choose|i: int| 0 <= i < z.len() && mem(#[trigger] z[i], x); assert(mem(s[i + 1], x)); }
        if anyr(s, x) { let i = choose|i: int| 0 <= i < s.len() && mem(#[trigger] s[i], x); if i > 0 { assert(mem(z[i - 1], x)); } }
    }
}
// what an iterator over a tree still has to yield
pub open spec fn itq<T>(sl: Option<Tine<T>>, inner: Seq<Tine<T>>, su: Option<Tine<T>>) -> Seq<Tine<T>> { opt(sl) + inner + opt(su) }
pub open spec fn itok<T>(sl: Option<Tine<T>>, inner: Seq<Tine<T>>, su: Option<Tine<T>>) -> bool {
    &&& wfq(itq(sl, inner, su))
    &&& sl is Some ==> pex(sl->0)
    &&& su is Some ==> pex(su->0)
    &&& sl is None && inner.len() > 0 ==> !pex(inner[0])
    &&& su is None && inner.len() > 0 ==> !pex(inner.last())
    &&& sl is None && su is Some ==> inner.len() > 0
    &&& sl is Some && su is None ==> inner.len() > 0
}
pub open spec fn popfirst<A>(s: Seq<A>) -> Seq<A> { if s.len() > 0 { s.skip(1) } else { s } }
pub open spec fn poplast<A>(s: Seq<A>) -> Seq<A> { if s.len() > 0 { s.drop_last() } else { s } }
// the state an iterator should be in after yielding from the front
pub open spec fn fst_lower<T>(sl: Option<Tine<T>>, i: Seq<Tine<T>>) -> Tine<T> { if sl is Some { sl->0 } else { i[0] } }
pub open spec fn fst_rest<T>(sl: Option<Tine<T>>, i: Seq<Tine<T>>) -> Seq<Tine<T>> { if sl is Some { i } else { i.skip(1) } }
#[verifier::spinoff_prover]
proof fn lemma_step_front<T>(sl: Option<Tine<T>>, i: Seq<Tine<T>>, su: Option<Tine<T>>)
    requires itok(sl, i, su)
    ensures ({
        let q = itq(sl, i, su); let lo = fst_lower(sl, i); let m = fst_rest(sl, i);
        if sl is None && i.len() == 0 { su is None && q.len() == 0 && pcs(q).len() == 0 }
        else if pt_ok(lo) {
            sl is None && t_ok(lo) && pcs(q).len() > 0 && pcs(q)[0] == RawInterval::Point(bv(tb(lo))->0) && itok(None, m, su) && pcs(itq(None, m, su)) == pcs(q).skip(1)
        } else {
            &&& t_ok(lo) && trip(lo).f && pcs(q).len() > 0
            &&& m.len() > 0 ==> {
                &&& t_ok(m[0]) && trip(m[0]).b && nonempty(tb(lo), tb(m[0])) && !half_point(tb(lo), tb(m[0])) && pcs(q)[0] == mk(tb(lo), tb(m[0]))
                &&& pex(m[0]) ==> itok(Some(m[0]), m.skip(1), su) && pcs(itq(Some(m[0]), m.skip(1), su)) == pcs(q).skip(1)
                &&& !pex(m[0]) ==> itok(None, m.skip(1), su) && pcs(itq(None, m.skip(1), su)) == pcs(q).skip(1)
            }
            &&& m.len() == 0 ==> {
                &&& su is Some && t_ok(su->0) && trip(su->0).b && nonempty(tb(lo), tb(su->0)) && !half_point(tb(lo), tb(su->0)) && pcs(q)[0] == mk(tb(lo), tb(su->0))
                &&& itok(None, m, None) && pcs(itq(None, m, None)) == pcs(q).skip(1)
            }
        }
    })
{
    let q = itq(sl, i, su); let lo = fst_lower(sl, i); let m = fst_rest(sl, i);
    if !(sl is None && i.len() == 0) {
        lemma_front(q);
        assert(q =~= seq![lo] + m + opt(su));
        assert(q[0] == lo); assert(t_ok(q[0]));
        if q.len() > 1 { assert(t_ok(q[1])); assert(trip(q[0]).f == trip(q[1]).b); }
        if q.len() > 2 { assert(t_ok(q[2])); assert(trip(q[1]).f == trip(q[2]).b); }
        if m.len() > 1 { assert(q[2] == m[1]); }
        if pt_ok(lo) {
            assert(itq(None, m, su) =~= prest(q));
            if m.len() > 0 { assert(q[1] == m[0]); assert(i.last() == m.last()); } else if su is Some { assert(q[1] == su->0); }
        } else if m.len() > 0 {
            assert(q[1] == m[0]);
            assert(i.last() == m.last());
            if m.len() == 1 && su is Some { assert(q[2] == su->0); }
            if m.len() > 1 { assert(m.skip(1).last() == m.last()); }
            lemma_mk_tri(q[0], q[1], tpos(q[0]));
            assert(nonempty(tb(lo), tb(m[0])) && !half_point(tb(lo), tb(m[0]))) by { reveal(plt); broadcast use grp_order; }
            if pex(m[0]) { assert(itq(Some(m[0]), m.skip(1), su) =~= prest(q)); } else { assert(itq(None, m.skip(1), su) =~= prest(q)); }
        } else {
            assert(q[1] == su->0);
            lemma_mk_tri(q[0], q[1], tpos(q[0]));
            assert(nonempty(tb(lo), tb(su->0)) && !half_point(tb(lo), tb(su->0))) by { reveal(plt); broadcast use grp_order; }
            assert(itq(None, m, None) =~= prest(q));
        }
    }
}
pub open spec fn lst_upper<T>(i: Seq<Tine<T>>, su: Option<Tine<T>>) -> Tine<T> { if su is Some { su->0 } else { i.last() } }
pub open spec fn lst_rest<T>(i: Seq<Tine<T>>, su: Option<Tine<T>>) -> Seq<Tine<T>> { if su is Some { i } else { i.drop_last() } }
#[verifier::spinoff_prover]
proof fn lemma_step_back_point<T>(sl: Option<Tine<T>>, i: Seq<Tine<T>>, su: Option<Tine<T>>)
    requires itok(sl, i, su), su is Some || i.len() > 0, pt_ok(lst_upper(i, su))
    ensures su is None, t_ok(i.last()), pcs(itq(sl, i, su)).len() > 0, pcs(itq(sl, i, su)).last() == RawInterval::Point(bv(tb(i.last()))->0),
        itok(sl, i.drop_last(), None), pcs(itq(sl, i.drop_last(), None)) == pcs(itq(sl, i, su)).drop_last()
{
    let q = itq(sl, i, su); let up = i.last(); let m = i.drop_last(); let n = q.len() as int;
    lemma_back(q);
    assert(q =~= opt(sl) + m + seq![up]);
    assert(q[n - 1] == up); assert(t_ok(q[n - 1]));
    if n > 1 { assert(t_ok(q[n - 2])); assert(trip(q[n - 2]).f == trip(q[n - 1]).b); }
    assert(itq(sl, m, None) =~= pinit(q));
    if m.len() > 0 { assert(q[n - 2] == m.last()); assert(i[0] == m[0]); } else if sl is Some { assert(q[n - 2] == sl->0); }
}
#[verifier::spinoff_prover]
proof fn lemma_step_back_inner<T>(sl: Option<Tine<T>>, i: Seq<Tine<T>>, su: Option<Tine<T>>)
    requires itok(sl, i, su), su is Some || i.len() > 0, !pt_ok(lst_upper(i, su)), lst_rest(i, su).len() > 0
    ensures ({
        let q = itq(sl, i, su); let up = lst_upper(i, su); let m = lst_rest(i, su);
        &&& t_ok(up) && trip(up).b && pcs(q).len() > 0
        &&& t_ok(m.last()) && trip(m.last()).f && nonempty(tb(m.last()), tb(up)) && !half_point(tb(m.last()), tb(up)) && pcs(q).last() == mk(tb(m.last()), tb(up))
        &&& pex(m.last()) ==> itok(sl, m.drop_last(), Some(m.last())) && pcs(itq(sl, m.drop_last(), Some(m.last()))) == pcs(q).drop_last()
        &&& !pex(m.last()) ==> itok(sl, m.drop_last(), None) && pcs(itq(sl, m.drop_last(), None)) == pcs(q).drop_last()
    })
{
    let q = itq(sl, i, su); let up = lst_upper(i, su); let m = lst_rest(i, su); let n = q.len() as int; let w = m.drop_last();
    lemma_back(q);
    assert(q =~= opt(sl) + m + seq![up]);
    assert(q[n - 1] == up); assert(t_ok(q[n - 1]));
    assert(t_ok(q[n - 2])); assert(trip(q[n - 2]).f == trip(q[n - 1]).b);
    if n > 2 { assert(t_ok(q[n - 3])); assert(trip(q[n - 3]).f == trip(q[n - 2]).b); }
    assert(q[n - 2] == m.last());
    assert(i[0] == m[0]);
    if w.len() > 0 { assert(q[n - 3] == w.last()); assert(w[0] == m[0]); }
    else if sl is Some { assert(q[n - 3] == sl->0); }
    assert(nonempty(tb(m.last()), tb(up)) && !half_point(tb(m.last()), tb(up))) by { reveal(plt); broadcast use grp_order; }
    if pex(m.last()) { assert(itq(sl, w, Some(m.last())) =~= pinit(q)); } else { assert(itq(sl, w, None) =~= pinit(q)); }
}
#[verifier::spinoff_prover]
proof fn lemma_step_back_saved<T>(sl: Option<Tine<T>>, i: Seq<Tine<T>>, su: Option<Tine<T>>)
    requires itok(sl, i, su), su is Some || i.len() > 0, !pt_ok(lst_upper(i, su)), lst_rest(i, su).len() == 0
    ensures ({
        let q = itq(sl, i, su); let up = lst_upper(i, su); let m = lst_rest(i, su);
        &&& t_ok(up) && trip(up).b && pcs(q).len() > 0
        &&& sl is Some && t_ok(sl->0) && trip(sl->0).f && nonempty(tb(sl->0), tb(up)) && !half_point(tb(sl->0), tb(up)) && pcs(q).last() == mk(tb(sl->0), tb(up))
        &&& itok(None, m, None) && pcs(itq(None, m, None)) == pcs(q).drop_last()
    })
{
    let q = itq(sl, i, su); let up = lst_upper(i, su); let m = lst_rest(i, su); let n = q.len() as int;
    lemma_back(q);
    assert(q =~= opt(sl) + m + seq![up]);
    assert(q[n - 1] == up); assert(t_ok(q[n - 1]));
    assert(q[n - 2] == sl->0); assert(t_ok(q[n - 2])); assert(trip(q[n - 2]).f == trip(q[n - 1]).b);
    assert(nonempty(tb(sl->0), tb(up)) && !half_point(tb(sl->0), tb(up))) by { reveal(plt); broadcast use grp_order; }
    assert(itq(None, m, None) =~= pinit(q));
}
#[verifier::spinoff_prover]
proof fn lemma_step_back<T>(sl: Option<Tine<T>>, i: Seq<Tine<T>>, su: Option<Tine<T>>)
    requires itok(sl, i, su)
    ensures ({
        let q = itq(sl, i, su); let up = lst_upper(i, su); let m = lst_rest(i, su);
        if su is None && i.len() == 0 { sl is None && q.len() == 0 && pcs(q).len() == 0 }
        else if pt_ok(up) {
            su is None && t_ok(up) && pcs(q).len() > 0 && pcs(q).last() == RawInterval::Point(bv(tb(up))->0) && itok(sl, m, None) && pcs(itq(sl, m, None)) == pcs(q).drop_last()
        } else {
            &&& t_ok(up) && trip(up).b && pcs(q).len() > 0
            &&& m.len() > 0 ==> {
                &&& t_ok(m.last()) && trip(m.last()).f && nonempty(tb(m.last()), tb(up)) && !half_point(tb(m.last()), tb(up)) && pcs(q).last() == mk(tb(m.last()), tb(up))
                &&& pex(m.last()) ==> itok(sl, m.drop_last(), Some(m.last())) && pcs(itq(sl, m.drop_last(), Some(m.last()))) == pcs(q).drop_last()
                &&& !pex(m.last()) ==> itok(sl, m.drop_last(), None) && pcs(itq(sl, m.drop_last(), None)) == pcs(q).drop_last()
            }
            &&& m.len() == 0 ==> {
                &&& sl is Some && t_ok(sl->0) && trip(sl->0).f && nonempty(tb(sl->0), tb(up)) && !half_point(tb(sl->0), tb(up)) && pcs(q).last() == mk(tb(sl->0), tb(up))
                &&& itok(None, m, None) && pcs(itq(None, m, None)) == pcs(q).drop_last()
            }
        }
    })
{
    if su is None && i.len() == 0 { if sl is Some { } }
    else if pt_ok(lst_upper(i, su)) { lemma_step_back_point(sl, i, su); }
    else if lst_rest(i, su).len() > 0 { lemma_step_back_inner(sl, i, su); }
    else { lemma_step_back_saved(sl, i, su); }
}
// ---- whole trees ------------------------------------------------------------------
pub open spec fn one_seq<T>(r: RawInterval<T>) -> Seq<Tine<T>> {
    match r { RawInterval::Empty => seq![], RawInterval::Point(x) => seq![Tine::Point(Bound::Include(x))], _ => seq![Tine::Lower(lob(r)->0), Tine::Upper(upb(r)->0)] }
}
#[verifier::spinoff_prover]
proof fn lemma_one<T>(r: RawInterval<T>)
    requires wfr(r)
    ensures wf(one_seq(r)), wfo(one_seq(r)), forall|p: Pos<T>| #[trigger] tri(one_seq(r), p) == itri(r, p)
{
    let s = one_seq(r);
    lemma_itri(r); lemma_wfr(r);
    assert(wf(s)) by { reveal(wf); }
    assert(wfo(s)) by { reveal(wf); }
    lemma_cover(s);
    assert forall|p: Pos<T>| #[trigger] tri(s, p) == itri(r, p) by {
        if s.len() > 0 {
            lemma_front(s);
            let z = prest(s);
            assert(z.len() == 0); assert(pcs(z).len() == 0);
            assert(phead(s) == r);
            assert(pcs(s).len() == 1);
            assert(ior(pcs(s).skip(1), p) == c3(false));
        } else { assert(pcs(s).len() == 0); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_nothing<T>(s: Seq<Tine<T>>)
    requires s.len() == 0
    ensures wf(s), forall|p: Pos<T>| #[trigger] tri(s, p) == c3(false)
{ reveal(wf); assert forall|p: Pos<T>| #[trigger] tri(s, p) == c3(false) by { lemma_tri_below(s, p); } }
// nothing united out of two trees: neither has a member
#[verifier::spinoff_prover]
proof fn lemma_or_none<T>(a: Seq<Tine<T>>, b: Seq<Tine<T>>)
    ensures forall|s: Seq<Tine<T>>| #[trigger] wf(s) && s.len() == 0 && (forall|p: Pos<T>| #[trigger] tri(s, p) == or3(tri(a, p), tri(b, p))) ==> forall|x: T| !smem(a, x) && !smem(b, x)
{
    assert forall|s: Seq<Tine<T>>| #[trigger] wf(s) && s.len() == 0 && (forall|p: Pos<T>| #[trigger] tri(s, p) == or3(tri(a, p), tri(b, p))) implies forall|x: T| !smem(a, x) && !smem(b, x) by {
        lemma_nothing(s);
        assert forall|x: T| !smem(a, x) && !smem(b, x) by { assert(tri(s, Pos::At(x)) == c3(false)); }
    }
}
// membership at the ends of the line
#[verifier::spinoff_prover]
proof fn lemma_ends_tri<T>(s: Seq<Tine<T>>)
    requires wf(s)
    ensures !tri(s, Pos::Neg).b, !tri(s, Pos::Neg).m, !tri(s, Pos::Inf).m, !tri(s, Pos::Inf).f
{ lemma_tri(s, Pos::Neg); lemma_tri(s, Pos::Inf); }
pub open spec fn enc<T>(s: Seq<Tine<T>>) -> RawInterval<T> {
    if s.len() == 0 { RawInterval::Empty } else if s.len() == 1 { RawInterval::Point(bv(tb(s[0]))->0) } else { mk(tb(s[0]), tb(s.last())) }
}
#[verifier::spinoff_prover]
proof fn lemma_enc<T>(s: Seq<Tine<T>>)
    requires wf(s)
    ensures wfr(enc(s)), enc(s) is Empty == (s.len() == 0), s.len() > 0 ==> lob(enc(s)) == Some(tb(s[0])) && upb(enc(s)) == Some(tb(s.last())),
        s.len() == 1 ==> pt_ok(s[0]), s.len() > 1 ==> !half_point(tb(s[0]), tb(s.last())),
        forall|x: T| (#[trigger] tri(s, Pos::At(x))).m ==> mem(enc(s), x),
{
    broadcast use grp_order;
    assert(wfo(s)) by { reveal(wf); }
    lemma_wf_wfq(s);
    if s.len() > 0 { assert(t_ok(s[0])); assert(t_ok(s.last())); assert(!trip(s[0]).b && !trip(s.last()).f) by { reveal(wf); } }
    if s.len() > 1 {
        assert(plt(tpos(s[0]), tpos(s[s.len() - 1])));
        lemma_mk(tb(s[0]), tb(s.last())); reveal(plt);
    }
    assert forall|x: T| (#[trigger] tri(s, Pos::At(x))).m implies mem(enc(s), x) by {
        let p = Pos::At(x);
        lemma_tri(s, p); lemma_cut(s, p);
        let a = left_of(s, p); let m = tine_at(s, p); let z = right_of(s, p);
        reveal(plt);
        if s.len() == 0 { lemma_nothing(s); }
        if a.len() > 0 { assert(s[0] == a[0]); assert(plt(tpos(a[0]), p)); } else if m is Some { assert(s[0] == m->0); } else { assert(bef(s, p) == false); }
        if z.len() > 0 { assert(s.last() == z.last()); assert(plt(p, tpos(z[z.len() - 1]))); } else if m is Some { assert(s.last() == m->0); } else { }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_start<T>(s: Seq<Tine<T>>)
    requires wf(s)
    ensures itok(None, s, None), itq(None, s, None) == s
{
    assert(itq(None, s, None) =~= s);
    lemma_wf_wfq(s);
    assert(s.len() > 0 ==> !trip(s[0]).b && !trip(s.last()).f) by { reveal(wf); }
}
// ---- a set of marks as a map from positions, for code that fills one in any order
pub broadcast proof fn at_none<T>(s: Seq<Tine<T>>, q: Pos<T>) ensures s.len() == 0 ==> (#[trigger] tine_at(s, q)) is None && wfo(s)
{ if s.len() == 0 { lemma_nothing(s); lemma_cut(s, q); } }
pub broadcast proof fn at_put<T>(s: Seq<Tine<T>>, t: Tine<T>, q: Pos<T>)
    ensures wfo(s) && t_ok(t) ==> (#[trigger] tine_at(left_of(s, tpos(t)) + seq![t] + right_of(s, tpos(t)), q)) == (if q == tpos(t) { Some(t) } else { tine_at(s, q) })
{
    let p = tpos(t);
    if wfo(s) && t_ok(t) {
        assert(left_of(s, p) + seq![t] + right_of(s, p) =~= left_of(s, p) + opt(Some(t)) + right_of(s, p));
        lemma_at_set(s, p, Some(t), q);
    }
}
pub broadcast proof fn at_del<T>(s: Seq<Tine<T>>, p: Pos<T>, q: Pos<T>)
    ensures wfo(s) ==> (#[trigger] tine_at(left_of(s, p) + right_of(s, p), q)) == (if q == p { None } else { tine_at(s, q) })
{
    if wfo(s) {
        assert(left_of(s, p) + right_of(s, p) =~= left_of(s, p) + opt(None::<Tine<T>>) + right_of(s, p));
        lemma_at_set(s, p, None, q);
    }
}
#[verifier::spinoff_prover]
proof fn lemma_at_set<T>(s: Seq<Tine<T>>, p: Pos<T>, m: Option<Tine<T>>, q: Pos<T>)
    requires wfo(s), m is Some ==> t_ok(m->0) && tpos(m->0) == p
    ensures wfo(left_of(s, p) + opt(m) + right_of(s, p)), tine_at(left_of(s, p) + opt(m) + right_of(s, p), q) == (if q == p { m } else { tine_at(s, q) })
{
    broadcast use grp_pos;
    let (a, z, o) = (left_of(s, p), right_of(s, p), tine_at(s, p));
    let r = a + opt(m) + z;
    lemma_cut(s, p); lemma_glue(p, a, m, z);
    assert(s =~= a + opt(o) + z);
    lemma_cut_unique(r, p, a, m, z);
    let (x, y) = (opt(m) + z, opt(o) + z);
    assert(r =~= a + x); assert(s =~= a + y);
    if plt(q, p) {
        assert forall|j: int| 0 <= j < x.len() implies plt(q, tpos(#[trigger] x[j])) by { if j >= opt(m).len() { assert(x[j] == z[j - opt(m).len()]); } }
        assert forall|j: int| 0 <= j < y.len() implies plt(q, tpos(#[trigger] y[j])) by { if j >= opt(o).len() { assert(y[j] == z[j - opt(o).len()]); } }
        lemma_tri_prefix(a, x, q); lemma_tri_prefix(a, y, q);
    } else if q != p {
        assert(plt(p, q));
        let (b, c) = (a + opt(m), a + opt(o));
        assert forall|j: int| 0 <= j < b.len() implies plt(tpos(#[trigger] b[j]), q) by { if j < a.len() { assert(b[j] == a[j]); } }
        assert forall|j: int| 0 <= j < c.len() implies plt(tpos(#[trigger] c[j]), q) by { if j < a.len() { assert(c[j] == a[j]); } }
        lemma_tri_suffix(b, z, q); lemma_tri_suffix(c, z, q);
    }
}
pub broadcast proof fn put_ord<T>(s: Seq<Tine<T>>, t: Tine<T>)
    ensures wfo(s) && t_ok(t) ==> wfo(#[trigger] (left_of(s, tpos(t)) + seq![t] + right_of(s, tpos(t))))
{ let p = tpos(t); if wfo(s) && t_ok(t) { assert(left_of(s, p) + seq![t] + right_of(s, p) =~= left_of(s, p) + opt(Some(t)) + right_of(s, p)); lemma_at_set(s, p, Some(t), p); } }
pub broadcast proof fn del_ord<T>(s: Seq<Tine<T>>, p: Pos<T>)
    ensures wfo(s) ==> wfo(#[trigger] (left_of(s, p) + right_of(s, p)))
{ if wfo(s) { assert(left_of(s, p) + right_of(s, p) =~= left_of(s, p) + opt(None::<Tine<T>>) + right_of(s, p)); lemma_at_set(s, p, None, p); } }
// a list of marks of `s`, each position once
#[verifier::opaque]
pub open spec fn hasp<T>(a: Seq<Tine<T>>, q: Pos<T>) -> bool { exists|i: int| 0 <= i < a.len() && tpos(#[trigger] a[i]) == q }
#[verifier::opaque]
pub open spec fn once<T>(a: Seq<Tine<T>>) -> bool { forall|i: int, j: int| 0 <= i < j < a.len() ==> tpos(#[trigger] a[i]) != tpos(#[trigger] a[j]) }
#[verifier::opaque]
pub open spec fn marks_of<T>(a: Seq<Tine<T>>, s: Seq<Tine<T>>) -> bool { forall|i: int| 0 <= i < a.len() ==> t_ok(#[trigger] a[i]) && tine_at(s, tpos(a[i])) == Some(a[i]) }
pub broadcast proof fn has_none<T>(a: Seq<Tine<T>>, q: Pos<T>) ensures a.len() == 0 ==> !(#[trigger] hasp(a, q)) { reveal(hasp); }
pub broadcast proof fn has_front<T>(a: Seq<Tine<T>>, q: Pos<T>)
    ensures once(a) && a.len() > 0 ==> (#[trigger] hasp(a.skip(1), q)) == (hasp(a, q) && q != tpos(a[0]))
{
    reveal(hasp); reveal(once);
    if once(a) && a.len() > 0 {
        let b = a.skip(1);
        if hasp(b, q) { let i = choose|i: int| 0 <= i < b.len() && tpos(#[trigger] b[i]) == q; assert(a[i + 1] == b[i]); assert(tpos(a[0]) != tpos(a[i + 1])); }
        if hasp(a, q) && q != tpos(a[0]) { let i = choose|i: int| 0 <= i < a.len() && tpos(#[trigger] a[i]) == q; assert(b[i - 1] == a[i]); }
    }
}
pub broadcast proof fn has_back<T>(a: Seq<Tine<T>>, q: Pos<T>)
    ensures once(a) && a.len() > 0 ==> (#[trigger] hasp(a.drop_last(), q)) == (hasp(a, q) && q != tpos(a.last()))
{
    reveal(hasp); reveal(once);
    if once(a) && a.len() > 0 {
        let b = a.drop_last();
        if hasp(b, q) { let i = choose|i: int| 0 <= i < b.len() && tpos(#[trigger] b[i]) == q; assert(a[i] == b[i]); assert(tpos(a[i]) != tpos(a[a.len() - 1])); }
        if hasp(a, q) && q != tpos(a.last()) { let i = choose|i: int| 0 <= i < a.len() && tpos(#[trigger] a[i]) == q; assert(b[i] == a[i]); }
    }
}
pub broadcast proof fn has_rev<T>(a: Seq<Tine<T>>, q: Pos<T>)
    ensures (#[trigger] hasp(a.reverse(), q)) == hasp(a, q)
{
    reveal(hasp);
    let b = a.reverse();
    if hasp(b, q) { let i = choose|i: int| 0 <= i < b.len() && tpos(#[trigger] b[i]) == q; assert(a[a.len() - 1 - i] == b[i]); }
    if hasp(a, q) { let i = choose|i: int| 0 <= i < a.len() && tpos(#[trigger] a[i]) == q; assert(b[a.len() - 1 - i] == a[i]); }
}
pub broadcast proof fn once_front<T>(a: Seq<Tine<T>>) ensures once(a) && a.len() > 0 ==> #[trigger] once(a.skip(1))
{ reveal(once); if once(a) && a.len() > 0 { let b = a.skip(1); assert forall|i: int, j: int| 0 <= i < j < b.len() implies tpos(#[trigger] b[i]) != tpos(#[trigger] b[j]) by { assert(b[i] == a[i + 1] && b[j] == a[j + 1]); } } }
pub broadcast proof fn once_back<T>(a: Seq<Tine<T>>) ensures once(a) && a.len() > 0 ==> #[trigger] once(a.drop_last())
{ reveal(once); if once(a) && a.len() > 0 { let b = a.drop_last(); assert forall|i: int, j: int| 0 <= i < j < b.len() implies tpos(#[trigger] b[i]) != tpos(#[trigger] b[j]) by { assert(b[i] == a[i] && b[j] == a[j]); } } }
pub broadcast proof fn once_rev<T>(a: Seq<Tine<T>>) ensures once(a) ==> #[trigger] once(a.reverse())
{ reveal(once); if once(a) { let b = a.reverse(); let n = a.len() - 1; assert forall|i: int, j: int| 0 <= i < j < b.len() implies tpos(#[trigger] b[i]) != tpos(#[trigger] b[j]) by { assert(b[i] == a[n - i] && b[j] == a[n - j]); } } }
pub broadcast proof fn marks_front<T>(a: Seq<Tine<T>>, s: Seq<Tine<T>>) ensures marks_of(a, s) && a.len() > 0 ==> #[trigger] marks_of(a.skip(1), s)
{ reveal(marks_of); if marks_of(a, s) && a.len() > 0 { let b = a.skip(1); assert forall|i: int| 0 <= i < b.len() implies t_ok(#[trigger] b[i]) && tine_at(s, tpos(b[i])) == Some(b[i]) by { assert(b[i] == a[i + 1]); } } }
pub broadcast proof fn marks_back<T>(a: Seq<Tine<T>>, s: Seq<Tine<T>>) ensures marks_of(a, s) && a.len() > 0 ==> #[trigger] marks_of(a.drop_last(), s)
{ reveal(marks_of); if marks_of(a, s) && a.len() > 0 { let b = a.drop_last(); assert forall|i: int| 0 <= i < b.len() implies t_ok(#[trigger] b[i]) && tine_at(s, tpos(b[i])) == Some(b[i]) by { assert(b[i] == a[i]); } } }
pub broadcast proof fn marks_rev<T>(a: Seq<Tine<T>>, s: Seq<Tine<T>>) ensures marks_of(a, s) ==> #[trigger] marks_of(a.reverse(), s)
{ reveal(marks_of); if marks_of(a, s) { let b = a.reverse(); assert forall|i: int| 0 <= i < b.len() implies t_ok(#[trigger] b[i]) && tine_at(s, tpos(b[i])) == Some(b[i]) by { assert(b[i] == a[a.len() - 1 - i]); } } }
pub broadcast proof fn marks_ends<T>(a: Seq<Tine<T>>, s: Seq<Tine<T>>)
    ensures (#[trigger] marks_of(a, s)) && a.len() > 0 ==> t_ok(a[0]) && tine_at(s, tpos(a[0])) == Some(a[0]) && hasp(a, tpos(a[0])) && t_ok(a.last()) && tine_at(s, tpos(a.last())) == Some(a.last()) && hasp(a, tpos(a.last()))
{ reveal(marks_of); reveal(hasp); if marks_of(a, s) && a.len() > 0 { assert(t_ok(a[0])); assert(t_ok(a[a.len() - 1])); } }
pub broadcast group grp_map { at_none, at_put, at_del, put_ord, del_ord, has_none, has_front, has_back, has_rev, once_front, once_back, once_rev, marks_front, marks_back, marks_rev, marks_ends }
#[verifier::spinoff_prover]
proof fn lemma_at_index<T>(s: Seq<Tine<T>>, a: int)
    requires wfo(s), 0 <= a < s.len()
    ensures tine_at(s, tpos(s[a])) == Some(s[a])
{
    let x = s.take(a); let z = s.skip(a + 1);
    assert(s =~= x + opt(Some(s[a])) + z);
    assert forall|j: int| 0 <= j < x.len() implies plt(tpos(#[trigger] x[j]), tpos(s[a])) by { assert(x[j] == s[j]); assert(plt(tpos(s[j]), tpos(s[a]))); }
    assert forall|j: int| 0 <= j < z.len() implies plt(tpos(s[a]), tpos(#[trigger] z[j])) by { assert(z[j] == s[j + a + 1]); assert(plt(tpos(s[a]), tpos(s[j + a + 1]))); }
    lemma_cut_unique(s, tpos(s[a]), x, Some(s[a]), z);
}
// the marks a position finds are those of the sequence
#[verifier::spinoff_prover]
proof fn lemma_at_has<T>(s: Seq<Tine<T>>)
    requires wfo(s)
    ensures once(s), marks_of(s, s), forall|q: Pos<T>| #[trigger] hasp(s, q) == (tine_at(s, q) is Some), forall|q: Pos<T>| (#[trigger] tine_at(s, q)) is Some ==> s.contains(tine_at(s, q)->0) && tpos(tine_at(s, q)->0) == q && t_ok(tine_at(s, q)->0)
{
    broadcast use grp_pos;
    reveal(hasp); reveal(once); reveal(marks_of);
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies tpos(#[trigger] s[i]) != tpos(#[trigger] s[j]) by { assert(plt(tpos(s[i]), tpos(s[j]))); }
    assert forall|i: int| 0 <= i < s.len() implies t_ok(#[trigger] s[i]) && tine_at(s, tpos(s[i])) == Some(s[i]) by { lemma_at_index(s, i); }
    assert forall|q: Pos<T>| (#[trigger] tine_at(s, q)) is Some implies s.contains(tine_at(s, q)->0) && tpos(tine_at(s, q)->0) == q && t_ok(tine_at(s, q)->0) by {
        lemma_cut(s, q);
        let t = tine_at(s, q)->0; let i = left_of(s, q).len() as int;
        assert(s =~= left_of(s, q) + opt(Some(t)) + right_of(s, q)); assert(s[i] == t);
    }
    assert forall|q: Pos<T>| #[trigger] hasp(s, q) == (tine_at(s, q) is Some) by {
        if tine_at(s, q) is Some { let t = tine_at(s, q)->0; assert(s.contains(t)); let i = choose|i: int| 0 <= i < s.len() && s[i] == t; assert(tpos(s[i]) == q); }
    }
}
// two ordered sequences with the same marks are the same
#[verifier::spinoff_prover]
proof fn lemma_at_ext<T>(a: Seq<Tine<T>>, b: Seq<Tine<T>>)
    ensures wfo(a) && wfo(b) && (forall|q: Pos<T>| #[trigger] tine_at(a, q) == tine_at(b, q)) ==> a == b
{ if wfo(a) && wfo(b) && (forall|q: Pos<T>| #[trigger] tine_at(a, q) == tine_at(b, q)) { lemma_at_same(a, b); } }
#[verifier::spinoff_prover]
proof fn lemma_at_same<T>(a: Seq<Tine<T>>, b: Seq<Tine<T>>)
    requires wfo(a), wfo(b), forall|q: Pos<T>| #[trigger] tine_at(a, q) == tine_at(b, q)
    ensures a == b
    decreases a.len()
{
    broadcast use grp_pos;
    lemma_at_has(a); lemma_at_has(b);
    if a.len() > 0 { lemma_at_index(a, a.len() - 1); } if b.len() > 0 { lemma_at_index(b, b.len() - 1); }
    if a.len() == 0 { if b.len() > 0 { assert(tine_at(a, tpos(b.last())) is Some); } assert(a =~= b); }
    else if b.len() == 0 { assert(tine_at(b, tpos(a.last())) is Some); }
    else {
        let (x, y) = (a.last(), b.last());
        assert(tine_at(b, tpos(x)) == Some(x)); assert(tine_at(a, tpos(y)) == Some(y));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x; let j = choose|j: int| 0 <= j < a.len() && a[j] == y;
        if i < b.len() - 1 { assert(plt(tpos(b[i]), tpos(b[b.len() - 1]))); }
        if j < a.len() - 1 { assert(plt(tpos(a[j]), tpos(a[a.len() - 1]))); }
        assert(x == y);
        let (c, d) = (a.drop_last(), b.drop_last());
        assert forall|q: Pos<T>| #[trigger] tine_at(c, q) == tine_at(d, q) by { lemma_drop_last_at(a, q); lemma_drop_last_at(b, q); assert(tine_at(a, q) == tine_at(b, q)); }
        lemma_drop_last_at(a, tpos(x)); lemma_drop_last_at(b, tpos(x));
        lemma_at_same(c, d);
        assert(a =~= c.push(x)); assert(b =~= d.push(y));
    }
}
// a complement, mark by mark
#[verifier::spinoff_prover]
proof fn lemma_comp_map<T>(s: Seq<Tine<T>>)
    requires wf(s)
    ensures wfo(s), wf(comp_seq(s)), wfo(comp_seq(s)), once(s), marks_of(s, s), forall|q: Pos<T>| #[trigger] hasp(s, q) == (tine_at(s, q) is Some),
        forall|q: Pos<T>| #[trigger] tine_at(comp_seq(s), q) == (match q {
            Pos::Neg => if tine_at(s, q) is Some { None } else { Some(Tine::Lower(Bound::Infinite)) },
            Pos::Inf => if tine_at(s, q) is Some { None } else { Some(Tine::Upper(Bound::Infinite)) },
            _ => match tine_at(s, q) { Some(t) => Some(inv(t)), None => None } }),
        forall|q: Pos<T>| (#[trigger] tine_at(s, q)) matches Some(t) ==> tpos(t) == q && (q is At ==> t_ok(inv(t)) && tpos(inv(t)) == q) && (q is Neg ==> t == Tine::<T>::Lower(Bound::Infinite)) && (q is Inf ==> t == Tine::<T>::Upper(Bound::Infinite)),
        s.len() == 0 ==> comp_seq(s) == one_seq(RawInterval::<T>::Full) && forall|q: Pos<T>| (#[trigger] tine_at(s, q)) is None,
        s.len() > 0 ==> !(tpos(s[0]) is Inf) && !(tpos(s.last()) is Neg) && tine_at(s, Pos::<T>::Neg) == (if tpos(s[0]) is Neg { Some(s[0]) } else { None }) && tine_at(s, Pos::<T>::Inf) == (if tpos(s.last()) is Inf { Some(s.last()) } else { None }),
        s.len() == 1 ==> pt_ok(s[0]) && pex(inv(s[0])) && forall|q: Pos<T>| (#[trigger] tine_at(s, q)) is Some ==> q == tpos(s[0]),
        s.len() > 1 ==> s.skip(1).last() == s.last() && s.drop_last()[0] == s[0],
        s == one_seq(RawInterval::<T>::Full) ==> comp_seq(s) == Seq::<Tine<T>>::empty(),
{
    broadcast use grp_pos;
    assert(wfo(s)) by { reveal(wf); }
    lemma_at_has(s); lemma_comp_wf(s); lemma_comp_seq(s); lemma_ends_tri(s); lemma_wf_wfq(s);
    let c = comp_seq(s);
    assert(wfo(c)) by { reveal(wf); }
    assert forall|q: Pos<T>| (#[trigger] tine_at(s, q)) is Some implies tpos(tine_at(s, q)->0) == q && (q is At ==> t_ok(inv(tine_at(s, q)->0)) && tpos(inv(tine_at(s, q)->0)) == q) && (q is Neg ==> tine_at(s, q)->0 == Tine::<T>::Lower(Bound::Infinite)) && (q is Inf ==> tine_at(s, q)->0 == Tine::<T>::Upper(Bound::Infinite)) by { lemma_tri(s, q); }
    assert forall|q: Pos<T>| #[trigger] tine_at(c, q) == (match q {
            Pos::Neg => if tine_at(s, q) is Some { None } else { Some(Tine::Lower(Bound::Infinite)) },
            Pos::Inf => if tine_at(s, q) is Some { None } else { Some(Tine::Upper(Bound::Infinite)) },
            _ => match tine_at(s, q) { Some(t) => Some(inv(t)), None => None } }) by { lemma_tri(s, q); lemma_tri(c, q); assert(tri(c, q) == notp(q, tri(s, q))); }
    let o = one_seq(RawInterval::<T>::Full);
    if s.len() == 0 {
        assert forall|q: Pos<T>| (#[trigger] tine_at(s, q)) is None by { at_none(s, q); }
        assert(mid_of(s, Pos::Neg, Pos::Inf).len() == 0);
        assert(c =~= o);
    } else {
        let n = s.len() - 1;
        lemma_at_index(s, 0); lemma_at_index(s, n);
        assert(plt(Pos::<T>::Neg, Pos::<T>::Inf)) by { reveal(plt); }
        assert forall|p: Pos<T>| !plt(p, Pos::<T>::Neg) && !plt(Pos::<T>::Inf, p) by { reveal(plt); }
        if s == o {
            assert(tpos(s[0]) is Neg && tpos(s[1]) is Inf);
            if c.len() > 0 { lemma_at_index(c, 0); let q = tpos(c[0]); assert(tine_at(c, q) is Some); assert(tine_at(s, q) is Some); }
            assert(c =~= Seq::<Tine<T>>::empty());
        }
        if tine_at(s, Pos::<T>::Neg) is Some { let t = tine_at(s, Pos::<T>::Neg)->0; let i = choose|i: int| 0 <= i < s.len() && s[i] == t; if i > 0 { assert(plt(tpos(s[0]), tpos(s[i]))); } }
        if tine_at(s, Pos::<T>::Inf) is Some { let t = tine_at(s, Pos::<T>::Inf)->0; let i = choose|i: int| 0 <= i < s.len() && s[i] == t; if i < n { assert(plt(tpos(s[i]), tpos(s[n]))); } }
        reveal(wf);
    }
}
#[verifier::spinoff_prover]
proof fn lemma_comp_from<T>(s: Seq<Tine<T>>, r: Seq<Tine<T>>)
    requires wf(s)
    ensures wf(r) && (forall|p: Pos<T>| #[trigger] tri(r, p) == notp(p, tri(s, p))) ==> r == comp_seq(s)
{
    lemma_comp_seq(s);
    if wf(r) && forall|p: Pos<T>| #[trigger] tri(r, p) == notp(p, tri(s, p)) { lemma_determined(r, comp_seq(s)); }
}
// the full tree, by its marks
#[verifier::spinoff_prover]
proof fn lemma_full_first<T>(s: Seq<Tine<T>>)
    requires wf(s)
    ensures (pcs(s).len() > 0 && pcs(s)[0] == RawInterval::<T>::Full) == (s == one_seq(RawInterval::<T>::Full))
{
    lemma_wf_ord(s); reveal(wf); reveal(plt);
    broadcast use grp_pos;
    reveal_with_fuel(pcs, 2);
    let o = one_seq(RawInterval::<T>::Full);
    if s == o { assert(!pt_ok(s[0])); assert(tb(s[0]) is Infinite && tb(s[1]) is Infinite); }
    if s.len() == 1 { assert(wfq(s)); }
    if pcs(s).len() > 0 && pcs(s)[0] == RawInterval::<T>::Full {
        assert(pcs(s)[0] == phead(s));
        assert(!pt_ok(s[0]));
        assert(s.len() >= 2);
        assert(tb(s[0]) is Infinite && tb(s[1]) is Infinite);
        assert(t_ok(s[0]) && t_ok(s[1]));
        assert(plt(tpos(s[0]), tpos(s[1])));
        assert(tpos(s[1]) == Pos::<T>::Inf);
        if s.len() > 2 { assert(plt(tpos(s[1]), tpos(s[2]))); }
        assert(s =~= o);
    }
}
// what inserting into an empty set, or after everything, gives
#[verifier::spinoff_prover]
proof fn lemma_put<T>()
    ensures
        forall|p: Pos<T>| (#[trigger] left_of(Seq::<Tine<T>>::empty(), p)).len() == 0 && tine_at(Seq::<Tine<T>>::empty(), p) is None,
        forall|p: Pos<T>| (#[trigger] right_of(Seq::<Tine<T>>::empty(), p)).len() == 0,
        forall|t: Tine<T>, p: Pos<T>| t_ok(t) && plt(tpos(t), p) ==> #[trigger] left_of(seq![t], p) == seq![t] && right_of(seq![t], p).len() == 0 && tine_at(seq![t], p) is None,
        forall|t: Tine<T>, p: Pos<T>| t_ok(t) && plt(p, tpos(t)) ==> #[trigger] right_of(seq![t], p) == seq![t] && left_of(seq![t], p).len() == 0 && tine_at(seq![t], p) is None,
{
    let e = Seq::<Tine<T>>::empty();
    assert forall|p: Pos<T>| (#[trigger] left_of(e, p)).len() == 0 && tine_at(e, p) is None && right_of(e, p).len() == 0 by { assert(e =~= e + opt(None) + e); lemma_cut_unique(e, p, e, None, e); }
    assert forall|p: Pos<T>| (#[trigger] right_of(e, p)).len() == 0 by { assert(left_of(e, p).len() == 0); }
    assert forall|t: Tine<T>, p: Pos<T>| t_ok(t) && plt(tpos(t), p) implies #[trigger] left_of(seq![t], p) == seq![t] && right_of(seq![t], p).len() == 0 && tine_at(seq![t], p) is None by {
        assert(seq![t] =~= seq![t] + opt(None) + e); lemma_cut_unique(seq![t], p, seq![t], None, e);
    }
    assert forall|t: Tine<T>, p: Pos<T>| t_ok(t) && plt(p, tpos(t)) implies #[trigger] right_of(seq![t], p) == seq![t] && left_of(seq![t], p).len() == 0 && tine_at(seq![t], p) is None by {
        assert(seq![t] =~= e + opt(None) + seq![t]); lemma_cut_unique(seq![t], p, e, None, seq![t]);
    }
}
#[verifier::spinoff_prover]
proof fn lemma_full_marks<T>(s: Seq<Tine<T>>)
    requires wf(s)
    ensures wfo(s), (s == one_seq(RawInterval::<T>::Full)) == (s.len() == 2 && tine_at(s, Pos::<T>::Neg) is Some && tine_at(s, Pos::<T>::Inf) is Some)
{
    lemma_wf_ord(s); lemma_tri(s, Pos::<T>::Neg); lemma_tri(s, Pos::<T>::Inf);
    let o = one_seq(RawInterval::<T>::Full);
    reveal(plt);
    lemma_cut(s, Pos::<T>::Neg); lemma_cut(s, Pos::<T>::Inf);
    if s == o {
        assert(tb(s[0]) is Infinite && tb(s[1]) is Infinite);
        assert(s =~= Seq::<Tine<T>>::empty() + opt(Some(s[0])) + seq![s[1]]); assert(s =~= seq![s[0]] + opt(Some(s[1])) + Seq::<Tine<T>>::empty());
        lemma_cut_unique(s, Pos::<T>::Neg, seq![], Some(s[0]), seq![s[1]]); lemma_cut_unique(s, Pos::<T>::Inf, seq![s[0]], Some(s[1]), seq![]);
        assert(tpos(s[0]) == Pos::<T>::Neg && tpos(s[1]) == Pos::<T>::Inf);
    }
    if s.len() == 2 && tine_at(s, Pos::<T>::Neg) is Some && tine_at(s, Pos::<T>::Inf) is Some {
        let a = tine_at(s, Pos::<T>::Neg)->0; let b = tine_at(s, Pos::<T>::Inf)->0;
        assert(s =~= left_of(s, Pos::<T>::Neg) + opt(Some(a)) + right_of(s, Pos::<T>::Neg)); assert(s =~= left_of(s, Pos::<T>::Inf) + opt(Some(b)) + right_of(s, Pos::<T>::Inf));
        let i = left_of(s, Pos::<T>::Neg).len() as int; let j = left_of(s, Pos::<T>::Inf).len() as int;
        assert(s[i] == a && s[j] == b);
        if i == 1 { assert(plt(tpos(s[0]), tpos(s[1]))); }
        if j == 0 { assert(plt(tpos(s[0]), tpos(s[1]))); }
        assert(s =~= o);
    }
}
// the empty and the full tree, and the ends of any
#[verifier::spinoff_prover]
proof fn lemma_extreme<T>(s: Seq<Tine<T>>)
    requires wf(s)
    ensures !tri(s, Pos::Neg).b, !tri(s, Pos::Neg).m, !tri(s, Pos::Inf).m, !tri(s, Pos::Inf).f,
        s.len() == 0 ==> forall|p: Pos<T>| #[trigger] tri(s, p) == c3(false),
        wf(Seq::<Tine<T>>::empty()), forall|p: Pos<T>| #[trigger] tri(Seq::<Tine<T>>::empty(), p) == c3(false),
        wf(one_seq(RawInterval::<T>::Full)), forall|p: Pos<T>| #[trigger] tri(one_seq(RawInterval::<T>::Full), p) == (match p { Pos::Neg => Tri { b: false, m: false, f: true }, Pos::Inf => Tri { b: true, m: false, f: false }, _ => c3(true) }),
        forall|p: Pos<T>| #[trigger] itri(RawInterval::<T>::Full, p) == (match p { Pos::Neg => Tri { b: false, m: false, f: true }, Pos::Inf => Tri { b: true, m: false, f: false }, _ => c3(true) }),
{
    lemma_ends_tri(s);
    if s.len() == 0 { lemma_nothing(s); }
    lemma_nothing(Seq::<Tine<T>>::empty());
    let f = RawInterval::<T>::Full;
    lemma_one(f);
    assert forall|p: Pos<T>| #[trigger] itri(f, p) == (match p { Pos::Neg => Tri { b: false, m: false, f: true }, Pos::Inf => Tri { b: true, m: false, f: false }, _ => c3(true) }) by { lemma_itri_full(p); }
    assert forall|p: Pos<T>| #[trigger] tri(one_seq(f), p) == itri(f, p) by {}
}
// an interval says nothing outside the line
#[verifier::spinoff_prover]
proof fn lemma_itri_ends<T>(r: RawInterval<T>)
    requires wfr(r)
    ensures !itri(r, Pos::Neg).b, !itri(r, Pos::Neg).m, !itri(r, Pos::Inf).m, !itri(r, Pos::Inf).f
{ lemma_one(r); lemma_ends_tri(one_seq(r)); assert(tri(one_seq(r), Pos::<T>::Neg) == itri(r, Pos::Neg)); assert(tri(one_seq(r), Pos::<T>::Inf) == itri(r, Pos::Inf)); }
#[verifier::spinoff_prover]
proof fn lemma_ior_ends<T>(s: Seq<RawInterval<T>>)
    requires wfrs(s)
    ensures !ior(s, Pos::Neg).b, !ior(s, Pos::Neg).m, !ior(s, Pos::Inf).m, !ior(s, Pos::Inf).f
    decreases s.len()
{
    if s.len() > 0 {
        let z = s.skip(1);
        assert forall|i: int| 0 <= i < z.len() implies wfr(#[trigger] z[i]) by { assert(z[i] == s[i + 1]); }
        lemma_ior_ends(z); assert(wfr(s[0])); lemma_itri_ends(s[0]);
    }
}
// what is known of any tree met along the way: nothing is in an empty one, everything in a full one
#[verifier::spinoff_prover]
proof fn lemma_ends_all<T>()
    ensures
        forall|s: Seq<Tine<T>>, p: Pos<T>| s.len() == 0 ==> #[trigger] tri(s, p) == c3(false),
        forall|s: Seq<Tine<T>>| #[trigger] wf(s) ==> !tri(s, Pos::Neg).b && !tri(s, Pos::Neg).m && !tri(s, Pos::Inf).m && !tri(s, Pos::Inf).f,
        forall|s: Seq<RawInterval<T>>| #[trigger] wfrs(s) ==> !ior(s, Pos::Neg).b && !ior(s, Pos::Neg).m && !ior(s, Pos::Inf).m && !ior(s, Pos::Inf).f,
        wf(Seq::<Tine<T>>::empty()),
        wf(one_seq(RawInterval::<T>::Full)), forall|p: Pos<T>| #[trigger] tri(one_seq(RawInterval::<T>::Full), p) == (match p { Pos::Neg => Tri { b: false, m: false, f: true }, Pos::Inf => Tri { b: true, m: false, f: false }, _ => c3(true) }),
        forall|p: Pos<T>| #[trigger] itri(RawInterval::<T>::Full, p) == (match p { Pos::Neg => Tri { b: false, m: false, f: true }, Pos::Inf => Tri { b: true, m: false, f: false }, _ => c3(true) }),
{
    lemma_nothing(Seq::<Tine<T>>::empty());
    lemma_extreme(Seq::<Tine<T>>::empty());
    assert forall|s: Seq<Tine<T>>, p: Pos<T>| s.len() == 0 implies #[trigger] tri(s, p) == c3(false) by { lemma_nothing(s); }
    assert forall|s: Seq<Tine<T>>| #[trigger] wf(s) implies !tri(s, Pos::Neg).b && !tri(s, Pos::Neg).m && !tri(s, Pos::Inf).m && !tri(s, Pos::Inf).f by { lemma_extreme(s); }
    assert forall|s: Seq<RawInterval<T>>| #[trigger] wfrs(s) implies !ior(s, Pos::Neg).b && !ior(s, Pos::Neg).m && !ior(s, Pos::Inf).m && !ior(s, Pos::Inf).f by { lemma_ior_ends(s); }
}
// what the complement of one interval covers
#[verifier::spinoff_prover]
proof fn lemma_comp_ior<T>(r: RawInterval<T>)
    requires wfr(r)
    ensures wfrs(comp(r)), forall|p: Pos<T>| #[trigger] ior(comp(r), p) == notp(p, itri(r, p))
{
    broadcast use grp_order;
    reveal(plt);
    reveal_with_fuel(ior, 3);
    lemma_wfr(r); lemma_comp(r); lemma_itri_ends(r);
    let c = comp(r);
    assert forall|p: Pos<T>| #[trigger] ior(c, p) == notp(p, itri(r, p)) by {
        if c.len() > 0 { assert(c.skip(1).len() == c.len() - 1); }
        if c.len() > 1 { assert(c.skip(1)[0] == c[1]); assert(c.skip(1).skip(1).len() == 0); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_ior_cat<T>(a: Seq<RawInterval<T>>, b: Seq<RawInterval<T>>)
    ensures forall|p: Pos<T>| #[trigger] ior(a + b, p) == or3(ior(a, p), ior(b, p)), wfrs(a) && wfrs(b) ==> wfrs(a + b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); } else {
        lemma_ior_cat(a.skip(1), b);
        assert((a + b).skip(1) =~= a.skip(1) + b);
        assert forall|p: Pos<T>| #[trigger] ior(a + b, p) == or3(ior(a, p), ior(b, p)) by { assert(ior(a.skip(1) + b, p) == or3(ior(a.skip(1), p), ior(b, p))); }
    }
}
