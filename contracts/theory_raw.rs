// ---- theory of bounds and raw intervals (all proved) ------------------------
pub open spec fn bv<T>(b: Bound<T>) -> Option<T> { match b { Bound::Include(x) => Some(x), Bound::Exclude(x) => Some(x), Bound::Infinite => None } }
// x satisfies b as a lower / an upper bound
pub open spec fn above<T>(b: Bound<T>, x: T) -> bool { match b { Bound::Include(l) => le(l, x), Bound::Exclude(l) => lt(l, x), Bound::Infinite => true } }
pub open spec fn below<T>(b: Bound<T>, x: T) -> bool { match b { Bound::Include(u) => le(x, u), Bound::Exclude(u) => lt(x, u), Bound::Infinite => true } }
// a reaches at least as far down / up as b
pub open spec fn lle<T>(a: Bound<T>, b: Bound<T>) -> bool {
    match (a, b) {
        (Bound::Infinite, _) => true,
        (_, Bound::Infinite) => false,
        (Bound::Exclude(x), Bound::Include(y)) => lt(x, y),
        (Bound::Exclude(x), Bound::Exclude(y)) => le(x, y),
        (Bound::Include(x), Bound::Include(y)) => le(x, y),
        (Bound::Include(x), Bound::Exclude(y)) => le(x, y),
    }
}
pub open spec fn uge<T>(a: Bound<T>, b: Bound<T>) -> bool {
    match (a, b) {
        (Bound::Infinite, _) => true,
        (_, Bound::Infinite) => false,
        (Bound::Exclude(x), Bound::Include(y)) => lt(y, x),
        (Bound::Exclude(x), Bound::Exclude(y)) => le(y, x),
        (Bound::Include(x), Bound::Include(y)) => le(y, x),
        (Bound::Include(x), Bound::Exclude(y)) => le(y, x),
    }
}
pub open spec fn lmin<T>(a: Bound<T>, b: Bound<T>) -> Bound<T> { if lle(a, b) { a } else { b } }
pub open spec fn lmax<T>(a: Bound<T>, b: Bound<T>) -> Bound<T> { if lle(a, b) { b } else { a } }
pub open spec fn umax<T>(a: Bound<T>, b: Bound<T>) -> Bound<T> { if uge(a, b) { a } else { b } }
pub open spec fn umin<T>(a: Bound<T>, b: Bound<T>) -> Bound<T> { if uge(a, b) { b } else { a } }
pub open spec fn badj<T>(a: Bound<T>, b: Bound<T>) -> bool {
    bv(a) is Some && bv(a) == bv(b) && !(a is Exclude && b is Exclude)
}
// lower bound l and upper bound u leave something between them
pub open spec fn nonempty<T>(l: Bound<T>, u: Bound<T>) -> bool {
    match (bv(l), bv(u)) { (Some(x), Some(y)) => lt(x, y) || (x == y && l is Include && u is Include), _ => true }
}
// equal values, exactly one of them included: `RawInterval::new` gives no guarantee there
pub open spec fn half_point<T>(l: Bound<T>, u: Bound<T>) -> bool {
    bv(l) is Some && bv(l) == bv(u) && (l is Include) != (u is Include)
}
pub open spec fn flip<T>(b: Bound<T>) -> Bound<T> { match b { Bound::Include(x) => Bound::Exclude(x), Bound::Exclude(x) => Bound::Include(x), Bound::Infinite => Bound::Infinite } }

pub open spec fn lob<T>(r: RawInterval<T>) -> Option<Bound<T>> {
    match r {
        RawInterval::Empty => None,
        RawInterval::Point(p) => Some(Bound::Include(p)),
        RawInterval::Open(l, _) => Some(Bound::Exclude(l)),
        RawInterval::LeftOpen(l, _) => Some(Bound::Exclude(l)),
        RawInterval::RightOpen(l, _) => Some(Bound::Include(l)),
        RawInterval::Closed(l, _) => Some(Bound::Include(l)),
        RawInterval::UpTo(_) => Some(Bound::Infinite),
        RawInterval::UpFrom(l) => Some(Bound::Exclude(l)),
        RawInterval::To(_) => Some(Bound::Infinite),
        RawInterval::From(l) => Some(Bound::Include(l)),
        RawInterval::Full => Some(Bound::Infinite),
    }
}
pub open spec fn upb<T>(r: RawInterval<T>) -> Option<Bound<T>> {
    match r {
        RawInterval::Empty => None,
        RawInterval::Point(p) => Some(Bound::Include(p)),
        RawInterval::Open(_, u) => Some(Bound::Exclude(u)),
        RawInterval::LeftOpen(_, u) => Some(Bound::Include(u)),
        RawInterval::RightOpen(_, u) => Some(Bound::Exclude(u)),
        RawInterval::Closed(_, u) => Some(Bound::Include(u)),
        RawInterval::UpTo(u) => Some(Bound::Exclude(u)),
        RawInterval::UpFrom(_) => Some(Bound::Infinite),
        RawInterval::To(u) => Some(Bound::Include(u)),
        RawInterval::From(_) => Some(Bound::Infinite),
        RawInterval::Full => Some(Bound::Infinite),
    }
}
// the set a raw interval denotes
pub open spec fn mem<T>(r: RawInterval<T>, x: T) -> bool { lob(r) is Some && above(lob(r)->0, x) && below(upb(r)->0, x) }
// two-ended variants have their ends in strict order
pub open spec fn wfr<T>(r: RawInterval<T>) -> bool {
    match r {
        RawInterval::Open(l, u) => lt(l, u), RawInterval::LeftOpen(l, u) => lt(l, u),
        RawInterval::RightOpen(l, u) => lt(l, u), RawInterval::Closed(l, u) => lt(l, u),
        _ => true,
    }
}
// the raw interval with the given bounds
pub open spec fn mk<T>(l: Bound<T>, u: Bound<T>) -> RawInterval<T> {
    if !nonempty(l, u) { RawInterval::Empty } else {
        match (l, u) {
            (Bound::Include(a), Bound::Include(b)) => if a == b { RawInterval::Point(a) } else { RawInterval::Closed(a, b) },
            (Bound::Include(a), Bound::Exclude(b)) => RawInterval::RightOpen(a, b),
            (Bound::Exclude(a), Bound::Include(b)) => RawInterval::LeftOpen(a, b),
            (Bound::Exclude(a), Bound::Exclude(b)) => RawInterval::Open(a, b),
            (Bound::Infinite, Bound::Include(b)) => RawInterval::To(b),
            (Bound::Infinite, Bound::Exclude(b)) => RawInterval::UpTo(b),
            (Bound::Include(a), Bound::Infinite) => RawInterval::From(a),
            (Bound::Exclude(a), Bound::Infinite) => RawInterval::UpFrom(a),
            (Bound::Infinite, Bound::Infinite) => RawInterval::Full,
        }
    }
}
pub open spec fn inter<T>(a: RawInterval<T>, b: RawInterval<T>) -> RawInterval<T> {
    if a is Empty || b is Empty { RawInterval::Empty } else { mk(lmax(lob(a)->0, lob(b)->0), umin(upb(a)->0, upb(b)->0)) }
}
pub open spec fn hull<T>(a: RawInterval<T>, b: RawInterval<T>) -> RawInterval<T> {
    if a is Empty { b } else if b is Empty { a } else { mk(lmin(lob(a)->0, lob(b)->0), umax(upb(a)->0, upb(b)->0)) }
}
// adjacent: the upper bound of one and the lower bound of the other share a point, at least one including it
pub open spec fn adj<T>(a: RawInterval<T>, b: RawInterval<T>) -> bool {
    !(a is Empty) && !(b is Empty) && (badj(lob(a)->0, upb(b)->0) || badj(upb(a)->0, lob(b)->0))
}
pub open spec fn touch<T>(a: RawInterval<T>, b: RawInterval<T>) -> bool { !(inter(a, b) is Empty) || adj(a, b) }
pub open spec fn comp<T>(a: RawInterval<T>) -> Seq<RawInterval<T>> {
    if a is Empty { seq![RawInterval::Full] } else {
        (if lob(a)->0 is Infinite { seq![] } else { seq![mk(Bound::Infinite, flip(lob(a)->0))] })
        + (if upb(a)->0 is Infinite { seq![] } else { seq![mk(flip(upb(a)->0), Bound::Infinite)] })
    }
}
pub open spec fn clos<T>(a: RawInterval<T>) -> RawInterval<T> {
    if a is Empty { a } else { mk(inc(lob(a)->0), inc(upb(a)->0)) }
}
pub open spec fn inc<T>(b: Bound<T>) -> Bound<T> { match b { Bound::Exclude(x) => Bound::Include(x), _ => b } }
// membership in a sequence of raw intervals
pub open spec fn anyr<T>(s: Seq<RawInterval<T>>, x: T) -> bool { exists|i: int| 0 <= i < s.len() && mem(#[trigger] s[i], x) }
pub open spec fn allr<T>(s: Seq<RawInterval<T>>, x: T) -> bool { forall|i: int| 0 <= i < s.len() ==> mem(#[trigger] s[i], x) }
pub open spec fn wfrs<T>(s: Seq<RawInterval<T>>) -> bool { forall|i: int| 0 <= i < s.len() ==> wfr(#[trigger] s[i]) }
pub open spec fn nonempties<T>(s: Seq<RawInterval<T>>) -> Seq<RawInterval<T>> { s.filter(|r: RawInterval<T>| !(r is Empty)) }
// a lies entirely below b, with a point of the line between or at most sharing no point
pub open spec fn before_r<T>(a: RawInterval<T>, b: RawInterval<T>) -> bool {
    upb(a) is Some && lob(b) is Some && !(upb(a)->0 is Infinite) && !(lob(b)->0 is Infinite)
    && le(bv(upb(a)->0)->0, bv(lob(b)->0)->0) && (bv(upb(a)->0) == bv(lob(b)->0) ==> !(upb(a)->0 is Include && lob(b)->0 is Include))
}

// bounds order: every function on bounds is the meet or join of the two half lines
#[verifier::spinoff_prover]
proof fn lemma_B01_pointwise<T>(a: Bound<T>, b: Bound<T>, x: T)
    ensures
        above(lmin(a, b), x) == (above(a, x) || above(b, x)),
        above(lmax(a, b), x) == (above(a, x) && above(b, x)),
        below(umax(a, b), x) == (below(a, x) || below(b, x)),
        below(umin(a, b), x) == (below(a, x) && below(b, x)),
{ broadcast use grp_order; }
#[verifier::spinoff_prover]
proof fn lemma_B01_lattice<T>(a: Bound<T>, b: Bound<T>, c: Bound<T>)
    ensures
        lmin(a, b) == lmin(b, a), lmax(a, b) == lmax(b, a), umin(a, b) == umin(b, a), umax(a, b) == umax(b, a),
        lmin(a, lmin(b, c)) == lmin(lmin(a, b), c), lmax(a, lmax(b, c)) == lmax(lmax(a, b), c),
        umin(a, umin(b, c)) == umin(umin(a, b), c), umax(a, umax(b, c)) == umax(umax(a, b), c),
        lmin(a, a) == a, lmax(a, a) == a, umin(a, a) == a, umax(a, a) == a,
        lmin(a, lmax(a, b)) == a, lmax(a, lmin(a, b)) == a, umin(a, umax(a, b)) == a, umax(a, umin(a, b)) == a,
        badj(a, b) == badj(b, a),
{ broadcast use grp_order; }

#[verifier::spinoff_prover]
proof fn lemma_mk<T>(l: Bound<T>, u: Bound<T>)
    ensures wfr(mk(l, u)),
        nonempty(l, u) ==> lob(mk(l, u)) == Some(l) && upb(mk(l, u)) == Some(u),
        !nonempty(l, u) ==> mk(l, u) is Empty,
        forall|x: T| #[trigger] mem(mk(l, u), x) == (above(l, x) && below(u, x)),
{ broadcast use grp_order; }
// a well formed interval is determined by its bounds, which leave room
#[verifier::spinoff_prover]
proof fn lemma_wfr<T>(a: RawInterval<T>)
    requires wfr(a)
    ensures !(a is Empty) ==> nonempty(lob(a)->0, upb(a)->0) && a == mk(lob(a)->0, upb(a)->0),
{ broadcast use grp_order; }
#[verifier::spinoff_prover]
proof fn lemma_inter<T>(a: RawInterval<T>, b: RawInterval<T>)
    ensures wfr(inter(a, b)),
        forall|x: T| #[trigger] mem(inter(a, b), x) == (mem(a, x) && mem(b, x)),
        inter(a, b) == inter(b, a),
{
    broadcast use grp_order;
    if !(a is Empty) && !(b is Empty) {
        lemma_mk(lmax(lob(a)->0, lob(b)->0), umin(upb(a)->0, upb(b)->0));
        assert forall|x: T| #[trigger] mem(inter(a, b), x) == (mem(a, x) && mem(b, x)) by {
            lemma_B01_pointwise(lob(a)->0, lob(b)->0, x); lemma_B01_pointwise(upb(a)->0, upb(b)->0, x);
        }
        lemma_B01_lattice(lob(a)->0, lob(b)->0, lob(b)->0); lemma_B01_lattice(upb(a)->0, upb(b)->0, upb(b)->0);
    }
}
// the hull contains both and is contained in every interval containing both
#[verifier::spinoff_prover]
proof fn lemma_hull<T>(a: RawInterval<T>, b: RawInterval<T>)
    requires wfr(a), wfr(b)
    ensures wfr(hull(a, b)), (hull(a, b) is Empty) == (a is Empty && b is Empty),
        forall|x: T| mem(a, x) || mem(b, x) ==> #[trigger] mem(hull(a, b), x),
        hull(a, b) == hull(b, a),
        !(a is Empty) && !(b is Empty) ==> lob(hull(a, b)) == Some(lmin(lob(a)->0, lob(b)->0)) && upb(hull(a, b)) == Some(umax(upb(a)->0, upb(b)->0)),
        touch(a, b) ==> forall|x: T| #[trigger] mem(hull(a, b), x) == (mem(a, x) || mem(b, x)),
{
    broadcast use grp_order;
    if !(a is Empty) && !(b is Empty) {
        let l = lmin(lob(a)->0, lob(b)->0); let u = umax(upb(a)->0, upb(b)->0);
        lemma_wfr(a); lemma_wfr(b);
        lemma_mk(l, u);
        lemma_mk(lmax(lob(a)->0, lob(b)->0), umin(upb(a)->0, upb(b)->0));
        assert(nonempty(l, u));
        lemma_B01_lattice(lob(a)->0, lob(b)->0, lob(b)->0); lemma_B01_lattice(upb(a)->0, upb(b)->0, upb(b)->0);
        assert forall|x: T| mem(a, x) || mem(b, x) implies #[trigger] mem(hull(a, b), x) by {
            lemma_B01_pointwise(lob(a)->0, lob(b)->0, x); lemma_B01_pointwise(upb(a)->0, upb(b)->0, x);
        }
        if touch(a, b) {
            assert forall|x: T| #[trigger] mem(hull(a, b), x) == (mem(a, x) || mem(b, x)) by {
                lemma_B01_pointwise(lob(a)->0, lob(b)->0, x); lemma_B01_pointwise(upb(a)->0, upb(b)->0, x);
            }
        }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_hull_least<T>(a: RawInterval<T>, b: RawInterval<T>, c: RawInterval<T>)
    requires wfr(a), wfr(b), wfr(c), hull(a, c) == c, hull(b, c) == c
    ensures hull(hull(a, b), c) == c
{
    broadcast use grp_order;
    lemma_hull(a, b); lemma_hull(a, c); lemma_hull(b, c); lemma_hull(hull(a, b), c);
    if !(a is Empty) && !(b is Empty) && !(c is Empty) {
        lemma_wfr(c);
        lemma_B01_lattice(lob(a)->0, lob(b)->0, lob(c)->0); lemma_B01_lattice(upb(a)->0, upb(b)->0, upb(c)->0);
        lemma_mk(lmin(lob(hull(a, b))->0, lob(c)->0), umax(upb(hull(a, b))->0, upb(c)->0));
    }
}
#[verifier::spinoff_prover]
proof fn lemma_comp<T>(a: RawInterval<T>)
    requires wfr(a)
    ensures
        wfrs(comp(a)), comp(a).len() <= 2,
        forall|i: int| 0 <= i < comp(a).len() ==> !(#[trigger] comp(a)[i] is Empty),
        comp(a).len() == 2 ==> before_r(comp(a)[0], comp(a)[1]) && !touch(comp(a)[0], comp(a)[1]),
        forall|x: T| #[trigger] anyr(comp(a), x) == !mem(a, x),
{
    broadcast use grp_order;
    if a is Empty {
        assert forall|x: T| #[trigger] anyr(comp(a), x) == !mem(a, x) by { assert(mem(comp(a)[0], x)); }
    } else {
        lemma_wfr(a);
        let l = lob(a)->0; let u = upb(a)->0;
        lemma_mk(Bound::Infinite, flip(l)); lemma_mk(flip(u), Bound::Infinite);
        let p = mk(Bound::Infinite, flip(l)); let q = mk(flip(u), Bound::Infinite);
        assert forall|x: T| #[trigger] anyr(comp(a), x) == !mem(a, x) by {
            if l is Infinite {
                if !(u is Infinite) { assert(comp(a)[0] == q); assert(mem(q, x) == !mem(a, x)); }
            } else {
                assert(comp(a)[0] == p);
                if u is Infinite { assert(mem(p, x) == !mem(a, x)); } else { assert(comp(a)[1] == q); assert((mem(p, x) || mem(q, x)) == !mem(a, x)); }
            }
        }
    }
}
// closure: the same interval with its finite bounds included
#[verifier::spinoff_prover]
proof fn lemma_clos<T>(a: RawInterval<T>)
    requires wfr(a)
    ensures wfr(clos(a)), (clos(a) is Empty) == (a is Empty),
        !(a is Empty) ==> lob(clos(a)) == Some(inc(lob(a)->0)) && upb(clos(a)) == Some(inc(upb(a)->0)),
        forall|x: T| mem(a, x) ==> #[trigger] mem(clos(a), x),
        forall|x: T| #[trigger] mem(clos(a), x) ==> mem(a, x) || (!(a is Empty) && (Some(x) == bv(lob(a)->0) || Some(x) == bv(upb(a)->0))),
{
    broadcast use grp_order;
    if !(a is Empty) { lemma_wfr(a); lemma_mk(inc(lob(a)->0), inc(upb(a)->0)); }
}
// the difference as code computes it: the non-empty meets with the complement
pub open spec fn diff<T>(a: RawInterval<T>, b: RawInterval<T>) -> Seq<RawInterval<T>> {
    nonempties(comp(b).map_values(|c: RawInterval<T>| inter(a, c)))
}
pub open spec fn ne1<T>(a: RawInterval<T>) -> Seq<RawInterval<T>> { if a is Empty { seq![] } else { seq![a] } }
#[verifier::spinoff_prover]
proof fn lemma_nonempties_small<T>(s: Seq<RawInterval<T>>)
    ensures
        s.len() == 0 ==> nonempties(s) == Seq::<RawInterval<T>>::empty(),
        s.len() == 1 ==> nonempties(s) == ne1(s[0]),
        s.len() == 2 ==> nonempties(s) == ne1(s[0]) + ne1(s[1]),
{
    reveal_with_fuel(Seq::filter, 3);
    if s.len() == 1 { assert(s.drop_last() =~= Seq::empty()); assert(nonempties(s) =~= ne1(s[0])); }
    if s.len() == 2 {
        assert(s.drop_last().drop_last() =~= Seq::empty());
        assert(nonempties(s) =~= ne1(s[0]) + ne1(s[1]));
    }
}
#[verifier::spinoff_prover]
proof fn lemma_diff<T>(a: RawInterval<T>, b: RawInterval<T>)
    requires wfr(a), wfr(b)
    ensures
        wfrs(diff(a, b)), diff(a, b).len() <= 2,
        forall|i: int| 0 <= i < diff(a, b).len() ==> !(#[trigger] diff(a, b)[i] is Empty),
        diff(a, b).len() == 2 ==> before_r(diff(a, b)[0], diff(a, b)[1]) && !touch(diff(a, b)[0], diff(a, b)[1]),
        forall|x: T| #[trigger] anyr(diff(a, b), x) == (mem(a, x) && !mem(b, x)),
{
    broadcast use grp_order;
    lemma_comp(b);
    let m = comp(b).map_values(|c: RawInterval<T>| inter(a, c));
    lemma_nonempties_small(m);
    let d = diff(a, b);
    if comp(b).len() >= 1 { lemma_inter(a, comp(b)[0]); }
    if comp(b).len() >= 2 { lemma_inter(a, comp(b)[1]); }
    if d.len() == 2 {
        lemma_wfr(a); lemma_wfr(b);
        assert(d[0] == inter(a, comp(b)[0])); assert(d[1] == inter(a, comp(b)[1]));
        lemma_mk(lmax(lob(a)->0, lob(comp(b)[0])->0), umin(upb(a)->0, upb(comp(b)[0])->0));
        lemma_mk(lmax(lob(a)->0, lob(comp(b)[1])->0), umin(upb(a)->0, upb(comp(b)[1])->0));
    }
    assert forall|x: T| #[trigger] anyr(diff(a, b), x) == (mem(a, x) && !mem(b, x)) by {
        assert(anyr(comp(b), x) == !mem(b, x));
        if anyr(diff(a, b), x) {
            let i = choose|i: int| 0 <= i < d.len() && mem(#[trigger] d[i], x);
            if comp(b).len() == 1 { assert(d[i] == m[0]); assert(mem(comp(b)[0], x)); }
            if comp(b).len() == 2 {
                if d[i] == m[0] { assert(mem(comp(b)[0], x)); } else { assert(d[i] == m[1]); assert(mem(comp(b)[1], x)); }
            }
        }
        if mem(a, x) && !mem(b, x) {
            let i = choose|i: int| 0 <= i < comp(b).len() && mem(#[trigger] comp(b)[i], x);
            assert(mem(m[i], x));
            if i == 0 { assert(d[0] == m[0]); } else { assert(d.len() > 0); assert(d.last() == m[1]); assert(mem(d[d.len() - 1], x)); }
        }
    }
}
// the union of two intervals as intervals: merged when they touch
pub open spec fn union2<T>(a: RawInterval<T>, b: RawInterval<T>) -> Seq<RawInterval<T>> {
    if a is Empty || b is Empty { ne1(a) + ne1(b) } else if touch(a, b) { seq![hull(a, b)] } else { seq![a, b] }
}
#[verifier::spinoff_prover]
proof fn lemma_union2<T>(a: RawInterval<T>, b: RawInterval<T>)
    requires wfr(a), wfr(b)
    ensures wfrs(union2(a, b)), forall|x: T| #[trigger] anyr(union2(a, b), x) == (mem(a, x) || mem(b, x)),
        forall|i: int| 0 <= i < union2(a, b).len() ==> !(#[trigger] union2(a, b)[i] is Empty),
        union2(a, b).len() == 2 ==> !touch(union2(a, b)[0], union2(a, b)[1]),
        touch(a, b) == touch(b, a),
{
    lemma_hull(a, b); lemma_touch_sym(a, b);
    let s = union2(a, b);
    assert forall|x: T| #[trigger] anyr(s, x) == (mem(a, x) || mem(b, x)) by {
        if anyr(s, x) { let i = choose|i: int| 0 <= i < s.len() && mem(#[trigger] s[i], x); assert(s.len() <= 2); if i == 0 { } else { } }
        if mem(a, x) { assert(mem(s[0], x)); }
        if mem(b, x) { assert(s.last() == b || s.last() == hull(a, b)); assert(mem(s[s.len() - 1], x)); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_touch_sym<T>(a: RawInterval<T>, b: RawInterval<T>)
    ensures touch(a, b) == touch(b, a)
{ lemma_inter(a, b); }
// an upper bound strictly short of a lower bound
pub open spec fn sep<T>(u: Bound<T>, l: Bound<T>) -> bool {
    match (bv(u), bv(l)) { (Some(x), Some(y)) => lt(x, y) || (x == y && u is Exclude && l is Exclude), _ => false }
}
#[verifier::spinoff_prover]
proof fn lemma_sep_bounds<T>(la: Bound<T>, ua: Bound<T>, lb: Bound<T>, ub: Bound<T>)
    requires nonempty(la, ua), nonempty(lb, ub)
    ensures (sep(ua, lb) || sep(ub, la)) == (!nonempty(lmax(la, lb), umin(ua, ub)) && !badj(la, ub) && !badj(ua, lb))
{ broadcast use grp_order; }
// two intervals touch unless one ends strictly short of the other
#[verifier::spinoff_prover]
proof fn lemma_touch_sep<T>(a: RawInterval<T>, b: RawInterval<T>)
    requires wfr(a), wfr(b), !(a is Empty), !(b is Empty)
    ensures touch(a, b) == !(sep(upb(a)->0, lob(b)->0) || sep(upb(b)->0, lob(a)->0))
{
    lemma_wfr(a); lemma_wfr(b);
    lemma_sep_bounds(lob(a)->0, upb(a)->0, lob(b)->0, upb(b)->0);
    lemma_mk(lmax(lob(a)->0, lob(b)->0), umin(upb(a)->0, upb(b)->0));
}
#[verifier::spinoff_prover]
proof fn lemma_sep_hull<T>(la: Bound<T>, ua: Bound<T>, lb: Bound<T>, ub: Bound<T>, lc: Bound<T>, uc: Bound<T>)
    requires nonempty(la, ua), nonempty(lb, ub), nonempty(lc, uc), !sep(ua, lb), !sep(ub, la),
        sep(uc, la) || sep(ua, lc), sep(uc, lb) || sep(ub, lc)
    ensures sep(uc, lmin(la, lb)) || sep(umax(ua, ub), lc)
{ broadcast use grp_order; }
#[verifier::spinoff_prover]
proof fn lemma_touch_hull<T>(a: RawInterval<T>, b: RawInterval<T>, c: RawInterval<T>)
    requires wfr(a), wfr(b), wfr(c), !(a is Empty), !(b is Empty), !(c is Empty), touch(a, b), !touch(c, a), !touch(c, b)
    ensures !touch(c, hull(a, b))
{
    lemma_hull(a, b);
    lemma_touch_sep(a, b); lemma_touch_sep(c, a); lemma_touch_sep(c, b); lemma_touch_sep(c, hull(a, b));
    lemma_wfr(a); lemma_wfr(b); lemma_wfr(c);
    lemma_sep_hull(lob(a)->0, upb(a)->0, lob(b)->0, upb(b)->0, lob(c)->0, upb(c)->0);
}
#[verifier::spinoff_prover]
proof fn lemma_take_step<A>(s: Seq<A>, k: int)
    requires 0 <= k <= s.len()
    ensures k < s.len() ==> s.take(k + 1) == s.take(k).push(s[k]) && s.take(k + 1).drop_last() == s.take(k) && s.take(k + 1).last() == s[k] && s.skip(k)[0] == s[k] && s.skip(k).skip(1) == s.skip(k + 1)
{
    if k < s.len() {
        assert(s.take(k + 1) =~= s.take(k).push(s[k])); assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.skip(k).skip(1) =~= s.skip(k + 1));
    }
}
#[verifier::spinoff_prover]
proof fn lemma_nonempties_step<T>(s: Seq<RawInterval<T>>, k: int)
    requires 0 <= k <= s.len()
    ensures k < s.len() ==> nonempties(s.take(k + 1)) == (if s[k] is Empty { nonempties(s.take(k)) } else { nonempties(s.take(k)).push(s[k]) }),
        k < s.len() ==> s.skip(k)[0] == s[k] && s.skip(k).skip(1) == s.skip(k + 1),
        k == 0 ==> nonempties(s.take(k)) == Seq::<RawInterval<T>>::empty(),
{
    reveal(Seq::filter);
    lemma_take_step(s, k);
}
pub open spec fn fold_hull<T>(s: Seq<RawInterval<T>>) -> RawInterval<T> decreases s.len() {
    if s.len() == 0 { RawInterval::Empty } else { hull(fold_hull(s.drop_last()), s.last()) }
}
pub open spec fn fold_inter<T>(s: Seq<RawInterval<T>>) -> RawInterval<T> decreases s.len() {
    if s.len() == 0 { RawInterval::Full } else { inter(fold_inter(s.drop_last()), s.last()) }
}
// a fold that has reached Empty (an intersection) or Full (an enclosure) stays there
#[verifier::spinoff_prover]
proof fn lemma_folds_stop<T>(s: Seq<RawInterval<T>>, k: int)
    requires 0 <= k <= s.len()
    ensures fold_inter(s.take(k)) is Empty ==> fold_inter(s) is Empty, fold_hull(s.take(k)) is Full ==> fold_hull(s) is Full, k == s.len() ==> s.take(k) == s
    decreases s.len() - k
{
    if k == s.len() { assert(s.take(k) =~= s); } else {
        lemma_take_step(s, k);
        lemma_folds_stop(s, k + 1);
    }
}
#[verifier::spinoff_prover]
proof fn lemma_fold_start<T>(s: Seq<RawInterval<T>>)
    requires wfrs(s)
    ensures s.skip(0) == s, s.take(0).len() == 0, s.take(s.len() as int) == s, s.skip(s.len() as int).len() == 0,
        s.len() > 0 ==> fold_hull(s.take(1)) == s[0] && fold_inter(s.take(1)) == s[0] && s.skip(1).len() == s.len() - 1 && wfr(s[0]),
        fold_hull(s.take(0)) == RawInterval::<T>::Empty, fold_inter(s.take(0)) == RawInterval::<T>::Full
{
    assert(s.skip(0) =~= s); assert(s.take(s.len() as int) =~= s);
    if s.len() > 0 {
        lemma_take_step(s, 0);
        reveal_with_fuel(fold_hull, 2); reveal_with_fuel(fold_inter, 2);
        assert(wfr(s[0])); lemma_wfr(s[0]);
        lemma_inter(RawInterval::Full, s[0]); lemma_hull(RawInterval::Empty, s[0]);
    }
}
// the fold is the least interval containing them all
#[verifier::spinoff_prover]
proof fn lemma_fold_hull<T>(s: Seq<RawInterval<T>>)
    requires wfrs(s)
    ensures wfr(fold_hull(s)), forall|i: int| 0 <= i < s.len() ==> hull(#[trigger] s[i], fold_hull(s)) == fold_hull(s),
        forall|c: RawInterval<T>| wfr(c) && (forall|i: int| 0 <= i < s.len() ==> hull(#[trigger] s[i], c) == c) ==> #[trigger] hull(fold_hull(s), c) == c,
        forall|x: T| anyr(s, x) ==> #[trigger] mem(fold_hull(s), x),
    decreases s.len()
{
    let f = fold_hull(s);
    if s.len() > 0 {
        let d = s.drop_last(); let g = fold_hull(d);
        assert(forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] == s[i]);
        lemma_fold_hull(d);
        lemma_hull(g, s.last());
        lemma_hull_upper(g, s.last());
        assert forall|i: int| 0 <= i < s.len() implies hull(#[trigger] s[i], f) == f by {
            if i < d.len() { assert(hull(d[i], g) == g); lemma_hull_trans(s[i], g, f); }
        }
        assert forall|c: RawInterval<T>| wfr(c) && (forall|i: int| 0 <= i < s.len() ==> hull(#[trigger] s[i], c) == c) implies #[trigger] hull(f, c) == c by {
            assert forall|i: int| 0 <= i < d.len() implies hull(#[trigger] d[i], c) == c by { assert(hull(s[i], c) == c); }
            assert(hull(s[s.len() - 1], c) == c);
            assert(hull(g, c) == c);
            lemma_hull_least(g, s.last(), c);
        }
        assert forall|x: T| anyr(s, x) implies #[trigger] mem(f, x) by {
            let i = choose|i: int| 0 <= i < s.len() && mem(#[trigger] s[i], x);
            lemma_hull(s[i], f);
        }
    } else {
        assert forall|c: RawInterval<T>| wfr(c) implies #[trigger] hull(f, c) == c by { }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_hull_upper<T>(a: RawInterval<T>, b: RawInterval<T>)
    requires wfr(a), wfr(b)
    ensures hull(a, hull(a, b)) == hull(a, b), hull(b, hull(a, b)) == hull(a, b)
{
    lemma_hull(a, b); lemma_hull(a, hull(a, b)); lemma_hull(b, hull(a, b)); lemma_wfr(hull(a, b)); lemma_wfr(a); lemma_wfr(b);
    if !(a is Empty) && !(b is Empty) {
        lemma_lmin_absorb(lob(a)->0, lob(b)->0, upb(a)->0, upb(b)->0);
    } else { lemma_lmin_absorb(lob(a)->0, lob(a)->0, upb(a)->0, upb(a)->0); lemma_lmin_absorb(lob(b)->0, lob(b)->0, upb(b)->0, upb(b)->0); }
}
#[verifier::spinoff_prover]
proof fn lemma_lmin_absorb<T>(a: Bound<T>, b: Bound<T>, c: Bound<T>, d: Bound<T>)
    ensures lmin(a, lmin(a, b)) == lmin(a, b), lmin(b, lmin(a, b)) == lmin(a, b), umax(c, umax(c, d)) == umax(c, d), umax(d, umax(c, d)) == umax(c, d), lmin(a, a) == a, umax(c, c) == c
{ broadcast use grp_order; }
#[verifier::spinoff_prover]
proof fn lemma_hull_trans<T>(a: RawInterval<T>, b: RawInterval<T>, c: RawInterval<T>)
    requires wfr(a), wfr(b), wfr(c), hull(a, b) == b, hull(b, c) == c
    ensures hull(a, c) == c
{
    lemma_hull(a, b); lemma_hull(b, c); lemma_hull(a, c); lemma_wfr(c); lemma_wfr(b); lemma_wfr(a);
    if !(a is Empty) {
        lemma_lmin_trans(lob(a)->0, lob(b)->0, lob(c)->0, upb(a)->0, upb(b)->0, upb(c)->0);
    }
}
#[verifier::spinoff_prover]
proof fn lemma_lmin_trans<T>(a: Bound<T>, b: Bound<T>, c: Bound<T>, d: Bound<T>, e: Bound<T>, f: Bound<T>)
    requires lmin(a, b) == b, lmin(b, c) == c, umax(d, e) == e, umax(e, f) == f
    ensures lmin(a, c) == c, umax(d, f) == f
{ broadcast use grp_order; }
// the fold contains exactly the common points
#[verifier::spinoff_prover]
proof fn lemma_fold_inter<T>(s: Seq<RawInterval<T>>)
    ensures wfr(fold_inter(s)), forall|x: T| #[trigger] mem(fold_inter(s), x) == allr(s, x),
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert(forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] == s[i]);
        lemma_fold_inter(d);
        lemma_inter(fold_inter(d), s.last());
        assert forall|x: T| #[trigger] mem(fold_inter(s), x) == allr(s, x) by {
            assert(mem(fold_inter(d), x) == allr(d, x));
            if allr(s, x) { assert(mem(s[s.len() - 1], x)); assert forall|i: int| 0 <= i < d.len() implies mem(#[trigger] d[i], x) by { assert(mem(s[i], x)); } }
            if allr(d, x) && mem(s.last(), x) { assert forall|i: int| 0 <= i < s.len() implies mem(#[trigger] s[i], x) by { if i < d.len() { assert(mem(d[i], x)); } } }
        }
    }
}

pub open spec fn noempty<T>(s: Seq<RawInterval<T>>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i] is Empty) }
// pairwise not touching
pub open spec fn apart<T>(s: Seq<RawInterval<T>>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> !#[trigger] touch(s[i], s[j]) }
#[verifier::spinoff_prover]
proof fn lemma_any_front<T>(s: Seq<RawInterval<T>>)
    ensures s.len() == 0 ==> forall|x: T| !#[trigger] anyr(s, x),
        s.len() > 0 ==> forall|x: T| #[trigger] anyr(s, x) == (mem(s[0], x) || anyr(s.skip(1), x)),
        wfrs(s) && s.len() > 0 ==> wfrs(s.skip(1)), noempty(s) && s.len() > 0 ==> noempty(s.skip(1)),
{
    if s.len() > 0 {
        let z = s.skip(1);
        assert(forall|i: int| 0 <= i < z.len() ==> #[trigger] z[i] == s[i + 1]);
        assert forall|x: T| #[trigger] anyr(s, x) == (mem(s[0], x) || anyr(z, x)) by {
            if anyr(z, x) { let i = choose|i: int| 0 <= i < z.len() && mem(#[trigger] z[i], x); assert(mem(s[i + 1], x)); }
            if anyr(s, x) { let i = choose|i: int| 0 <= i < s.len() && mem(#[trigger] s[i], x); if i > 0 { assert(mem(z[i - 1], x)); } }
        }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_any_push<T>(s: Seq<RawInterval<T>>, r: RawInterval<T>)
    ensures forall|x: T| #[trigger] anyr(s.push(r), x) == (anyr(s, x) || mem(r, x)),
        wfrs(s) && wfr(r) ==> wfrs(s.push(r)), noempty(s) && !(r is Empty) ==> noempty(s.push(r)),
        apart(s) && (forall|j: int| 0 <= j < s.len() ==> !touch(#[trigger] s[j], r)) ==> apart(s.push(r)),
{
    let z = s.push(r);
    assert(forall|i: int| 0 <= i < s.len() ==> #[trigger] z[i] == s[i]);
    assert forall|x: T| #[trigger] anyr(z, x) == (anyr(s, x) || mem(r, x)) by {
        if anyr(s, x) { let i = choose|i: int| 0 <= i < s.len() && mem(#[trigger] s[i], x); assert(mem(z[i], x)); }
        if mem(r, x) { assert(mem(z[s.len() as int], x)); }
        if anyr(z, x) { let i = choose|i: int| 0 <= i < z.len() && mem(#[trigger] z[i], x); if i < s.len() { assert(mem(s[i], x)); } }
    }
    if apart(s) && (forall|j: int| 0 <= j < s.len() ==> !touch(#[trigger] s[j], r)) {
        assert forall|i: int, j: int| 0 <= i < z.len() && 0 <= j < z.len() && i != j implies !#[trigger] touch(z[i], z[j]) by {
            if i < s.len() { lemma_touch_sym(s[i], r); } if j < s.len() { lemma_touch_sym(s[j], r); }
        }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_any_unit<T>(r: RawInterval<T>)
    ensures forall|x: T| #[trigger] anyr(seq![r], x) == mem(r, x), wfr(r) ==> wfrs(seq![r]), !(r is Empty) ==> noempty(seq![r]), apart(seq![r]),
        r is Full ==> forall|x: T| #[trigger] mem(r, x),
{
    assert forall|x: T| #[trigger] anyr(seq![r], x) == mem(r, x) by { if mem(r, x) { assert(mem(seq![r][0], x)); } }
}
// taking the k-th interval, which touches r, out of s and into r
#[verifier::spinoff_prover]
proof fn lemma_absorb<T>(s: Seq<RawInterval<T>>, k: int, r: RawInterval<T>)
    requires 0 <= k < s.len(), wfrs(s), noempty(s), apart(s), wfr(r), !(r is Empty)
    ensures wfrs(s.remove(k)), noempty(s.remove(k)), apart(s.remove(k)), touch(s[k], r) == touch(r, s[k]), hull(s[k], r) == hull(r, s[k]), wfr(s[k]),
        forall|j: int| 0 <= j < k ==> #[trigger] s.remove(k)[j] == s[j],
        touch(s[k], r) ==> wfr(hull(s[k], r)) && !(hull(s[k], r) is Empty)
            && (forall|x: T| (anyr(s.remove(k), x) || mem(hull(s[k], r), x)) == (#[trigger] anyr(s, x) || mem(r, x)))
            && (forall|j: int| 0 <= j < k && !touch(s[j], r) ==> !touch(#[trigger] s.remove(k)[j], hull(s[k], r))),
{
    let z = s.remove(k);
    assert(forall|i: int| 0 <= i < z.len() ==> #[trigger] z[i] == s[if i < k { i } else { i + 1 }]);
    lemma_touch_sym(s[k], r); lemma_hull(s[k], r);
    if touch(s[k], r) {
        assert forall|x: T| (anyr(z, x) || mem(hull(s[k], r), x)) == (#[trigger] anyr(s, x) || mem(r, x)) by {
            if anyr(z, x) { let i = choose|i: int| 0 <= i < z.len() && mem(#[trigger] z[i], x); assert(mem(s[if i < k { i } else { i + 1 }], x)); }
            if anyr(s, x) { let i = choose|i: int| 0 <= i < s.len() && mem(#[trigger] s[i], x); if i < k { assert(mem(z[i], x)); } else if i > k { assert(mem(z[i - 1], x)); } }
            if mem(hull(s[k], r), x) { assert(mem(s[k], x) || mem(r, x)); }
        }
        assert forall|j: int| 0 <= j < k && !touch(s[j], r) implies !touch(#[trigger] z[j], hull(s[k], r)) by {
            assert(!touch(s[j], s[k]));
            lemma_touch_hull(s[k], r, s[j]);
        }
    }
}
// meeting the whole line, or itself, and taking away what does not meet
#[verifier::spinoff_prover]
proof fn lemma_inter_self<T>(a: RawInterval<T>)
    requires wfr(a)
    ensures inter(a, RawInterval::Full) == a, inter(RawInterval::Full, a) == a, inter(a, a) == a
{ broadcast use grp_order; lemma_wfr(a); }
#[verifier::spinoff_prover]
proof fn lemma_diff_apart<T>(a: RawInterval<T>, b: RawInterval<T>)
    requires wfr(a), wfr(b)
    ensures a is Empty ==> diff(a, b) == Seq::<RawInterval<T>>::empty(), !(a is Empty) && inter(a, b) is Empty ==> diff(a, b) == seq![a], b is Empty ==> diff(a, b) == ne1(a), b is Full ==> diff(a, b) == Seq::<RawInterval<T>>::empty()
{
    broadcast use grp_order;
    lemma_wfr(a); lemma_wfr(b);
    let m = comp(b).map_values(|c: RawInterval<T>| inter(a, c));
    lemma_nonempties_small(m);
    if !(a is Empty) && inter(a, b) is Empty {
        lemma_mk(lmax(lob(a)->0, lob(b)->0), umin(upb(a)->0, upb(b)->0)); 
        assert(diff(a, b) =~= seq![a]);
    }
    if a is Empty { assert(diff(a, b) =~= Seq::<RawInterval<T>>::empty()); }
    if b is Empty { lemma_inter_self(a); assert(diff(a, b) =~= ne1(a)); }
    if b is Full { assert(diff(a, b) =~= Seq::<RawInterval<T>>::empty()); }
}
