// ---- theory of tine sequences (all proved) -----------------------------------
pub enum Pos<T> { Neg, At(T), Inf }
#[verifier::opaque]
pub open spec fn plt<T>(a: Pos<T>, b: Pos<T>) -> bool {
    match (a, b) { (Pos::Neg, Pos::Neg) => false, (Pos::Neg, _) => true, (_, Pos::Neg) => false, (Pos::Inf, _) => false, (_, Pos::Inf) => true, (Pos::At(x), Pos::At(y)) => lt(x, y) }
}
pub broadcast proof fn plt_irrefl<T>(a: Pos<T>, b: Pos<T>) ensures #[trigger] plt(a, b) ==> a != b && !plt(b, a) { broadcast use grp_order; reveal(plt); }
pub broadcast proof fn plt_trans<T>(a: Pos<T>, b: Pos<T>, c: Pos<T>) requires #[trigger] plt(a, b), #[trigger] plt(b, c) ensures plt(a, c) { broadcast use grp_order; reveal(plt); }
pub broadcast proof fn plt_total<T>(a: Pos<T>, b: Pos<T>) ensures #[trigger] plt(a, b) || a == b || plt(b, a) { broadcast use grp_order; reveal(plt); }
pub broadcast group grp_pos { plt_irrefl, plt_trans, plt_total }
pub open spec fn ple<T>(a: Pos<T>, b: Pos<T>) -> bool { plt(a, b) || a == b }

pub open spec fn t_ok<T>(t: Tine<T>) -> bool { !(t is Point && t->Point_0 is Infinite) }
pub open spec fn tb<T>(t: Tine<T>) -> Bound<T> { match t { Tine::Lower(b) => b, Tine::Point(b) => b, Tine::Upper(b) => b } }
pub open spec fn tpos<T>(t: Tine<T>) -> Pos<T> {
    match tb(t) { Bound::Include(x) => Pos::At(x), Bound::Exclude(x) => Pos::At(x), Bound::Infinite => if t is Lower { Pos::Neg } else { Pos::Inf } }
}
pub open spec fn pos_cmp<T>(a: Pos<T>, b: Pos<T>) -> Ordering { if plt(a, b) { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
// membership just before, at, and just after a position
#[verifier::ext_equal]
pub struct Tri { pub b: bool, pub m: bool, pub f: bool }
pub open spec fn c3(x: bool) -> Tri { Tri { b: x, m: x, f: x } }
pub open spec fn or3(x: Tri, y: Tri) -> Tri { Tri { b: x.b || y.b, m: x.m || y.m, f: x.f || y.f } }
pub open spec fn and3(x: Tri, y: Tri) -> Tri { Tri { b: x.b && y.b, m: x.m && y.m, f: x.f && y.f } }
pub open spec fn sub3(x: Tri, y: Tri) -> Tri { Tri { b: x.b && !y.b, m: x.m && !y.m, f: x.f && !y.f } }
pub open spec fn not3(x: Tri) -> Tri { Tri { b: !x.b, m: !x.m, f: !x.f } }
pub open spec fn trip<T>(t: Tine<T>) -> Tri {
    match t {
        Tine::Lower(Bound::Include(_)) => Tri { b: false, m: true, f: true },
        Tine::Lower(_) => Tri { b: false, m: false, f: true },
        Tine::Upper(Bound::Include(_)) => Tri { b: true, m: true, f: false },
        Tine::Upper(_) => Tri { b: true, m: false, f: false },
        Tine::Point(Bound::Include(_)) => Tri { b: false, m: true, f: false },
        Tine::Point(_) => Tri { b: true, m: false, f: true },
    }
}
// the tine that marks membership t at position p, if it needs one
pub open spec fn tine_of<T>(p: Pos<T>, t: Tri) -> Option<Tine<T>> {
    match p {
        Pos::Neg => if t.f { Some(Tine::Lower(Bound::Infinite)) } else { None },
        Pos::Inf => if t.b { Some(Tine::Upper(Bound::Infinite)) } else { None },
        Pos::At(x) => match (t.b, t.m, t.f) {
            (false, true, true) => Some(Tine::Lower(Bound::Include(x))),
            (false, false, true) => Some(Tine::Lower(Bound::Exclude(x))),
            (true, true, false) => Some(Tine::Upper(Bound::Include(x))),
            (true, false, false) => Some(Tine::Upper(Bound::Exclude(x))),
            (false, true, false) => Some(Tine::Point(Bound::Include(x))),
            (true, false, true) => Some(Tine::Point(Bound::Exclude(x))),
            _ => None,
        },
    }
}
// ordered by position, no two tines at one position
pub open spec fn wfo<T>(s: Seq<Tine<T>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> t_ok(#[trigger] s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] plt(tpos(s[i]), tpos(s[j]))
}
pub open spec fn chain<T>(s: Seq<Tine<T>>) -> bool { forall|i: int| 0 < i < s.len() ==> trip(s[i - 1]).f == trip(#[trigger] s[i]).b }
// the representation invariant of a tine tree
#[verifier::opaque]
pub open spec fn wf<T>(s: Seq<Tine<T>>) -> bool { wfo(s) && chain(s) && (s.len() > 0 ==> !trip(s[0]).b && !trip(s.last()).f) }

pub open spec fn idx<T>(s: Seq<Tine<T>>, p: Pos<T>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if plt(tpos(s.last()), p) { s.len() as int } else { idx(s.drop_last(), p) }
}
#[verifier::opaque]
pub open spec fn tine_at<T>(s: Seq<Tine<T>>, p: Pos<T>) -> Option<Tine<T>> { if idx(s, p) < s.len() && tpos(s[idx(s, p)]) == p { Some(s[idx(s, p)]) } else { None } }
#[verifier::opaque]
pub open spec fn left_of<T>(s: Seq<Tine<T>>, p: Pos<T>) -> Seq<Tine<T>> { s.take(idx(s, p)) }
#[verifier::opaque]
pub open spec fn right_of<T>(s: Seq<Tine<T>>, p: Pos<T>) -> Seq<Tine<T>> { s.skip(idx(s, p) + (if tine_at(s, p) is Some { 1int } else { 0 })) }
pub open spec fn bef<T>(s: Seq<Tine<T>>, p: Pos<T>) -> bool { left_of(s, p).len() > 0 && trip(left_of(s, p).last()).f }
#[verifier::opaque]
pub open spec fn tri<T>(s: Seq<Tine<T>>, p: Pos<T>) -> Tri {
    match tine_at(s, p) { Some(t) => Tri { b: bef(s, p), m: trip(t).m, f: trip(t).f }, None => c3(bef(s, p)) }
}

#[verifier::spinoff_prover]
proof fn lemma_idx<T>(s: Seq<Tine<T>>, p: Pos<T>)
    requires wfo(s)
    ensures 0 <= idx(s, p) <= s.len(),
        forall|j: int| 0 <= j < idx(s, p) ==> plt(tpos(#[trigger] s[j]), p),
        forall|j: int| idx(s, p) <= j < s.len() ==> !plt(tpos(#[trigger] s[j]), p),
    decreases s.len()
{
    broadcast use grp_pos;
    if s.len() > 0 && !plt(tpos(s.last()), p) {
        let d = s.drop_last();
        assert(forall|j: int| 0 <= j < d.len() ==> #[trigger] d[j] == s[j]);
        lemma_idx(d, p);
        assert forall|j: int| idx(s, p) <= j < s.len() implies !plt(tpos(#[trigger] s[j]), p) by { if j < d.len() { assert(d[j] == s[j]); } }
        assert forall|j: int| 0 <= j < idx(s, p) implies plt(tpos(#[trigger] s[j]), p) by { assert(d[j] == s[j]); }
    }
    if s.len() > 0 && plt(tpos(s.last()), p) {
        assert forall|j: int| 0 <= j < s.len() implies plt(tpos(#[trigger] s[j]), p) by { if j < s.len() - 1 { assert(plt(tpos(s[j]), tpos(s[s.len() - 1]))); } }
    }
}
// a cut point of an ordered sequence is its idx
#[verifier::spinoff_prover]
proof fn lemma_idx_is<T>(s: Seq<Tine<T>>, p: Pos<T>, i: int)
    requires wfo(s), 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> plt(tpos(#[trigger] s[j]), p), forall|j: int| i <= j < s.len() ==> !plt(tpos(#[trigger] s[j]), p)
    ensures idx(s, p) == i
{ lemma_idx(s, p); if idx(s, p) < i { assert(plt(tpos(s[idx(s, p)]), p)); } if i < idx(s, p) { assert(!plt(tpos(s[i]), p)); } }

// how a position cuts an ordered sequence in three
pub open spec fn cut<T>(s: Seq<Tine<T>>, p: Pos<T>, a: Seq<Tine<T>>, m: Option<Tine<T>>, z: Seq<Tine<T>>) -> bool {
    &&& s == a + opt(m) + z
    &&& forall|j: int| 0 <= j < a.len() ==> plt(tpos(#[trigger] a[j]), p)
    &&& forall|j: int| 0 <= j < z.len() ==> plt(p, tpos(#[trigger] z[j]))
    &&& m is Some ==> tpos(m->0) == p
}
#[verifier::spinoff_prover]
proof fn lemma_cut<T>(s: Seq<Tine<T>>, p: Pos<T>)
    requires wfo(s)
    ensures cut(s, p, left_of(s, p), tine_at(s, p), right_of(s, p)),
        wfo(left_of(s, p)), wfo(right_of(s, p)), tine_at(s, p) is Some ==> t_ok(tine_at(s, p)->0),
{
    broadcast use grp_pos;
    reveal(left_of); reveal(right_of); reveal(tine_at);
    lemma_idx(s, p);
    let i = idx(s, p);
    let k = i + (if tine_at(s, p) is Some { 1int } else { 0 });
    assert(s =~= left_of(s, p) + opt(tine_at(s, p)) + right_of(s, p));
    let z = right_of(s, p);
    assert forall|j: int| 0 <= j < z.len() implies plt(p, tpos(#[trigger] z[j])) by {
        assert(z[j] == s[k + j]);
        assert(!plt(tpos(s[k + j]), p));
        if k == i + 1 { assert(plt(tpos(s[i]), tpos(s[k + j]))); }
        else if tpos(s[k + j]) == p { if j > 0 { assert(plt(tpos(s[i]), tpos(s[k + j]))); assert(!plt(tpos(s[i]), p)); } }
        assert(plt(p, tpos(s[k + j])) || p == tpos(s[k + j]));
    }
    let a = left_of(s, p);
    assert forall|j: int| 0 <= j < a.len() implies plt(tpos(#[trigger] a[j]), p) by { assert(a[j] == s[j]); }
}
#[verifier::spinoff_prover]
proof fn lemma_cut_unique<T>(s: Seq<Tine<T>>, p: Pos<T>, a: Seq<Tine<T>>, m: Option<Tine<T>>, z: Seq<Tine<T>>)
    requires wfo(s), cut(s, p, a, m, z)
    ensures a == left_of(s, p), m == tine_at(s, p), z == right_of(s, p)
{
    broadcast use grp_pos;
    reveal(left_of); reveal(right_of); reveal(tine_at);
    assert forall|j: int| 0 <= j < a.len() implies plt(tpos(#[trigger] s[j]), p) by { assert(s[j] == a[j]); }
    assert forall|j: int| a.len() <= j < s.len() implies !plt(tpos(#[trigger] s[j]), p) by {
        if j >= a.len() + opt(m).len() { assert(s[j] == z[j - a.len() - opt(m).len()]); } else { assert(s[j] == m->0); }
    }
    lemma_idx_is(s, p, a.len() as int);
    assert(a =~= s.take(a.len() as int));
    if m is None && z.len() > 0 { assert(s[a.len() as int] == z[0]); assert(plt(p, tpos(z[0]))); }
    if m is Some { assert(s[a.len() as int] == m->0); }
    assert(z =~= s.skip((a.len() + opt(m).len()) as int));
}
// ordered sequences on either side of a position concatenate to an ordered one
#[verifier::spinoff_prover]
proof fn lemma_glue<T>(p: Pos<T>, a: Seq<Tine<T>>, m: Option<Tine<T>>, z: Seq<Tine<T>>)
    requires wfo(a), wfo(z), m is Some ==> t_ok(m->0) && tpos(m->0) == p,
        forall|j: int| 0 <= j < a.len() ==> plt(tpos(#[trigger] a[j]), p),
        forall|j: int| 0 <= j < z.len() ==> plt(p, tpos(#[trigger] z[j])),
    ensures wfo(a + opt(m) + z), cut(a + opt(m) + z, p, a, m, z),
        left_of(a + opt(m) + z, p) == a, tine_at(a + opt(m) + z, p) == m, right_of(a + opt(m) + z, p) == z
{
    broadcast use grp_pos;
    let s = a + opt(m) + z;
    assert forall|i: int| 0 <= i < s.len() implies t_ok(#[trigger] s[i]) by {
        if i < a.len() { assert(s[i] == a[i]); } else if i >= a.len() + opt(m).len() { assert(s[i] == z[i - a.len() - opt(m).len()]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] plt(tpos(s[i]), tpos(s[j])) by {
        let k = a.len() + opt(m).len();
        if i < a.len() { assert(s[i] == a[i]); assert(plt(tpos(a[i]), p)); }
        if j < a.len() { assert(s[j] == a[j]); }
        if j >= k { assert(s[j] == z[j - k]); assert(plt(p, tpos(z[j - k]))); }
        if i >= k { assert(s[i] == z[i - k]); }
    }
    lemma_cut_unique(s, p, a, m, z);
}
// membership before a position agrees with the tine there
#[verifier::spinoff_prover]
proof fn lemma_tri<T>(s: Seq<Tine<T>>, p: Pos<T>)
    requires wf(s)
    ensures tine_at(s, p) is Some ==> tri(s, p) == trip(tine_at(s, p)->0) && t_ok(tine_at(s, p)->0) && tpos(tine_at(s, p)->0) == p,
        tine_at(s, p) is None ==> tri(s, p) == c3(bef(s, p)),
        tine_at(s, p) == tine_of(p, tri(s, p)),
        tri(s, p).b == bef(s, p),
        p is Neg ==> !tri(s, p).b && !tri(s, p).m && left_of(s, p).len() == 0, p is Inf ==> !tri(s, p).m && !tri(s, p).f && right_of(s, p).len() == 0,
        right_of(s, p).len() > 0 ==> trip(right_of(s, p)[0]).b == tri(s, p).f,
        right_of(s, p).len() == 0 ==> !tri(s, p).f,
{
    broadcast use grp_pos;
    reveal(wf); reveal(tri);
    lemma_cut(s, p);
    let a = left_of(s, p); let m = tine_at(s, p); let z = right_of(s, p);
    if m is Some {
        assert(s[a.len() as int] == m->0);
        if a.len() > 0 { assert(s[a.len() - 1] == a.last()); }
        assert(trip(m->0).b == bef(s, p));
        if z.len() > 0 { assert(s[(a.len() + 1) as int] == z[0]); assert(s[a.len() as int] == m->0); }
        else { assert(s.last() == m->0); }
    } else {
        if z.len() > 0 { assert(s[a.len() as int] == z[0]); if a.len() > 0 { assert(s[a.len() - 1] == a.last()); } }
        else if a.len() > 0 { assert(s.last() == a.last()); }
    }
    if p is Neg { reveal(plt); if a.len() > 0 { assert(plt(tpos(a[0]), p)); } }
    if p is Inf { reveal(plt); if z.len() > 0 { assert(plt(p, tpos(z[0]))); } }
}
// membership of the span between two tines
pub open spec fn span3<T>(l: Tine<T>, u: Tine<T>, p: Pos<T>) -> Tri {
    if p == tpos(l) { trip(l) } else if p == tpos(u) { trip(u) } else { c3(plt(tpos(l), p) && plt(p, tpos(u))) }
}
pub open spec fn point3<T>(t: Tine<T>, p: Pos<T>) -> Tri { if p == tpos(t) { trip(t) } else { c3(false) } }

// replacing everything from l to u
pub open spec fn ext_pre<T>(s: Seq<Tine<T>>, l: Pos<T>, u: Pos<T>, ml: Option<Tine<T>>, mu: Option<Tine<T>>, inner: bool) -> bool {
    &&& wf(s) && plt(l, u)
    &&& ml is Some ==> t_ok(ml->0) && tpos(ml->0) == l && trip(ml->0).b == bef(s, l) && trip(ml->0).f == inner
    &&& ml is None ==> bef(s, l) == inner
    &&& mu is Some ==> t_ok(mu->0) && tpos(mu->0) == u && trip(mu->0).b == inner && trip(mu->0).f == tri(s, u).f
    &&& mu is None ==> tri(s, u).f == inner
}
pub open spec fn ext_seq<T>(s: Seq<Tine<T>>, l: Pos<T>, u: Pos<T>, ml: Option<Tine<T>>, mu: Option<Tine<T>>) -> Seq<Tine<T>> {
    left_of(s, l) + opt(ml) + (opt(mu) + right_of(s, u))
}
pub open spec fn ext_tri<T>(s: Seq<Tine<T>>, l: Pos<T>, u: Pos<T>, ml: Option<Tine<T>>, mu: Option<Tine<T>>, inner: bool, p: Pos<T>) -> Tri {
    if plt(p, l) || plt(u, p) { tri(s, p) }
    else if p == l { if ml is Some { trip(ml->0) } else { c3(inner) } }
    else if p == u { if mu is Some { trip(mu->0) } else { c3(inner) } }
    else { c3(inner) }
}
// a run of tines that takes membership from a to b
pub open spec fn seg<T>(s: Seq<Tine<T>>, a: bool, b: bool) -> bool { chain(s) && (if s.len() == 0 { a == b } else { trip(s[0]).b == a && trip(s.last()).f == b }) }
#[verifier::spinoff_prover]
proof fn lemma_seg_cat<T>(x: Seq<Tine<T>>, y: Seq<Tine<T>>, a: bool, b: bool, c: bool)
    requires seg(x, a, b), seg(y, b, c)
    ensures seg(x + y, a, c)
{
    let s = x + y;
    assert forall|i: int| 0 < i < s.len() implies trip(s[i - 1]).f == trip(#[trigger] s[i]).b by {
        if i < x.len() { assert(s[i] == x[i] && s[i - 1] == x[i - 1]); }
        else if i > x.len() { assert(s[i] == y[i - x.len()] && s[i - 1] == y[i - x.len() - 1]); }
        else { assert(s[i] == y[0]); assert(s[i - 1] == x.last()); }
    }
    if s.len() > 0 {
        if x.len() > 0 { assert(s[0] == x[0]); } else { assert(s[0] == y[0]); }
        if y.len() > 0 { assert(s.last() == y.last()); } else { assert(s.last() == x.last()); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_seg_cut<T>(s: Seq<Tine<T>>, p: Pos<T>)
    requires wf(s)
    ensures seg(left_of(s, p), false, bef(s, p)), seg(right_of(s, p), tri(s, p).f, false), seg(opt(tine_at(s, p)), bef(s, p), tri(s, p).f), seg(s, false, false)
{
    assert(wfo(s) && chain(s) && seg(s, false, false)) by { reveal(wf); }
    lemma_cut(s, p); lemma_tri(s, p);
    let a = left_of(s, p); let z = right_of(s, p);
    let k = a.len() + opt(tine_at(s, p)).len();
    assert forall|i: int| 0 < i < a.len() implies trip(a[i - 1]).f == trip(#[trigger] a[i]).b by { assert(a[i] == s[i] && a[i - 1] == s[i - 1]); }
    assert forall|i: int| 0 < i < z.len() implies trip(z[i - 1]).f == trip(#[trigger] z[i]).b by { assert(z[i] == s[k + i] && z[i - 1] == s[k + i - 1]); }
    if a.len() > 0 { assert(a[0] == s[0]); }
    if z.len() > 0 { assert(z.last() == s.last()); }
}
// membership at p does not depend on what lies beyond p
#[verifier::spinoff_prover]
proof fn lemma_tri_prefix<T>(x: Seq<Tine<T>>, y: Seq<Tine<T>>, p: Pos<T>)
    requires wfo(x + y), wfo(x), forall|j: int| 0 <= j < y.len() ==> plt(p, tpos(#[trigger] y[j]))
    ensures tri(x + y, p) == tri(x, p), left_of(x + y, p) == left_of(x, p), tine_at(x + y, p) == tine_at(x, p), right_of(x + y, p) == right_of(x, p) + y
{
    broadcast use grp_pos;
    lemma_cut(x, p);
    let a = left_of(x, p); let m = tine_at(x, p); let r = right_of(x, p);
    assert(x + y =~= a + opt(m) + (r + y));
    let q = r + y;
    assert forall|j: int| 0 <= j < q.len() implies plt(p, tpos(#[trigger] q[j])) by { if j < r.len() { assert(q[j] == r[j]); } else { assert(q[j] == y[j - r.len()]); } }
    lemma_cut_unique(x + y, p, a, m, q);
    reveal(tri);
}
pub open spec fn out<T>(x: Seq<Tine<T>>) -> bool { x.len() > 0 && trip(x.last()).f }
// ... and depends on what lies before it only through the last tine
#[verifier::spinoff_prover]
proof fn lemma_tri_suffix<T>(x: Seq<Tine<T>>, y: Seq<Tine<T>>, p: Pos<T>)
    requires wfo(x + y), wfo(y), forall|j: int| 0 <= j < x.len() ==> plt(tpos(#[trigger] x[j]), p)
    ensures left_of(x + y, p) == x + left_of(y, p), tine_at(x + y, p) == tine_at(y, p), right_of(x + y, p) == right_of(y, p),
        bef(x + y, p) == (if left_of(y, p).len() > 0 { bef(y, p) } else { out(x) }),
        tri(x + y, p) == (match tine_at(y, p) { Some(t) => Tri { b: bef(x + y, p), m: trip(t).m, f: trip(t).f }, None => c3(bef(x + y, p)) }),
{
    broadcast use grp_pos;
    lemma_cut(y, p);
    let a = left_of(y, p); let m = tine_at(y, p); let r = right_of(y, p);
    assert(x + y =~= (x + a) + opt(m) + r);
    let q = x + a;
    assert forall|j: int| 0 <= j < q.len() implies plt(tpos(#[trigger] q[j]), p) by { if j < x.len() { assert(q[j] == x[j]); } else { assert(q[j] == a[j - x.len()]); } }
    lemma_cut_unique(x + y, p, q, m, r);
    if a.len() > 0 { assert(q.last() == a.last()); } else { assert(q =~= x); }
    reveal(tri);
}
#[verifier::spinoff_prover]
proof fn lemma_wfo_parts<T>(x: Seq<Tine<T>>, y: Seq<Tine<T>>)
    requires wfo(x + y)
    ensures wfo(x), wfo(y)
{
    let s = x + y;
    assert forall|i: int| 0 <= i < x.len() implies t_ok(#[trigger] x[i]) by { assert(x[i] == s[i]); }
    assert forall|i: int| 0 <= i < y.len() implies t_ok(#[trigger] y[i]) by { assert(y[i] == s[i + x.len()]); }
    assert forall|i: int, j: int| 0 <= i < j < x.len() implies #[trigger] plt(tpos(x[i]), tpos(x[j])) by { assert(plt(tpos(s[i]), tpos(s[j]))); }
    assert forall|i: int, j: int| 0 <= i < j < y.len() implies #[trigger] plt(tpos(y[i]), tpos(y[j])) by { assert(plt(tpos(s[i + x.len()]), tpos(s[j + x.len()]))); }
}
#[verifier::spinoff_prover]
proof fn lemma_ext_wf<T>(s: Seq<Tine<T>>, l: Pos<T>, u: Pos<T>, ml: Option<Tine<T>>, mu: Option<Tine<T>>, inner: bool)
    requires ext_pre(s, l, u, ml, mu, inner)
    ensures wf(ext_seq(s, l, u, ml, mu)), wfo(ext_seq(s, l, u, ml, mu)), wfo(opt(mu) + right_of(s, u)), wfo(left_of(s, l) + opt(ml)),
        left_of(ext_seq(s, l, u, ml, mu), l) == left_of(s, l), tine_at(ext_seq(s, l, u, ml, mu), l) == ml,
        right_of(ext_seq(s, l, u, ml, mu), l) == opt(mu) + right_of(s, u),
        left_of(ext_seq(s, l, u, ml, mu), u) == left_of(s, l) + opt(ml), tine_at(ext_seq(s, l, u, ml, mu), u) == mu,
        right_of(ext_seq(s, l, u, ml, mu), u) == right_of(s, u),
{
    broadcast use grp_pos;
    let a = left_of(s, l); let z = right_of(s, u);
    assert(wfo(s)) by { reveal(wf); }
    lemma_cut(s, l); lemma_cut(s, u);
    lemma_tri(s, l); lemma_tri(s, u);
    let e = Seq::<Tine<T>>::empty();
    lemma_glue(u, e, mu, z);
    assert(e + opt(mu) + z =~= opt(mu) + z);
    let y = opt(mu) + z;
    assert forall|j: int| 0 <= j < y.len() implies plt(l, tpos(#[trigger] y[j])) by {
        if mu is Some && j == 0 { assert(y[0] == mu->0); } else { let k = j - opt(mu).len(); assert(y[j] == z[k]); assert(plt(u, tpos(z[k]))); }
    }
    lemma_glue(l, a, ml, y);
    let x = a + opt(ml);
    lemma_wfo_parts(x, y);
    assert forall|j: int| 0 <= j < x.len() implies plt(tpos(#[trigger] x[j]), u) by {
        if j < a.len() { assert(x[j] == a[j]); assert(plt(tpos(a[j]), l)); } else { assert(x[j] == ml->0); }
    }
    lemma_glue(u, x, mu, z);
    let fin = ext_seq(s, l, u, ml, mu);
    assert(x + opt(mu) + z =~= fin);
    lemma_seg_cut(s, l); lemma_seg_cut(s, u);
    lemma_seg_cat(a, opt(ml), false, bef(s, l), inner);
    lemma_seg_cat(opt(mu), z, inner, tri(s, u).f, false);
    lemma_seg_cat(x, y, false, inner, false);
    reveal(wf);
}
#[verifier::spinoff_prover]
proof fn lemma_ext<T>(s: Seq<Tine<T>>, l: Pos<T>, u: Pos<T>, ml: Option<Tine<T>>, mu: Option<Tine<T>>, inner: bool, p: Pos<T>)
    requires ext_pre(s, l, u, ml, mu, inner)
    ensures wf(ext_seq(s, l, u, ml, mu)), tri(ext_seq(s, l, u, ml, mu), p) == ext_tri(s, l, u, ml, mu, inner, p)
{
    broadcast use grp_pos;
    let a = left_of(s, l); let z = right_of(s, u);
    assert(wfo(s)) by { reveal(wf); }
    lemma_cut(s, l); lemma_cut(s, u);
    lemma_tri(s, l); lemma_tri(s, u);
    lemma_ext_wf(s, l, u, ml, mu, inner);
    let fin = ext_seq(s, l, u, ml, mu);
    let x = a + opt(ml); let y = opt(mu) + z;
    assert(out(x) == inner) by { if ml is Some { assert(x.last() == ml->0); } else { assert(x =~= a); } }
    if plt(p, l) {
        let y1 = opt(ml) + y; let y2 = opt(tine_at(s, l)) + right_of(s, l);
        assert(fin =~= a + y1); assert(s =~= a + y2);
        assert forall|j: int| 0 <= j < y1.len() implies plt(p, tpos(#[trigger] y1[j])) by {
            if j < opt(ml).len() { } else if j < opt(ml).len() + opt(mu).len() { assert(y1[j] == mu->0); } else { let k = j - opt(ml).len() - opt(mu).len(); assert(y1[j] == z[k]); assert(plt(u, tpos(z[k]))); }
        }
        assert forall|j: int| 0 <= j < y2.len() implies plt(p, tpos(#[trigger] y2[j])) by {
            if j < opt(tine_at(s, l)).len() { } else { let k = j - opt(tine_at(s, l)).len(); assert(y2[j] == right_of(s, l)[k]); assert(plt(l, tpos(right_of(s, l)[k]))); }
        }
        lemma_tri_prefix(a, y1, p); lemma_tri_prefix(a, y2, p);
    } else if plt(u, p) {
        let x1 = x + opt(mu); let x2 = left_of(s, u) + opt(tine_at(s, u));
        assert(fin =~= x1 + z);
        assert forall|j: int| 0 <= j < x1.len() implies plt(tpos(#[trigger] x1[j]), p) by {
            if j < a.len() { assert(x1[j] == a[j]); assert(plt(tpos(a[j]), l)); } else if j < x.len() { assert(x1[j] == ml->0); } else { assert(x1[j] == mu->0); }
        }
        assert forall|j: int| 0 <= j < x2.len() implies plt(tpos(#[trigger] x2[j]), p) by {
            if j < left_of(s, u).len() { assert(x2[j] == left_of(s, u)[j]); assert(plt(tpos(left_of(s, u)[j]), u)); } else { assert(x2[j] == tine_at(s, u)->0); }
        }
        assert(out(x1) == tri(s, u).f) by { if mu is Some { assert(x1.last() == mu->0); } else { assert(x1 =~= x); } }
        assert(out(x2) == tri(s, u).f) by { if tine_at(s, u) is Some { assert(x2.last() == tine_at(s, u)->0); } else { assert(x2 =~= left_of(s, u)); } }
        lemma_tri_suffix(x1, z, p); lemma_tri_suffix(x2, z, p);
    } else if p != l && p != u {
        assert forall|j: int| 0 <= j < x.len() implies plt(tpos(#[trigger] x[j]), p) by { if j < a.len() { assert(x[j] == a[j]); assert(plt(tpos(a[j]), l)); } else { assert(x[j] == ml->0); } }
        assert forall|j: int| 0 <= j < y.len() implies plt(p, tpos(#[trigger] y[j])) by { if j < opt(mu).len() { assert(y[j] == mu->0); } else { assert(y[j] == z[j - opt(mu).len()]); assert(plt(u, tpos(z[j - opt(mu).len()]))); } }
        assert(fin =~= x + opt(None::<Tine<T>>) + y);
        lemma_cut_unique(fin, p, x, None, y);
        reveal(tri);
    } else {
        lemma_tri(fin, p);
    }
}
// ---- union with / removal of one interval -----------------------------------
pub open spec fn op3(sub: bool, x: Tri, y: Tri) -> Tri { if sub { sub3(x, y) } else { or3(x, y) } }
// what becomes of position q when t is united with / removed from s
pub open spec fn newt<T>(s: Seq<Tine<T>>, t: Tine<T>, sub: bool) -> Option<Tine<T>> { tine_of(tpos(t), op3(sub, tri(s, tpos(t)), trip(t))) }
pub open spec fn span_ok<T>(l: Tine<T>, u: Tine<T>) -> bool { l is Lower && u is Upper && plt(tpos(l), tpos(u)) }
pub open spec fn span_seq<T>(s: Seq<Tine<T>>, l: Tine<T>, u: Tine<T>, sub: bool) -> Seq<Tine<T>> { ext_seq(s, tpos(l), tpos(u), newt(s, l, sub), newt(s, u, sub)) }
#[verifier::spinoff_prover]
proof fn lemma_span_pre<T>(s: Seq<Tine<T>>, l: Tine<T>, u: Tine<T>, sub: bool)
    requires wf(s), span_ok(l, u)
    ensures ext_pre(s, tpos(l), tpos(u), newt(s, l, sub), newt(s, u, sub), !sub)
{ lemma_tri(s, tpos(l)); lemma_tri(s, tpos(u)); reveal(plt); }
#[verifier::spinoff_prover]
proof fn lemma_span_at<T>(s: Seq<Tine<T>>, l: Tine<T>, u: Tine<T>, sub: bool, p: Pos<T>)
    requires wf(s), span_ok(l, u)
    ensures wf(span_seq(s, l, u, sub)), tri(span_seq(s, l, u, sub), p) == op3(sub, tri(s, p), span3(l, u, p))
{
    broadcast use grp_pos;
    lemma_span_pre(s, l, u, sub);
    lemma_ext(s, tpos(l), tpos(u), newt(s, l, sub), newt(s, u, sub), !sub, p);
    lemma_tri(s, tpos(l)); lemma_tri(s, tpos(u)); lemma_tri(span_seq(s, l, u, sub), p); lemma_tri(s, p);
}
#[verifier::spinoff_prover]
proof fn lemma_span<T>(s: Seq<Tine<T>>, l: Tine<T>, u: Tine<T>, sub: bool)
    requires wf(s), span_ok(l, u)
    ensures wf(span_seq(s, l, u, sub)), forall|p: Pos<T>| #[trigger] tri(span_seq(s, l, u, sub), p) == op3(sub, tri(s, p), span3(l, u, p))
{
    lemma_span_pre(s, l, u, sub);
    lemma_ext_wf(s, tpos(l), tpos(u), newt(s, l, sub), newt(s, u, sub), !sub);
    assert forall|p: Pos<T>| #[trigger] tri(span_seq(s, l, u, sub), p) == op3(sub, tri(s, p), span3(l, u, p)) by { lemma_span_at(s, l, u, sub, p); }
}
// replacing the tine at one position
pub open spec fn pt_seq<T>(s: Seq<Tine<T>>, p: Pos<T>, m: Option<Tine<T>>) -> Seq<Tine<T>> { left_of(s, p) + opt(m) + right_of(s, p) }
#[verifier::spinoff_prover]
proof fn lemma_pt<T>(s: Seq<Tine<T>>, p: Pos<T>, m: Option<Tine<T>>, q: Pos<T>)
    requires wf(s), m is Some ==> t_ok(m->0) && tpos(m->0) == p && trip(m->0).b == bef(s, p) && trip(m->0).f == tri(s, p).f,
        m is None ==> bef(s, p) == tri(s, p).f
    ensures wf(pt_seq(s, p, m)), wfo(pt_seq(s, p, m)), tri(pt_seq(s, p, m), q) == (if q == p { match m { Some(t) => trip(t), None => c3(bef(s, p)) } } else { tri(s, q) })
{
    broadcast use grp_pos;
    let a = left_of(s, p); let z = right_of(s, p); let fin = pt_seq(s, p, m);
    assert(wfo(s)) by { reveal(wf); }
    lemma_cut(s, p); lemma_tri(s, p);
    lemma_glue(p, a, m, z);
    lemma_seg_cut(s, p);
    lemma_seg_cat(a, opt(m), false, bef(s, p), tri(s, p).f);
    lemma_seg_cat(a + opt(m), z, false, tri(s, p).f, false);
    assert(wf(fin)) by { reveal(wf); }
    lemma_tri(fin, q);
    if plt(q, p) {
        let y1 = opt(m) + z; let y2 = opt(tine_at(s, p)) + z;
        assert(fin =~= a + y1); assert(s =~= a + y2);
        assert forall|j: int| 0 <= j < y1.len() implies plt(q, tpos(#[trigger] y1[j])) by { if j >= opt(m).len() { assert(y1[j] == z[j - opt(m).len()]); assert(plt(p, tpos(z[j - opt(m).len()]))); } }
        assert forall|j: int| 0 <= j < y2.len() implies plt(q, tpos(#[trigger] y2[j])) by { if j >= opt(tine_at(s, p)).len() { assert(y2[j] == z[j - opt(tine_at(s, p)).len()]); assert(plt(p, tpos(z[j - opt(tine_at(s, p)).len()]))); } }
        lemma_tri_prefix(a, y1, q); lemma_tri_prefix(a, y2, q);
    } else if plt(p, q) {
        let x1 = a + opt(m); let x2 = a + opt(tine_at(s, p));
        assert(fin =~= x1 + z); assert(s =~= x2 + z);
        assert forall|j: int| 0 <= j < x1.len() implies plt(tpos(#[trigger] x1[j]), q) by { if j < a.len() { assert(x1[j] == a[j]); assert(plt(tpos(a[j]), p)); } }
        assert forall|j: int| 0 <= j < x2.len() implies plt(tpos(#[trigger] x2[j]), q) by { if j < a.len() { assert(x2[j] == a[j]); assert(plt(tpos(a[j]), p)); } }
        assert(out(x1) == tri(s, p).f) by { if m is Some { assert(x1.last() == m->0); } else { assert(x1 =~= a); } }
        assert(out(x2) == tri(s, p).f) by { if tine_at(s, p) is Some { assert(x2.last() == tine_at(s, p)->0); } else { assert(x2 =~= a); } }
        lemma_tri_suffix(x1, z, q); lemma_tri_suffix(x2, z, q);
    } else {
        reveal(tri);
    }
}
pub open spec fn pt_ok<T>(t: Tine<T>) -> bool { t is Point && t->Point_0 is Include }
#[verifier::spinoff_prover]
proof fn lemma_point_op<T>(s: Seq<Tine<T>>, t: Tine<T>, sub: bool)
    requires wf(s), pt_ok(t)
    ensures wf(pt_seq(s, tpos(t), newt(s, t, sub))), forall|p: Pos<T>| #[trigger] tri(pt_seq(s, tpos(t), newt(s, t, sub)), p) == op3(sub, tri(s, p), point3(t, p))
{
    let m = newt(s, t, sub);
    lemma_tri(s, tpos(t));
    lemma_pt(s, tpos(t), m, tpos(t));
    assert forall|p: Pos<T>| #[trigger] tri(pt_seq(s, tpos(t), m), p) == op3(sub, tri(s, p), point3(t, p)) by { lemma_pt(s, tpos(t), m, p); lemma_tri(s, p); }
}
// ---- restriction to one interval ----------------------------------------------
pub open spec fn mid_of<T>(s: Seq<Tine<T>>, l: Pos<T>, u: Pos<T>) -> Seq<Tine<T>> { left_of(right_of(s, l), u) }
pub open spec fn mett<T>(s: Seq<Tine<T>>, t: Tine<T>) -> Option<Tine<T>> { tine_of(tpos(t), and3(tri(s, tpos(t)), trip(t))) }
pub open spec fn meet_seq<T>(s: Seq<Tine<T>>, l: Tine<T>, u: Tine<T>) -> Seq<Tine<T>> { opt(mett(s, l)) + mid_of(s, tpos(l), tpos(u)) + opt(mett(s, u)) }
// s cut at two positions
#[verifier::spinoff_prover]
proof fn lemma_cut2<T>(s: Seq<Tine<T>>, l: Pos<T>, u: Pos<T>)
    requires wf(s), plt(l, u)
    ensures s == left_of(s, l) + opt(tine_at(s, l)) + mid_of(s, l, u) + opt(tine_at(s, u)) + right_of(s, u),
        right_of(s, l) == mid_of(s, l, u) + opt(tine_at(s, u)) + right_of(s, u),
        left_of(s, u) == left_of(s, l) + opt(tine_at(s, l)) + mid_of(s, l, u),
        tine_at(right_of(s, l), u) == tine_at(s, u), right_of(right_of(s, l), u) == right_of(s, u),
        wfo(mid_of(s, l, u)), seg(mid_of(s, l, u), tri(s, l).f, tri(s, u).b),
        forall|j: int| 0 <= j < mid_of(s, l, u).len() ==> plt(l, tpos(#[trigger] mid_of(s, l, u)[j])) && plt(tpos(mid_of(s, l, u)[j]), u),
{
    broadcast use grp_pos;
    assert(wfo(s)) by { reveal(wf); }
    lemma_cut(s, l); lemma_cut(s, u); lemma_tri(s, l); lemma_tri(s, u);
    let x = left_of(s, l) + opt(tine_at(s, l)); let r = right_of(s, l);
    assert(s =~= x + r);
    assert forall|j: int| 0 <= j < x.len() implies plt(tpos(#[trigger] x[j]), u) by { if j < left_of(s, l).len() { assert(x[j] == left_of(s, l)[j]); assert(plt(tpos(left_of(s, l)[j]), l)); } }
    lemma_tri_suffix(x, r, u);
    lemma_cut(r, u);
    let m = mid_of(s, l, u);
    assert forall|j: int| 0 <= j < m.len() implies plt(l, tpos(#[trigger] m[j])) && plt(tpos(m[j]), u) by { assert(r[j] == m[j]); }
    assert(s =~= left_of(s, l) + opt(tine_at(s, l)) + m + opt(tine_at(s, u)) + right_of(s, u));
    lemma_seg_cut(s, l); lemma_seg_cut(s, u);
    assert(left_of(s, u) =~= x + m);
    let k = x.len();
    assert forall|i: int| 0 < i < m.len() implies trip(m[i - 1]).f == trip(#[trigger] m[i]).b by { assert(r[i] == m[i] && r[i - 1] == m[i - 1]); }
    if m.len() > 0 { assert(m[0] == r[0]); assert(left_of(s, u).last() == m.last()); }
    else { assert(left_of(s, u) =~= x); if tine_at(s, l) is Some { assert(x.last() == tine_at(s, l)->0); } else { assert(x =~= left_of(s, l)); } }
}
#[verifier::spinoff_prover]
proof fn lemma_mett<T>(s: Seq<Tine<T>>, l: Tine<T>, u: Tine<T>)
    requires wf(s), span_ok(l, u)
    ensures
        mett(s, l) is Some ==> t_ok(mett(s, l)->0) && tpos(mett(s, l)->0) == tpos(l), mett(s, u) is Some ==> t_ok(mett(s, u)->0) && tpos(mett(s, u)->0) == tpos(u),
        seg(opt(mett(s, l)), false, tri(s, tpos(l)).f), seg(opt(mett(s, u)), tri(s, tpos(u)).b, false),
{ reveal(plt); lemma_tri(s, tpos(l)); lemma_tri(s, tpos(u)); }
#[verifier::spinoff_prover]
proof fn lemma_meet_wf<T>(s: Seq<Tine<T>>, l: Tine<T>, u: Tine<T>)
    requires wf(s), span_ok(l, u)
    ensures wf(meet_seq(s, l, u)), wfo(opt(mett(s, l)) + mid_of(s, tpos(l), tpos(u))), wfo(mid_of(s, tpos(l), tpos(u))), wfo(meet_seq(s, l, u)),
        left_of(mid_of(s, tpos(l), tpos(u)), tpos(l)) == Seq::<Tine<T>>::empty(), right_of(mid_of(s, tpos(l), tpos(u)), tpos(l)) == mid_of(s, tpos(l), tpos(u)),
        tine_at(mid_of(s, tpos(l), tpos(u)), tpos(l)) is None,
        left_of(opt(mett(s, l)) + mid_of(s, tpos(l), tpos(u)), tpos(u)) == opt(mett(s, l)) + mid_of(s, tpos(l), tpos(u)),
        right_of(opt(mett(s, l)) + mid_of(s, tpos(l), tpos(u)), tpos(u)) == Seq::<Tine<T>>::empty(),
        tine_at(opt(mett(s, l)) + mid_of(s, tpos(l), tpos(u)), tpos(u)) is None,
{
    broadcast use grp_pos;
    let pl = tpos(l); let pu = tpos(u);
    lemma_cut2(s, pl, pu); lemma_tri(s, pl); lemma_tri(s, pu); lemma_mett(s, l, u);
    let m = mid_of(s, pl, pu); let e = Seq::<Tine<T>>::empty();
    let ml = mett(s, l); let mu = mett(s, u);
    lemma_glue(pl, e, ml, m); lemma_glue(pl, e, None, m);
    assert(e + opt(ml) + m =~= opt(ml) + m); assert(e + opt(None::<Tine<T>>) + m =~= m);
    let x = opt(ml) + m;
    assert forall|j: int| 0 <= j < x.len() implies plt(tpos(#[trigger] x[j]), pu) by { if j < opt(ml).len() { } else { assert(x[j] == m[j - opt(ml).len()]); } }
    lemma_glue(pu, x, mu, e); lemma_glue(pu, x, None, e);
    assert(x + opt(mu) + e =~= meet_seq(s, l, u)); assert(x + opt(None::<Tine<T>>) + e =~= x);
    lemma_seg_cat(opt(ml), m, false, tri(s, pl).f, tri(s, pu).b);
    lemma_seg_cat(x, opt(mu), false, tri(s, pu).b, false);
    reveal(wf);
}
#[verifier::spinoff_prover]
proof fn lemma_meet_before<T>(s: Seq<Tine<T>>, l: Tine<T>, u: Tine<T>, p: Pos<T>)
    requires wf(s), span_ok(l, u), plt(p, tpos(l))
    ensures tri(meet_seq(s, l, u), p) == and3(tri(s, p), span3(l, u, p))
{
    broadcast use grp_pos;
    let pl = tpos(l); let pu = tpos(u);
    lemma_meet_wf(s, l, u);
    lemma_cut2(s, pl, pu); lemma_tri(s, pl); lemma_tri(s, pu); lemma_tri(s, p);
    let m = mid_of(s, pl, pu); let e = Seq::<Tine<T>>::empty();
    let ml = mett(s, l); let mu = mett(s, u); let fin = meet_seq(s, l, u);
    lemma_tri(fin, p);
    assert(wfo(fin)) by { reveal(wf); }
    assert(fin =~= e + opt(None::<Tine<T>>) + fin);
    assert forall|j: int| 0 <= j < fin.len() implies plt(p, tpos(#[trigger] fin[j])) by { if j < opt(ml).len() { } else if j < opt(ml).len() + m.len() { assert(fin[j] == m[j - opt(ml).len()]); } else { assert(fin[j] == mu->0); } }
    lemma_cut_unique(fin, p, e, None, fin);
}
#[verifier::spinoff_prover]
proof fn lemma_meet_after<T>(s: Seq<Tine<T>>, l: Tine<T>, u: Tine<T>, p: Pos<T>)
    requires wf(s), span_ok(l, u), plt(tpos(u), p)
    ensures tri(meet_seq(s, l, u), p) == and3(tri(s, p), span3(l, u, p))
{
    broadcast use grp_pos;
    let pl = tpos(l); let pu = tpos(u);
    lemma_meet_wf(s, l, u);
    lemma_cut2(s, pl, pu); lemma_tri(s, pl); lemma_tri(s, pu); lemma_tri(s, p);
    let m = mid_of(s, pl, pu); let e = Seq::<Tine<T>>::empty();
    let ml = mett(s, l); let mu = mett(s, u); let fin = meet_seq(s, l, u);
    lemma_tri(fin, p);
    assert(wfo(fin)) by { reveal(wf); }
    assert(fin =~= fin + opt(None::<Tine<T>>) + e);
    assert forall|j: int| 0 <= j < fin.len() implies plt(tpos(#[trigger] fin[j]), p) by { if j < opt(ml).len() { } else if j < opt(ml).len() + m.len() { assert(fin[j] == m[j - opt(ml).len()]); } else { assert(fin[j] == mu->0); } }
    lemma_cut_unique(fin, p, fin, None, e);
    assert(!trip(fin.last()).f || fin.len() == 0) by { reveal(wf); }
}
#[verifier::spinoff_prover]
proof fn lemma_meet_lower<T>(s: Seq<Tine<T>>, l: Tine<T>, u: Tine<T>, p: Pos<T>)
    requires wf(s), span_ok(l, u), p == tpos(l)
    ensures tri(meet_seq(s, l, u), p) == and3(tri(s, p), span3(l, u, p))
{
    broadcast use grp_pos;
    let pl = tpos(l); let pu = tpos(u);
    lemma_meet_wf(s, l, u);
    lemma_cut2(s, pl, pu); lemma_tri(s, pl); lemma_tri(s, pu); lemma_tri(s, p);
    let m = mid_of(s, pl, pu); let e = Seq::<Tine<T>>::empty();
    let ml = mett(s, l); let mu = mett(s, u); let fin = meet_seq(s, l, u);
    lemma_tri(fin, p);
    assert(wfo(fin)) by { reveal(wf); }
    let r = m + opt(mu);
    assert(fin =~= e + opt(ml) + r);
    assert forall|j: int| 0 <= j < r.len() implies plt(p, tpos(#[trigger] r[j])) by { if j < m.len() { assert(r[j] == m[j]); } else { assert(r[j] == mu->0); } }
    lemma_cut_unique(fin, p, e, ml, r);
    if ml is None { lemma_seg_cut(fin, p); }
}
#[verifier::spinoff_prover]
proof fn lemma_meet_upper<T>(s: Seq<Tine<T>>, l: Tine<T>, u: Tine<T>, p: Pos<T>)
    requires wf(s), span_ok(l, u), p == tpos(u)
    ensures tri(meet_seq(s, l, u), p) == and3(tri(s, p), span3(l, u, p))
{
    broadcast use grp_pos;
    let pl = tpos(l); let pu = tpos(u);
    lemma_meet_wf(s, l, u);
    lemma_cut2(s, pl, pu); lemma_tri(s, pl); lemma_tri(s, pu); lemma_tri(s, p);
    let m = mid_of(s, pl, pu); let e = Seq::<Tine<T>>::empty();
    let ml = mett(s, l); let mu = mett(s, u); let fin = meet_seq(s, l, u);
    lemma_tri(fin, p);
    assert(wfo(fin)) by { reveal(wf); }
    let x = opt(ml) + m;
    assert(fin =~= x + opt(mu) + e);
    assert forall|j: int| 0 <= j < x.len() implies plt(tpos(#[trigger] x[j]), p) by { if j < opt(ml).len() { } else { assert(x[j] == m[j - opt(ml).len()]); } }
    lemma_cut_unique(fin, p, x, mu, e);
}
#[verifier::spinoff_prover]
proof fn lemma_meet_inner<T>(s: Seq<Tine<T>>, l: Tine<T>, u: Tine<T>, p: Pos<T>)
    requires wf(s), span_ok(l, u), plt(tpos(l), p), plt(p, tpos(u))
    ensures tri(meet_seq(s, l, u), p) == and3(tri(s, p), span3(l, u, p))
{
    broadcast use plt_irrefl;
    let pl = tpos(l); let pu = tpos(u);
    lemma_meet_wf(s, l, u);
    lemma_cut2(s, pl, pu); lemma_tri(s, pl); lemma_tri(s, pu); lemma_tri(s, p);
    let m = mid_of(s, pl, pu); let e = Seq::<Tine<T>>::empty();
    let ml = mett(s, l); let mu = mett(s, u); let fin = meet_seq(s, l, u);
    lemma_tri(fin, p);
    assert(wfo(fin)) by { reveal(wf); }
    let x1 = opt(ml); let x2 = left_of(s, pl) + opt(tine_at(s, pl));
    let y1 = opt(mu); let y2 = opt(tine_at(s, pu)) + right_of(s, pu);
    assert(fin =~= (x1 + m) + y1); assert(s =~= (x2 + m) + y2);
    assert(wfo(s)) by { reveal(wf); }
    lemma_wfo_parts(x1 + m, y1); lemma_wfo_parts(x2 + m, y2);
    lemma_cut(s, pl); lemma_cut(s, pu);
    assert forall|j: int| 0 <= j < x2.len() implies plt(tpos(#[trigger] x2[j]), p) by { if j < left_of(s, pl).len() { assert(x2[j] == left_of(s, pl)[j]); plt_trans(tpos(left_of(s, pl)[j]), pl, p); } }
    assert forall|j: int| 0 <= j < y2.len() implies plt(p, tpos(#[trigger] y2[j])) by { if j >= opt(tine_at(s, pu)).len() { let k = j - opt(tine_at(s, pu)).len(); assert(y2[j] == right_of(s, pu)[k]); plt_trans(p, pu, tpos(right_of(s, pu)[k])); } }
    lemma_tri_prefix(x1 + m, y1, p); lemma_tri_prefix(x2 + m, y2, p);
    lemma_tri_suffix(x1, m, p); lemma_tri_suffix(x2, m, p);
    assert(out(x2) == tri(s, pl).f) by { if tine_at(s, pl) is Some { assert(x2.last() == tine_at(s, pl)->0); } else { assert(x2 =~= left_of(s, pl)); } }
    assert(out(x1) == tri(s, pl).f) by { if ml is Some { assert(x1.last() == ml->0); } }
}
#[verifier::spinoff_prover]
proof fn lemma_meet_at<T>(s: Seq<Tine<T>>, l: Tine<T>, u: Tine<T>, p: Pos<T>)
    requires wf(s), span_ok(l, u)
    ensures tri(meet_seq(s, l, u), p) == and3(tri(s, p), span3(l, u, p))
{
    broadcast use grp_pos;
    if plt(p, tpos(l)) { lemma_meet_before(s, l, u, p); }
    else if p == tpos(l) { lemma_meet_lower(s, l, u, p); }
    else if p == tpos(u) { lemma_meet_upper(s, l, u, p); }
    else if plt(p, tpos(u)) { lemma_meet_inner(s, l, u, p); }
    else { lemma_meet_after(s, l, u, p); }
}
#[verifier::spinoff_prover]
proof fn lemma_meet<T>(s: Seq<Tine<T>>, l: Tine<T>, u: Tine<T>)
    requires wf(s), span_ok(l, u)
    ensures wf(meet_seq(s, l, u)), forall|p: Pos<T>| #[trigger] tri(meet_seq(s, l, u), p) == and3(tri(s, p), span3(l, u, p))
{
    lemma_meet_wf(s, l, u);
    assert forall|p: Pos<T>| #[trigger] tri(meet_seq(s, l, u), p) == and3(tri(s, p), span3(l, u, p)) by { lemma_meet_at(s, l, u, p); }
}
// ---- canonicity: a well formed sequence is determined by membership -----------------
#[verifier::spinoff_prover]
proof fn lemma_determined<T>(s: Seq<Tine<T>>, t: Seq<Tine<T>>)
    requires wf(s), wf(t), forall|p: Pos<T>| #[trigger] tri(s, p) == tri(t, p)
    ensures s == t
{
    assert(wfo(s) && wfo(t)) by { reveal(wf); }
    assert forall|p: Pos<T>| #[trigger] tine_at(s, p) == tine_at(t, p) by { lemma_tri(s, p); lemma_tri(t, p); assert(tri(s, p) == tri(t, p)); }
    lemma_same_tines(s, t);
}
#[verifier::spinoff_prover]
proof fn lemma_same_tines<T>(s: Seq<Tine<T>>, t: Seq<Tine<T>>)
    requires wfo(s), wfo(t), forall|p: Pos<T>| #[trigger] tine_at(s, p) == tine_at(t, p)
    ensures s == t
    decreases s.len()
{
    broadcast use grp_pos;
    if s.len() == 0 {
        if t.len() > 0 { let p = tpos(t[0]); lemma_cut(t, p); lemma_cut(s, p); lemma_first(t); }
        assert(s =~= t);
    } else {
        let p = tpos(s.last());
        lemma_last(s);
        assert(tine_at(t, p) == Some(s.last()));
        lemma_cut(t, p);
        let q = tpos(t.last());
        lemma_last(t);
        assert(tine_at(s, q) == Some(t.last()));
        lemma_cut(s, q);
        let i = left_of(s, q).len() as int; assert(s[i] == t.last());
        let j = left_of(t, p).len() as int; assert(t[j] == s.last());
        if i < s.len() - 1 { assert(plt(tpos(s[i]), tpos(s[s.len() - 1]))); }
        if j < t.len() - 1 { assert(plt(tpos(t[j]), tpos(t[t.len() - 1]))); }
        let s1 = s.drop_last(); let t1 = t.drop_last();
        assert(s =~= s1 + seq![s.last()]); assert(t =~= t1 + seq![t.last()]);
        lemma_wfo_parts(s1, seq![s.last()]); lemma_wfo_parts(t1, seq![t.last()]);
        assert forall|x: Pos<T>| #[trigger] tine_at(s1, x) == tine_at(t1, x) by {
            lemma_drop_last_at(s, x); lemma_drop_last_at(t, x); assert(tine_at(s, x) == tine_at(t, x));
        }
        lemma_same_tines(s1, t1);
    }
}
#[verifier::spinoff_prover]
proof fn lemma_last<T>(s: Seq<Tine<T>>)
    requires wfo(s), s.len() > 0
    ensures tine_at(s, tpos(s.last())) == Some(s.last()), left_of(s, tpos(s.last())) == s.drop_last(), right_of(s, tpos(s.last())) == Seq::<Tine<T>>::empty()
{
    let p = tpos(s.last()); let a = s.drop_last(); let e = Seq::<Tine<T>>::empty();
    assert(s =~= a + opt(Some(s.last())) + e);
    assert forall|j: int| 0 <= j < a.len() implies plt(tpos(#[trigger] a[j]), p) by { assert(a[j] == s[j]); assert(plt(tpos(s[j]), tpos(s[s.len() - 1]))); }
    lemma_cut_unique(s, p, a, Some(s.last()), e);
}
#[verifier::spinoff_prover]
proof fn lemma_first<T>(s: Seq<Tine<T>>)
    requires wfo(s), s.len() > 0
    ensures tine_at(s, tpos(s[0])) == Some(s[0]), left_of(s, tpos(s[0])) == Seq::<Tine<T>>::empty(), right_of(s, tpos(s[0])) == s.skip(1), wfo(s.skip(1))
{
    let p = tpos(s[0]); let z = s.skip(1); let e = Seq::<Tine<T>>::empty();
    assert(s =~= e + opt(Some(s[0])) + z);
    assert(s =~= seq![s[0]] + z); lemma_wfo_parts(seq![s[0]], z);
    assert forall|j: int| 0 <= j < z.len() implies plt(p, tpos(#[trigger] z[j])) by { assert(z[j] == s[j + 1]); assert(plt(tpos(s[0]), tpos(s[j + 1]))); }
    lemma_cut_unique(s, p, e, Some(s[0]), z);
}
#[verifier::spinoff_prover]
proof fn lemma_drop_last_at<T>(s: Seq<Tine<T>>, x: Pos<T>)
    requires wfo(s), s.len() > 0
    ensures wfo(s.drop_last()), tine_at(s.drop_last(), x) == (if x == tpos(s.last()) { None } else { tine_at(s, x) })
{
    broadcast use grp_pos;
    let s1 = s.drop_last(); let w = seq![s.last()]; let e = Seq::<Tine<T>>::empty();
    assert(s =~= s1 + w); lemma_wfo_parts(s1, w);
    lemma_last(s);
    lemma_cut(s, tpos(s.last()));
    if plt(x, tpos(s.last())) { lemma_tri_prefix(s1, w, x); }
    else {
        assert forall|j: int| 0 <= j < s1.len() implies plt(tpos(#[trigger] s1[j]), x) by { assert(plt(tpos(s1[j]), tpos(s.last()))); }
        assert(s1 =~= s1 + opt(None::<Tine<T>>) + e);
        lemma_cut_unique(s1, x, s1, None, e);
        if x != tpos(s.last()) {
            assert(s =~= s + opt(None::<Tine<T>>) + e);
            assert forall|j: int| 0 <= j < s.len() implies plt(tpos(#[trigger] s[j]), x) by { if j < s1.len() { assert(s[j] == s1[j]); } }
            lemma_cut_unique(s, x, s, None, e);
        }
    }
}
// ---- complement ---------------------------------------------------------------------
pub open spec fn inv<T>(t: Tine<T>) -> Tine<T> { match tine_of(tpos(t), not3(trip(t))) { Some(x) => x, None => t } }
pub open spec fn invs<T>(s: Seq<Tine<T>>) -> Seq<Tine<T>> { s.map_values(|t: Tine<T>| inv(t)) }
pub open spec fn notp<T>(p: Pos<T>, t: Tri) -> Tri { match p { Pos::Neg => Tri { b: false, m: false, f: !t.f }, Pos::Inf => Tri { b: !t.b, m: false, f: false }, _ => not3(t) } }
pub open spec fn comp_seq<T>(s: Seq<Tine<T>>) -> Seq<Tine<T>> {
    opt(tine_of(Pos::<T>::Neg, notp(Pos::<T>::Neg, tri(s, Pos::Neg)))) + invs(mid_of(s, Pos::Neg, Pos::Inf)) + opt(tine_of(Pos::<T>::Inf, notp(Pos::<T>::Inf, tri(s, Pos::Inf))))
}
#[verifier::spinoff_prover]
proof fn lemma_invs<T>(m: Seq<Tine<T>>, p: Pos<T>)
    requires wfo(m), forall|j: int| 0 <= j < m.len() ==> (#[trigger] tpos(m[j])) is At
    ensures wfo(invs(m)), left_of(invs(m), p) == invs(left_of(m, p)), tine_at(invs(m), p) == (match tine_at(m, p) { Some(t) => Some(inv(t)), None => None }), right_of(invs(m), p) == invs(right_of(m, p)),
        forall|j: int| 0 <= j < m.len() ==> tpos(#[trigger] invs(m)[j]) == tpos(m[j]) && trip(invs(m)[j]) == not3(trip(m[j])),
{
    broadcast use grp_pos;
    let n = invs(m);
    assert forall|j: int| 0 <= j < m.len() implies tpos(#[trigger] n[j]) == tpos(m[j]) && trip(n[j]) == not3(trip(m[j])) && t_ok(n[j]) by { assert(tpos(m[j]) is At); assert(t_ok(m[j])); }
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies #[trigger] plt(tpos(n[i]), tpos(n[j])) by { assert(plt(tpos(m[i]), tpos(m[j]))); }
    lemma_cut(m, p);
    let a = left_of(m, p); let t = tine_at(m, p); let z = right_of(m, p);
    let t2 = match t { Some(t) => Some(inv(t)), None => None };
    let k = a.len() + opt(t).len();
    assert(n =~= invs(a) + opt(t2) + invs(z)) by {
        assert forall|j: int| 0 <= j < n.len() implies n[j] == (invs(a) + opt(t2) + invs(z))[j] by {
            if j < a.len() { assert(m[j] == a[j]); } else if j >= k { assert(m[j] == z[j - k]); } else { assert(m[j] == t->0); }
        }
    }
    let ia = invs(a); let iz = invs(z);
    assert forall|j: int| 0 <= j < ia.len() implies plt(tpos(#[trigger] ia[j]), p) by { assert(m[j] == a[j]); assert(n[j] == ia[j]); }
    assert forall|j: int| 0 <= j < iz.len() implies plt(p, tpos(#[trigger] iz[j])) by { assert(m[k + j] == z[j]); assert(n[k + j] == iz[j]); }
    if t is Some { assert(m[a.len() as int] == t->0); assert(n[a.len() as int] == t2->0); }
    lemma_cut_unique(n, p, ia, t2, iz);
}
#[verifier::spinoff_prover]
proof fn lemma_comp_wf<T>(s: Seq<Tine<T>>)
    requires wf(s)
    ensures wf(comp_seq(s)), wfo(comp_seq(s)), wfo(invs(mid_of(s, Pos::Neg, Pos::Inf))), wfo(mid_of(s, Pos::Neg, Pos::Inf)),
        s == opt(tine_of(Pos::<T>::Neg, tri(s, Pos::Neg))) + mid_of(s, Pos::Neg, Pos::Inf) + opt(tine_of(Pos::<T>::Inf, tri(s, Pos::Inf))),
        forall|j: int| 0 <= j < mid_of(s, Pos::Neg, Pos::Inf).len() ==> (#[trigger] tpos(mid_of(s, Pos::Neg, Pos::Inf)[j])) is At,
{
    broadcast use grp_pos;
    let pl = Pos::<T>::Neg; let pu = Pos::<T>::Inf;
    assert(plt(pl, pu)) by { reveal(plt); }
    lemma_cut2(s, pl, pu); lemma_tri(s, pl); lemma_tri(s, pu);
    let m = mid_of(s, pl, pu); let n = invs(m); let e = Seq::<Tine<T>>::empty();
    assert(s =~= opt(tine_of(pl, tri(s, pl))) + m + opt(tine_of(pu, tri(s, pu))));
    assert forall|j: int| 0 <= j < m.len() implies (#[trigger] tpos(m[j])) is At by { assert(plt(pl, tpos(m[j])) && plt(tpos(m[j]), pu)); }
    lemma_invs(m, pl);
    let ml = tine_of(pl, notp(pl, tri(s, pl))); let mu = tine_of(pu, notp(pu, tri(s, pu)));
    assert forall|j: int| 0 <= j < n.len() implies plt(pl, tpos(#[trigger] n[j])) && plt(tpos(n[j]), pu) by { assert(tpos(n[j]) == tpos(m[j])); }
    lemma_glue(pl, e, ml, n);
    assert(e + opt(ml) + n =~= opt(ml) + n);
    let x = opt(ml) + n;
    assert forall|j: int| 0 <= j < x.len() implies plt(tpos(#[trigger] x[j]), pu) by { if j < opt(ml).len() { } else { assert(x[j] == n[j - opt(ml).len()]); } }
    lemma_glue(pu, x, mu, e);
    assert(x + opt(mu) + e =~= comp_seq(s));
    assert forall|i: int| 0 < i < n.len() implies trip(n[i - 1]).f == trip(#[trigger] n[i]).b by { assert(trip(m[i - 1]).f == trip(m[i]).b); assert(trip(n[i - 1]) == not3(trip(m[i - 1]))); }
    if n.len() > 0 { assert(trip(n[0]) == not3(trip(m[0]))); assert(n.last() == n[n.len() - 1]); assert(trip(n.last()) == not3(trip(m.last()))); }
    lemma_seg_cat(opt(ml), n, false, !tri(s, pl).f, !tri(s, pu).b);
    lemma_seg_cat(x, opt(mu), false, !tri(s, pu).b, false);
    reveal(wf);
}
#[verifier::spinoff_prover]
proof fn lemma_comp_at<T>(s: Seq<Tine<T>>, p: Pos<T>)
    requires wf(s)
    ensures wf(comp_seq(s)), tri(comp_seq(s), p) == notp(p, tri(s, p))
{
    broadcast use grp_pos;
    let pl = Pos::<T>::Neg; let pu = Pos::<T>::Inf;
    assert(plt(pl, pu)) by { reveal(plt); }
    lemma_comp_wf(s);
    let m = mid_of(s, pl, pu); let n = invs(m); let e = Seq::<Tine<T>>::empty();
    let ml = tine_of(pl, notp(pl, tri(s, pl))); let mu = tine_of(pu, notp(pu, tri(s, pu)));
    let c = comp_seq(s);
    lemma_tri(s, p); lemma_tri(c, p); lemma_tri(s, pl); lemma_tri(s, pu);
    lemma_invs(m, p);
    assert forall|j: int| 0 <= j < n.len() implies plt(pl, tpos(#[trigger] n[j])) && plt(tpos(n[j]), pu) by { assert(tpos(n[j]) == tpos(m[j])); assert(tpos(m[j]) is At); reveal(plt); }
    if p is Neg {
        let r = n + opt(mu);
        assert(c =~= e + opt(ml) + r);
        assert forall|j: int| 0 <= j < r.len() implies plt(p, tpos(#[trigger] r[j])) by { if j < n.len() { assert(r[j] == n[j]); } }
        lemma_cut_unique(c, p, e, ml, r);
    } else if p is Inf {
        let x = opt(ml) + n;
        assert(c =~= x + opt(mu) + e);
        assert forall|j: int| 0 <= j < x.len() implies plt(tpos(#[trigger] x[j]), p) by { if j < opt(ml).len() { } else { assert(x[j] == n[j - opt(ml).len()]); } }
        lemma_cut_unique(c, p, x, mu, e);
        reveal(tri);
    } else {
        assert(plt(pl, p) && plt(p, pu)) by { reveal(plt); }
        let x1 = opt(ml); let x2 = opt(tine_of(pl, tri(s, pl)));
        let y1 = opt(mu); let y2 = opt(tine_of(pu, tri(s, pu)));
        assert(wfo(s)) by { reveal(wf); }
        lemma_wfo_parts(x1 + n, y1); lemma_wfo_parts(x2 + m, y2);
        lemma_tri_prefix(x1 + n, y1, p); lemma_tri_prefix(x2 + m, y2, p);
        lemma_tri_suffix(x1, n, p); lemma_tri_suffix(x2, m, p);
        let a = left_of(m, p);
        lemma_cut(m, p);
        if a.len() > 0 { assert(left_of(n, p).last() == inv(a.last())); assert(m[a.len() - 1] == a.last()); assert(n[a.len() - 1] == inv(a.last())); assert(trip(n[a.len() - 1]) == not3(trip(m[a.len() - 1]))); }
        if tine_at(m, p) is Some { assert(m[a.len() as int] == tine_at(m, p)->0); assert(trip(n[a.len() as int]) == not3(trip(m[a.len() as int]))); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_comp_seq<T>(s: Seq<Tine<T>>)
    requires wf(s)
    ensures wf(comp_seq(s)), forall|p: Pos<T>| #[trigger] tri(comp_seq(s), p) == notp(p, tri(s, p))
{
    lemma_comp_wf(s);
    assert forall|p: Pos<T>| #[trigger] tri(comp_seq(s), p) == notp(p, tri(s, p)) by { lemma_comp_at(s, p); }
}
