// ---- theory of interval notation (all proved) -------------------------------
pub open spec fn c_comma() -> Seq<char> { seq![','] }
pub open spec fn c_inf() -> char { '\u{221e}' }
pub open spec fn t_none() -> Seq<char> { Seq::<char>::empty().push('\u{d8}') }
pub open spec fn t_linf() -> Seq<char> { Seq::<char>::empty().push('\u{28}').push('-').push('\u{221e}') }
pub open spec fn t_uinf() -> Seq<char> { Seq::<char>::empty().push('\u{221e}').push('\u{29}') }
pub open spec fn lwrite<T>(s: Seq<char>, b: Bound<T>) -> Seq<char> {
    match b { Bound::Infinite => s.push('\u{28}').push('-').push('\u{221e}'), Bound::Exclude(v) => s.push('\u{28}') + txt(v), Bound::Include(v) => s.push('\u{5b}') + txt(v) }
}
pub open spec fn uwrite<T>(s: Seq<char>, b: Bound<T>) -> Seq<char> {
    match b { Bound::Infinite => s.push('\u{221e}').push('\u{29}'), Bound::Exclude(v) => (s + txt(v)).push('\u{29}'), Bound::Include(v) => (s + txt(v)).push('\u{5d}') }
}
// s followed by the text of i
pub open spec fn write<T>(s: Seq<char>, i: RawInterval<T>) -> Seq<char> {
    match i { RawInterval::Empty => s.push('\u{d8}'), RawInterval::Point(p) => s + txt(p), _ => uwrite(lwrite(s, lob(i)->0).push(','), upb(i)->0) }
}
pub open spec fn ltext<T>(b: Bound<T>) -> Seq<char> { lwrite(seq![], b) }
pub open spec fn utext<T>(b: Bound<T>) -> Seq<char> { uwrite(seq![], b) }
pub open spec fn text<T>(i: RawInterval<T>) -> Seq<char> { write(seq![], i) }
// what a lower / upper half of the notation denotes
pub open spec fn read_l<T>(x: Seq<char>) -> Option<Bound<T>> {
    if x == t_linf() { Some(Bound::Infinite) }
    else if x.len() > 0 && x[0] == '\u{28}' { match parse_s::<T>(x.skip(1)) { Ok(v) => Some(Bound::Exclude(v)), Err(_) => None } }
    else if x.len() > 0 && x[0] == '\u{5b}' { match parse_s::<T>(x.skip(1)) { Ok(v) => Some(Bound::Include(v)), Err(_) => None } }
    else { None }
}
pub open spec fn read_u<T>(y: Seq<char>) -> Option<Bound<T>> {
    if y == t_uinf() { Some(Bound::Infinite) }
    else if y.len() > 0 && y.last() == '\u{29}' { match parse_s::<T>(y.take(y.len() - 1)) { Ok(v) => Some(Bound::Exclude(v)), Err(_) => None } }
    else if y.len() > 0 && y.last() == '\u{5d}' { match parse_s::<T>(y.take(y.len() - 1)) { Ok(v) => Some(Bound::Include(v)), Err(_) => None } }
    else { None }
}
// s is x, the first comma, y
pub open spec fn csplit(s: Seq<char>, x: Seq<char>, y: Seq<char>) -> bool { s == x + c_comma() + y && !x.contains(',') }
pub open spec fn halves<T>(l: Option<Bound<T>>, u: Option<Bound<T>>, r: Option<RawInterval<T>>) -> bool {
    match (l, u) {
        (Some(l), Some(u)) => r is Some && wfr(r->0) && (!half_point(l, u) ==> r->0 == mk(l, u)) && (half_point(l, u) ==> r->0 is Empty || r->0 == RawInterval::Point(bv(l)->0)),
        _ => r is None,
    }
}
// reading s may give r (None: an error)
#[verifier::opaque]
pub open spec fn reads<T>(s: Seq<char>, r: Option<RawInterval<T>>) -> bool {
    if s == t_none() { r == Some(RawInterval::<T>::Empty) }
    else if parse_s::<T>(s) is Ok { r == Some(RawInterval::Point(parse_s::<T>(s)->Ok_0)) }
    else if !s.contains(',') { r is None }
    else { forall|x: Seq<char>, y: Seq<char>| #[trigger] csplit(s, x, y) ==> halves(read_l::<T>(x), read_u::<T>(y), r) }
}
// the notation
pub open spec fn notation<T>(s: Seq<char>) -> bool {
    s == t_none() || parse_s::<T>(s) is Ok || exists|x: Seq<char>, y: Seq<char>| #[trigger] csplit(s, x, y) && read_l::<T>(x) is Some && read_u::<T>(y) is Some
}
// texts of points read back, and are made of characters the notation does not use as signs
pub open spec fn text_ok<T>() -> bool {
    &&& forall|v: T| parse_s::<T>(#[trigger] txt(v)) == Ok::<T, PErr<T>>(v)
    &&& forall|v: T| !(#[trigger] txt(v)).contains(',') && !txt(v).contains('\u{221e}') && !txt(v).contains('\u{d8}')
    &&& forall|s: Seq<char>| (#[trigger] parse_s::<T>(s)) is Ok ==> !s.contains(',')
}

pub proof fn lemma_csplit_unique(s: Seq<char>, x: Seq<char>, y: Seq<char>, x2: Seq<char>, y2: Seq<char>)
    requires csplit(s, x, y), csplit(s, x2, y2)
    ensures x == x2, y == y2
{
    if x.len() < x2.len() { assert(s[x.len() as int] == ','); assert(x2[x.len() as int] == ','); assert(false); }
    if x2.len() < x.len() { assert(s[x2.len() as int] == ','); assert(x[x2.len() as int] == ','); assert(false); }
    assert(x =~= s.take(x.len() as int));
    assert(x2 =~= s.take(x.len() as int));
    assert(y =~= s.skip(x.len() as int + 1));
    assert(y2 =~= s.skip(x.len() as int + 1));
}
// the infinite ends without their parentheses
pub broadcast proof fn lemma_linf_rest(r: Seq<char>)
    ensures #[trigger] (seq!['\u{28}'] + r) == t_linf() <==> r == Seq::<char>::empty().push('-').push('\u{221e}')
{
    let w = Seq::<char>::empty().push('-').push('\u{221e}');
    assert(seq!['\u{28}'] + w =~= t_linf());
    if seq!['\u{28}'] + r == t_linf() { assert((seq!['\u{28}'] + r).skip(1) =~= r); assert(t_linf().skip(1) =~= w); }
}
pub broadcast proof fn lemma_uinf_rest(r: Seq<char>)
    ensures #[trigger] (r + seq!['\u{29}']) == t_uinf() <==> r == Seq::<char>::empty().push('\u{221e}')
{
    let w = Seq::<char>::empty().push('\u{221e}');
    assert(w + seq!['\u{29}'] =~= t_uinf());
    if r + seq!['\u{29}'] == t_uinf() { assert((r + seq!['\u{29}']).drop_last() =~= r); assert(t_uinf().drop_last() =~= w); }
}
pub broadcast proof fn lemma_pre1(p: Seq<char>, s: Seq<char>)
    requires p.len() == 1
    ensures #[trigger] pre(p, s) == (s.len() > 0 && s[0] == p[0])
{
    if s.len() > 0 { assert(s.take(1)[0] == s[0]); if s[0] == p[0] { assert(s.take(1) =~= p); } }
}
pub broadcast proof fn lemma_suf1(p: Seq<char>, s: Seq<char>)
    requires p.len() == 1
    ensures #[trigger] suf(p, s) == (s.len() > 0 && s.last() == p[0])
{
    if s.len() > 0 { assert(s.skip(s.len() - 1)[0] == s.last()); if s.last() == p[0] { assert(s.skip(s.len() - 1) =~= p); } }
}
pub broadcast proof fn lemma_parts(p: Seq<char>, r: Seq<char>)
    ensures (#[trigger] (p + r)).take(p.len() as int) == p, (p + r).skip(p.len() as int) == r
{
    assert((p + r).take(p.len() as int) =~= p);
    assert((p + r).skip(p.len() as int) =~= r);
}
pub proof fn lemma_blen_take(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures blen(s.take(k)) + (s.len() - k) <= blen(s)
    decreases s.len() - k
{
    if k == s.len() { assert(s.take(k) =~= s); }
    else {
        lemma_blen_take(s, k + 1);
        assert(s.take(k + 1).drop_last() =~= s.take(k));
    }
}
pub proof fn lemma_char_order(s: Seq<char>, j: int, k: int)
    requires 0 <= j < k <= s.len()
    ensures blen(s.take(j)) < blen(s.take(k))
{
    lemma_blen_take(s.take(k), j);
    assert(s.take(k).take(j) =~= s.take(j));
}
pub proof fn lemma_char_at(s: Seq<char>, n: int, k: int)
    requires char_cut(s, n, k)
    ensures at_char(s, n), char_at(s, n) == k
{
    let j = char_at(s, n);
    assert(char_cut(s, n, j));
    if j < k { lemma_char_order(s, j, k); }
    if k < j { lemma_char_order(s, k, j); }
}
pub broadcast proof fn lemma_blen(s: Seq<char>)
    ensures (#[trigger] blen(s)) >= s.len(), s.len() > 0 ==> blen(s) >= clen(s.last())
{
    lemma_blen_take(s, 0);
}
// the offsets of the first and the last character
pub broadcast proof fn lemma_at_char(s: Seq<char>, n: int)
    ensures #![trigger at_char(s, n)] #![trigger char_at(s, n)]
        n == 0 ==> at_char(s, n) && char_at(s, n) == 0,
        n == blen(s) ==> at_char(s, n) && char_at(s, n) == s.len(),
        s.len() > 0 && n == blen(s) - clen(s.last()) ==> at_char(s, n) && char_at(s, n) == s.len() - 1,
        s.len() > 0 && n == clen(s[0]) ==> at_char(s, n) && char_at(s, n) == 1,
{
    assert(s.take(0) =~= seq![]);
    assert(s.take(s.len() as int) =~= s);
    if n == 0 { assert(char_cut(s, n, 0)); lemma_char_at(s, n, 0); }
    if n == blen(s) { assert(char_cut(s, n, s.len() as int)); lemma_char_at(s, n, s.len() as int); }
    if s.len() > 0 {
        assert(s.take(s.len() - 1) =~= s.drop_last());
        if n == blen(s) - clen(s.last()) { assert(char_cut(s, n, s.len() - 1)); lemma_char_at(s, n, s.len() - 1); }
        assert(s.take(1).drop_last() =~= s.take(0));
        assert(s.take(1).last() == s[0]);
        if n == clen(s[0]) { assert(blen(s.take(1)) == clen(s[0])); assert(char_cut(s, n, 1)); lemma_char_at(s, n, 1); }
    }
}
pub broadcast group grp_text { lemma_pre1, lemma_suf1, lemma_parts, lemma_blen, lemma_at_char }

// what the split of the code says, in terms of `csplit`
pub broadcast proof fn lemma_split_none(p: Seq<char>, s: Seq<char>)
    requires #[trigger] absent(p, s), p == seq![',']
    ensures !s.contains(',')
{
    if s.contains(',') {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == ',';
        lemma_pre1(seq![','], s.skip(i));
        assert(s.skip(i)[0] == ',');
    }
}
pub broadcast proof fn lemma_split_some(s: Seq<char>, p: Seq<char>, x: Seq<char>, y: Seq<char>)
    requires #[trigger] first_split(s, p, x, y), p == seq![',']
    ensures csplit(s, x, y), s.contains(',')
{
    assert(s[x.len() as int] == ',');
    if x.contains(',') {
        let i = choose|i: int| 0 <= i < x.len() && x[i] == ',';
        lemma_pre1(seq![','], s.skip(i));
        assert(s.skip(i)[0] == ',');
    }
}
pub broadcast proof fn lemma_reads_cut<T>(s: Seq<char>, x: Seq<char>, y: Seq<char>, r: Option<RawInterval<T>>)
    requires #[trigger] csplit(s, x, y), s != t_none(), parse_s::<T>(s) is Err
    ensures #[trigger] reads::<T>(s, r) == halves(read_l::<T>(x), read_u::<T>(y), r)
{
    reveal(reads);
    assert(s[x.len() as int] == ',');
    assert forall|x2: Seq<char>, y2: Seq<char>| #[trigger] csplit(s, x2, y2) implies x2 == x && y2 == y by { lemma_csplit_unique(s, x, y, x2, y2); }
}
pub broadcast proof fn lemma_reads<T>(s: Seq<char>, r: Option<RawInterval<T>>)
    ensures #![trigger reads::<T>(s, r)]
        s == t_none() ==> reads::<T>(s, r) == (r == Some(RawInterval::<T>::Empty)),
        s != t_none() && parse_s::<T>(s) is Ok ==> reads::<T>(s, r) == (r == Some(RawInterval::Point(parse_s::<T>(s)->Ok_0))),
        s != t_none() && parse_s::<T>(s) is Err && !s.contains(',') ==> reads::<T>(s, r) == (r is None),
{ reveal(reads); }
// appending a text is writing it character by character
pub broadcast proof fn lemma_append(s: Seq<char>, a: Seq<char>, c: char)
    ensures #[trigger] (s + a.push(c)) == (s + a).push(c)
{ assert(s + a.push(c) =~= (s + a).push(c)); }
pub broadcast proof fn lemma_append_none(s: Seq<char>)
    ensures #[trigger] (s + Seq::<char>::empty()) == s
{ assert(s + Seq::<char>::empty() =~= s); }
pub broadcast group grp_write { lemma_append, lemma_append_none }
pub proof fn lemma_write<T>(s: Seq<char>, i: RawInterval<T>)
    ensures write(s, i) == s + text(i), !(i is Empty) && !(i is Point) ==> text(i) == ltext(lob(i)->0) + seq![','] + utext(upb(i)->0)
{
    assert(write(s, i) =~= s + text(i));
    if !(i is Empty) && !(i is Point) { assert(text(i) =~= ltext(lob(i)->0) + seq![','] + utext(upb(i)->0)); }
}
pub proof fn lemma_ltext<T>(l: Bound<T>)
    requires text_ok::<T>()
    ensures !ltext(l).contains(','), ltext(l).len() > 0, read_l::<T>(ltext(l)) == Some(l)
{
    let x = ltext(l);
    if !(l is Infinite) {
        let v = bv(l)->0;
        assert(x.skip(1) =~= txt(v));
        if x.contains(',') { let j = choose|j: int| 0 <= j < x.len() && x[j] == ','; assert(txt(v)[j - 1] == ','); assert(false); }
        if x == t_linf() { assert(x[2] == '\u{221e}'); assert(txt(v)[1] == '\u{221e}'); assert(false); }
    }
}
pub proof fn lemma_utext<T>(u: Bound<T>)
    requires text_ok::<T>()
    ensures read_u::<T>(utext(u)) == Some(u)
{
    let y = utext(u);
    if !(u is Infinite) {
        let v = bv(u)->0;
        assert(y.take(y.len() - 1) =~= txt(v));
        if y == t_uinf() { assert(y[0] == '\u{221e}'); assert(txt(v)[0] == '\u{221e}'); assert(false); }
    }
}
pub proof fn lemma_wf_bounds<T>(i: RawInterval<T>)
    requires wfr(i), !(i is Empty), !(i is Point)
    ensures lob(i) is Some, upb(i) is Some, !half_point(lob(i)->0, upb(i)->0), mk(lob(i)->0, upb(i)->0) == i
{ broadcast use grp_order; }
pub proof fn lemma_text<T>(i: RawInterval<T>)
    requires text_ok::<T>(), wfr(i)
    ensures !(i is Empty) && !(i is Point) ==> csplit(text(i), ltext(lob(i)->0), utext(upb(i)->0)) && parse_s::<T>(text(i)) is Err && text(i) != t_none()
        && read_l::<T>(ltext(lob(i)->0)) == Some(lob(i)->0) && read_u::<T>(utext(upb(i)->0)) == Some(upb(i)->0) && !half_point(lob(i)->0, upb(i)->0) && mk(lob(i)->0, upb(i)->0) == i,
        i matches RawInterval::Point(p) ==> text(i) == txt(p) && text(i) != t_none() && !text(i).contains(','),
{
    lemma_write(seq![], i);
    if i is Point {
        assert(text(i) =~= txt(i->Point_0));
        if text(i) == t_none() { assert(text(i)[0] == '\u{d8}'); assert(text(i).contains('\u{d8}')); }
    } else if !(i is Empty) {
        lemma_wf_bounds(i); lemma_ltext(lob(i)->0); lemma_utext(upb(i)->0);
        let x = ltext(lob(i)->0); let y = utext(upb(i)->0); let s = text(i);
        assert(s[x.len() as int] == ',');
        assert(s.contains(','));
        assert(csplit(s, x, y));
        if s == t_none() { assert(s.len() == 1); assert(x.len() > 0); }
    }
}
// parsed value, if any
pub open spec fn okr<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(v) => Some(v), Err(_) => None } }
pub broadcast group grp_read_inf { lemma_linf_rest, lemma_uinf_rest }
pub broadcast group grp_read { lemma_pre1, lemma_suf1, lemma_parts, lemma_blen, lemma_at_char, lemma_split_none, lemma_split_some, lemma_reads, lemma_reads_cut }
// a text with a comma has a first one
pub proof fn lemma_comma_cut(s: Seq<char>) -> (r: (Seq<char>, Seq<char>))
    requires s.contains(',')
    ensures csplit(s, r.0, r.1)
    decreases s.len()
{
    if s[0] == ',' {
        assert(s =~= Seq::<char>::empty() + c_comma() + s.skip(1));
        (Seq::<char>::empty(), s.skip(1))
    } else {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == ',';
        assert(s.skip(1)[i - 1] == ',');
        let (x, y) = lemma_comma_cut(s.skip(1));
        let x1 = seq![s[0]] + x;
        assert(s =~= seq![s[0]] + s.skip(1));
        assert(s =~= x1 + c_comma() + y);
        assert(!x1.contains(','));
        (x1, y)
    }
}
// the text of an interval reads as that interval and as nothing else
pub proof fn lemma_round<T>(i: RawInterval<T>, r: Option<RawInterval<T>>)
    requires text_ok::<T>(), wfr(i)
    ensures reads(text(i), r) <==> r == Some(i)
{
    lemma_text(i);
    if i is Empty { assert(text(i) =~= t_none()); lemma_reads(text(i), r); }
    else if i is Point { lemma_reads(text(i), r); }
    else { lemma_reads_cut(text(i), ltext(lob(i)->0), utext(upb(i)->0), r); lemma_wf_bounds(i); }
}
