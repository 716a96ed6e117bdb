//! Small ordered domains and set oracles used by the replay/search engine.
use normalize_interval::normalize::Finite;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::{Bound, Interval, Selection};

/// A finite ordered type with exactly N values.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct D<const N: u8>(pub u8);

impl<const N: u8> Finite for D<N> {
    const MINIMUM: Self = D(0);
    const MAXIMUM: Self = D(N - 1);
    fn pred(&self) -> Option<Self> {
        if self.0 == 0 { None } else { Some(D(self.0 - 1)) }
    }
    fn succ(&self) -> Option<Self> {
        if self.0 + 1 >= N { None } else { Some(D(self.0 + 1)) }
    }
}

/// A finite domain whose points can be enumerated in ascending order.
pub trait Dom: Finite + Ord + Clone + std::fmt::Debug + std::hash::Hash + 'static {
    fn points() -> Vec<Self>;
}
impl<const N: u8> Dom for D<N> {
    fn points() -> Vec<Self> { (0..N).map(D).collect() }
}
impl Dom for u8 {
    fn points() -> Vec<Self> { (0..=255u8).collect() }
}
impl Dom for i8 {
    fn points() -> Vec<Self> { (-128..=127i8).collect() }
}

/// Set-of-points oracle, as membership over an ascending list of points.
pub type Bits = Vec<bool>;

/// What a raw interval is *documented* to contain.
pub fn raw_has<T: Ord>(r: &RawInterval<T>, x: &T) -> bool {
    match r {
        RawInterval::Empty => false,
        RawInterval::Point(p) => x == p,
        RawInterval::Open(l, r) => l < x && x < r,
        RawInterval::LeftOpen(l, r) => l < x && x <= r,
        RawInterval::RightOpen(l, r) => l <= x && x < r,
        RawInterval::Closed(l, r) => l <= x && x <= r,
        RawInterval::UpTo(p) => x < p,
        RawInterval::UpFrom(p) => x > p,
        RawInterval::To(p) => x <= p,
        RawInterval::From(p) => x >= p,
        RawInterval::Full => true,
    }
}
pub fn raw_bits<T: Ord>(r: &RawInterval<T>, pts: &[T]) -> Bits {
    pts.iter().map(|x| raw_has(r, x)).collect()
}
pub fn raws_bits<T: Ord>(rs: &[RawInterval<T>], pts: &[T]) -> Bits {
    pts.iter().map(|x| rs.iter().any(|r| raw_has(r, x))).collect()
}
/// All well-formed raw intervals over the given ascending endpoints.
pub fn raw_all<T: Ord + Clone>(e: &[T]) -> Vec<RawInterval<T>> {
    let mut v = vec![RawInterval::Empty, RawInterval::Full];
    for (i, p) in e.iter().enumerate() {
        v.push(RawInterval::Point(p.clone()));
        v.push(RawInterval::UpTo(p.clone()));
        v.push(RawInterval::UpFrom(p.clone()));
        v.push(RawInterval::To(p.clone()));
        v.push(RawInterval::From(p.clone()));
        for q in &e[i + 1..] {
            v.push(RawInterval::Open(p.clone(), q.clone()));
            v.push(RawInterval::LeftOpen(p.clone(), q.clone()));
            v.push(RawInterval::RightOpen(p.clone(), q.clone()));
            v.push(RawInterval::Closed(p.clone(), q.clone()));
        }
    }
    v
}
/// Structurally valid: endpoints strictly ascending.
pub fn raw_valid<T: Ord>(r: &RawInterval<T>) -> bool {
    match r {
        RawInterval::Open(l, r) | RawInterval::LeftOpen(l, r)
        | RawInterval::RightOpen(l, r) | RawInterval::Closed(l, r) => l < r,
        _ => true,
    }
}
/// All bounds over the given endpoints.
pub fn bounds_all<T: Clone>(e: &[T]) -> Vec<Bound<T>> {
    let mut v = vec![Bound::Infinite];
    for p in e {
        v.push(Bound::Include(p.clone()));
        v.push(Bound::Exclude(p.clone()));
    }
    v
}
pub fn lower_has<T: Ord>(b: &Bound<T>, x: &T) -> bool {
    match b { Bound::Include(p) => x >= p, Bound::Exclude(p) => x > p, Bound::Infinite => true }
}
pub fn upper_has<T: Ord>(b: &Bound<T>, x: &T) -> bool {
    match b { Bound::Include(p) => x <= p, Bound::Exclude(p) => x < p, Bound::Infinite => true }
}

// ---- dense grid: endpoints at even positions, query points everywhere -----
pub const END: [i32; 4] = [0, 2, 4, 6];
pub fn grid() -> Vec<i32> { (-1..=7).collect() }

/// The canonical sequence of maximal raw intervals of a dense set described by
/// its membership over `grid()` (odd entries are gaps, even are end points).
pub fn dense_maximal(bits: &[bool]) -> Vec<RawInterval<i32>> {
    let g = grid();
    let n = g.len();
    let mut out = vec![];
    let mut i = 0;
    while i < n {
        if !bits[i] { i += 1; continue; }
        let s = i;
        while i + 1 < n && bits[i + 1] { i += 1; }
        let e = i;
        i += 1;
        // s..=e is a maximal run of members.
        let gap = |k: usize| k % 2 == 0;
        let lo = if gap(s) { if s == 0 { Bound::Infinite } else { Bound::Exclude(g[s - 1]) } } else { Bound::Include(g[s]) };
        let hi = if gap(e) { if e == n - 1 { Bound::Infinite } else { Bound::Exclude(g[e + 1]) } } else { Bound::Include(g[e]) };
        out.push(match (lo, hi) {
            (Bound::Infinite, Bound::Infinite) => RawInterval::Full,
            (Bound::Infinite, Bound::Include(h)) => RawInterval::To(h),
            (Bound::Infinite, Bound::Exclude(h)) => RawInterval::UpTo(h),
            (Bound::Include(l), Bound::Infinite) => RawInterval::From(l),
            (Bound::Exclude(l), Bound::Infinite) => RawInterval::UpFrom(l),
            (Bound::Include(l), Bound::Include(h)) if l == h => RawInterval::Point(l),
            (Bound::Include(l), Bound::Include(h)) => RawInterval::Closed(l, h),
            (Bound::Include(l), Bound::Exclude(h)) => RawInterval::RightOpen(l, h),
            (Bound::Exclude(l), Bound::Include(h)) => RawInterval::LeftOpen(l, h),
            (Bound::Exclude(l), Bound::Exclude(h)) => RawInterval::Open(l, h),
        });
    }
    out
}
pub fn num_bits(mut k: u32, n: usize) -> Bits {
    let mut v = vec![];
    for _ in 0..n { v.push(k & 1 == 1); k >>= 1; }
    v
}
/// Builds a tree for a dense set from its maximal intervals, which share no
/// merged bounds unless they touch an excluded point.
pub fn tree_of(bits: &[bool]) -> TineTree<i32> {
    dense_maximal(bits).into_iter().collect()
}
pub fn tree_bits(t: &TineTree<i32>) -> Bits {
    raws_bits(&t.interval_iter().collect::<Vec<_>>(), &grid())
}

// ---- finite sets -----------------------------------------------------------
pub fn sel_of<T: Dom>(bits: &[bool]) -> Selection<T> {
    T::points().into_iter().zip(bits).filter(|(_, b)| **b).map(|(p, _)| p).collect()
}
pub fn sel_bits<T: Dom>(s: &Selection<T>) -> Bits {
    T::points().iter().map(|p| s.contains(p)).collect()
}
/// Maximal runs of a finite set.
pub fn runs(bits: &[bool]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut i = 0;
    while i < bits.len() {
        if !bits[i] { i += 1; continue; }
        let s = i;
        while i + 1 < bits.len() && bits[i + 1] { i += 1; }
        out.push((s, i));
        i += 1;
    }
    out
}
/// The normal form of the finite interval from pts[s] to pts[e].
pub fn norm_raw<T: Dom>(pts: &[T], s: usize, e: usize) -> RawInterval<T> {
    if s > e { RawInterval::Empty }
    else if s == e { RawInterval::Point(pts[s].clone()) }
    else { RawInterval::Closed(pts[s].clone(), pts[e].clone()) }
}
/// Every interval over a finite domain, with its point set, built by closed().
pub fn ivs_all<T: Dom>() -> Vec<(Interval<T>, Bits)> {
    let p = T::points();
    let mut v = vec![(Interval::empty(), vec![false; p.len()])];
    for i in 0..p.len() {
        for j in i..p.len() {
            v.push((Interval::closed(p[i].clone(), p[j].clone()),
                (0..p.len()).map(|k| i <= k && k <= j).collect()));
        }
    }
    v
}
pub fn iv_bits<T: Dom>(i: &Interval<T>) -> Bits {
    T::points().iter().map(|p| i.contains(p)).collect()
}
pub fn zip2(a: &[bool], b: &[bool], f: impl Fn(bool, bool) -> bool) -> Bits {
    a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect()
}
