//! Random search over larger inputs: long histories, many intervals, long lists,
//! several point types and the ends of their range. Used by the deep search only.
use crate::dom::*;
use crate::Ctx;
use normalize_interval::normalize::Finite;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::{Bound, Interval, Selection};
use std::fmt::Debug;
use std::time::{Duration, Instant};

type R = Result<(), String>;
fn eq<A: PartialEq + Debug>(what: &str, got: A, want: A) -> R {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, expected {want:?}")) }
}

pub struct Rnd(pub u64);
impl Rnd {
    pub fn n(&mut self, n: usize) -> usize {
        self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17;
        (self.0 >> 11) as usize % n
    }
}
pub trait Val: Ord + Clone + Debug {}
impl<T: Ord + Clone + Debug> Val for T {}

/// Ascending values; entries at odd places are end points, the others are the gaps between them.
fn maximal<T: Val>(p: &[T], bits: &[bool]) -> Vec<RawInterval<T>> {
    let n = p.len();
    let (mut out, mut i) = (vec![], 0);
    while i < n {
        if !bits[i] { i += 1; continue; }
        let s = i;
        while i + 1 < n && bits[i + 1] { i += 1; }
        let e = i;
        i += 1;
        let gap = |k: usize| k % 2 == 0;
        let lo = if gap(s) { if s == 0 { Bound::Infinite } else { Bound::Exclude(p[s - 1].clone()) } } else { Bound::Include(p[s].clone()) };
        let hi = if gap(e) { if e == n - 1 { Bound::Infinite } else { Bound::Exclude(p[e + 1].clone()) } } else { Bound::Include(p[e].clone()) };
        out.push(match (lo, hi) {
            (Bound::Infinite, Bound::Infinite) => RawInterval::Full,
            (Bound::Infinite, Bound::Include(h)) => RawInterval::To(h),
            (Bound::Infinite, Bound::Exclude(h)) => RawInterval::UpTo(h),
            (Bound::Include(l), Bound::Infinite) => RawInterval::From(l),
            (Bound::Exclude(l), Bound::Infinite) => RawInterval::UpFrom(l),
            (Bound::Include(l), Bound::Include(h)) if l == h => RawInterval::Point(l),
            (Bound::Include(l), Bound::Include(h)) => RawInterval::Closed(l, h),
            (Bound::Include(l), Bound::Exclude(h)) => RawInterval::RightOpen(l, h),
            (Bound::Exclude(l), Bound::Include(h)) => RawInterval::LeftOpen(l, h),
            (Bound::Exclude(l), Bound::Exclude(h)) => RawInterval::Open(l, h),
        });
    }
    out
}
/// A random well-formed raw interval; short ones are frequent.
fn raw<T: Val>(r: &mut Rnd, p: &[T]) -> RawInterval<T> {
    let k = p.len() / 2;
    let a = r.n(k);
    let b = (a + 1 + if r.n(3) == 0 { r.n(k) } else { r.n(3) }).min(k - 1);
    let (x, y) = (p[2 * a + 1].clone(), p[2 * b + 1].clone());
    let kind = r.n(24);
    if a == b && (2..18).contains(&kind) { return RawInterval::Point(x); }
    match kind {
        0 => RawInterval::UpTo(x), 1 => RawInterval::UpFrom(x),
        2..=4 => RawInterval::Open(x, y), 5..=7 => RawInterval::LeftOpen(x, y),
        8..=10 => RawInterval::RightOpen(x, y), 11..=14 => RawInterval::Closed(x, y),
        15..=20 => RawInterval::Point(x), 21 => RawInterval::To(x), 22 => RawInterval::From(x),
        _ => if r.n(4) == 0 { RawInterval::Full } else { RawInterval::Empty },
    }
}
fn drive<I: DoubleEndedIterator>(mut it: I, mut s: u64, len: usize) -> Result<Vec<I::Item>, String> where I::Item: Debug {
    let (mut f, mut b, mut nones, mut k) = (vec![], vec![], 0, 0);
    while nones < 3 {
        if k > len + 8 { return Err(format!("iterator does not finish: front {f:?} back {b:?}")); }
        s = s.rotate_right(1);
        k += 1;
        let back = s & 1 == 1;
        match if back { it.next_back() } else { it.next() } {
            Some(x) => { if nones > 0 { return Err(format!("yielded {x:?} after None")); } if back { b.push(x) } else { f.push(x) } }
            None => nones += 1,
        }
    }
    b.reverse();
    f.extend(b);
    Ok(f)
}

// -------------------------------------------------------------------- trees
fn tree_hist<T: Val>(c: &Ctx, id: &str, r: &mut Rnd, p: &[T]) {
    let mut pool: Vec<(TineTree<T>, Bits)> = vec![];
    for _ in 0..3 {
        let (mut t, mut bits) = (TineTree::new(), vec![false; p.len()]);
        let mut log: Vec<String> = vec![];
        for _ in 0..8 + r.n(24) {
            let before = bits.clone();
            let prev = t.clone();
            let x = raw(r, p);
            let o = [0, 0, 0, 0, 0, 0, 0, 1, 2, 2, 2, 3, 4, 5, 6][r.n(15)];
            let other = if pool.is_empty() { (TineTree::from(x.clone()), raw_bits(&x, p)) } else { let k = r.n(pool.len()); pool[k].clone() };
            let xb = raw_bits(&x, p);
            let (who, want) = match o {
                0 => ("T01", zip2(&bits, &xb, |a, b| a || b)), 1 => ("T02", zip2(&bits, &xb, |a, b| a && b)), 2 => ("T03", zip2(&bits, &xb, |a, b| a && !b)),
                3 => ("T04", bits.iter().map(|b| !b).collect()),
                4 => ("T01", zip2(&bits, &other.1, |a, b| a || b)), 5 => ("T02", zip2(&bits, &other.1, |a, b| a && b)), _ => ("T03", zip2(&bits, &other.1, |a, b| a && !b)),
            };
            let mark = (3..7).contains(&o).then(|| format!("{:?}", maximal(p, &other.1)));
            log.push(match o { 0 => format!("|= {x:?}"), 1 => format!("&= {x:?}"), 2 => format!("-= {x:?}"), 3 => "complement".into(), 4 => format!("| {}", mark.unwrap()), 5 => format!("& {}", mark.unwrap()), _ => format!("- {}", mark.unwrap()) });
            let mut ok = false;
            let out = std::cell::RefCell::new(None);
            let mine = id == who || ["T05", "T06", "T07", "P01"].contains(&id);
            let run = || match o {
                0 => { let mut t = prev.clone(); t.union_in_place(&x); t }
                1 => { let mut t = prev.clone(); t.intersect_in_place(&x); t }
                2 => { let mut t = prev.clone(); t.minus_in_place(&x); t }
                3 => prev.complement(), 4 => prev.union(&other.0), 5 => prev.intersect(&other.0), _ => prev.minus(&other.0),
            };
            if mine {
                let s = (r.n(1 << 30) as u64) << 32 | r.n(1 << 30) as u64;
                c.case(true, || format!("tree {:?} after {log:?}", maximal(p, &before)), || {
                    let t = run();
                    *out.borrow_mut() = Some(t.clone());
                    let l = maximal(p, &want);
                    let right: bool = raws_bits(&t.interval_iter().collect::<Vec<_>>(), p) == want;
                    match id {
                        "T01" | "T02" | "T03" | "T04" => {
                            if !right { eq("points", raws_bits(&t.interval_iter().collect::<Vec<_>>(), p), want.clone())?; }
                            for (v, b) in p.iter().zip(&want) { eq(&format!("contains({v:?})"), t.contains(v), *b)?; }
                            if o == 3 { eq("double complement", t.complement(), prev.clone())?; }
                            Ok(())
                        }
                        "T05" if right => { let k: TineTree<T> = l.into_iter().collect(); if t != k { return Err(format!("{t:?} differs from {k:?}")); } Ok(()) }
                        "T06" if right => {
                            eq("interval_iter()", drive(t.interval_iter(), s, l.len())?, l.clone())?;
                            eq("into_iter()", drive(t.clone().into_iter(), s, l.len())?, l)
                        }
                        "T07" if right => {
                            for (v, b) in p.iter().zip(&want) { eq(&format!("contains({v:?})"), t.contains(v), *b)?; }
                            eq("is_empty", t.is_empty(), l.is_empty())?;
                            eq("is_full", t.is_full(), !want.contains(&false))?;
                            eq("lower_bound", t.lower_bound(), l.first().and_then(|i| i.lower_bound()))?;
                            eq("upper_bound", t.upper_bound(), l.last().and_then(|i| i.upper_bound()))?;
                            let hull: Bits = (0..p.len()).map(|k| want[..=k].contains(&true) && want[k..].contains(&true)).collect();
                            eq("enclose", vec![t.enclose()], if l.is_empty() { vec![RawInterval::Empty] } else { maximal(p, &hull) })
                        }
                        _ => Ok(()),
                    }
                });
                if c.done() { return; }
            }
            if out.borrow().is_none() {
                *out.borrow_mut() = std::panic::catch_unwind(std::panic::AssertUnwindSafe(run)).ok();
            }
            if let Some(n) = out.into_inner() {
                // go on only from states that are right
                let l: Vec<_> = n.interval_iter().collect();
                if l == maximal(p, &want) { ok = true; t = n; bits = want; }
            }
            if !ok { break; }
        }
        pool.push((t, bits));
    }
}

// --------------------------------------------------------------- selections
/// Ascending values taken as neighbours of one another; no operand has an end strictly inside a
/// stretch that was left out.
fn sel_hist<T: Val + Finite + std::hash::Hash>(c: &Ctx, id: &str, r: &mut Rnd, p: &[T], ends: &[usize]) {
    let n = p.len();
    let iv = |r: &mut Rnd| -> (Interval<T>, Bits, String) {
        let a = r.n(ends.len());
        let b = (a + if r.n(3) == 0 { r.n(ends.len()) } else { r.n(4) }).min(ends.len() - 1);
        let (i, j) = (ends[a], ends[b]);
        let (x, y) = (p[i].clone(), p[j].clone());
        let bits = |lo: usize, hi: usize| -> Bits { (0..n).map(|k| lo <= k && k < hi).collect() };
        match r.n(12) {
            0 => (Interval::unbounded_from(x.clone()), bits(i, n), format!("[{x:?}, inf)")),
            1 => (Interval::unbounded_to(x.clone()), bits(0, i + 1), format!("(inf, {x:?}]")),
            2 => (Interval::unbounded_up_to(x.clone()), bits(0, i), format!("(inf, {x:?})")),
            3 => (Interval::unbounded_up_from(x.clone()), bits(i + 1, n), format!("({x:?}, inf)")),
            4 => (Interval::open(x.clone(), y.clone()), bits(i + 1, j), format!("({x:?}, {y:?})")),
            5 => (Interval::left_open(x.clone(), y.clone()), if i == j { bits(i, i + 1) } else { bits(i + 1, j + 1) }, format!("({x:?}, {y:?}]")),
            6 => (Interval::right_open(x.clone(), y.clone()), if i == j { bits(i, i + 1) } else { bits(i, j) }, format!("[{x:?}, {y:?})")),
            7 => (Interval::point(x.clone()), bits(i, i + 1), format!("{x:?}")),
            _ => (Interval::closed(x.clone(), y.clone()), bits(i, j + 1), format!("[{x:?}, {y:?}]")),
        }
    };
    let list = |bits: &[bool]| -> Vec<(T, T)> { runs(bits).into_iter().map(|(s, e)| (p[s].clone(), p[e].clone())).collect() };
    let ivs = |bits: &[bool]| -> Vec<Interval<T>> { list(bits).into_iter().map(|(a, b)| Interval::closed(a, b)).collect() };
    let has = |s: &Selection<T>| -> Bits { p.iter().map(|v| s.contains(v)).collect() };
    let mut pool: Vec<(Selection<T>, Bits)> = vec![];
    for _ in 0..3 {
        let (mut t, mut bits) = (Selection::new(), vec![false; n]);
        let mut log: Vec<String> = vec![];
        for _ in 0..6 + r.n(18) {
            let (x, xb, xs) = iv(r);
            let (y, yb, ys) = iv(r);
            let o = [0, 0, 0, 0, 1, 2, 2, 3, 4, 5, 6, 7, 8][r.n(13)];
            let other = if pool.is_empty() { (Selection::from(y.clone()), yb.clone()) } else { let k = r.n(pool.len()); pool[k].clone() };
            let prev = t.clone();
            let before = bits.clone();
            let (who, want): (&str, Bits) = match o {
                0 => ("S01", zip2(&bits, &xb, |a, b| a || b)), 1 => ("S02", zip2(&bits, &xb, |a, b| a && b)), 2 => ("S03", zip2(&bits, &xb, |a, b| a && !b)),
                3 => ("S04", bits.iter().map(|b| !b).collect()),
                4 => ("S01", zip2(&bits, &other.1, |a, b| a || b)), 5 => ("S02", zip2(&bits, &other.1, |a, b| a && b)), 6 => ("S03", zip2(&bits, &other.1, |a, b| a && !b)),
                7 => ("S01", zip2(&zip2(&bits, &xb, |a, b| a || b), &yb, |a, b| a || b)),
                _ => ("S01", bits.clone()),
            };
            log.push(match o { 0 => format!("|= {xs}"), 1 => format!("&= {xs}"), 2 => format!("-= {xs}"), 3 => "complement".into(), 4 => format!("| {:?}", list(&other.1)), 5 => format!("& {:?}", list(&other.1)), 6 => format!("- {:?}", list(&other.1)), 7 => format!("extend {xs}, {ys}"), _ => "collected".into() });
            let run = || match o {
                0 => { let mut t = prev.clone(); t.union_in_place(x.clone()); t }
                1 => { let mut t = prev.clone(); t.intersect_in_place(x.clone()); t }
                2 => { let mut t = prev.clone(); t.minus_in_place(x.clone()); t }
                3 => prev.complement(), 4 => prev.union(&other.0), 5 => prev.intersect(&other.0), 6 => prev.minus(&other.0),
                7 => { let mut t = prev.clone(); t.extend(vec![x.clone(), y.clone()]); t }
                _ => prev.interval_iter().collect(),
            };
            let out = std::cell::RefCell::new(None);
            if id == who || ["S05", "S06", "S07", "S08", "P01"].contains(&id) || id == "S02" {
                let s = (r.n(1 << 30) as u64) << 32 | r.n(1 << 30) as u64;
                c.case(true, || format!("selection {:?} after {log:?}", list(&before)), || {
                    let t = run();
                    *out.borrow_mut() = Some(t.clone());
                    let right = has(&t) == want;
                    match id {
                        "S01" | "S02" | "S03" | "S04" => {
                            if id == who { eq("points", has(&t), want.clone())?; }
                            if id == "S02" { eq("intersects", prev.intersects(&other.0), zip2(&before, &other.1, |a, b| a && b).contains(&true))?; }
                            if o == 3 && id == "S04" && t.complement() != prev { return Err("complementing twice gives something else".into()); }
                            Ok(())
                        }
                        "S05" if right => {
                            let k: Selection<T> = ivs(&want).into_iter().collect();
                            if has(&k) == want && t != k { return Err(format!("{t:?} and {k:?} hold the same points and are not equal")); }
                            eq("is_empty", t.is_empty(), !want.contains(&true))?;
                            eq("is_full", t.is_full(), !want.contains(&false))
                        }
                        "S06" if right => {
                            let l = ivs(&want);
                            eq("interval_iter()", drive(t.interval_iter(), s, l.len())?, l.clone())?;
                            eq("into_interval_iter()", drive(t.clone().into_interval_iter(), s, l.len())?, l)
                        }
                        "S07" if right && ends.len() == n => {
                            let l: Vec<T> = p.iter().zip(&want).filter(|(_, b)| **b).map(|(v, _)| v.clone()).collect();
                            eq("iter()", drive(t.iter(), s, l.len())?, l.clone())?;
                            eq("into_iter()", drive(t.clone().into_iter(), s, l.len())?, l)
                        }
                        "S07" if right => {
                            // the first points from either end
                            let mut f = t.iter();
                            for v in p.iter().zip(&want).filter(|(_, b)| **b).take(3) { if ends.contains(&p.iter().position(|q| q == v.0).unwrap()) { eq("iter().next()", f.next().as_ref(), Some(v.0))?; } else { break; } }
                            let mut f = t.iter();
                            for v in p.iter().zip(&want).rev().filter(|(_, b)| **b).take(3) { if ends.contains(&p.iter().position(|q| q == v.0).unwrap()) { eq("iter().next_back()", f.next_back().as_ref(), Some(v.0))?; } else { break; } }
                            Ok(())
                        }
                        "S08" if right => {
                            let l = list(&want);
                            eq("lower_bound", t.lower_bound(), l.first().map(|x| Bound::Include(x.0.clone())))?;
                            eq("upper_bound", t.upper_bound(), l.last().map(|x| Bound::Include(x.1.clone())))?;
                            let hull = if l.is_empty() { Interval::empty() } else { Interval::closed(l[0].0.clone(), l[l.len() - 1].1.clone()) };
                            eq("enclose", t.enclose(), hull.clone())?;
                            eq("closure", t.closure(), hull)?;
                            eq("bounded", (t.is_bounded(), t.is_half_bounded()), (true, false))
                        }
                        _ => Ok(()),
                    }
                });
                if c.done() { return; }
            }
            if out.borrow().is_none() {
                *out.borrow_mut() = std::panic::catch_unwind(std::panic::AssertUnwindSafe(run)).ok();
            }
            match out.into_inner() {
                Some(k) if has(&k) == want => { t = k; bits = want; }
                _ => break,
            }
        }
        pool.push((t, bits));
    }
}

// ------------------------------------------------------------ raw intervals
fn raw_lists<T: Val>(c: &Ctx, id: &str, r: &mut Rnd, p: &[T]) {
    let l: Vec<RawInterval<T>> = (0..r.n(14)).map(|_| raw(r, p)).collect();
    let (a, b) = (raw(r, p), raw(r, p));
    c.case(true, || if id == "R06" { format!("list {l:?}") } else { format!("{a:?} and {b:?}") }, || {
        let (x, y) = (raw_bits(&a, p), raw_bits(&b, p));
        let hull = |u: &Bits| -> Bits { (0..u.len()).map(|k| u[..=k].contains(&true) && u[k..].contains(&true)).collect() };
        match id {
            "R06" => {
                let any = raws_bits(&l, p);
                let all: Bits = p.iter().map(|v| l.iter().all(|i| raw_has(i, v))).collect();
                let mut u: Vec<_> = RawInterval::union_all(l.clone().into_iter()).collect();
                eq("points of union_all", raws_bits(&u, p), any.clone())?;
                u.sort_by_key(|i| p.iter().position(|v| raw_has(i, v)));
                eq("union_all", u, maximal(p, &any))?;
                eq("points of enclose_all", raw_bits(&RawInterval::enclose_all(l.clone().into_iter()), p), hull(&any))?;
                eq("points of intersect_all", raw_bits(&RawInterval::intersect_all(l.clone().into_iter()), p), all)
            }
            "R02" => { let w = zip2(&x, &y, |a, b| a && b); eq("intersect", raw_bits(&a.intersect(&b), p), w.clone())?; eq("intersects", a.intersects(&b), w.contains(&true)) }
            "R03" => eq("enclose", raw_bits(&a.enclose(&b), p), hull(&zip2(&x, &y, |a, b| a || b))),
            "R04" => { eq("minus", raws_bits(&a.minus(&b).collect::<Vec<_>>(), p), zip2(&x, &y, |a, b| a && !b))?; eq("complement", raws_bits(&a.complement().collect::<Vec<_>>(), p), x.iter().map(|b| !b).collect()) }
            "R05" => {
                let want = zip2(&x, &y, |a, b| a || b);
                let mut u: Vec<_> = a.union(&b).collect();
                eq("points of union", raws_bits(&u, p), want.clone())?;
                u.sort_by_key(|i| p.iter().position(|v| raw_has(i, v)));
                eq("union", u, maximal(p, &want))
            }
            "R01" => { for v in p { eq(&format!("contains({v:?})"), a.contains(v), raw_has(&a, v))?; } Ok(()) }
            _ => Ok(()),
        }
    });
}

fn spread<T: Val>(f: impl Fn(usize) -> T, n: usize) -> Vec<T> { (0..2 * n + 1).map(f).collect() }

pub fn rule(id: &str) -> &'static str {
    match (&id[..1], id) {
        ("T", _) | (_, "P01") => "; then random histories of up to 32 operations on trees over i32, i128 at both ends and strings",
        ("S", _) => "; then random histories of up to 24 operations on selections of u8 and of i64, u128, i16 around both ends",
        ("R", "R07") => "",
        ("R", _) => "; then random intervals and lists of up to 13 over i32, i128 at both ends and strings",
        _ => "",
    }
}

pub fn run(id: &str, c: &Ctx) {
    let limit = Duration::from_secs(if c.thorough { 45 } else { 0 });
    let t0 = Instant::now();
    let mut r = Rnd(c.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let ints = spread(|k| 3 * k as i32 - 36, 12);
    let small = spread(|k| k as i32, 6);
    let big = spread(|k| if k < 20 { i128::MIN + k as i128 } else { i128::MAX - 41 + k as i128 }, 20);
    let strs = spread(|k| format!("{}{}", ["", "a", "ab", "b", "ba", "\u{e9}", "\u{1f600}"][k / 4 % 7], "z".repeat(k % 4)), 12);
    let mut strs = strs;
    strs.sort(); strs.dedup();
    if strs.len() % 2 == 0 { strs.pop(); }
    let bytes: Vec<u8> = (0..=255).collect();
    let be: Vec<usize> = (0..256).collect();
    let tiny: Vec<D<9>> = (0..9).map(D).collect();
    let te: Vec<usize> = (0..9).collect();
    fn windows<T: Copy>(lo: impl Fn(i32) -> T, mid: impl Fn(i32) -> T, hi: impl Fn(i32) -> T) -> (Vec<T>, Vec<usize>) {
        // [MIN, MIN + 8), a left-out stretch, [-8, 8), a left-out stretch, (MAX - 8, MAX]
        let mut v: Vec<T> = (0..8).map(|k| lo(k)).collect();
        v.push(lo(8)); v.push(mid(-9));
        v.extend((-8..8).map(|k| mid(k)));
        v.push(mid(8)); v.push(hi(8));
        v.extend((0..8).rev().map(|k| hi(k)));
        let gap = [8, 9, 26, 27];
        let e = (0..v.len()).filter(|k| !gap.contains(k)).collect();
        (v, e)
    }
    let (wi, wie) = windows(|k| i64::MIN + k as i64, |k| k as i64, |k| i64::MAX - k as i64);
    let (wu, wue) = windows(|k| k as u128, |k| (1u128 << 70).wrapping_add_signed(k as i128), |k| u128::MAX - k as u128);
    let (ws, wse) = windows(|k| i16::MIN + k as i16, |k| 300 + k as i16, |k| i16::MAX - k as i16);
    let mut k = 0;
    while t0.elapsed() < limit && k < 60000 && !c.done() {
        k += 1;
        if id.starts_with('T') || id == "P01" {
            match k % 4 { 0 => tree_hist(c, id, &mut r, &ints), 1 => tree_hist(c, id, &mut r, &small), 2 => tree_hist(c, id, &mut r, &big), _ => tree_hist(c, id, &mut r, &strs) }
        }
        if id.starts_with('S') || id == "P01" {
            match k % 5 { 0 => sel_hist(c, id, &mut r, &tiny, &te), 1 if k % 20 == 1 => sel_hist(c, id, &mut r, &bytes, &be), 1 | 2 => sel_hist(c, id, &mut r, &wi, &wie), 3 => sel_hist(c, id, &mut r, &wu, &wue), _ => sel_hist(c, id, &mut r, &ws, &wse) }
        }
        if id.starts_with('R') && id != "R07" {
            match k % 4 { 0 => raw_lists(c, id, &mut r, &ints), 1 => raw_lists(c, id, &mut r, &small), 2 => raw_lists(c, id, &mut r, &big), _ => raw_lists(c, id, &mut r, &strs) }
        }
        if matches!(id.as_bytes()[0], b'B' | b'N' | b'I') || id == "R07" { break; }
    }
}
