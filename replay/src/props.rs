//! One executable oracle per property.
use crate::dom::*;
use crate::Ctx;
use normalize_interval::normalize::{Finite, Normalize};
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine_tree::TineTree;
use normalize_interval::{Bound, Interval, Selection};
use std::fmt::Debug;

type R = Result<(), String>;

fn eq<A: PartialEq + Debug>(what: &str, got: A, want: A) -> R {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, expected {want:?}")) }
}

/// `==` and `!=` answer `want`; equal values hash alike; clones are equal.
fn same<A: PartialEq + Debug + Clone + std::hash::Hash>(a: &A, b: &A, want: bool) -> R {
    use std::collections::hash_map::DefaultHasher;
    use std::hash::Hasher;
    let h = |x: &A| { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() };
    if (a == b) != want || (b == a) != want || (a != b) == want { return Err(format!("{a:?} == {b:?} is {}, != is {}, expected {want}", a == b, a != b)); }
    if want { eq("hash of equal values", h(a), h(b))?; }
    let mut d = a.clone();
    if d != *a { return Err(format!("{a:?} cloned is {d:?}")); }
    d.clone_from(b);
    if d != *b || h(&d) != h(b) { return Err(format!("clone_from({b:?}) gives {d:?}")); }
    Ok(())
}

pub fn ids() -> Vec<String> {
    "B01 R01 R02 R03 R04 R05 R06 R07 N01 N02 I01 I02 I03 I04 I05 I06 T01 T02 T03 T04 T05 T06 T07 \
     S01 S02 S03 S04 S05 S06 S07 S08 P01"
        .split_whitespace().map(String::from).collect()
}

pub fn run(id: &str, c: &Ctx) -> Option<&'static str> {
    Some(match id {
        "B01" => b01(c), "R01" => r01(c), "R02" => r02(c), "R03" => r03(c), "R04" => r04(c),
        "R05" => r05(c), "R06" => r06(c), "R07" => r07(c),
        "N01" => n01(c), "N02" => n02(c),
        "I01" => i01(c), "I02" => i02(c), "I03" => i03(c), "I04" => i04(c), "I05" => i05(c), "I06" => i06(c),
        "T01" => t_inplace(c, 0), "T02" => t_inplace(c, 1), "T03" => t_inplace(c, 2),
        "T04" => t04(c), "T05" => t05(c), "T06" => t06(c), "T07" => t07(c),
        "S01" => s_op(c, 0), "S02" => s_op(c, 1), "S03" => s_op(c, 2), "S04" => s04(c),
        "S05" => s05(c), "S06" => s06(c), "S07" => s07(c), "S08" => s08(c), "P01" => p01(c),
        _ => return None,
    })
}

// ---------------------------------------------------------------- iterators
/// Drives a double-ended iterator by a schedule (true = back); returns the
/// items in order of position if front and back never crossed.
fn drive<I: DoubleEndedIterator>(mut it: I, sched: u32, len: usize) -> Result<Vec<I::Item>, String>
    where I::Item: Debug
{
    let (mut f, mut b) = (vec![], vec![]);
    let mut nones = 0;
    let mut k = 0;
    while nones < 3 {
        if k > len + 8 { return Err(format!("iterator does not finish: front {f:?} back {b:?}")); }
        let back = (sched >> (k % 32)) & 1 == 1;
        let x = if back { it.next_back() } else { it.next() };
        k += 1;
        match x {
            Some(x) => {
                if nones > 0 { return Err(format!("yielded {x:?} after None")); }
                if back { b.push(x) } else { f.push(x) }
            }
            None => nones += 1,
        }
    }
    b.reverse();
    f.extend(b);
    Ok(f)
}
/// The other ways of consuming an iterator (nth, last, count, folds, size_hint
/// and their counterparts from the back) must agree with stepping it.
fn whole<I: DoubleEndedIterator>(what: &str, mk: impl Fn() -> I, want: &[I::Item]) -> R
    where I::Item: Debug + PartialEq + Clone
{
    let n = want.len();
    let at = |k: usize| want.get(k).cloned();
    let from_end = |k: usize| n.checked_sub(k + 1).and_then(|j| want.get(j).cloned());
    eq(&format!("{what}.count()"), mk().count(), n)?;
    eq(&format!("{what}.last()"), mk().last(), want.last().cloned())?;
    eq(&format!("{what}.collect()"), mk().collect::<Vec<_>>(), want.to_vec())?;
    eq(&format!("{what}.rev().collect()"), mk().rev().collect::<Vec<_>>(), want.iter().rev().cloned().collect())?;
    eq(&format!("{what}.fold()"), mk().fold(vec![], |mut v, x| { v.push(x); v }), want.to_vec())?;
    eq(&format!("{what}.rfold()"), mk().rfold(vec![], |mut v, x| { v.push(x); v }), want.iter().rev().cloned().collect())?;
    for k in [0, 1, 2, n.saturating_sub(1), n, n + 1] {
        let mut i = mk();
        eq(&format!("{what}.nth({k})"), i.nth(k), at(k))?;
        eq(&format!("{what}.next() after nth({k})"), i.next(), at(k + 1))?;
        eq(&format!("{what} after nth({k}) and next()"), i.collect::<Vec<_>>(), want.iter().skip(k + 2).cloned().collect())?;
        let mut i = mk();
        eq(&format!("{what}.nth_back({k})"), i.nth_back(k), from_end(k))?;
        eq(&format!("{what}.next_back() after nth_back({k})"), i.next_back(), from_end(k + 1))?;
        eq(&format!("{what} after nth_back({k}) and next_back()"), i.collect::<Vec<_>>(), want[..n.saturating_sub(k + 2)].to_vec())?;
        let mut i = mk();
        eq(&format!("{what}.by_ref().take({k})"), i.by_ref().take(k).collect::<Vec<_>>(), want.iter().take(k).cloned().collect())?;
        let left = n.saturating_sub(k);
        let (lo, hi) = i.size_hint();
        if lo > left || hi.map_or(false, |h| h < left) { return Err(format!("{what}.size_hint() is ({lo}, {hi:?}) with {left} items left")); }
    }
    let mut i = mk();
    eq(&format!("{what}.find()"), i.find(|x| Some(x) == want.get(1)), at(1))?;
    let mut i = mk();
    eq(&format!("{what}.rfind()"), i.rfind(|x| Some(x) == want.first()), at(0))
}
fn scheds(len: usize, c: &Ctx) -> Vec<u32> {
    let n = len.min(if c.thorough { 10 } else { 7 }) as u32;
    // Exhaustive over the first n steps; the tail alternates or goes one way.
    let mut v = vec![0, u32::MAX, 0x55555555, 0xAAAAAAAA];
    for k in 0..(1u32 << n) {
        v.push(k);
        v.push(k | (u32::MAX << n));
    }
    v
}

// ------------------------------------------------------------------- bounds
fn b01(c: &Ctx) -> &'static str {
    let g = grid();
    let bs = bounds_all(&END);
    for a in &bs {
        for b in &bs {
            let lo = |x: &Bound<i32>| g.iter().map(|p| lower_has(x, p)).collect::<Vec<_>>();
            let up = |x: &Bound<i32>| g.iter().map(|p| upper_has(x, p)).collect::<Vec<_>>();
            let or = |x: Bits, y: Bits| zip2(&x, &y, |p, q| p || q);
            let and = |x: Bits, y: Bits| zip2(&x, &y, |p, q| p && q);
            c.case(a != b, || format!("bounds {a:?} and {b:?}"), || {
                eq("least_union as lower bound", lo(&a.least_union(b)), or(lo(a), lo(b)))?;
                eq("greatest_union as upper bound", up(&a.greatest_union(b)), or(up(a), up(b)))?;
                eq("greatest_intersect as lower bound", lo(&a.greatest_intersect(b)), and(lo(a), lo(b)))?;
                eq("least_intersect as upper bound", up(&a.least_intersect(b)), and(up(a), up(b)))?;
                eq("least_union swapped", a.least_union(b), b.least_union(a))?;
                eq("greatest_union swapped", a.greatest_union(b), b.greatest_union(a))?;
                eq("least_intersect swapped", a.least_intersect(b), b.least_intersect(a))?;
                eq("greatest_intersect swapped", a.greatest_intersect(b), b.greatest_intersect(a))?;
                same(a, b, match (a, b) { (Bound::Infinite, Bound::Infinite) => true, (Bound::Include(x), Bound::Include(y)) | (Bound::Exclude(x), Bound::Exclude(y)) => x == y, _ => false })
            });
        }
        c.case(true, || format!("bound {a:?}"), || {
            let v = match a { Bound::Include(x) | Bound::Exclude(x) => Some(*x), Bound::Infinite => None };
            let inc = matches!(a, Bound::Include(_));
            let like = |x: i32| match a { Bound::Include(_) => Bound::Include(x), Bound::Exclude(_) => Bound::Exclude(x), Bound::Infinite => Bound::Infinite };
            eq("as_ref", a.as_ref().cloned(), v)?;
            eq("kind", (a.is_finite(), a.is_inclusive(), a.is_exclusive()), (v.is_some(), inc, v.is_some() && !inc))?;
            eq("unwrap_or", a.clone().unwrap_or(77), v.unwrap_or(77))?;
            eq("unwrap_or_else", a.clone().unwrap_or_else(|| 78), v.unwrap_or(78))?;
            if let Some(x) = v { eq("unwrap", a.clone().unwrap(), x)?; }
            eq("map", a.clone().map(|x| x + 100), v.map_or(Bound::Infinite, |x| like(x + 100)))?;
            eq("map_or", a.clone().map_or(79, |x| x + 100), v.map_or(79, |x| x + 100))?;
            eq("map_or_else", a.clone().map_or_else(|| 80, |x| x + 100), v.map_or(80, |x| x + 100))?;
            eq("transfer", Bound::transfer(a.clone(), 81), like(81))?;
            let mut m = a.clone();
            if let Some(x) = m.as_mut() { *x += 1; }
            eq("as_mut", m, v.map_or(Bound::Infinite, |x| like(x + 1)))
        });
    }
    c.case(true, || "default bound".into(), || eq("default", Bound::<i32>::default(), Bound::Include(0)));
    c.case(true, || "bound from point".into(), || eq("from", Bound::from(5), Bound::Include(5)));
    "all pairs of bounds over 4 end points, compared on 9 grid points; non-trivial: the bounds differ"
}

// ------------------------------------------------------------ raw intervals
fn r01(c: &Ctx) -> &'static str {
    let g = grid();
    let bs = bounds_all(&END);
    for a in &bs {
        for b in &bs {
            c.case(true, || format!("RawInterval::new({a:?}, {b:?})"), || {
                let r = RawInterval::new(*a, *b);
                if !raw_valid(&r) { return Err(format!("ill-formed {r:?}")); }
                let same = a.as_ref().is_some() && a.as_ref() == b.as_ref();
                let half = same && (a.is_inclusive() != b.is_inclusive());
                for x in &g {
                    let want = if half { Some(x) == a.as_ref() } else { lower_has(a, x) && upper_has(b, x) };
                    eq(&format!("contains({x})"), r.contains(x), want)?;
                }
                Ok(())
            });
        }
    }
    for a in END { for b in END {
        c.case(a <= b, || format!("open/left_open/right_open/closed({a}, {b})"), || {
            for (r, lb, ub) in [
                (RawInterval::open(a, b), Bound::Exclude(a), Bound::Exclude(b)),
                (RawInterval::left_open(a, b), Bound::Exclude(a), Bound::Include(b)),
                (RawInterval::right_open(a, b), Bound::Include(a), Bound::Exclude(b)),
                (RawInterval::closed(a, b), Bound::Include(a), Bound::Include(b)),
            ] { eq("same as new()", r, RawInterval::new(lb, ub))?; }
            Ok(())
        });
    } }
    for r in raw_all(&END) {
        c.case(true, || format!("{r:?}"), || {
            for x in &g { eq(&format!("contains({x})"), r.contains(x), raw_has(&r, x))?; }
            eq("is_empty", r.is_empty(), !raw_bits(&r, &g).contains(&true))?;
            eq("is_full", r.is_full(), !raw_bits(&r, &g).contains(&false))?;
            eq("bounds present", (r.lower_bound().is_some(), r.upper_bound().is_some()), (!r.is_empty(), !r.is_empty()))?;
            if let (Some(l), Some(u)) = (r.lower_bound(), r.upper_bound()) {
                for x in &g { eq(&format!("{x} within bounds"), lower_has(&l, x) && upper_has(&u, x), raw_has(&r, x))?; }
                eq("round trip through new(lower_bound, upper_bound)", RawInterval::new(l, u), r)?;
            }
            let l = r.lower_bound().and_then(|b| b.as_ref().cloned());
            let u = r.upper_bound().and_then(|b| b.as_ref().cloned());
            eq("infimum", r.infimum(), l)?;
            eq("supremum", r.supremum(), u)
        });
    }
    "all bound pairs / end-point pairs / raw intervals over 4 end points on 9 grid points"
}
fn raw_pairs(c: &Ctx, f: impl Fn(&RawInterval<i32>, &RawInterval<i32>) -> R) {
    let v = raw_all(&END);
    for a in &v { for b in &v {
        c.case(!a.is_empty() && !b.is_empty() && a != b, || format!("a = {a:?}, b = {b:?}"), || f(a, b));
        if c.done() { return; }
    } }
}
const RAWRULE: &str = "all 46*46 pairs of raw intervals over 4 end points, membership compared on 9 grid points (end points and the gaps around them); non-trivial: both non-empty and different";
fn r02(c: &Ctx) -> &'static str {
    let g = grid();
    raw_pairs(c, |a, b| {
        let want = zip2(&raw_bits(a, &g), &raw_bits(b, &g), |x, y| x && y);
        let r = a.intersect(b);
        if !raw_valid(&r) { return Err(format!("ill-formed {r:?}")); }
        eq("intersects", a.intersects(b), want.contains(&true))?;
        eq("is_empty of intersect", r.is_empty(), !want.contains(&true))?;
        eq(&format!("points of intersect {r:?}"), raw_bits(&r, &g), want)
    });
    RAWRULE
}
fn r03(c: &Ctx) -> &'static str {
    let g = grid();
    raw_pairs(c, |a, b| {
        let u = zip2(&raw_bits(a, &g), &raw_bits(b, &g), |x, y| x || y);
        let want: Bits = (0..g.len()).map(|k| u[..=k].contains(&true) && u[k..].contains(&true)).collect();
        let r = a.enclose(b);
        if !raw_valid(&r) { return Err(format!("ill-formed {r:?}")); }
        eq(&format!("points of enclose {r:?}"), raw_bits(&r, &g), want)
    });
    for a in raw_all(&END) {
        c.case(true, || format!("closure of {a:?}"), || {
            let r = a.closure();
            let inc = |b: Option<Bound<i32>>| b.map(|b| match b { Bound::Exclude(p) => Bound::Include(p), b => b });
            eq("lower bound of closure", r.lower_bound(), inc(a.lower_bound()))?;
            eq("upper bound of closure", r.upper_bound(), inc(a.upper_bound()))
        });
    }
    RAWRULE
}
fn r04(c: &Ctx) -> &'static str {
    let g = grid();
    raw_pairs(c, |a, b| {
        let want = zip2(&raw_bits(a, &g), &raw_bits(b, &g), |x, y| x && !y);
        let r: Vec<_> = a.minus(b).collect();
        eq(&format!("pieces of minus {r:?}"), r, dense_maximal(&want))
    });
    for a in raw_all(&END) {
        c.case(true, || format!("complement of {a:?}"), || {
            let r: Vec<_> = a.complement().collect();
            let want: Bits = raw_bits(&a, &g).iter().map(|x| !x).collect();
            eq("complement", r, dense_maximal(&want))
        });
    }
    RAWRULE
}
fn r05(c: &Ctx) -> &'static str {
    let g = grid();
    raw_pairs(c, |a, b| {
        let want = zip2(&raw_bits(a, &g), &raw_bits(b, &g), |x, y| x || y);
        let mut r: Vec<_> = a.union(b).collect();
        r.sort_by_key(|i| raw_bits(i, &g).iter().position(|x| *x));
        eq(&format!("pieces of union"), r, dense_maximal(&want))
    });
    raw_pairs(c, |a, b| {
        // Adjacent: a lower bound and an upper bound meet at one point that at
        // least one of the two includes.
        let meet = |l: Option<Bound<i32>>, u: Option<Bound<i32>>| match (l, u) {
            (Some(l), Some(u)) => l.as_ref().is_some() && l.as_ref() == u.as_ref() && !(l.is_exclusive() && u.is_exclusive()),
            _ => false,
        };
        let want = meet(a.lower_bound(), b.upper_bound()) || meet(b.lower_bound(), a.upper_bound());
        eq("is_adjacent_to", a.is_adjacent_to(b), want)
    });
    RAWRULE
}
fn r06(c: &Ctx) -> &'static str {
    let g = grid();
    let v = raw_all(&END[..3]);
    let mut check = |l: &[RawInterval<i32>]| {
        c.case(l.len() > 1, || format!("{l:?}"), || {
            let u = raws_bits(l, &g);
            let n: Bits = g.iter().map(|x| l.iter().all(|r| raw_has(r, x))).collect();
            let e: Bits = (0..g.len()).map(|k| u[..=k].contains(&true) && u[k..].contains(&true)).collect();
            eq("enclose_all", raw_bits(&RawInterval::enclose_all(l.iter().cloned()), &g), e)?;
            eq("intersect_all", raw_bits(&RawInterval::intersect_all(l.iter().cloned()), &g), n)?;
            let r: Vec<_> = RawInterval::union_all(l.iter().cloned()).collect();
            if r.iter().any(|i| i.is_empty() || !raw_valid(i)) { return Err(format!("union_all yields {r:?}")); }
            eq(&format!("points of union_all {r:?}"), raws_bits(&r, &g), u.clone())?;
            let mut r = r;
            r.sort_by_key(|i| raw_bits(i, &g).iter().position(|x| *x));
            eq("union_all pieces", r, dense_maximal(&u))
        });
    };
    check(&[]);
    for a in &v { check(&[*a]); for b in &v { check(&[*a, *b]); for d in &v { check(&[*a, *b, *d]); } } }
    "all lists of at most 3 raw intervals over 3 end points"
}
fn r07(c: &Ctx) -> &'static str {
    fn rt<T: std::str::FromStr + std::fmt::Display + Ord + Clone + Debug>(c: &Ctx, e: &[T]) {
        for r in raw_all(e) {
            c.case(true, || format!("text of {r:?}"), || {
                let s = r.to_string();
                match s.parse::<RawInterval<T>>() {
                    Ok(p) if p == r => Ok(()),
                    Ok(p) => Err(format!("{s:?} parses as {p:?}")),
                    Err(_) => Err(format!("{s:?} does not parse")),
                }
            });
        }
    }
    rt::<i32>(c, &[i32::MIN, -3, 0, 7, i32::MAX]);
    rt::<u8>(c, &[0, 1, 9, 10, 255]);
    rt::<i128>(c, &[i128::MIN, -1, 0, i128::MAX]);
    rt::<u64>(c, &[0, 12345, u64::MAX]);
    // Distinct intervals have distinct texts; malformed text is rejected, never a panic.
    let v = raw_all(&END);
    for a in &v { for b in &v { if a != b {
        c.case(true, || format!("texts of {a:?} and {b:?}"), || {
            if a.to_string() == b.to_string() { Err("coincide".into()) } else { Ok(()) }
        });
    } } }
    let al = ["", "(", "[", ")", "]", ",", "1", "2", "-", "∞", "Ø", "(-∞", "∞)", "é"];
    let mut texts = vec![];
    for a in al { for b in al { for d in al { for e in al { for f in if c.thorough { &al[..] } else { &al[..9] } {
        texts.push(format!("{a}{b}{d}{e}{f}"));
    } } } } }
    for t in texts {
        c.case(true, || format!("parse {t:?}"), || {
            // Grammar of the notation, written independently.
            let want = spec_parse(&t);
            let got = t.parse::<RawInterval<i32>>().ok();
            match (got, want) {
                (Some(g), Some(w)) => eq("parsed value", g, w),
                (Some(g), None) => Err(format!("accepted as {g:?}")),
                (None, Some(w)) => Err(format!("rejected, expected {w:?}")),
                _ => Ok(()),
            }
        });
    }
    "all raw intervals over extreme and ordinary values of four integer types round-tripped; all concatenations of 5 tokens parsed"
}
/// None: must be rejected. Some(v): must parse as v.
fn spec_parse(t: &str) -> Option<RawInterval<i32>> {
    if t == "Ø" { return Some(RawInterval::Empty); }
    if let Ok(p) = t.parse::<i32>() { return Some(RawInterval::Point(p)); }
    let (x, y) = t.split_once(',')?;
    let lb = if x == "(-∞" { Bound::Infinite }
        else if let Some(v) = x.strip_prefix('(') { Bound::Exclude(v.parse().ok()?) }
        else if let Some(v) = x.strip_prefix('[') { Bound::Include(v.parse().ok()?) }
        else { return None };
    let ub = if y == "∞)" { Bound::Infinite }
        else if let Some(v) = y.strip_suffix(')') { Bound::Exclude(v.parse().ok()?) }
        else if let Some(v) = y.strip_suffix(']') { Bound::Include(v.parse().ok()?) }
        else { return None };
    Some(RawInterval::new(lb, ub))
}

// ------------------------------------------------------------ normalization
fn n01(c: &Ctx) -> &'static str {
    fn go<T: Dom>(c: &Ctx) {
        let p = T::points();
        for r in raw_all(&p) {
            c.case(true, || format!("{r:?} over {} points", p.len()), || {
                let bits = raw_bits(&r, &p);
                let n = r.clone().normalized();
                let d = r.clone().denormalized();
                let run = runs(&bits);
                let want = match run.first() { None => RawInterval::Empty, Some((s, e)) => norm_raw(&p, *s, *e) };
                eq("normalized", n.clone(), want)?;
                eq("points of normalized", raw_bits(&n, &p), bits.clone())?;
                eq(&format!("points of denormalized {d:?}"), raw_bits(&d, &p), bits.clone())?;
                eq("normalized of normalized", n.clone().normalized(), n.clone())?;
                eq("normalized of denormalized", d.clone().normalized(), n.clone())?;
                let dd = n.clone().denormalized();
                eq("denormalized of denormalized", dd.clone().denormalized(), dd)
            });
        }
    }
    go::<D<1>>(c); go::<D<2>>(c); go::<D<3>>(c); go::<D<6>>(c);
    if c.thorough { go::<u8>(c); go::<i8>(c); }
    "all valid raw intervals over finite types with 1, 2, 3 and 6 values (thorough: u8 and i8 entirely)"
}
fn n02(c: &Ctx) -> &'static str {
    macro_rules! ty { ($($t:ident),*) => { $({
        let mut v: Vec<$t> = vec![$t::MIN, $t::MIN + 1, $t::MIN + 2, 0, 1, 2, 3, 77, $t::MAX - 2, $t::MAX - 1, $t::MAX,
            $t::MAX / 2, $t::MAX / 2 + 1, $t::MIN / 2];
        for k in 0..7 { v.push(1 << k); v.push((1 << k) - 1); }
        if c.thorough { let mut x = c.seed as u128 | 1; for _ in 0..20000 { x = x.wrapping_mul(0xda942042e4dd58b5).wrapping_add(0x9E3779B97F4A7C15); v.push((x >> 3) as $t); } }
        for x in v {
            c.case(true, || format!("{}: {}", stringify!($t), x), || {
                eq("MINIMUM", <$t as Finite>::MINIMUM, $t::MIN)?;
                eq("MAXIMUM", <$t as Finite>::MAXIMUM, $t::MAX)?;
                eq("pred", Finite::pred(&x), x.checked_sub(1))?;
                eq("succ", Finite::succ(&x), x.checked_add(1))
            });
        }
    })* } }
    ty!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    for x in 0..=255u8 { c.case(true, || format!("u8 {x}"), || eq("succ/pred", (x.succ(), x.pred()), (x.checked_add(1), x.checked_sub(1)))); }
    for x in -128..=127i8 { c.case(true, || format!("i8 {x}"), || eq("succ/pred", (x.succ(), x.pred()), (x.checked_add(1), x.checked_sub(1)))); }
    "extreme, power-of-two and ordinary values of the 12 integer types; u8 and i8 exhaustively"
}

// ---------------------------------------------------------------- intervals
fn i01(c: &Ctx) -> &'static str {
    fn go<T: Dom>(c: &Ctx) {
        let p = T::points();
        let bs = bounds_all(&p);
        for a in &bs { for b in &bs {
            c.case(true, || format!("Interval::new({a:?}, {b:?}) over {} points", p.len()), || {
                let r = Interval::new(a.clone(), b.clone());
                let same = a.as_ref().is_some() && a.as_ref() == b.as_ref();
                let half = same && (a.is_inclusive() != b.is_inclusive());
                for x in &p {
                    let want = if half { Some(x) == a.as_ref() } else { lower_has(a, x) && upper_has(b, x) };
                    eq(&format!("contains({x:?})"), r.contains(x), want)?;
                }
                Ok(())
            });
        } }
        for a in &p {
            let (a0, a1) = (a.clone(), a.clone());
            c.case(true, || format!("constructors at {a:?} over {} points", p.len()), || {
                use Bound::*;
                let cl = || a0.clone();
                eq("point", iv_bits(&Interval::point(cl())), p.iter().map(|x| *x == a1).collect())?;
                eq("From<T>", Interval::from(cl()), Interval::point(cl()))?;
                for (n, r, l, u) in [
                    ("unbounded_from", Interval::unbounded_from(cl()), Include(cl()), Infinite),
                    ("unbounded_to", Interval::unbounded_to(cl()), Infinite, Include(cl())),
                    ("unbounded_up_from", Interval::unbounded_up_from(cl()), Exclude(cl()), Infinite),
                    ("unbounded_up_to", Interval::unbounded_up_to(cl()), Infinite, Exclude(cl())),
                    ("a..", Interval::from(cl()..), Include(cl()), Infinite),
                    ("..a", Interval::from(..cl()), Infinite, Exclude(cl())),
                    ("..=a", Interval::from(..=cl()), Infinite, Include(cl())),
                ] {
                    for x in &p { eq(&format!("{n} contains({x:?})"), r.contains(x), lower_has(&l, x) && upper_has(&u, x))?; }
                }
                for b in &p {
                    let d = || b.clone();
                    for (n, r, l, u) in [
                        ("open", Interval::open(cl(), d()), Exclude(cl()), Exclude(d())),
                        ("left_open", Interval::left_open(cl(), d()), Exclude(cl()), Include(d())),
                        ("right_closed", Interval::right_closed(cl(), d()), Exclude(cl()), Include(d())),
                        ("right_open", Interval::right_open(cl(), d()), Include(cl()), Exclude(d())),
                        ("left_closed", Interval::left_closed(cl(), d()), Include(cl()), Exclude(d())),
                        ("a..b", Interval::from(cl()..d()), Include(cl()), Exclude(d())),
                        ("closed", Interval::closed(cl(), d()), Include(cl()), Include(d())),
                    ] { eq(n, r, Interval::new(l, u))?; }
                }
                Ok(())
            });
        }
        c.case(true, || format!("empty/full over {} points", p.len()), || {
            eq("empty", iv_bits(&Interval::<T>::empty()), vec![false; p.len()])?;
            eq("default", Interval::<T>::default(), Interval::empty())?;
            eq("full", iv_bits(&Interval::<T>::full()), vec![true; p.len()])?;
            eq("..", iv_bits(&Interval::<T>::from(..)), vec![true; p.len()])
        });
        for r in raw_all(&p) {
            c.case(true, || format!("Interval::from({r:?})"), || eq("points", iv_bits(&Interval::from(r.clone())), raw_bits(&r, &p)));
        }
    }
    go::<D<1>>(c); go::<D<2>>(c); go::<D<5>>(c);
    "all constructors on all arguments over finite types with 1, 2 and 5 values"
}
/// All intervals each public constructor can give, with construction text.
fn ctor_all<T: Dom>() -> Vec<(String, Interval<T>)> {
    let p = T::points();
    let mut v = vec![("empty".into(), Interval::empty()), ("full".into(), Interval::full())];
    for a in &p {
        let cl = || a.clone();
        v.push((format!("point({a:?})"), Interval::point(cl())));
        v.push((format!("unbounded_from({a:?})"), Interval::unbounded_from(cl())));
        v.push((format!("unbounded_to({a:?})"), Interval::unbounded_to(cl())));
        v.push((format!("unbounded_up_from({a:?})"), Interval::unbounded_up_from(cl())));
        v.push((format!("unbounded_up_to({a:?})"), Interval::unbounded_up_to(cl())));
        for b in &p {
            let d = || b.clone();
            v.push((format!("open({a:?}, {b:?})"), Interval::open(cl(), d())));
            v.push((format!("left_open({a:?}, {b:?})"), Interval::left_open(cl(), d())));
            v.push((format!("right_open({a:?}, {b:?})"), Interval::right_open(cl(), d())));
            v.push((format!("closed({a:?}, {b:?})"), Interval::closed(cl(), d())));
            v.push((format!("{a:?}..{b:?}"), Interval::from(cl()..d())));
        }
    }
    for r in raw_all(&p) { v.push((format!("from({r:?})"), Interval::from(r))); }
    v
}
fn i02(c: &Ctx) -> &'static str {
    fn go<T: Dom>(c: &Ctx) {
        let v = ctor_all::<T>();
        let canon: Vec<_> = v.iter().map(|(_, i)| {
            let b = iv_bits(i);
            match runs(&b).first() { None => RawInterval::Empty, Some((s, e)) => norm_raw(&T::points(), *s, *e) }
        }).collect();
        for ((n, i), k) in v.iter().zip(&canon) {
            c.case(true, || format!("{n} over {} points", T::points().len()), || {
                eq("bounds are the least and greatest point", (i.lower_bound(), i.upper_bound()), (k.lower_bound(), k.upper_bound()))?;
                eq("is_empty", i.is_empty(), *k == RawInterval::Empty)?;
                eq("is_degenerate", i.is_degenerate(), matches!(k, RawInterval::Point(_)))?;
                eq("equals its normal form", i.clone(), Interval::from(k.clone()))?;
                use std::collections::hash_map::DefaultHasher;
                use std::hash::{Hash, Hasher};
                let h = |x: &Interval<T>| { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() };
                eq("hash", h(i), h(&Interval::from(k.clone())))
            });
        }
        for ((n, i), k) in v.iter().zip(&canon) { for ((m, j), l) in v.iter().zip(&canon) {
            c.case(n != m, || format!("{n} == {m} over {} points", T::points().len()), || same(i, j, k == l));
            if c.done() { return; }
        } }
    }
    go::<D<1>>(c); go::<D<2>>(c); go::<D<5>>(c);
    "all pairs of constructor results over finite types with 1, 2 and 5 values"
}
fn iv_pairs<T: Dom>(c: &Ctx, f: impl Fn(&Interval<T>, &Interval<T>, &Bits, &Bits) -> R) {
    let v = ivs_all::<T>();
    for (a, x) in &v { for (b, y) in &v {
        c.case(!a.is_empty() && !b.is_empty() && a != b, || format!("a = {a:?}, b = {b:?} over {} points", x.len()), || f(a, b, x, y));
        if c.done() { return; }
    } }
}
fn iv_list<T: Dom>(bits: &[bool]) -> Vec<Interval<T>> {
    let p = T::points();
    runs(bits).into_iter().map(|(s, e)| Interval(s, e, &p)).collect()
}
#[allow(non_snake_case)]
fn Interval<T: Dom>(s: usize, e: usize, p: &[T]) -> Interval<T> {
    if s == e { Interval::point(p[s].clone()) } else { Interval::closed(p[s].clone(), p[e].clone()) }
}
const IVRULE: &str = "all pairs of intervals over finite types with 1, 2 and 6 values; non-trivial: both non-empty and different";
fn i03(c: &Ctx) -> &'static str {
    fn go<T: Dom>(c: &Ctx) {
        iv_pairs::<T>(c, |a, b, x, y| {
            let want = zip2(x, y, |p, q| p && q);
            let got = a.intersect(b);
            eq("points of intersect", iv_bits(&got), want.clone())?;
            eq("intersect in normal form", got.into_non_empty().into_iter().collect::<Vec<_>>(), iv_list::<T>(&want))?;
            eq("intersects", a.intersects(b), want.contains(&true))?;
            let u = zip2(x, y, |p, q| p || q);
            let hull: Bits = (0..u.len()).map(|k| u[..=k].contains(&true) && u[k..].contains(&true)).collect();
            let e = a.enclose(b);
            eq("points of enclose", iv_bits(&e), hull.clone())?;
            eq("enclose in normal form", e.into_non_empty().into_iter().collect::<Vec<_>>(), iv_list::<T>(&hull))?;
            eq("closure", a.closure(), a.clone())
        });
    }
    go::<D<1>>(c); go::<D<2>>(c); go::<D<6>>(c);
    IVRULE
}
fn i04(c: &Ctx) -> &'static str {
    fn go<T: Dom>(c: &Ctx) {
        iv_pairs::<T>(c, |a, b, x, y| {
            let mut u: Vec<_> = a.union(b).collect();
            u.sort_by_key(|i| i.infimum());
            eq("union", u, iv_list(&zip2(x, y, |p, q| p || q)))?;
            eq("minus", a.minus(b).collect::<Vec<_>>(), iv_list(&zip2(x, y, |p, q| p && !q)))?;
            eq("complement", a.complement().collect::<Vec<_>>(), iv_list(&x.iter().map(|p| !p).collect::<Vec<_>>()))
        });
    }
    go::<D<1>>(c); go::<D<2>>(c); go::<D<6>>(c);
    IVRULE
}
fn i05(c: &Ctx) -> &'static str {
    fn go<T: Dom>(c: &Ctx) {
        let p = T::points();
        for (i, bits) in ctor_all::<T>().into_iter().map(|(_, i)| { let b = iv_bits(&i); (i, b) }) {
            let want: Vec<T> = p.iter().zip(&bits).filter(|(_, b)| **b).map(|(x, _)| x.clone()).collect();
            c.case(want.len() > 1, || format!("points of {i:?} over {} values", p.len()), || {
                whole("iter()", || i.iter(), &want)?;
                whole("into_iter()", || i.clone().into_iter(), &want)
            });
            for s in scheds(want.len(), c) {
                c.case(want.len() > 1, || format!("points of {i:?} over {} values, schedule {s:#b}", p.len()), || {
                    eq("iter()", drive(i.iter(), s, want.len())?, want.clone())?;
                    eq("into_iter()", drive(i.clone().into_iter(), s, want.len())?, want.clone())?;
                    eq("(&i).into_iter()", drive((&i).into_iter(), s, want.len())?, want.clone())
                });
                if c.done() { return; }
            }
        }
    }
    go::<D<1>>(c); go::<D<2>>(c); go::<D<6>>(c);
    for (a, b) in [(0u8, 255u8), (250, 255), (0, 3)] {
        for s in [0, u32::MAX, 0x55555555] {
            c.case(true, || format!("points of u8 [{a}, {b}], schedule {s:#b}"), || eq("iter()", drive(Interval::closed(a, b).iter(), s, 256)?, (a..=b).collect()));
        }
    }
    "all intervals over finite types with 1, 2 and 6 values, under all front/back schedules; u8 extremes"
}
fn i06(c: &Ctx) -> &'static str {
    fn go<T: Dom>(c: &Ctx) {
        let p = T::points();
        for (n, i) in ctor_all::<T>() {
            c.case(true, || format!("{n} over {} points", p.len()), || {
                let b = iv_bits(&i);
                let lo = b.iter().position(|x| *x).map(|k| p[k].clone());
                let hi = b.iter().rposition(|x| *x).map(|k| p[k].clone());
                eq("infimum", i.infimum(), lo.clone())?;
                eq("supremum", i.supremum(), hi.clone())?;
                eq("lower_bound", i.lower_bound(), lo.clone().map(Bound::Include))?;
                eq("upper_bound", i.upper_bound(), hi.clone().map(Bound::Include))?;
                let k = b.iter().filter(|x| **x).count();
                eq("is_empty", i.is_empty(), k == 0)?;
                eq("into_non_empty", i.clone().into_non_empty(), if k == 0 { None } else { Some(i.clone()) })?;
                eq("is_degenerate", i.is_degenerate(), k == 1)?;
                eq("is_proper", i.is_proper(), k > 1)?;
                eq("is_closed", i.is_closed(), true)?;
                eq("is_open", i.is_open(), k == 0)?;
                eq("is_half_closed", i.is_half_closed(), false)?;
                eq("left/right closed", (i.is_left_closed(), i.is_right_closed()), (k > 0, k > 0))?;
                eq("left/right/half open", (i.is_left_open(), i.is_right_open(), i.is_half_open()), (false, false, false))?;
                eq("bounded", (i.is_bounded(), i.is_left_bounded(), i.is_right_bounded(), i.is_half_bounded()), (true, true, true, false))
            });
        }
    }
    go::<D<1>>(c); go::<D<2>>(c); go::<D<5>>(c);
    for a in 0..12u8 { for b in 0..12u8 {
        let i = Interval::closed(a, b);
        c.case(true, || format!("size of {i:?}"), || eq("size", i.size(), if a <= b { Some(b - a) } else { None }));
    } }
    "all constructor results over finite types with 1, 2 and 5 values; sizes of closed intervals of u8"
}

// --------------------------------------------------------------- tine trees
fn t_states(c: &Ctx) -> Vec<Bits> {
    let n = grid().len();
    let _ = c;
    (0..1u32 << n).map(|k| num_bits(k, n)).collect()
}
/// The tree is the canonical tree of `bits`: same listing, same value as one
/// built from scratch, and no bound is redundant.
fn tree_is(t: &TineTree<i32>, bits: &[bool]) -> R {
    let g = grid();
    let l: Vec<_> = t.interval_iter().collect();
    eq("points", raws_bits(&l, &g), bits.to_vec())?;
    for x in &g { eq(&format!("contains({x})"), t.contains(x), bits[(*x + 1) as usize])?; }
    eq("maximal intervals", l, dense_maximal(bits))?;
    if *t != tree_of(bits) { return Err(format!("{t:?} differs from the canonical tree {:?}", tree_of(bits))); }
    Ok(())
}
fn t_inplace(c: &Ctx, op: usize) -> &'static str {
    let g = grid();
    let raws = raw_all(&END);
    let f = |x: bool, y: bool| match op { 0 => x || y, 1 => x && y, _ => x && !y };
    let sts = t_states(c);
    let trees: Vec<TineTree<i32>> = sts.iter().map(|b| tree_of(b)).collect();
    for (bits, t) in sts.iter().zip(&trees) {
        for r in &raws {
            c.case(bits.contains(&true) && !r.is_empty(), || format!("tree of {:?}, in place with {r:?}", dense_maximal(bits)), || {
                let mut t = t.clone();
                match op { 0 => t.union_in_place(r), 1 => t.intersect_in_place(r), _ => t.minus_in_place(r) }
                tree_is(&t, &zip2(bits, &raw_bits(r, &g), f))
            });
            if c.done() { return ""; }
        }
    }
    let step = if c.thorough { 1 } else { 5 };
    let off = (c.seed as usize) % step;
    for (i, (x, t)) in sts.iter().zip(&trees).enumerate() { for (j, (y, u)) in sts.iter().zip(&trees).enumerate() {
        if (i + j) % step != off { continue; }
        c.case(i != j, || format!("trees of {:?} and {:?}", dense_maximal(x), dense_maximal(y)), || {
            let r = match op { 0 => t.union(u), 1 => t.intersect(u), _ => t.minus(u) };
            let want = zip2(x, y, f);
            if r != trees[want.iter().rev().fold(0, |a, b| a * 2 + *b as usize)] { tree_is(&r, &want)?; return Err(format!("{r:?} not canonical")); }
            Ok(())
        });
        if c.done() { return ""; }
    } }
    "all 512 sets over 4 end points x 46 raw intervals in place, and pairs of such sets (quick: a fifth of them) by reference; 9 grid points"
}
fn t04(c: &Ctx) -> &'static str {
    for bits in t_states(c) {
        let t = tree_of(&bits);
        c.case(true, || format!("complement of {:?}", dense_maximal(&bits)), || {
            tree_is(&t.complement(), &bits.iter().map(|x| !x).collect::<Vec<_>>())?;
            eq("double complement", t.complement().complement(), t.clone())
        });
    }
    "all 512 sets over 4 end points"
}
fn t05(c: &Ctx) -> &'static str {
    // Canonical whatever the history: shuffled unions of arbitrary pieces.
    let raws = raw_all(&END);
    let g = grid();
    let mut x = c.seed | 1;
    let mut rnd = |n: usize| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 11) as usize % n };
    let rounds = if c.thorough { 60000 } else { 6000 };
    for _ in 0..rounds {
        let mut hist = vec![];
        let mut t = TineTree::new();
        let mut bits = vec![false; g.len()];
        for _ in 0..6 {
            let r = raws[rnd(raws.len())];
            let op = [0, 0, 1, 2, 2][rnd(5)];
            hist.push((op, r));
            let rb = raw_bits(&r, &g);
            bits = zip2(&bits, &rb, |p, q| match op { 0 => p || q, 1 => p && q, _ => p && !q });
            if rnd(5) == 0 { hist.push((3, r)); for b in &mut bits { *b = !*b; } }
        }
        c.case(true, || format!("history (0 union, 1 intersect, 2 minus, 3 complement) {hist:?}"), || {
            for (op, r) in &hist {
                match op { 0 => t.union_in_place(r), 1 => t.intersect_in_place(r), 2 => t.minus_in_place(r), _ => t = t.complement() }
            }
            tree_is(&t, &bits)
        });
        if c.done() { break; }
    }
    for bits in t_states(c) {
        let l = dense_maximal(&bits);
        c.case(l.len() > 1, || format!("collect {l:?} forwards and backwards"), || {
            let a: TineTree<i32> = l.iter().cloned().collect();
            let b: TineTree<i32> = l.iter().rev().cloned().collect();
            let d = TineTree::from(l.iter().rev().cloned());
            eq("order of collection", a.clone(), b)?;
            eq("From<iterator>", a.clone(), d)?;
            tree_is(&a, &bits)?;
            same(&a, &a.complement().complement(), true)?;
            same(&a, &a.complement(), false)
        });
    }
    let few: Vec<(Bits, TineTree<i32>)> = t_states(c).into_iter().step_by(7).map(|b| { let t = tree_of(&b); (b, t) }).collect();
    for (x, t) in &few { for (y, u) in &few {
        c.case(x != y, || format!("trees {:?} and {:?}", dense_maximal(x), dense_maximal(y)), || same(t, u, x == y));
    } }
    "random histories of 6 in-place operations with complements over 4 end points; all 512 sets collected in both orders"
}
fn t06(c: &Ctx) -> &'static str {
    for bits in t_states(c) {
        let t = tree_of(&bits);
        let want = dense_maximal(&bits);
        c.case(want.len() > 1, || format!("intervals of {want:?}"), || {
            whole("interval_iter()", || t.interval_iter(), &want)?;
            whole("into_iter()", || t.clone().into_iter(), &want)
        });
        for s in scheds(want.len(), c) {
            c.case(want.len() > 1, || format!("intervals of {want:?}, schedule {s:#b}"), || {
                eq("interval_iter()", drive(t.interval_iter(), s, want.len())?, want.clone())?;
                eq("into_iter()", drive(t.clone().into_iter(), s, want.len())?, want.clone())
            });
            if c.done() { return ""; }
        }
    }
    "all 512 sets over 4 end points, under all front/back schedules of up to 7 steps"
}
fn t07(c: &Ctx) -> &'static str {
    let g = grid();
    for bits in t_states(c) {
        let l = dense_maximal(&bits);
        let t = tree_of(&bits);
        c.case(!l.is_empty(), || format!("tree of {l:?}"), || {
            for (x, b) in g.iter().zip(&bits) { eq(&format!("contains({x})"), t.contains(x), *b)?; }
            eq("is_empty", t.is_empty(), !bits.contains(&true))?;
            eq("is_full", t.is_full(), !bits.contains(&false))?;
            eq("lower_bound", t.lower_bound(), l.first().and_then(|i| i.lower_bound()))?;
            eq("upper_bound", t.upper_bound(), l.last().and_then(|i| i.upper_bound()))?;
            let hull: Bits = (0..g.len()).map(|k| bits[..=k].contains(&true) && bits[k..].contains(&true)).collect();
            let e = t.enclose();
            eq("enclose", vec![e.clone()], if l.is_empty() { vec![RawInterval::Empty] } else { dense_maximal(&hull) })?;
            eq("closure", t.closure(), e.closure())
        });
    }
    for r in raw_all(&END) {
        c.case(true, || format!("tree from {r:?}"), || {
            tree_is(&TineTree::from_raw_interval(r), &raw_bits(&r, &g))?;
            tree_is(&TineTree::from(r), &raw_bits(&r, &g))
        });
    }
    "all 512 sets over 4 end points"
}

// --------------------------------------------------------------- selections
fn s_states<T: Dom>() -> Vec<(Bits, Selection<T>)> {
    let n = T::points().len();
    (0..1u32 << n).map(|k| { let b = num_bits(k, n); let s = sel_of::<T>(&b); (b, s) }).collect()
}
fn sel_is<T: Dom>(s: &Selection<T>, bits: &[bool]) -> R {
    eq("points", sel_bits(s), bits.to_vec())
}
fn idx(b: &[bool]) -> usize { b.iter().rev().fold(0, |a, b| a * 2 + *b as usize) }
fn s_op(c: &Ctx, op: usize) -> &'static str {
    fn go<T: Dom>(c: &Ctx, op: usize) {
        let f = |x: bool, y: bool| match op { 0 => x || y, 1 => x && y, _ => x && !y };
        let st = s_states::<T>();
        for (x, s) in &st {
            for (i, y) in ivs_all::<T>() {
                c.case(x.contains(&true) && y.contains(&true), || format!("selection {:?}, in place with {i:?}", iv_list::<T>(x)), || {
                    let mut s = s.clone();
                    match op { 0 => s.union_in_place(i.clone()), 1 => s.intersect_in_place(i.clone()), _ => s.minus_in_place(i.clone()) }
                    sel_is(&s, &zip2(x, &y, f))
                });
                if c.done() { return; }
            }
            for (y, u) in &st {
                c.case(x != y, || format!("selections {:?} and {:?}", iv_list::<T>(x), iv_list::<T>(y)), || {
                    let r = match op { 0 => s.union(u), 1 => s.intersect(u), _ => s.minus(u) };
                    let want = zip2(x, y, f);
                    sel_is(&r, &want)?;
                    if op == 1 { eq("intersects", s.intersects(u), want.contains(&true))?; }
                    Ok(())
                });
                if c.done() { return; }
                // Operands with a history: differences and complements.
                c.case(x != y, || format!("complement of {:?} with a difference giving {:?}", iv_list::<T>(&x.iter().map(|b| !b).collect::<Vec<_>>()), iv_list::<T>(y)), || {
                    let s = s_states_complement(x);
                    let mut u = Selection::full();
                    for (s0, e0) in runs(&y.iter().map(|b| !b).collect::<Vec<_>>()) { u.minus_in_place(Interval(s0, e0, &T::points())); }
                    let r = match op { 0 => s.union(&u), 1 => s.intersect(&u), _ => s.minus(&u) };
                    sel_is(&r, &zip2(x, y, f))
                });
                if c.done() { return; }
            }
        }
        // collect / extend
        if op == 0 {
            let iv = ivs_all::<T>();
            for (a, x) in &iv { for (b, y) in &iv {
                c.case(a != b, || format!("collect/extend {a:?}, {b:?}"), || {
                    let s: Selection<T> = vec![a.clone(), b.clone()].into_iter().collect();
                    let want = zip2(x, y, |p, q| p || q);
                    sel_is(&s, &want)?;
                    let mut e = Selection::from(a.clone());
                    sel_is(&e, x)?;
                    e.extend(vec![b.clone()]);
                    sel_is(&e, &want)?;
                    let q: Selection<T> = a.iter().chain(b.iter()).collect();
                    sel_is(&q, &want)
                });
                if c.done() { return; }
            } }
        }
    }
    go::<D<1>>(c, op); go::<D<2>>(c, op); go::<D<5>>(c, op);
    if c.thorough { go::<D<7>>(c, op); }
    "all selections over finite types with 1, 2 and 5 values (thorough: 7) against all intervals in place and all selections by reference; non-trivial: operands differ"
}
fn s_states_complement<T: Dom>(x: &[bool]) -> Selection<T> {
    sel_of::<T>(&x.iter().map(|b| !b).collect::<Vec<_>>()).complement()
}
fn s04(c: &Ctx) -> &'static str {
    fn go<T: Dom>(c: &Ctx) {
        for (x, s) in s_states::<T>() {
            let y: Bits = x.iter().map(|b| !b).collect();
            c.case(true, || format!("complement of {:?} over {} points", iv_list::<T>(&x), x.len()), || {
                sel_is(&s.complement(), &y)?;
                eq("double complement", s.complement().complement(), s.clone())?;
                sel_is(&s.union(&s.complement()), &vec![true; x.len()])?;
                eq("disjoint", s.intersects(&s.complement()), false)
            });
        }
    }
    go::<D<1>>(c); go::<D<2>>(c); go::<D<8>>(c);
    "all selections over finite types with 1, 2 and 8 values"
}
fn canon<T: Dom>(s: &Selection<T>, all: &[(Bits, Selection<T>)]) -> R {
    let b = sel_bits(s);
    let k = &all[idx(&b)].1;
    use std::collections::hash_map::DefaultHasher;
    use std::hash::{Hash, Hasher};
    let h = |x: &Selection<T>| { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() };
    if s != k { return Err(format!("{s:?} holds the same points as {k:?} but is not equal to it")); }
    eq("hash", h(s), h(k))?;
    eq("is_empty", s.is_empty(), !b.contains(&true))?;
    eq("is_full", s.is_full(), !b.contains(&false))
}
fn s05(c: &Ctx) -> &'static str {
    fn go<T: Dom>(c: &Ctx) {
        let st = s_states::<T>();
        let iv = ivs_all::<T>();
        c.case(true, || "new/empty/default/full".into(), || {
            for s in [Selection::<T>::new(), Selection::empty(), Selection::default()] { sel_is(&s, &vec![false; st[0].0.len()])?; canon(&s, &st)?; }
            sel_is(&Selection::<T>::full(), &vec![true; st[0].0.len()])?;
            canon(&Selection::<T>::full(), &st)
        });
        for (x, s) in &st {
            c.case(true, || format!("selection {:?}", iv_list::<T>(x)), || {
                sel_is(s, x)?;
                canon(s, &st)?;
                let l: Selection<T> = iv_list::<T>(x).into_iter().collect();
                eq("collected intervals", &l, s)?;
                canon(&s.complement(), &st)
            });
            for (i, _) in &iv {
                c.case(true, || format!("selection {:?}, in place with {i:?}", iv_list::<T>(x)), || {
                    let mut a = s.clone(); a.union_in_place(i.clone()); canon(&a, &st)?;
                    let mut a = s.clone(); a.intersect_in_place(i.clone()); canon(&a, &st)?;
                    let mut a = s.clone(); a.minus_in_place(i.clone()); canon(&a, &st)
                });
                if c.done() { return; }
            }
            for (y, u) in &st {
                c.case(x != y, || format!("selections {:?} and {:?}", iv_list::<T>(x), iv_list::<T>(y)), || {
                    same(s, u, x == y)?;
                    canon(&s.union(u), &st)?;
                    canon(&s.intersect(u), &st)?;
                    canon(&s.minus(u), &st)
                });
                if c.done() { return; }
            }
        }
        for (i, _) in &iv { c.case(true, || format!("Selection::from({i:?})"), || canon(&Selection::from(i.clone()), &st)); }
    }
    go::<D<1>>(c); go::<D<2>>(c); go::<D<5>>(c);
    if c.thorough { go::<D<7>>(c); }
    "all selections over finite types with 1, 2 and 5 values (thorough: 7) after every operation, compared with the selection collected point by point"
}
fn s06(c: &Ctx) -> &'static str {
    fn go<T: Dom>(c: &Ctx) {
        for (x, s) in s_states::<T>() {
            let want = iv_list::<T>(&x);
            let alt = s_states_complement::<T>(&x);
            c.case(want.len() > 1, || format!("intervals of {want:?}"), || {
                whole("interval_iter()", || s.interval_iter(), &want)?;
                whole("into_interval_iter()", || s.clone().into_interval_iter(), &want)
            });
            for k in scheds(want.len(), c) {
                c.case(want.len() > 1, || format!("intervals of {want:?}, schedule {k:#b}"), || {
                    eq("interval_iter()", drive(s.interval_iter(), k, want.len())?, want.clone())?;
                    eq("into_interval_iter()", drive(s.clone().into_interval_iter(), k, want.len())?, want.clone())?;
                    eq("interval_iter() of a complement", drive(alt.interval_iter(), k, want.len())?, want.clone())
                });
                if c.done() { return; }
            }
        }
    }
    go::<D<1>>(c); go::<D<2>>(c); go::<D<8>>(c);
    "all selections over finite types with 1, 2 and 8 values under all front/back schedules of up to 7 steps"
}
fn s07(c: &Ctx) -> &'static str {
    fn go<T: Dom>(c: &Ctx) {
        for (x, s) in s_states::<T>() {
            let want: Vec<T> = T::points().into_iter().zip(&x).filter(|(_, b)| **b).map(|(p, _)| p).collect();
            c.case(want.len() > 1, || format!("points of {:?}", iv_list::<T>(&x)), || {
                whole("iter()", || s.iter(), &want)?;
                whole("into_iter()", || s.clone().into_iter(), &want)
            });
            for k in scheds(want.len(), c) {
                c.case(want.len() > 1, || format!("points of {:?}, schedule {k:#b}", iv_list::<T>(&x)), || {
                    eq("iter()", drive(s.iter(), k, want.len())?, want.clone())?;
                    eq("into_iter()", drive(s.clone().into_iter(), k, want.len())?, want.clone())?;
                    eq("(&s).into_iter()", drive((&s).into_iter(), k, want.len())?, want.clone())
                });
                if c.done() { return; }
            }
        }
    }
    go::<D<1>>(c); go::<D<2>>(c); go::<D<6>>(c);
    "all selections over finite types with 1, 2 and 6 values under all front/back schedules"
}
fn s08(c: &Ctx) -> &'static str {
    fn go<T: Dom>(c: &Ctx) {
        for (x, s) in s_states::<T>() {
            let l = iv_list::<T>(&x);
            let p = T::points();
            c.case(!l.is_empty(), || format!("selection {l:?} over {} points", x.len()), || {
                eq("lower_bound", s.lower_bound(), l.first().and_then(|i| i.lower_bound()))?;
                eq("upper_bound", s.upper_bound(), l.last().and_then(|i| i.upper_bound()))?;
                let hull = match (x.iter().position(|b| *b), x.iter().rposition(|b| *b)) {
                    (Some(a), Some(b)) => Interval(a, b, &p), _ => Interval::empty(),
                };
                eq("enclose", s.enclose(), hull.clone())?;
                eq("closure", s.closure(), hull)?;
                eq("bounded", (s.is_bounded(), s.is_left_bounded(), s.is_right_bounded(), s.is_half_bounded()), (true, true, true, false))?;
                let alt = s_states_complement::<T>(&x);
                eq("infimum depends on points only", alt.infimum(), s.infimum())?;
                eq("supremum depends on points only", alt.supremum(), s.supremum())
            });
        }
    }
    go::<D<1>>(c); go::<D<2>>(c); go::<D<8>>(c);
    "all selections over finite types with 1, 2 and 8 values"
}
fn p01(c: &Ctx) -> &'static str {
    // No operation panics, at the extremes of a real integer type.
    let v: Vec<i8> = vec![-128, -127, -126, -1, 0, 1, 126, 127];
    let mut ivs = vec![Interval::empty()];
    for a in &v { for b in &v { if a <= b { ivs.push(Interval::closed(*a, *b)); } } }
    for a in &ivs { for b in &ivs {
        c.case(true, || format!("{a:?} with {b:?}"), || {
            let x = Selection::from(*a);
            let y = Selection::from(*b);
            for s in [x.union(&y), x.minus(&y), x.intersect(&y), x.complement(), y.complement().minus(&x)] {
                let _ = (s.lower_bound(), s.upper_bound(), s.enclose(), s.closure(), s.infimum(), s.supremum(), s.is_bounded());
                let n = s.interval_iter().count();
                eq("reverse count", s.interval_iter().rev().count(), n)?;
                let mut t = s.clone();
                t.minus_in_place(*a); t.intersect_in_place(*b); t.union_in_place(*a); t = t.complement();
                let k = (-128..=127i8).filter(|p| t.contains(p)).count();
                eq("points", t.iter().count(), k)?;
                eq("points reversed", t.iter().rev().count(), k)?;
            }
            Ok(())
        });
        if c.done() { return ""; }
    } }
    "all pairs of i8 intervals with extreme end points through every selection operation"
}
