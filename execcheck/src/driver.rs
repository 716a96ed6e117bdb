// Shared by the program built from the extracted text and the program built from the crate:
// runs the same operations on the same inputs; one line per operation: count and hash of results.
use std::collections::BTreeMap;
pub struct Rec { m: BTreeMap<String, (u64, u64)>, dump: Option<String> }
impl Rec {
    fn add(&mut self, name: &str, key: &dyn Fn() -> String, val: String) {
        if self.dump.as_deref() == Some(name) { println!("{name} {} => {val}", key()); }
        let e = self.m.entry(name.to_string()).or_insert((0, 0xcbf29ce484222325));
        e.0 += 1;
        for b in val.bytes().chain([10u8]) { e.1 = (e.1 ^ b as u64).wrapping_mul(0x100000001b3); }
    }
}
struct Lcg(u64);
impl Lcg { fn next(&mut self, n: usize) -> usize { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((self.0 >> 33) as usize) % n } }
const V: [i8; 8] = [-128, -127, -3, 0, 1, 2, 126, 127];

fn drive_main() {
    let mut r = Rec { m: BTreeMap::new(), dump: std::env::args().nth(1) };
    let mut g = Lcg(1);
    std::panic::set_hook(Box::new(|_| {}));
    // bounds
    let mut bs: Vec<BD> = vec![b_inf()];
    for v in V { bs.push(b_inc(v)); bs.push(b_exc(v)); }
    for a in &bs {
        for (n, f) in U_BD { r.add(n, &|| f_bd(a), f(a)); }
        for b in &bs { for (n, f) in B_BD { r.add(n, &|| format!("{} {}", f_bd(a), f_bd(b)), f(a, b)); } }
    }
    // raw intervals
    let mut raws: Vec<RI> = vec![];
    let mut seen = std::collections::BTreeSet::new();
    let mut put = |x: RI, raws: &mut Vec<RI>| { if seen.insert(f_raw(&x)) { raws.push(x); } };
    for a in &bs { for b in &bs { put(raw_new(c_bd(a), c_bd(b)), &mut raws); } }
    for v in V { put(raw_point(v), &mut raws); for w in V { for (n, f) in V_RAW { let x = f(v, w); r.add(n, &|| format!("{v} {w}"), f_raw(&x)); put(x, &mut raws); } } }
    for a in &raws {
        for (n, f) in U_RAW { r.add(n, &|| f_raw(a), f(a)); }
        for v in V { for (n, f) in P_RAW { r.add(n, &|| format!("{} {v}", f_raw(a)), f(a, v)); } }
        for b in &raws { for (n, f) in B_RAW { r.add(n, &|| format!("{} {}", f_raw(a), f_raw(b)), f(a, b)); } }
    }
    for _ in 0..3000 {
        let k = g.next(6);
        let l: Vec<usize> = (0..k).map(|_| g.next(raws.len())).collect();
        for (n, f) in L_RAW { r.add(n, &|| format!("{:?}", l.iter().map(|i| f_raw(&raws[*i])).collect::<Vec<_>>()), f(l.iter().map(|i| c_raw(&raws[*i])).collect())); }
    }
    // normal intervals
    let mut ivs: Vec<IV> = vec![];
    let mut seen = std::collections::BTreeSet::new();
    for a in &raws { let x = iv_raw(c_raw(a)); if seen.insert(f_iv(&x)) { ivs.push(x); } }
    for v in V { for w in V { for (n, f) in V_IV { r.add(n, &|| format!("{v} {w}"), f(v, w)); } } }
    for a in &bs { for b in &bs { r.add("Interval_new", &|| format!("{} {}", f_bd(a), f_bd(b)), f_iv(&iv_new(c_bd(a), c_bd(b)))); } }
    for a in &ivs {
        for (n, f) in U_IV { r.add(n, &|| f_iv(a), f(a)); }
        for v in V { for (n, f) in P_IV { r.add(n, &|| format!("{} {v}", f_iv(a)), f(a, v)); } }
        for b in &ivs { for (n, f) in B_IV { r.add(n, &|| format!("{} {}", f_iv(a), f_iv(b)), f(a, b)); } }
        for _ in 0..8 { let s = g.next(1 << 20) as u32; for (n, f) in S_IV { r.add(n, &|| format!("{} {s:b}", f_iv(a)), f(a, s)); } }
    }
    for v in i8::MIN..=i8::MAX { for (n, f) in V_ONE { r.add(n, &|| format!("{v}"), f(v)); } }
    // marks
    let mut ts: Vec<TI> = vec![];
    for b in &bs { ts.push(t_lower(c_bd(b))); ts.push(t_upper(c_bd(b))); if f_bd(b) != f_bd(&b_inf()) { ts.push(t_point(c_bd(b))); } }
    for a in &ts {
        for (n, f) in U_TI { r.add(n, &|| f_ti(a), f(a)); }
        for b in &ts {
            for (n, f) in B_TI { r.add(n, &|| format!("{} {}", f_ti(a), f_ti(b)), f(a, b)); }
            if tt_same(a, b) { for (n, f) in M_TI { r.add(n, &|| format!("{} {}", f_ti(a), f_ti(b)), f(a, b)); } }
        }
    }
    // trees and selections
    let mut trees: Vec<TT> = vec![];
    let mut sels: Vec<SEL> = vec![];
    for _ in 0..1500 {
        let mut t = tt_new(); let mut s = sel_new();
        let n = g.next(7);
        let mut log = vec![];
        for _ in 0..n {
            let i = g.next(raws.len()); let o = g.next(I_TT.len());
            let o = if g.next(3) > 0 { 0 } else { o };
            log.push((o, i));
            let (nm, f) = &I_TT[o];
            t = f(t, &raws[i]);
            r.add(nm, &|| format!("{log:?}"), f_tt(&t));
            let j = g.next(ivs.len()); let (nm, f) = &I_SEL[o];
            s = f(s, c_iv(&ivs[j]));
            r.add(nm, &|| format!("{log:?} {j}"), f_sel(&s));
        }
        trees.push(t); sels.push(s);
    }
    for k in 0..trees.len() {
        let (a, b) = (&trees[k], &trees[g.next(trees.len())]);
        for (n, f) in U_TT { r.add(n, &|| f_tt(a), f(a)); }
        for (n, f) in B_TT { r.add(n, &|| format!("{} {}", f_tt(a), f_tt(b)), f(a, b)); }
        for v in V { for (n, f) in P_TT { r.add(n, &|| format!("{} {v}", f_tt(a)), f(a, v)); } }
        for _ in 0..6 { let s = g.next(1 << 20) as u32; for (n, f) in S_TT { r.add(n, &|| format!("{} {s:b}", f_tt(a)), f(a, s)); } }
        let (a, b) = (&sels[k], &sels[g.next(sels.len())]);
        for (n, f) in U_SEL { r.add(n, &|| f_sel(a), f(a)); }
        for (n, f) in B_SEL { r.add(n, &|| format!("{} {}", f_sel(a), f_sel(b)), f(a, b)); }
        for v in V { for (n, f) in P_SEL { r.add(n, &|| format!("{} {v}", f_sel(a)), f(a, v)); } }
        for _ in 0..6 { let s = g.next(1 << 20) as u32; for (n, f) in S_SEL { r.add(n, &|| format!("{} {s:b}", f_sel(a)), f(a, s)); } }
        let l: Vec<i8> = (0..g.next(9)).map(|_| if g.next(2) == 0 { V[g.next(8)] } else { g.next(12) as i8 }).collect();
        for (n, f) in LV_SEL { r.add(n, &|| format!("{l:?}"), f(l.clone())); }
        let l: Vec<usize> = (0..g.next(6)).map(|_| g.next(ivs.len())).collect();
        for (n, f) in L_SEL { r.add(n, &|| format!("{l:?}"), f(l.iter().map(|i| c_iv(&ivs[*i])).collect())); }
    }
    for (n, (c, h)) in &r.m { println!("{n} {c} {h:016x}"); }
}
