//! Failing-input search and replay against the real crate.
//!
//! `replay <property-id> <seed> <tier>` evaluates the property's oracle on the
//! real code of /repo over a stated finite family of inputs and prints one JSON
//! object. It never decides that a property holds: it only looks for concrete
//! failing inputs.
mod dom;
mod props;
mod wide;

use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Ctx {
    pub evals: Cell<u64>,
    pub nontrivial: Cell<u64>,
    pub samples: RefCell<Vec<String>>,
    pub fail: RefCell<Vec<String>>,
    pub seed: u64,
    pub thorough: bool,
    pub max_fail: usize,
}
impl Ctx {
    /// Evaluates one case. `desc` describes the input; `f` returns Err on a
    /// mismatch. A panic of the code under test is a failure too.
    pub fn case(&self, nontrivial: bool, desc: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        if self.fail.borrow().len() >= self.max_fail { return; }
        let n = self.evals.get() + 1;
        self.evals.set(n);
        if nontrivial { self.nontrivial.set(self.nontrivial.get() + 1); }
        if n.is_power_of_two() && self.samples.borrow().len() < 12 {
            self.samples.borrow_mut().push(desc());
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let msg = match r {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(p) => format!("panicked: {}", p.downcast_ref::<String>().cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        };
        self.fail.borrow_mut().push(format!("{} => {}", desc(), msg));
    }
    pub fn done(&self) -> bool { self.fail.borrow().len() >= self.max_fail }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '), c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    let seed = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = a.get(3).map_or(false, |s| s == "thorough");
    let max_fail = a.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
    std::panic::set_hook(Box::new(|_| {}));
    let ids: Vec<String> = if id == "all" { props::ids() } else { vec![id] };
    for id in ids {
        let c = Ctx { evals: Cell::new(0), nontrivial: Cell::new(0), samples: RefCell::new(vec![]),
            fail: RefCell::new(vec![]), seed, thorough, max_fail };
        let rule = match catch_unwind(AssertUnwindSafe(|| { let r = props::run(&id, &c); if thorough && !c.done() { wide::run(&id, &c); } r })) {
            Ok(Some(r)) => r,
            Ok(None) => { eprintln!("unknown property {id}"); std::process::exit(2); }
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                c.fail.borrow_mut().push(format!("panicked while preparing inputs: {m}"));
                "input preparation panicked"
            }
        };
        let s: Vec<String> = c.samples.borrow().iter().map(|s| esc(s)).collect();
        let f: Vec<String> = c.fail.borrow().iter().map(|s| esc(s)).collect();
        println!("{{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"failures\":[{}]}}",
            esc(&id), c.evals.get(), c.nontrivial.get(), esc(&format!("{rule}{}", if thorough { wide::rule(&id) } else { "" })), s.join(","), f.join(","));
    }
}
