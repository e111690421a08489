//! What a monitor observed, and the violations it saw.

use crate::rng::fnv;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone)]
pub struct Viol {
    /// Stable description of what fails, for the known-findings file.
    pub sig: String,
    pub detail: String,
}

pub struct Report {
    pub prop: String,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub viols: Vec<Viol>,
    pub seen: HashSet<String>,
    pub harness_errors: Vec<String>,
}

pub const MAX_VIOLS: usize = 25;

impl Report {
    pub fn new(prop: &str) -> Self {
        Report {
            prop: prop.into(),
            evaluations: 0,
            distinct: HashSet::new(),
            samples: Vec::new(),
            counters: BTreeMap::new(),
            viols: Vec::new(),
            seen: HashSet::new(),
            harness_errors: Vec::new(),
        }
    }
    pub fn count(&mut self, what: &str, n: u64) {
        *self.counters.entry(what.to_string()).or_insert(0) += n;
    }
    /// One case evaluated; `key` tells cases apart, and cases that are not
    /// `nontrivial` are not counted as distinct.
    pub fn case(&mut self, key: &[u8], nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.distinct.insert(fnv(key, 0xcbf2_9ce4_8422_2325));
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 6 {
            let mut s = s();
            if s.len() > 900 {
                let mut n = 900;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    pub fn viol(&mut self, sig: String, detail: String) {
        if self.viols.len() < MAX_VIOLS && self.seen.insert(sig.clone()) {
            self.viols.push(Viol { sig, detail });
        }
    }
    pub fn full(&self) -> bool {
        self.viols.len() >= MAX_VIOLS || !self.harness_errors.is_empty()
    }
    /// Runs `f`, which exercises the code under test; a panic in that code is
    /// a violation.
    pub fn guard<R>(&mut self, what: &dyn Fn() -> String, f: impl FnOnce() -> R) -> Option<R> {
        match caught(f) {
            Ok(r) => Some(r),
            Err((msg, loc)) => {
                self.panicked(what, msg, loc);
                None
            }
        }
    }
    pub fn panicked(&mut self, what: &dyn Fn() -> String, msg: String, loc: String) {
        if msg.starts_with("harness:") || (loc.contains("/verif/mon/") && !msg.starts_with("runaway")) {
            self.harness_errors.push(format!("{msg} at {loc}"));
        } else {
            let w = what();
            self.viol(format!("panic {w}"), format!("{w}: the code under test panicked: {msg} (at {loc})"));
        }
    }
    pub fn json(&self) -> String {
        let mut s = String::from("{");
        s.push_str(&format!("\"property\":{},", js(&self.prop)));
        s.push_str(&format!("\"evaluations\":{},\"distinct\":{},", self.evaluations, self.distinct.len()));
        s.push_str("\"samples\":[");
        s.push_str(&self.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        s.push_str("],\"counters\":{");
        s.push_str(&self.counters.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","));
        s.push_str("},\"violations\":[");
        s.push_str(
            &self
                .viols
                .iter()
                .map(|v| format!("{{\"sig\":{},\"detail\":{}}}", js(&v.sig), js(&v.detail)))
                .collect::<Vec<_>>()
                .join(","),
        );
        s.push_str("],\"harness_errors\":[");
        s.push_str(&self.harness_errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        s.push_str("]}");
        s
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local! {
    static LAST: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = (msg, loc));
    }));
}

pub fn caught<R>(f: impl FnOnce() -> R) -> Result<R, (String, String)> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()))
}
