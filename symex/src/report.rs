//! What a check did and found; written as JSON for the driver.
use crate::smt;
use std::fmt::Write;

/// What is being checked, for panics that end the process (worker threads abort on panic).
pub static NOW: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub fn now(s: &str) {
    if let Ok(mut g) = NOW.lock() {
        *g = s.into();
    }
}
pub fn install_hook(out: Option<String>) {
    let trace = std::env::var("SYMEX_TRACE").is_ok();
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let what = NOW.try_lock().map(|g| g.clone()).unwrap_or_default();
        if let Some(o) = &out {
            let _ = std::fs::write(format!("{}.panic", o), format!("{{\"label\":{},\"msg\":{},\"at\":{}}}", js(&what), js(&m), js(&at)));
        }
        if trace {
            prev(i);
        }
    }));
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => {}
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
#[derive(Default)]
pub struct Report {
    pub prop: String,
    pub functions: Vec<String>,
    pub bounds: Vec<String>,
    pub assumptions: Vec<String>,
    /// (key, description, replay text)
    pub violations: Vec<(String, String, String)>,
    pub errors: Vec<String>,
    pub obligations: u64,
    pub discharged: u64,
    pub paths: u64,
    pub replays: u64,
    pub witnesses: u64,
    pub samples: Vec<String>,
}
impl Report {
    pub fn new(prop: &str) -> Report {
        Report { prop: prop.into(), ..Default::default() }
    }
    pub fn thorough() -> bool {
        std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
    }
    pub fn func(&mut self, f: &str) {
        self.functions.push(f.into());
    }
    pub fn bound(&mut self, f: &str) {
        self.bounds.push(f.into());
    }
    pub fn assume(&mut self, f: &str) {
        self.assumptions.push(f.into());
    }
    pub fn ok(&mut self) {
        self.obligations += 1;
        self.discharged += 1;
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 6 {
            self.samples.push(s);
        }
    }
    pub fn violation(&mut self, key: &str, desc: &str, replay: &str) {
        self.obligations += 1;
        if self.violations.len() < 20 {
            eprintln!("violation {}: {}", key, desc);
            self.violations.push((key.into(), desc.into(), replay.into()));
        }
    }
    pub fn error(&mut self, e: &str) {
        self.obligations += 1;
        if self.errors.len() < 20 {
            eprintln!("error: {}", e);
            self.errors.push(e.into());
        }
    }
    /// Require a concrete-on-this-path fact.
    pub fn require(&mut self, ok: bool, key: &str, desc: impl FnOnce() -> String) {
        if ok {
            self.ok();
        } else {
            let d = desc();
            self.violation(key, &d, &d);
        }
    }
    pub fn json(&self) -> String {
        use std::sync::atomic::Ordering::SeqCst;
        let arr = |v: &Vec<String>| format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        let mut o = String::from("{");
        write!(o, "\"property\":{},", js(&self.prop)).unwrap();
        write!(o, "\"functions\":{},\"bounds\":{},\"assumptions\":{},", arr(&self.functions), arr(&self.bounds), arr(&self.assumptions)).unwrap();
        write!(o, "\"errors\":{},", arr(&self.errors)).unwrap();
        write!(o, "\"obligations\":{},\"discharged\":{},\"paths\":{},\"replays\":{},\"witnesses\":{},", self.obligations, self.discharged, self.paths, self.replays, self.witnesses).unwrap();
        write!(o, "\"queries\":{},\"unsat\":{},\"sat\":{},\"solver_s\":{:.3},\"query_bytes\":{},", smt::QUERIES.load(SeqCst), smt::UNSAT.load(SeqCst), smt::SAT.load(SeqCst), smt::SOLVER_US.load(SeqCst) as f64 / 1e6, smt::BYTES.load(SeqCst)).unwrap();
        let labels: Vec<String> = smt::LABELS.lock().unwrap().iter().take(200).map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        write!(o, "\"labels\":{{{}}},", labels.join(",")).unwrap();
        let mut s = self.samples.clone();
        s.extend(smt::SAMPLES.lock().unwrap().iter().cloned());
        write!(o, "\"samples\":{},", arr(&s)).unwrap();
        let v: Vec<String> = self.violations.iter().map(|(k, d, r)| format!("{{\"key\":{},\"desc\":{},\"replay\":{}}}", js(k), js(d), js(r))).collect();
        write!(o, "\"violations\":[{}]}}", v.join(",")).unwrap();
        o
    }
}
