//! SMT-LIB back end: runs z3 / cvc5 as sub-processes on generated queries.
use std::collections::BTreeMap;
use std::io::Write;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Unsat,
    /// values of the requested symbols (decimal or true/false)
    Sat(BTreeMap<String, String>),
    Unknown(String),
}

pub static QUERIES: AtomicU64 = AtomicU64::new(0);
pub static UNSAT: AtomicU64 = AtomicU64::new(0);
pub static SAT: AtomicU64 = AtomicU64::new(0);
pub static SOLVER_US: AtomicU64 = AtomicU64::new(0);
pub static BYTES: AtomicU64 = AtomicU64::new(0);
pub static SAMPLES: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub static LABELS: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());

pub fn timeout() -> Duration {
    let s = if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { 900 } else { 240 };
    Duration::from_secs(s)
}

fn spawn(cmd: &str, args: &[&str], file: &str) -> Option<Child> {
    Command::new(cmd).args(args).arg(file).stdout(Stdio::piped()).stderr(Stdio::null()).stdin(Stdio::null()).spawn().ok()
}

fn parse_num(t: &str) -> String {
    if let Some(h) = t.strip_prefix("#x") {
        return from_radix(h, 16);
    }
    if let Some(b) = t.strip_prefix("#b") {
        return from_radix(b, 2);
    }
    t.to_string()
}
fn from_radix(s: &str, r: u32) -> String {
    // decimal digits, little endian
    let mut d: Vec<u32> = vec![0];
    for ch in s.chars() {
        let mut c = ch.to_digit(r).unwrap_or(0);
        for x in d.iter_mut() {
            let v = *x * r + c;
            *x = v % 10;
            c = v / 10;
        }
        while c > 0 {
            d.push(c % 10);
            c /= 10;
        }
    }
    d.iter().rev().map(|x| char::from_digit(*x, 10).unwrap()).collect()
}

/// Parses `((name value) (name value) ...)`.
fn parse_model(s: &str) -> BTreeMap<String, String> {
    let mut toks = Vec::new();
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '(' | ')' => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
                toks.push(c.to_string());
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    let mut m = BTreeMap::new();
    let mut i = 1;
    while i + 2 < toks.len() {
        if toks[i] == "(" {
            let name = toks[i + 1].clone();
            if toks[i + 2] == "(" {
                // (- 5) or (_ bv5 8)
                if toks[i + 3] == "-" {
                    m.insert(name, format!("-{}", toks[i + 4]));
                    i += 7;
                } else {
                    m.insert(name, toks[i + 4].trim_start_matches("bv").to_string());
                    i += 8;
                }
            } else {
                m.insert(name, parse_num(&toks[i + 2]));
                i += 4;
            }
        } else {
            break;
        }
    }
    m
}

static CTR: AtomicU64 = AtomicU64::new(0);

pub struct Query {
    pub label: String,
    pub body: String,
    pub want: Vec<String>,
}
impl Query {
    pub fn new(label: &str) -> Query {
        Query { label: label.into(), body: String::new(), want: vec![] }
    }
    pub fn line(&mut self, s: &str) {
        self.body.push_str(s);
        self.body.push('\n');
    }
    pub fn solve(&self) -> Res {
        self.solve_with(&["z3-new", "cvc5"])
    }
    pub fn solve_with(&self, solvers: &[&str]) -> Res {
        let dir = std::env::temp_dir().join(format!("symex-q-{}", std::process::id()));
        let _ = std::fs::create_dir_all(&dir);
        let n = CTR.fetch_add(1, Ordering::SeqCst);
        let file = dir.join(format!("q{}.smt2", n));
        let mut text = String::from("(set-option :produce-models true)\n(set-logic ALL)\n");
        text.push_str(&self.body);
        text.push_str("(check-sat)\n");
        if !self.want.is_empty() {
            text.push_str("(get-value (");
            text.push_str(&self.want.join(" "));
            text.push_str("))\n");
        }
        QUERIES.fetch_add(1, Ordering::SeqCst);
        BYTES.fetch_add(text.len() as u64, Ordering::SeqCst);
        *LABELS.lock().unwrap().entry(self.label.clone()).or_insert(0) += 1;
        {
            let mut s = SAMPLES.lock().unwrap();
            if s.len() < 3 {
                let mut t: String = text.chars().take(1200).collect();
                if t.len() < text.len() {
                    t.push_str(" ...");
                }
                s.push(format!("; {}\n{}", self.label, t));
            }
        }
        let t0 = Instant::now();
        if text.len() < 200_000 && solvers[0] == "z3-new" {
            if let Some(r) = quick(&text) {
                SOLVER_US.fetch_add(t0.elapsed().as_micros() as u64, Ordering::SeqCst);
                match &r {
                    Res::Unsat => UNSAT.fetch_add(1, Ordering::SeqCst),
                    Res::Sat(_) => SAT.fetch_add(1, Ordering::SeqCst),
                    _ => 0,
                };
                return r;
            }
        }
        std::fs::File::create(&file).and_then(|mut f| f.write_all(text.as_bytes())).expect("write query");
        let f = file.to_str().unwrap();
        let mut kids: Vec<(String, Child)> = Vec::new();
        let r = self.race(solvers, f, t0, &mut kids);
        for (_, k) in kids.iter_mut() {
            let _ = k.kill();
            let _ = k.wait();
        }
        SOLVER_US.fetch_add(t0.elapsed().as_micros() as u64, Ordering::SeqCst);
        match &r {
            Res::Unsat => UNSAT.fetch_add(1, Ordering::SeqCst),
            Res::Sat(_) => SAT.fetch_add(1, Ordering::SeqCst),
            _ => 0,
        };
        if std::env::var("SYMEX_KEEP").is_err() {
            let _ = std::fs::remove_file(&file);
        }
        r
    }
    fn race(&self, solvers: &[&str], f: &str, t0: Instant, kids: &mut Vec<(String, Child)>) -> Res {
        let to = timeout();
        let mut next = 0;
        let mut why = String::new();
        // start the first solver alone; bring in the others if it is slow
        loop {
            let due = match next {
                0 => true,
                1 => t0.elapsed() > Duration::from_millis(1500) || kids.is_empty(),
                _ => t0.elapsed() > Duration::from_millis(5000) || kids.is_empty(),
            };
            if next < solvers.len() && due {
                let s = solvers[next];
                next += 1;
                let k = match s {
                    "cvc5" => spawn("cvc5", &["--lang=smt2"], f),
                    "cvc5-int" => spawn("cvc5", &["--lang=smt2", "--solve-bv-as-int=sum"], f),
                    s => spawn(s, &["-smt2"], f),
                };
                if let Some(k) = k {
                    kids.push((s.to_string(), k));
                }
            }
            let mut i = 0;
            while i < kids.len() {
                match kids[i].1.try_wait() {
                    Ok(Some(_)) => {
                        let (name, k) = kids.remove(i);
                        let out = k.wait_with_output().map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
                        let first = out.lines().next().unwrap_or("").trim().to_string();
                        match first.as_str() {
                            "unsat" => return Res::Unsat,
                            "sat" if !out.contains("(error") => {
                                let rest: String = out.lines().skip(1).collect::<Vec<_>>().join("\n");
                                return Res::Sat(parse_model(&rest));
                            }
                            _ => why.push_str(&format!("{}: {}; ", name, out.chars().take(200).collect::<String>())),
                        }
                    }
                    Ok(None) => i += 1,
                    Err(e) => {
                        why.push_str(&e.to_string());
                        kids.remove(i);
                    }
                }
            }
            if kids.is_empty() && next >= solvers.len() {
                return Res::Unknown(why);
            }
            if t0.elapsed() > to {
                return Res::Unknown(format!("timeout after {:?}; {}", to, why));
            }
            let el = t0.elapsed().as_millis();
            std::thread::sleep(Duration::from_micros(if el < 50 { 500 } else if el < 1000 { 3000 } else { 20000 }));
        }
    }
}
pub fn cleanup() {
    for mut l in POOL.lock().unwrap().drain(..) {
        let _ = l.child.kill();
        let _ = l.child.wait();
    }
    let dir = std::env::temp_dir().join(format!("symex-q-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(dir);
}

/// Interactive solver processes for small queries (start-up dominates otherwise).
struct Live {
    child: Child,
    out: std::io::BufReader<std::process::ChildStdout>,
}
static POOL: Mutex<Vec<Live>> = Mutex::new(Vec::new());
fn quick(text: &str) -> Option<Res> {
    use std::io::BufRead;
    let l = POOL.lock().unwrap().pop();
    let mut l = match l {
        Some(l) => l,
        None => {
            let mut child = Command::new("z3-new").args(["-in", "-smt2", "-t:3000"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
            let out = std::io::BufReader::new(child.stdout.take()?);
            Live { child, out }
        }
    };
    let msg = format!("(reset)\n{}\n(echo \"@@end\")\n", text);
    let w = l.child.stdin.as_mut()?.write_all(msg.as_bytes());
    if w.is_err() {
        let _ = l.child.kill();
        return None;
    }
    let mut lines = vec![];
    loop {
        let mut s = String::new();
        match l.out.read_line(&mut s) {
            Ok(0) | Err(_) => {
                let _ = l.child.kill();
                let _ = l.child.wait();
                return None;
            }
            Ok(_) => {}
        }
        if s.trim() == "@@end" {
            break;
        }
        lines.push(s.trim().to_string());
    }
    POOL.lock().unwrap().push(l);
    match lines.first().map(|s| s.as_str()) {
        Some("unsat") => Some(Res::Unsat),
        Some("sat") if !lines.iter().any(|l| l.contains("(error")) => Some(Res::Sat(parse_model(&lines[1..].join("\n")))),
        _ => None,
    }
}
