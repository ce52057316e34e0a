#![allow(dead_code)]
mod big;
mod eng {
    pub use crate::field::BlsT as FieldCfg;
    include!("engine.rs");
}
/// the same engine over a field that declares two-adicity 3
mod eng3 {
    pub use crate::field::BlsT3 as FieldCfg;
    include!("engine.rs");
}
mod field;
mod gad;
mod groth;
mod poly;
mod props;
mod r1cs;
mod report;
mod smt;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let out = a.get(2).cloned();
    report::install_hook(out.clone());
    let p2 = prop.clone();
    let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut rep = report::Report::new(&p2);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match p2.as_str() {
            "C01" => props::c01::run(&mut rep),
            "C08" => props::c08::run(&mut rep),
            "C02" => props::c02::run(&mut rep),
            "C14" => props::c14::run(&mut rep),
            "C15" => props::c16::run15(&mut rep),
            "C16" => props::c16::run16(&mut rep),
            "C17" => props::c16::run17(&mut rep),
            "C21" => props::g16::run21(&mut rep),
            "C22" => props::g16::run22(&mut rep),
            "C23" => props::g16::run23(&mut rep),
            "C24" => props::g16::run24(&mut rep),
            "C25" => props::g16::run25(&mut rep),
            "C26" => props::g16::run26(&mut rep),
            "C29" => props::g16::run29(&mut rep),
            "C03" => props::c03::run(&mut rep),
            "C05" => props::c05::run(&mut rep),
            "C11" => props::c11::run(&mut rep),
            p => panic!("unknown property {}", p),
        }));
        if let Err(e) = res {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            rep.errors.push(format!("panic: {}", m));
        }
        rep
    });
    let rep = r.unwrap().join().unwrap();
    smt::cleanup();
    let j = rep.json();
    match out {
        Some(f) => std::fs::write(f, &j).unwrap(),
        None => println!("{}", j),
    }
}
