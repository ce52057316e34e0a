//! replay HARNESS MODEL [ints]: runs a harness natively on the values of MODEL (lines "id value").
use ll_g16::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    for l in std::fs::read_to_string(&a[2]).unwrap().lines() {
        let mut p = l.split_whitespace();
        let (i, v) = (p.next().unwrap(), p.next().unwrap());
        if let (Ok(i), Ok(v)) = (i.parse::<u32>(), v.parse::<u64>()) { ext::set_model(i, v) }
    }
    std::panic::set_hook(Box::new(|i| {
        ext::flush();
        println!("REPLAY panic: {}", i.to_string().replace('\n', " "));
        std::process::exit(if ext::panic_allowed() { 0 } else { 4 });
    }));
    let args: Vec<u64> = a[3..].iter().map(|x| x.parse().unwrap()).collect();
    if !call(&a[1], &args) { println!("REPLAY no such harness"); std::process::exit(5) }
    println!("REPLAY completed");
}
