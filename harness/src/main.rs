//! Native replay of one solver assignment: `replay <harness> <values.json-ish>`.
//! Values: one line per value, space-separated bytes, on stdin.
#[cfg(not(kani))]
fn main() {
    use std::io::Read;
    let name = std::env::args().nth(1).expect("harness name");
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let vals: Vec<Vec<u8>> = s
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| l.split_whitespace().map(|b| b.parse().unwrap()).collect())
        .collect();
    vp_harness::nd::replay::load(vals);
    match vp_harness::gen::dispatch(&name) {
        Some(f) => {
            f();
            println!("REPLAY completed");
        }
        None => {
            println!("REPLAY unknown harness");
            std::process::exit(79);
        }
    }
}
#[cfg(kani)]
fn main() {}
