use harness::sys::*;
use harness::*;
fn main() {
    let mut h = Harness::new("a case is a constraint system over at most 7 signals and a field of 3, 5 or 7 elements, with protected signals and simplifier flags; non-trivial when a signal is dropped");
    let log = format!("{}/subs.json", h.scratch);
    while h.time_left() {
        let (s, d) = gen(&mut h.rng);
        h.case("simplifier-witness", d, || { let r = run(&s, &log)?; renumbering(&s, &r) });
    }
    h.finish();
}
