//! replay HARNESS FILE: runs the harness natively on the values of a solver model (one value per
//! line, its bytes in decimal).  Exit: 0 no violation, 3 values do not fit, otherwise (a panic,
//! a signal, a sanitizer report) the violation reproduced.
fn main() {
    #[cfg(not(kani))]
    {
        let a: Vec<String> = std::env::args().collect();
        let text = std::fs::read_to_string(&a[2]).expect("values file");
        let vals = text
            .lines()
            .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
            .map(|l| l.split_whitespace().map(|b| b.parse().expect("byte")).collect())
            .collect();
        let all = vharness::all();
        let (_, f) = all
            .iter()
            .find(|(n, _)| n.strip_prefix("vharness::").unwrap_or(n) == a[1])
            .expect("harness");
        vharness::nd::load(vals);
        f();
        println!("REPLAY-CLEAN {}", a[1]);
    }
}
