//! underneath SEED CITIES THREADS PART...: the workload of C19 in an interpreter that knows what
//! undefined behaviour is.
#[path = "../../harness/src/workload.rs"]
mod workload;
use workload::*;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = a[0].parse().unwrap();
    let n: usize = a[1].parse().unwrap();
    let threads: usize = a[2].parse().unwrap();
    getrandom::det_seed(seed);
    std::panic::set_hook(Box::new(|_| {}));
    let mut t = Tally::default();
    {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        for (k, p) in a[3..].iter().enumerate() {
            pool.install(|| part(&mut t, seed.wrapping_mul(31).wrapping_add(k as u64), n, p));
        }
    }
    let names: Vec<String> = t.names.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect();
    println!("STRESS {{\"executions\": {}, \"calls\": {}, \"panics\": {}, \"last_panic\": {:?}, \"shapes\": 1, \"names\": {{{}}}}}", a.len() - 3, t.calls, t.panics, t.last_panic, names.join(", "));
}
