//! Small programs over real threads, run under Miri (data races, weak memory, use after free, leaks) or
//! natively under ThreadSanitizer. The monitors compare what came out with what was accepted.

mod progs;
mod rng;

use std::hash::{BuildHasher, Hasher};

/// In one piece, as the interpreter runs several programs at once.
pub fn say(m: String) {
    use std::io::Write;
    let _ = std::io::stderr().write_all(m.as_bytes());
}
/// Reports a deviation, as `VIOLATED: <category>: ...`.
pub fn violated(cat: &str, m: String) -> ! {
    say(format!("VIOLATED: {cat}: {m}\n"));
    std::process::exit(70)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mode = a.get(1).cloned().unwrap_or("pipe".into());
    let n: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    // Under Miri this differs from one interpreter seed to the next.
    let mut seed: u64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or_else(|| std::collections::hash_map::RandomState::new().build_hasher().finish());
    let secs: f64 = a.get(4).and_then(|s| s.parse().ok()).unwrap_or(0.0);
    let t = std::time::Instant::now();
    let mut done = 0;
    while done < n || (secs > 0.0 && t.elapsed().as_secs_f64() < secs) {
        progs::run(&mode, seed);
        seed = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(0x1234_5678_9ABC_DEF1);
        done += 1;
    }
    if secs > 0.0 {
        println!("NATIVE {done}");
    }
}
