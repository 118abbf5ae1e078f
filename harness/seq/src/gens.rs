//! Where the cases of each mode come from: exhaustive enumerations first, random ones afterwards.

use crate::lens;
use crate::model::code;
use crate::rng::Rng;
use crate::run::*;

pub struct Gen {
    /// Number of enumerated cases: seeds below it.
    pub all: u64,
    pub make: Box<dyn Fn(u64) -> Case>,
    pub sanitize: bool,
}

fn base(kind: Kind, item: &'static str, var: Var, len: usize, init: Init, three: bool, seed: u64) -> Case {
    Case { kind, item, var, len, init, sessions: vec![three], to_async: 0, wrap_detach: false, drain: false, end: (seed % 6) as u32, script: vec![], seed }
}
fn stack(v: Var) -> bool {
    matches!(v, Var::CStack | Var::LStack | Var::CStackAsync)
}
/// Makes a case one which exists.
fn fix(mut c: Case) -> Case {
    if !["It", "u64"].contains(&c.item) {
        c.var = LEAN;
    }
    if cfg!(feature = "vmem") {
        c.len = if c.len % 4 == 3 { 8192 } else { 4096 };
    }
    if c.var == Var::CStackAsync {
        c.len = 5;
    }
    if stack(c.var) {
        if !STACK_LENS.contains(&c.len) {
            c.len = STACK_LENS[c.len % 5];
        }
        if c.init != Init::Zeroed {
            c.init = Init::From;
        }
    }
    c
}

pub fn gen(mode: &str, id: &str, sanitize: bool) -> Option<Gen> {
    let mut p = lens::profile(id);
    if sanitize {
        lens::sanitize(&mut p);
    }
    const ITEMS: [&str; 9] = ["It", "u64", "u8", "[u8;3]", "[u32;3]", "u128", "Sm", "Al", "Pd"];
    Some(match mode {
        "hist" => Gen { all: 0, sanitize, make: Box::new(move |s| generate(s, &p)) },
        "windows" => {
            let mut v = Vec::new();
            let max = if sanitize { 4 } else { 9 };
            for len in 1..=max {
                for three in [false, true] {
                    for var in VARS {
                        for (item, init) in [("u64", Init::From), ("It", Init::Zeroed)] {
                            let c = fix(base(Kind::Windows, item, var, len, init, three, 0));
                            if c.len == len || (cfg!(feature = "vmem") && len < 3) {
                                v.push(c);
                            }
                        }
                    }
                    for item in ["u8", "[u8;3]", "u128", "Sm"] {
                        v.push(fix(base(Kind::Windows, item, Var::CHeap, len, if len % 2 == 0 { Init::Default } else { Init::From }, three, 0)));
                    }
                }
            }
            for (i, c) in v.iter_mut().enumerate() {
                c.seed = i as u64;
            }
            // long ones first: they take longer
            v.reverse();
            let n = v.len() as u64;
            Gen {
                all: n,
                sanitize,
                make: Box::new(move |s| {
                    if s < n {
                        return v[s as usize].clone();
                    }
                    let mut r = Rng::new(s);
                    let len = match r.below(4) { 0 => 1 + r.below(12), 1 => 10 + r.below(30), 2 => 1 << (3 + r.below(5)), _ => 1 + r.below(200) } as usize;
                    let mut c = fix(base(Kind::Windows, ITEMS[r.below(9) as usize], VARS[r.below(VARS.len() as u64) as usize], len, [Init::From, Init::Zeroed, Init::Default, Init::FromSpare][r.below(4) as usize], r.chance(1, 2), s));
                    c.to_async = if r.chance(1, 3) { r.below(8) as u8 } else { 0 };
                    c
                }),
            }
        }
        "construct" => {
            let mut v = Vec::new();
            let lens: Vec<usize> = if cfg!(feature = "vmem") { vec![4096, 8192] } else { (1..=40).collect() };
            for len in lens {
                for three in [false, true] {
                    for var in VARS {
                        if stack(var) && (!STACK_LENS.contains(&len) || (var == Var::CStackAsync && len != 5)) {
                            continue;
                        }
                        for init in [Init::From, Init::FromSpare, Init::Default, Init::Zeroed] {
                            if stack(var) && matches!(init, Init::FromSpare | Init::Default) {
                                continue;
                            }
                            let k = v.len();
                            v.push(base(Kind::Construct, if k % 2 == 0 { "It" } else { "u64" }, var, len, init, three, k as u64));
                        }
                    }
                    for (k, item) in ["u8", "[u8;3]", "u128", "Sm"].into_iter().enumerate() {
                        if LEAN == Var::CStack && !STACK_LENS.contains(&len) {
                            continue;
                        }
                        v.push(fix(base(Kind::Construct, item, LEAN, len, [Init::From, Init::Zeroed, Init::Default, Init::FromSpare][(k + len) % 4], three, v.len() as u64)));
                    }
                }
            }
            let n = v.len() as u64;
            Gen {
                all: n,
                sanitize,
                make: Box::new(move |s| {
                    if s < n {
                        return v[s as usize].clone();
                    }
                    let mut r = Rng::new(s);
                    let len = match r.below(400) % 5 { _ if s % 400 == 7 => 65536 + r.below(3000), 0 => 1 << r.below(11), 1 => (1 << r.below(11)) + 1, 2 => 1 + r.below(3000), 3 => 250 + r.below(20), _ => 1 + r.below(100) } as usize;
                    fix(base(Kind::Construct, ITEMS[r.below(9) as usize], VARS[r.below(VARS.len() as u64) as usize], len, [Init::From, Init::Zeroed, Init::Default, Init::FromSpare][r.below(4) as usize], r.chance(1, 2), s))
                }),
            }
        }
        "polls" => Gen {
            all: 0,
            sanitize,
            make: Box::new(move |s| {
                let mut c = generate(s, &p);
                c.kind = Kind::Polls;
                c.sessions.truncate(1);
                c.to_async = if s % 4 == 0 { (s / 4 % 8) as u8 } else { 7 };
                c.drain = s % 3 == 0;
                for r in &mut c.script {
                    if matches!(r.c, code::DETACH | code::DETOP | code::ASYNC | code::DROP) && (r.a ^ r.b) % 3 != 0 {
                        r.c = code::PUSH;
                    }
                }
                c
            }),
        },
        "drops" => {
            let mut v = Vec::new();
            for var in VARS {
                for three in [false, true] {
                    for f in 0..64u8 {
                        if !three && f >> 2 & 3 != 0 {
                            continue;
                        }
                        for end in 0..6 {
                            let k = v.len();
                            let mut c = fix(base(Kind::Drops(f), ["It", "u64", "Sm"][if stack(var) { k % 2 } else { k % 3 }], var, [1, 2, 3, 5][k % 4], [Init::From, Init::Zeroed, Init::Default][k / 4 % 3], three, k as u64));
                            c.end = end;
                            v.push(c);
                        }
                    }
                }
            }
            let n = v.len() as u64;
            Gen { all: n, sanitize, make: Box::new(move |s| {
                let mut c = v[(s % n) as usize].clone();
                if s >= n {
                    let mut r = Rng::new(s);
                    c.len = 1 + r.below(20) as usize;
                    c.init = [Init::From, Init::Zeroed, Init::Default, Init::FromSpare][r.below(4) as usize];
                    c.item = if sanitize { ["Bx", "It"][r.below(2) as usize] } else { ["It", "u64", "Sm", "Od", "Pd", "Lg"][r.below(6) as usize] };
                    c.script = generate(s, &p).script;
                    if stack(c.var) {
                        c.sessions = (0..1 + r.below(3)).map(|_| r.chance(1, 2)).collect();
                        if c.var == Var::CStackAsync {
                            c.sessions.truncate(1);
                        }
                        c.end = r.below(216) as u32;
                    }
                    c.script.truncate(r.below(20) as usize);
                    c.seed = s;
                    c = fix(c);
                }
                c
            }) }
        }
        _ => return None,
    })
}
