//! Which deviations from the model are violations of which property, and the workloads.

use crate::model::*;
use crate::run::*;

pub fn lens(id: &str) -> Lens {
    // No documented operation, used according to its contract, panics.
    Lens(match id {
        "C01" => |c, _, _| matches!(c, Cat::Value | Cat::Unreleased | Cat::Panic),
        "C04" => |c, a, _| matches!(c, Cat::Unreleased | Cat::GrantOver | Cat::AvailSum | Cat::AvailOver | Cat::Published | Cat::Index | Cat::Len) || (c == Cat::GrantUnder && a.prod),
        "C05" => |c, _, _| matches!(c, Cat::GrantOver | Cat::GrantUnder | Cat::AvailOver | Cat::AvailUnder | Cat::Refused),
        "C06" => |c, a, _| matches!(c, Cat::Shape | Cat::Content) || (a.slice && matches!(c, Cat::Value | Cat::Index | Cat::Published | Cat::GrantUnder)),
        "C07" => |c, _, p| matches!(c, Cat::Flags | Cat::Leak) || (p.ending && matches!(c, Cat::Ledger | Cat::ZeroDrop | Cat::Content)),
        "C08" => |c, _, _| matches!(c, Cat::Ledger | Cat::ZeroDrop | Cat::Leak),
        "C09" => |c, a, p| matches!(c, Cat::ZeroRead | Cat::ZeroDrop) || ((a.init || p.zeroed) && matches!(c, Cat::Ledger | Cat::Content | Cat::Value)),
        "C10" => |c, _, _| matches!(c, Cat::GrantUnder | Cat::AvailUnder),
        "C11" => |c, _, p| p.reset && matches!(c, Cat::GrantOver | Cat::GrantUnder | Cat::AvailOver | Cat::AvailUnder | Cat::AvailSum | Cat::Index | Cat::Published | Cat::Unreleased | Cat::Value),
        "C12" => |c, _, p| p.detached && matches!(c, Cat::GrantOver | Cat::GrantUnder | Cat::AvailOver | Cat::AvailUnder | Cat::AvailSum | Cat::Index | Cat::Published | Cat::Unreleased | Cat::Value | Cat::Refused),
        "C14" => |c, a, p| (a.asy || p.asy) && !matches!(c, Cat::Trace | Cat::Leak),
        "C17" => |_, _, _| true,
        "C18" => |c, _, p| p.ops <= 1 && matches!(c, Cat::AvailOver | Cat::AvailUnder | Cat::AvailSum | Cat::GrantOver | Cat::GrantUnder | Cat::Index | Cat::Published | Cat::Unreleased | Cat::Value | Cat::Content | Cat::Len | Cat::Construct | Cat::Flags)
            || matches!(c, Cat::Unreleased | Cat::Construct) || (p.session > 1 && matches!(c, Cat::Value | Cat::AvailSum)),
        _ => |_, _, _| true,
    })
}

const PODS: &[&str] = &["u8", "u16", "[u8;3]", "u64", "[u32;3]", "u128"];
const MIX: &[&str] = &["It", "Sm", "It", "u64", "u8", "[u8;3]", "[u32;3]", "u128", "Od", "Ze", "Pd", "Al", "Lg", "Zs"];
const OWNED: &[&str] = &["It", "Sm", "It", "Od", "Pd", "It", "Sm", "It", "Od", "Pd", "Lg"];
const INITS: &[Init] = &[Init::From, Init::FromSpare, Init::Default, Init::Zeroed];
const LENS: &[usize] = &[1, 2, 2, 3, 3, 4, 5, 5, 6, 7, 8, 8, 9, 13, 16, 17, 33, 2, 3, 4, 5, 8, 64, 150, 300];

pub fn profile(id: &str) -> Profile {
    //              push ps  wk ws  c  cs  av rs dt do as dr ad sz wt sum
    let mut p = Profile {
        weights: [10, 10, 8, 8, 10, 10, 4, 1, 3, 6, 2, 1, 3, 1, 1, 2],
        items: MIX,
        vars: &VARS,
        inits: INITS,
        lens: LENS,
        ops: (8, 80),
        async_chance: 30,
        drop_chance: 25,
        long: true,
        huge: cfg!(feature = "alloc"),
    };
    match id {
        "C01" => p.weights = [12, 12, 8, 8, 12, 12, 2, 1, 3, 6, 2, 1, 2, 1, 0, 1],
        "C04" => p.weights = [14, 10, 6, 8, 8, 8, 4, 2, 3, 6, 1, 1, 5, 1, 1, 6],
        "C05" => p.weights = [10, 12, 6, 10, 10, 12, 6, 1, 2, 4, 2, 1, 3, 4, 2, 3],
        "C06" => p.weights = [6, 16, 4, 14, 6, 16, 1, 1, 2, 4, 1, 0, 3, 4, 0, 1],
        "C07" | "C08" => {
            p.weights = [12, 10, 5, 5, 12, 10, 1, 1, 2, 3, 2, 2, 3, 0, 0, 0];
            p.items = OWNED;
            p.drop_chance = 50;
            if id == "C07" {
                p.ops = (0, 24);
            }
        }
        "C09" => {
            p.weights = [14, 10, 4, 4, 16, 8, 1, 1, 1, 2, 2, 1, 2, 0, 0, 0];
            p.items = OWNED;
            p.inits = &[Init::Zeroed, Init::Zeroed, Init::Zeroed, Init::From];
        }
        "C11" => p.weights = [12, 10, 8, 8, 8, 8, 4, 10, 2, 6, 1, 1, 4, 2, 0, 3],
        "C12" => {
            p.weights = [10, 8, 8, 8, 8, 8, 6, 1, 8, 24, 1, 1, 3, 2, 1, 2];
            p.async_chance = 20;
        }
        "C14" => {
            p.async_chance = 100;
            p.weights = [10, 10, 8, 8, 10, 10, 2, 1, 3, 5, 2, 1, 2, 2, 0, 1];
        }
        "C18" => {
            p.ops = (0, 14);
            p.vars = &[Var::CStack, Var::LStack, Var::CStack, Var::LStack, Var::CHeap, Var::LHeap, Var::CHeapAsync, Var::CStackAsync];
            p.weights = [10, 8, 6, 6, 6, 6, 4, 1, 1, 1, 1, 2, 2, 1, 0, 6];
        }
        _ => {}
    }
    let _ = PODS;
    if cfg!(feature = "vmem") {
        if p.items == MIX {
            // (there is nothing to map, or too much)
            p.items = &MIX[..MIX.len() - 2];
        } else if p.items == OWNED {
            p.items = &OWNED[..OWNED.len() - 1];
        }
        p.lens = &[4096, 4096, 4096, 8192];
        p.weights = [4, 16, 4, 14, 4, 16, 3, 1, 3, 6, 2, 1, 6, 0, 0, 3];
        p.ops = (10, 60);
        p.long = false;
        p.huge = false;
    }
    if cfg!(any(feature = "vmem", not(feature = "alloc"))) {
        p.vars = &VARS;
    }
    p
}

/// Fewer, sanitizer friendly items.
pub fn sanitize(p: &mut Profile) {
    p.huge = false;
    p.items = if p.items == OWNED { &["It", "Bx", "Bx", "Sm"] } else { &["It", "Bx", "Bx", "u64", "[u8;3]", "u128"] };
    if cfg!(miri) {
        p.items = &["It", "Bx", "Bx", "u64"];
        p.ops = (4, 24);
        p.long = false;
        p.huge = false;
        p.lens = &[1, 2, 3, 4, 5, 8];
    }
}
