//! Minimisation of a failing plan: fewer steps, fewer preemptions, smaller numbers, fewer
//! callers; the same class of violation must remain.
use crate::os::real_ns;
use crate::plan::*;
use crate::Failure;

pub fn shrink(plan: &Plan, by_time: bool, fails: &mut dyn FnMut(&Plan) -> Option<Failure>) -> Option<(Plan, Failure)> {
    // A verdict by real time may need another attempt.
    let mut first = fails(plan).or_else(|| if by_time { (0..4).find_map(|_| fails(plan)) } else { None })?;
    let mut best = plan.clone();
    if first.class == "hang" {
        // Counting every instruction, where a world can, ends such a run sooner.
        let mut p = plan.clone();
        p.set("meter", 1);
        if let Some(f) = fails(&p).filter(|f| f.class == "cost:work") {
            (best, first) = (p, f);
        }
    }
    let class = first.class.clone();
    let mut bf = first;
    let slow = class == "hang";
    let end = real_ns() + if slow { 120 } else { 60 } * 1_000_000_000;
    let mut budget = match class.as_str() {
        "hang" => 2,
        // Measured in time: a smaller plan would be nearer to the limit.
        "cost:growth" => 0,
        _ => 1500,
    };
    let mut attempt = |p: &Plan| -> Option<Failure> {
        if budget == 0 || real_ns() > end {
            return None;
        }
        budget -= 1;
        fails(p).filter(|f| f.class == class)
    };
    macro_rules! go {
        ($p:expr) => {{
            let p = $p;
            if p != best {
                if let Some(f) = attempt(&p) {
                    best = p;
                    bf = f;
                    true
                } else {
                    false
                }
            } else {
                false
            }
        }};
    }
    if best.get("reuse") == 1 {
        let mut p = best.clone();
        p.set("reuse", 0);
        go!(p);
    }
    // Everything after the failing step can go at once.
    if bf.step > 0 && (bf.step as usize) < best.steps.len() {
        let mut p = best.clone();
        p.steps.truncate(bf.step as usize);
        go!(p);
    }
    for round in 0..3 {
        let before = best.clone();
        let mut chunk = best.steps.len().div_ceil(2).max(1);
        loop {
            let mut i = 0;
            while i < best.steps.len() {
                let mut p = best.clone();
                let e = (i + chunk).min(p.steps.len());
                p.steps.drain(i..e);
                if !go!(p) {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
        // All preemptions, then each.
        let mut p = best.clone();
        p.steps.iter_mut().for_each(|s| s.pre.clear());
        if !go!(p) {
            for i in 0..best.steps.len() {
                if !best.steps[i].pre.is_empty() {
                    let mut p = best.clone();
                    p.steps[i].pre.clear();
                    if !go!(p) && best.steps[i].pre.len() > 1 {
                        let mut p = best.clone();
                        p.steps[i].pre.truncate(1);
                        go!(p);
                    }
                }
            }
        }
        for keep in [0u64, 1] {
            let mut p = best.clone();
            p.steps.iter_mut().for_each(|s| s.client = s.client.min(keep));
            if go!(p) {
                break;
            }
        }
        // Numbers: towards zero.
        for i in 0..best.steps.len() {
            for j in 0..best.steps[i].args.len() {
                let mut lo = 0u64;
                let v = best.steps[i].args[j];
                if v == 0 {
                    continue;
                }
                let mut p = best.clone();
                p.steps[i].args[j] = 0;
                if go!(p) {
                    continue;
                }
                let mut hi = v;
                for _ in 0..(if round == 0 { 5 } else { 12 }) {
                    if hi - lo <= 1 {
                        break;
                    }
                    let mid = lo + (hi - lo) / 2;
                    let mut p = best.clone();
                    p.steps[i].args[j] = mid;
                    if go!(p) {
                        hi = mid;
                    } else {
                        lo = mid;
                    }
                }
            }
            while best.steps[i].args.len() > 1 {
                let mut p = best.clone();
                p.steps[i].args.pop();
                if !go!(p) {
                    break;
                }
            }
        }
        if best == before {
            break;
        }
    }
    // It must fail the same way, twice more, exactly.
    let a = fails(&best)?;
    let b = if slow { a.clone() } else { fails(&best)? };
    if a.class != bf.class || a != b {
        return fails(plan).map(|f| (plan.clone(), f));
    }
    Some((best, a))
}
