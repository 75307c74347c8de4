//! C01, C02, C03: editing histories.

use crate::by_index;
use crate::editor::*;
use crate::rng::Rng;
use crate::scen::*;
use crate::types::Ix;

/// Brings a mesh with a small index type close to its capacity, once or twice.
pub fn fill(r: &mut Rng, sc: &mut Scenario) {
    if sc.p("it") == 2 && r.chance(1, 3) {
        for _ in 0..1 + r.below(2) {
            let at = r.below(sc.steps.len() + 1);
            sc.steps.insert(at, Step::new("fill", &[r.below(96) as u64, r.below(999) as u64]));
        }
    }
}

pub fn gen1(r: &mut Rng, idx: u64, sc: &mut Scenario) {
    sc.set("it", [0, 1, 2, 0][(idx % 4) as usize]);
    let len = if idx % 16 == 15 { 90 } else { 10 + r.below(45) };
    let faults = r.chance(1, 3);
    gen_history(r, sc, len, faults, 8);
    fill(r, sc);
}
pub fn gen2(r: &mut Rng, idx: u64, sc: &mut Scenario) {
    sc.set("it", [0, 1, 2, 0][(idx % 4) as usize]);
    let len = if idx % 16 == 15 { 90 } else { 10 + r.below(45) };
    gen_history(r, sc, len, false, 4);
    fill(r, sc);
}
pub fn gen3(r: &mut Rng, idx: u64, sc: &mut Scenario) {
    sc.set("it", [0, 1, 2, 2][(idx % 4) as usize]);
    let len = if idx % 8 == 7 { 90 } else { 10 + r.below(40) };
    gen_history(r, sc, len, true, 40);
    fill(r, sc);
}

pub fn exec(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    by_index!(sc, run(sc, stats))
}

fn run<I: Ix>(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    let mut want = Want::default();
    match sc.prop.as_str() {
        "C01" => want.c01 = true,
        "C02" => want.c02 = true,
        _ => want.c03 = true,
    }
    let mut ed = Editor::<I>::new(sc.p("clients").max(1) as usize, want);
    let mut res = Ok(());
    for st in &sc.steps {
        match ed.step(st) {
            Ok(_) => {}
            Err(v) => {
                res = Err(v);
                break;
            }
        }
        if ed.dead {
            ed.stats.c("runs-ended-by-foreign-violation");
            break;
        }
    }
    let nontrivial = match sc.prop.as_str() {
        "C03" => ed.stats.get("refused-invalid") + ed.stats.get("aborted-by-fault") > 0,
        _ => ed.stats.get("result:ok") > 3,
    };
    if nontrivial {
        ed.stats.c("nontrivial");
    }
    *stats = ed.stats;
    res
}
