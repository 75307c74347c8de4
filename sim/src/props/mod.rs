use crate::editor::*;
use crate::rng::Rng;
use crate::scen::*;
use crate::types::Ix;

pub mod affine;
pub mod checker;
pub mod conv;
pub mod determ;
pub mod edit;
pub mod equiv;
pub mod export;
pub mod loft;
pub mod outline;
pub mod query;
pub mod subdiv;
pub mod tri;
pub mod verify;

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, u64, &mut Scenario),
    pub exec: fn(&Scenario, &mut Stats) -> Result<(), Violation>,
    pub quick_runs: u64,
    pub real: &'static str,
    pub stubs: &'static str,
    pub assumptions: &'static [&'static str],
}

pub const REAL: &str = "the whole procedural_modelling crate as built from /repo (mesh arena, builders, operations, queries, triangulators, importers), compiled with debug assertions";
pub const STUBS: &str = "the caller: payload, stream, interpolator and transform types, clients and request queue are the simulator's; OS entropy comes from the seed";
pub const ASSUME: &[&str] = &[
    "debug assertions enabled (the crate's documented argument checks are debug assertions)",
    "Clone of payloads does not panic",
];

pub static PROPS: &[Prop] = &[
    Prop { id: "C01", gen: edit::gen1, exec: edit::exec, quick_runs: 80_000, real: REAL, stubs: STUBS, assumptions: ASSUME },
    Prop { id: "C02", gen: edit::gen2, exec: edit::exec, quick_runs: 80_000, real: REAL, stubs: STUBS, assumptions: ASSUME },
    Prop { id: "C03", gen: edit::gen3, exec: edit::exec, quick_runs: 80_000, real: REAL, stubs: STUBS, assumptions: ASSUME },
    Prop { id: "C04", gen: loft::gen4, exec: loft::exec4, quick_runs: 80_000, real: REAL, stubs: STUBS, assumptions: ASSUME },
    Prop { id: "C05", gen: tri::gen, exec: tri::exec, quick_runs: 80_000, real: REAL, stubs: STUBS, assumptions: ASSUME },
    Prop { id: "C06", gen: export::gen, exec: export::exec, quick_runs: 80_000, real: REAL, stubs: STUBS, assumptions: ASSUME },
    Prop { id: "C07", gen: determ::gen, exec: determ::exec, quick_runs: 6_000, real: REAL, stubs: STUBS, assumptions: ASSUME },
    Prop { id: "C08", gen: query::gen, exec: query::exec, quick_runs: 60_000, real: REAL, stubs: STUBS, assumptions: ASSUME },
    Prop { id: "C09", gen: equiv::gen, exec: equiv::exec, quick_runs: 25_000, real: REAL, stubs: STUBS, assumptions: ASSUME },
    Prop { id: "C10", gen: subdiv::gen, exec: subdiv::exec, quick_runs: 80_000, real: REAL, stubs: STUBS, assumptions: ASSUME },
    Prop { id: "C11", gen: conv::gen, exec: conv::exec, quick_runs: 80_000, real: REAL, stubs: STUBS, assumptions: ASSUME },
    Prop { id: "C12", gen: outline::gen, exec: outline::exec, quick_runs: 80_000, real: REAL, stubs: STUBS, assumptions: ASSUME },
    Prop { id: "C14", gen: loft::gen14, exec: loft::exec14, quick_runs: 80_000, real: REAL, stubs: STUBS, assumptions: ASSUME },
    Prop { id: "C15", gen: verify::gen, exec: verify::exec, quick_runs: 80_000, real: REAL, stubs: STUBS, assumptions: ASSUME },
    Prop { id: "C16", gen: affine::gen, exec: affine::exec, quick_runs: 80_000, real: REAL, stubs: STUBS, assumptions: ASSUME },
    Prop { id: "C13", gen: checker::gen, exec: checker::exec, quick_runs: 80_000, real: REAL, stubs: STUBS, assumptions: ASSUME },
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

#[macro_export]
macro_rules! by_index {
    ($sc:expr, $f:ident ( $($a:expr),* )) => {
        match $sc.p("it") {
            0 => $f::<usize>($($a),*),
            1 => $f::<u16>($($a),*),
            _ => $f::<u8>($($a),*),
        }
    };
}

/// Runs a scenario on one editor; steps the editor does not know go to `f`.
pub fn drive<I: Ix>(
    sc: &Scenario,
    stats: &mut Stats,
    want: Want,
    f: &mut dyn FnMut(&mut Editor<I>, &Step) -> Result<(), Violation>,
) -> Result<(), Violation> {
    let mut ed = Editor::<I>::new(sc.p("clients").max(1) as usize, want);
    let mut res = Ok(());
    for st in &sc.steps {
        let r = match ed.step(st) {
            Ok(true) => Ok(()),
            Ok(false) => f(&mut ed, st),
            Err(v) => Err(v),
        };
        if r.is_err() {
            res = r;
            break;
        }
        if ed.dead {
            ed.stats.c("runs-ended-by-foreign-violation");
            break;
        }
    }
    *stats = std::mem::take(&mut ed.stats);
    res
}

/// Inserts `n` steps drawn by `mk` at random places of the history, and one at the end.
pub fn sprinkle(r: &mut Rng, sc: &mut Scenario, n: usize, mk: &mut dyn FnMut(&mut Rng) -> Step) {
    for k in 0..n {
        let s = mk(r);
        let at = if k == 0 { sc.steps.len() } else { r.below(sc.steps.len() + 1) };
        sc.steps.insert(at, s);
    }
}

pub fn args(r: &mut Rng, n: usize) -> Vec<u64> {
    (0..n).map(|_| r.below(100_000) as u64).collect()
}
