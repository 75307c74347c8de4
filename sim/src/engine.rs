//! Search driver: worker processes, supervision, minimisation, replay, evidence.

use crate::env;
use crate::props::{self, Prop};
use crate::rng::{hstr, mix2, Rng};
use crate::scen::*;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const VERIF: &str = "/verif";

pub fn scenario_for(p: &Prop, seed: u64, idx: u64) -> Scenario {
    let s = mix2(mix2(hstr(p.id), seed), idx);
    let mut r = Rng::new(s);
    let mut sc = Scenario::new(p.id, s, mix2(s, 77));
    (p.gen)(&mut r, idx, &mut sc);
    sc
}

pub struct RunOut {
    pub res: Result<(), Violation>,
    pub stats: Stats,
    pub events: [u64; env::N_EV],
    pub fired: [u64; env::N_EV],
    pub ticks: u64,
}

/// One simulated execution: a fresh thread, so entropy starts from the scenario's seed.
pub fn run(sc: &Scenario) -> RunOut {
    run_with_entropy(sc, sc.entropy)
}

pub fn run_with_entropy(sc: &Scenario, entropy: u64) -> RunOut {
    let sc2 = sc.clone();
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            env::set_entropy(entropy);
            env::reset_ctx();
            let p = props::find(&sc2.prop).expect("unknown property");
            let mut stats = Stats::default();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.exec)(&sc2, &mut stats)));
            let res = match r {
                Ok(r) => r,
                Err(_) => Err(Violation {
                    key: format!("panic:{}", crate::editor::class(&env::last_panic())),
                    detail: format!("unexpected panic: {}", env::last_panic()),
                }),
            };
            let (events, fired) = env::events();
            RunOut {
                res,
                stats,
                events,
                fired,
                ticks: env::ticks(),
            }
        })
        .expect("spawn");
    h.join().expect("join")
}

// ------------------------------------------------------------------ worker

/// worker PROP SEED FIRST STRIDE COUNT SECONDS OUTPREFIX
pub fn worker(a: &[String]) {
    let p = props::find(&a[0]).expect("prop");
    let seed: u64 = a[1].parse().unwrap();
    let first: u64 = a[2].parse().unwrap();
    let stride: u64 = a[3].parse().unwrap();
    let count: u64 = a[4].parse().unwrap();
    let secs: u64 = a[5].parse().unwrap();
    let out = &a[6];
    let known = known_keys(p.id);
    let t0 = Instant::now();
    let prog = fs::File::create(format!("{out}.prog")).unwrap();
    let mut st = Stats::default();
    let mut ev = [0u64; env::N_EV];
    let mut fi = [0u64; env::N_EV];
    let mut ticks = 0u64;
    let mut runs = 0u64;
    let mut nontrivial = 0u64;
    let mut transcripts: HashSet<u64> = HashSet::new();
    let mut violation: Option<(u64, Violation)> = None;
    let mut det_checked = 0u64;
    let mut det_bad = 0u64;
    use std::os::unix::fs::FileExt;
    let mut i = first;
    let mut samples: Vec<String> = vec![];
    let mut known_hits = 0u64;
    while i < count {
        let _ = prog.write_all_at(&i.to_le_bytes(), 0);
        let sc = scenario_for(p, seed, i);
        let o = run(&sc);
        runs += 1;
        st.merge(&o.stats);
        for k in 0..env::N_EV {
            ev[k] += o.events[k];
            fi[k] += o.fired[k];
        }
        ticks += o.ticks;
        if o.stats.get("nontrivial") > 0 {
            nontrivial += 1;
            if transcripts.len() < 2_000_000 {
                transcripts.insert(o.stats.transcript);
            }
        }
        if samples.len() < 2 && runs % 97 == 1 {
            samples.push(format!(
                "run {i}: {} => {}, transcript {:016x}",
                sc.to_text().trim_end().replace('\n', "; ").replace('\t', " "),
                match &o.res {
                    Ok(_) => "held",
                    Err(_) => "VIOLATED",
                },
                o.stats.transcript
            ));
        }
        if runs % 499 == 1 && det_checked < 40 {
            let o2 = run(&sc);
            det_checked += 1;
            if o2.stats.transcript != o.stats.transcript || o2.ticks != o.ticks {
                det_bad += 1;
            }
        }
        if let Err(v) = o.res {
            if known.iter().any(|k| *k == v.key) {
                known_hits += 1;
            } else {
                violation = Some((i, v));
                break;
            }
        }
        if t0.elapsed().as_secs() >= secs {
            break;
        }
        i += stride;
    }
    st.n.insert("_runs".into(), runs);
    st.n.insert("_nontrivial".into(), nontrivial);
    st.n.insert("_ticks".into(), ticks);
    st.n.insert("_det_checked".into(), det_checked);
    st.n.insert("_det_bad".into(), det_bad);
    st.n.insert("_known_hits".into(), known_hits);
    let mut f = fs::File::create(format!("{out}.stats")).unwrap();
    for (k, v) in &st.n {
        writeln!(f, "n\t{k}\t{v}").unwrap();
    }
    for k in 0..env::N_EV {
        writeln!(f, "ev\t{}\t{}\t{}", k, ev[k], fi[k]).unwrap();
    }
    for s in &samples {
        writeln!(f, "sample\t{s}").unwrap();
    }
    if let Some((i, v)) = &violation {
        writeln!(f, "viol\t{i}\t{}\t{}", v.key, v.detail.replace(['\n', '\t'], " ")).unwrap();
    }
    drop(f);
    let mut b: Vec<u8> = Vec::with_capacity(st.states.len() * 8);
    for s in &st.states {
        b.extend_from_slice(&s.to_le_bytes());
    }
    fs::write(format!("{out}.states"), b).unwrap();
    let mut b: Vec<u8> = Vec::with_capacity(transcripts.len() * 8);
    for s in &transcripts {
        b.extend_from_slice(&s.to_le_bytes());
    }
    fs::write(format!("{out}.trans"), b).unwrap();
    fs::write(format!("{out}.done"), b"1").unwrap();
}

extern "C" {
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}
pub fn limit_memory(gb: u64) {
    let l = [gb << 30, gb << 30];
    unsafe {
        setrlimit(9, &l); // RLIMIT_AS
        let z = [0u64, 0u64];
        setrlimit(4, &z); // RLIMIT_CORE
    }
}

// ------------------------------------------------------------------ known findings

/// lines: "finding property=<id> key=<key> replay=<file> what=<text>"
pub struct Known {
    pub key: String,
    pub replay: String,
    pub what: String,
}

pub fn known(id: &str) -> Vec<Known> {
    let mut r = vec![];
    let t = fs::read_to_string(format!("{VERIF}/known-findings.txt")).unwrap_or_default();
    for l in t.lines() {
        let Some(rest) = l.strip_prefix("finding ") else { continue };
        let get = |k: &str| -> String {
            rest.split_once(&format!("{k}="))
                .map(|x| {
                    if k == "what" {
                        x.1.to_string()
                    } else {
                        x.1.split_whitespace().next().unwrap_or("").to_string()
                    }
                })
                .unwrap_or_default()
        };
        if get("property") == id {
            r.push(Known {
                key: get("key"),
                replay: get("replay"),
                what: get("what"),
            });
        }
    }
    r
}
fn known_keys(id: &str) -> Vec<String> {
    known(id).into_iter().map(|k| k.key).collect()
}

// ------------------------------------------------------------------ minimisation

pub fn fails_inproc(sc: &Scenario, key: &str) -> bool {
    matches!(run(sc).res, Err(v) if v.key == key)
}

/// Deletes steps and shrinks arguments while the same violation persists.
pub fn minimise(sc: &Scenario, fails: &dyn Fn(&Scenario) -> bool, out: &Path, secs: u64) -> Scenario {
    let t0 = Instant::now();
    let mut best = sc.clone();
    let late = || t0.elapsed().as_secs() >= secs;
    let save = |b: &Scenario| {
        let _ = fs::write(out, b.to_text());
    };
    save(&best);
    loop {
        let mut changed = false;
        let mut n = best.steps.len().next_power_of_two().max(1);
        while n >= 1 {
            let mut i = 0;
            while i < best.steps.len() && !late() {
                let mut c = best.clone();
                let e = (i + n).min(c.steps.len());
                c.steps.drain(i..e);
                if fails(&c) {
                    best = c;
                    changed = true;
                    save(&best);
                } else {
                    i += n;
                }
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
        for i in 0..best.steps.len() {
            for j in 0..best.steps[i].a.len() {
                let v0 = best.steps[i].a[j];
                let mut cand: Vec<u64> = vec![0, 1, v0 % 7, v0 % 16, v0 / 16, v0 / 2, v0.saturating_sub(1)];
                cand.dedup();
                for nv in cand {
                    if late() {
                        break;
                    }
                    if nv >= best.steps[i].a[j] {
                        continue;
                    }
                    let mut c = best.clone();
                    c.steps[i].a[j] = nv;
                    if fails(&c) {
                        best = c;
                        changed = true;
                        save(&best);
                        break;
                    }
                }
            }
        }
        let keys: Vec<String> = best.params.keys().cloned().collect();
        for k in keys {
            let v = best.params[&k];
            for nv in [0, 1, v / 2, v - 1] {
                if nv < 0 || nv >= best.params[&k] || late() {
                    continue;
                }
                let mut c = best.clone();
                c.params.insert(k.clone(), nv);
                if fails(&c) {
                    best = c;
                    changed = true;
                    save(&best);
                    break;
                }
            }
        }
        if !changed || late() {
            break;
        }
    }
    best
}

// ------------------------------------------------------------------ check (supervisor)

fn spawn(args: &[String]) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .args(args)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn worker")
}

fn wait_timeout(c: &mut Child, secs: u64) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t0.elapsed().as_secs() >= secs {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// Runs a scenario in a fresh process: Ok(exit code) or Err("hang" | "crash").
fn run_isolated(sc: &Scenario, tmp: &Path, secs: u64) -> Result<i32, &'static str> {
    let f = tmp.join("iso.scn");
    let _ = fs::write(&f, sc.to_text());
    let mut c = spawn(&["replay".into(), f.display().to_string()]);
    match wait_timeout(&mut c, secs) {
        None => Err("hang"),
        Some(s) => match s.code() {
            Some(c) if c == 0 || c == 1 => Ok(c),
            _ => Err("crash"),
        },
    }
}

pub fn check(id: &str, tier: &str) -> i32 {
    let Some(p) = props::find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let count = if thorough { u64::MAX / 4 } else { p.quick_runs };
    let secs: u64 = std::env::var("SIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 240 });
    let jobs = 8u64;
    let tmp = PathBuf::from(format!("{VERIF}/evidence/tmp-{id}-{}", std::process::id()));
    let _ = fs::create_dir_all(&tmp);
    let replays = PathBuf::from(format!("{VERIF}/evidence/replays"));
    let _ = fs::create_dir_all(&replays);

    // known findings: replay each listed entry
    for k in known(id) {
        let f = format!("{VERIF}/{}", k.replay);
        let still = match fs::read_to_string(&f).ok().and_then(|t| Scenario::parse(&t).ok()) {
            Some(sc) => match run_isolated(&sc, &tmp, 30) {
                Ok(1) | Err(_) => true,
                _ => false,
            },
            None => false,
        };
        if still {
            println!("KNOWN-FINDING: property={id} {}", k.what);
        }
    }

    let mut kids: Vec<(u64, Child, String, Instant, u64)> = vec![];
    for j in 0..jobs {
        let out = tmp.join(format!("w{j}")).display().to_string();
        let c = spawn(&[
            "worker".into(), id.into(), seed.to_string(), j.to_string(), jobs.to_string(),
            count.to_string(), secs.to_string(), out.clone(),
        ]);
        kids.push((j, c, out, Instant::now(), u64::MAX));
    }
    // (run index, key, detail, kind)
    let mut found: Vec<(u64, String, String)> = vec![];
    let mut inconclusive = 0;
    let hang_secs = 25;
    while !kids.is_empty() {
        std::thread::sleep(Duration::from_millis(40));
        let mut keep = vec![];
        for (j, mut c, out, mut since, mut last) in kids {
            let idx = fs::read(format!("{out}.prog"))
                .ok()
                .filter(|b| b.len() >= 8)
                .map(|b| u64::from_le_bytes(b[..8].try_into().unwrap()))
                .unwrap_or(u64::MAX);
            if idx != last {
                last = idx;
                since = Instant::now();
            }
            match c.try_wait() {
                Ok(Some(s)) => {
                    if !s.success() || !Path::new(&format!("{out}.done")).exists() {
                        // died at run idx: confirm alone in a fresh process
                        let sc = scenario_for(p, seed, idx);
                        match run_isolated(&sc, &tmp, 60) {
                            Err(k) => found.push((idx, k.to_string(), format!("the process {k}es executing this schedule ({s})"))),
                            Ok(_) => inconclusive += 1,
                        }
                    }
                    continue;
                }
                _ => {}
            }
            if since.elapsed().as_secs() > hang_secs && idx != u64::MAX {
                let _ = c.kill();
                let _ = c.wait();
                let sc = scenario_for(p, seed, idx);
                match run_isolated(&sc, &tmp, 40) {
                    Err(k) => found.push((idx, k.to_string(), "the schedule does not terminate".into())),
                    Ok(_) => inconclusive += 1,
                }
                continue;
            }
            keep.push((j, c, out, since, last));
        }
        kids = keep;
    }

    // merge
    let mut n: BTreeMap<String, u64> = BTreeMap::new();
    let mut ev = [0u64; env::N_EV];
    let mut fi = [0u64; env::N_EV];
    let mut states: HashSet<u64> = HashSet::new();
    let mut trans: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    for j in 0..jobs {
        let out = tmp.join(format!("w{j}")).display().to_string();
        for l in fs::read_to_string(format!("{out}.stats")).unwrap_or_default().lines() {
            let w: Vec<&str> = l.split('\t').collect();
            match w[0] {
                "n" => *n.entry(w[1].into()).or_default() += w[2].parse::<u64>().unwrap_or(0),
                "ev" => {
                    let k: usize = w[1].parse().unwrap_or(0);
                    ev[k] += w[2].parse::<u64>().unwrap_or(0);
                    fi[k] += w[3].parse::<u64>().unwrap_or(0);
                }
                "sample" => samples.push(w[1].into()),
                "viol" => found.push((w[1].parse().unwrap_or(0), w[2].into(), w[3].into())),
                _ => {}
            }
        }
        for (suffix, set) in [("states", &mut states), ("trans", &mut trans)] {
            for c in fs::read(format!("{out}.{suffix}")).unwrap_or_default().chunks_exact(8) {
                set.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    found.sort();
    let mut code = 0;
    let mut viols_json = vec![];
    if let Some((idx, key, detail)) = found.first() {
        let sc = scenario_for(p, seed, *idx);
        let file = replays.join(format!("{id}-seed{seed}-run{idx}.scn"));
        let _ = fs::write(&file, sc.to_text());
        let min = tmp.join("min.scn");
        if key == "hang" || key == "crash" {
            let fails = |s: &Scenario| matches!(run_isolated(s, &tmp, 5), Err(k) if k == key);
            if fails(&sc) {
                let _ = minimise(&sc, &fails, &min, 60);
            }
        } else {
            let mut c = spawn(&[
                "minimise".into(), file.display().to_string(), min.display().to_string(), key.clone(), "40".into(),
            ]);
            wait_timeout(&mut c, 90);
        }
        let mut detail = detail.clone();
        if let Ok(t) = fs::read_to_string(&min) {
            if let Ok(ms) = Scenario::parse(&t) {
                let _ = fs::write(&file, &t);
                if key != "hang" && key != "crash" {
                    let r = run(&ms);
                    if let Err(v) = r.res {
                        detail = v.detail;
                    }
                }
            }
        }
        // header comments for the reader
        let body = fs::read_to_string(&file).unwrap_or_default();
        let _ = fs::write(
            &file,
            format!(
                "# property {id}: {key}\n# {}\n# found in run {idx} of seed {seed}; replay: {VERIF}/sim/target/release/sim replay <this file>\n{body}",
                detail.replace('\n', " ")
            ),
        );
        println!("property {id}: {key}");
        println!("  {}", detail.replace('\n', " "));
        println!("  run {idx} of seed {seed}");
        println!("VIOLATION property={id} replay={}", file.display());
        viols_json.push(format!("{{\"key\":{},\"run\":{idx},\"replay\":{}}}", js(key), js(&file.display().to_string())));
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let runs = n.get("_runs").copied().unwrap_or(0);
    let det = n.get("_det_checked").copied().unwrap_or(0);
    let det_bad = n.get("_det_bad").copied().unwrap_or(0);
    let counters: Vec<String> = n
        .iter()
        .filter(|(k, _)| !k.starts_with('_'))
        .map(|(k, v)| format!("{}:{v}", js(k)))
        .collect();
    let mut faults: Vec<String> = (0..env::N_EV)
        .filter(|k| fi[*k] > 0)
        .map(|k| format!("{}:{}", js(&format!("panic in {}", env::EV_NAMES[k])), fi[k]))
        .collect();
    for (k, v) in &n {
        if let Some(x) = k.strip_prefix("fault:") {
            faults.push(format!("{}:{v}", js(x)));
        }
    }
    let evs: Vec<String> = (0..env::N_EV).map(|k| format!("{}:{}", js(env::EV_NAMES[k]), ev[k])).collect();
    samples.truncate(6);
    let rate = |x: u64| (x as f64 / wall * 3600.0).round();
    let json = format!(
        "{{\n\"property\":{},\n\"tier\":{},\n\"seed\":{seed},\n\"level\":\"exploration\",\n\"coverage\":{{\n\"evaluations\":{runs},\n\"distinct_nontrivial\":{},\n\"rule\":{},\n\"samples\":[{}],\n\"runs_per_hour\":{},\n\"seeds_per_hour\":{},\n\"simulated_steps\":{},\n\"simulated_time\":\"the system has no clock; simulated time is counted in steps (payload accesses and call-backs)\",\n\"faults_injected\":{{{}}},\n\"callback_events\":{{{}}},\n\"distinct_states\":{},\n\"distinct_states_measure\":{},\n\"distinct_transcripts\":{},\n\"counters\":{{{}}},\n\"real_code\":{},\n\"stubs\":{},\n\"determinism_selfcheck\":{{\"rerun\":{det},\"differing\":{det_bad}}},\n\"inconclusive_workers\":{inconclusive},\n\"known_finding_hits\":{},\n\"violation_list\":[{}]\n}},\n\"wall_s\":{:.2},\n\"violations\":{},\n\"assumptions\":[{}]\n}}\n",
        js(id), js(if thorough { "thorough" } else { "quick" }),
        trans.len(),
        js("distinct order-sensitive transcripts (hash of every observed mesh state and result) among runs in which the armed oracle was exercised at least once"),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        rate(runs), rate(runs),
        n.get("_ticks").copied().unwrap_or(0),
        faults.join(","),
        evs.join(","),
        states.len(),
        js("hash of the link structure (ids, next, twin, origin, face) after each delivered step"),
        trans.len(),
        counters.join(","),
        js(p.real), js(p.stubs),
        n.get("_known_hits").copied().unwrap_or(0),
        viols_json.join(","),
        wall,
        viols_json.len(),
        p.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
    );
    let _ = fs::write(format!("{VERIF}/evidence/{id}.json"), json);
    let _ = fs::remove_dir_all(&tmp);
    println!(
        "{id} {tier}: {runs} runs, {} nontrivial, {} distinct transcripts, {} states, {:.1}s{}",
        n.get("_nontrivial").copied().unwrap_or(0), trans.len(), states.len(), wall,
        if inconclusive > 0 { format!(", {inconclusive} inconclusive workers") } else { String::new() }
    );
    code
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}
