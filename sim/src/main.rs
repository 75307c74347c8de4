mod editor;
mod engine;
mod env;
mod geom;
mod model;
mod props;
mod rebuild;
mod rng;
mod scen;
mod snap;
mod ttf;
mod types;

use scen::Scenario;

fn main() {
    env::install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => {
            let id = a.get(1).cloned().unwrap_or_default();
            let tier = a
                .get(2)
                .cloned()
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .unwrap_or_else(|| "quick".into());
            engine::check(&id, &tier)
        }
        Some("worker") => {
            engine::limit_memory(6);
            engine::worker(&a[1..]);
            0
        }
        Some("minimise") => {
            engine::limit_memory(6);
            let sc = Scenario::parse(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
            let key = a[3].clone();
            let secs = a[4].parse().unwrap();
            let f = |s: &Scenario| engine::fails_inproc(s, &key);
            engine::minimise(&sc, &f, std::path::Path::new(&a[2]), secs);
            0
        }
        Some("replay") => {
            engine::limit_memory(6);
            let sc = Scenario::parse(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
            let o = engine::run(&sc);
            match o.res {
                Ok(()) => {
                    println!("no violation; transcript {:016x}, {} steps", o.stats.transcript, o.ticks);
                    0
                }
                Err(v) => {
                    println!("{}: {}\n  {}", sc.prop, v.key, v.detail);
                    println!("transcript {:016x}, {} simulated steps", o.stats.transcript, o.ticks);
                    1
                }
            }
        }
        Some("tally") => {
            // tally PROP SEED COUNT : every violation key with its count and first run (development aid)
            let p = props::find(&a[1]).unwrap();
            let (seed, n): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            let hs: Vec<_> = (0..8u64)
                .map(|j| {
                    std::thread::spawn(move || {
                        let mut t: std::collections::BTreeMap<String, (u64, u64, String)> = Default::default();
                        let mut i = j;
                        while i < n {
                            if let Err(v) = engine::run(&engine::scenario_for(p, seed, i)).res {
                                t.entry(v.key).or_insert((0, i, v.detail)).0 += 1;
                            }
                            i += 8;
                        }
                        t
                    })
                })
                .collect();
            let mut t: std::collections::BTreeMap<String, (u64, u64, String)> = Default::default();
            for h in hs {
                for (k, v) in h.join().unwrap() {
                    let e = t.entry(k).or_insert((0, v.1, v.2.clone()));
                    e.0 += v.0;
                    if v.2.len() < e.2.len() {
                        e.1 = v.1;
                        e.2 = v.2;
                    }
                }
            }
            for (k, v) in t {
                println!("{:6} {k} run {}\n       {}", v.0, v.1, v.2.chars().take(700).collect::<String>());
            }
            0
        }
        Some("one") => {
            // one PROP SEED IDX : print the scenario and run it
            let p = props::find(&a[1]).unwrap();
            let sc = engine::scenario_for(p, a[2].parse().unwrap(), a[3].parse().unwrap());
            print!("{}", sc.to_text());
            let o = engine::run(&sc);
            for (k, v) in &o.stats.n {
                println!("  {k} {v}");
            }
            println!("{:?} ticks {}", o.res, o.ticks);
            0
        }
        _ => {
            eprintln!("usage: sim check PROP [quick|thorough] | replay FILE | one PROP SEED IDX");
            2
        }
    };
    std::process::exit(code);
}
