#[cfg(feature = "std")]
mod builder;
#[cfg(feature = "std")]
mod codec;
#[cfg(feature = "std")]
mod conv;
mod core;
#[cfg(feature = "std")]
mod dfa;
#[cfg(feature = "std")]
mod eq;
mod fam;
#[cfg(feature = "std")]
mod fault;
mod gen;
#[cfg(feature = "cov")]
mod hunt;
#[cfg(feature = "std")]
mod iri;
#[cfg(feature = "std")]
mod mutate;
mod plain;
#[cfg(feature = "std")]
mod sink;
#[cfg(feature = "std")]
mod template;
use crate::core::*;
#[cfg(feature = "std")]
use iri_string::spec::{IriSpec, UriSpec};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("HARNESS_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match a[1].as_str() {
        // rec PROP TIER SEED OUTDIR CHUNKS
        "rec" => {
            let (prop, thorough, seed, dir, chunks) = (a[2].as_str(), a[3] == "thorough", a[4].parse::<u64>().unwrap(), a[5].as_str(), a[6].parse::<usize>().unwrap());
            watchdog(30, dir.to_string());
            let mut rec = Rec::new(dir, chunks);
            let salt = prop[1..].parse::<u64>().unwrap();
            let mut r = Rng::new(seed, salt);
            match prop {
                "C20" => plain::record(&mut rec, &mut r, thorough),
                #[cfg(feature = "std")]
                "C03" | "C04" | "C05" | "C06" | "C07" | "C09" => {
                    iri::record::<UriSpec>(prop, &mut rec, &mut r, thorough);
                    iri::record::<IriSpec>(prop, &mut rec, &mut r, thorough);
                    if prop == "C07" {
                        builder::record(&mut rec, &mut r, thorough);
                    }
                    if prop == "C09" {
                        builder::record_debug(&mut rec, &mut r);
                    }
                }
                #[cfg(feature = "std")]
                "C08" => mutate::record_uri(&mut rec, &mut r, thorough),
                #[cfg(feature = "std")]
                "C10" => {
                    mutate::record_mut::<UriSpec>(&mut rec, &mut r, thorough);
                    mutate::record_mut::<IriSpec>(&mut rec, &mut r, thorough);
                }
                #[cfg(feature = "std")]
                "C11" => conv::record(&mut rec, &mut r, thorough),
                #[cfg(feature = "std")]
                "C12" => builder::record(&mut rec, &mut r, thorough),
                #[cfg(feature = "std")]
                "C13" => codec::record_enc(&mut rec, &mut r, thorough),
                #[cfg(feature = "std")]
                "C15" | "C16" | "C17" => template::record(prop, &mut rec, &mut r, thorough),
                #[cfg(feature = "std")]
                "C19" => sink::record(&mut rec, &mut r, thorough),
                #[cfg(feature = "std")]
                "C21" => fault::record(&mut rec, &mut r, thorough),
                #[cfg(feature = "std")]
                "C18" => eq::record(&mut rec, &mut r, thorough),
                #[cfg(feature = "std")]
                "C14" => codec::record_dec(&mut rec, &mut r, thorough),
                _ => panic!("unknown property"),
            }
            rec.finish();
        }
        // hunt PROP TIER SEED OUTDIR SHARD [AUTOMATA]
        #[cfg(feature = "cov")]
        "hunt" => {
            let (prop, thorough, seed, dir, shard) = (a[2].as_str(), a[3] == "thorough", a[4].parse::<u64>().unwrap(), a[5].as_str(), a[6].parse::<u64>().unwrap());
            watchdog(30, dir.to_string());
            let mut rec = Rec::new(dir, 1);
            let lim = hunt::Limits { runs: if thorough { 3_000_000 } else { 150_000 }, time: std::time::Duration::from_secs(if thorough { 300 } else { 15 }), events: if thorough { 6000 } else { 700 }, size: if thorough { 20_000 } else { 6_000 } };
            let parts = [gen::Parts::new(false), gen::Parts::new(true)];
            let seed = seed * 1000 + shard;
            if let Some(file) = a.get(7) {
                dfa::hunt(&mut rec, prop, seed, shard as usize, &lim, file);
                rec.finish();
                return;
            }
            hunt::search(&mut rec, seed, &lim, |rec, r| match prop {
                "C03" | "C04" | "C05" | "C06" | "C07" | "C09" => {
                    if prop == "C07" && r.chance(1, 4) {
                        builder::random(rec, r, &parts)
                    } else if r.chance(1, 2) {
                        iri::random::<IriSpec>(prop, rec, r, &parts[1])
                    } else {
                        iri::random::<UriSpec>(prop, rec, r, &parts[0])
                    }
                }
                "C08" => mutate::random_uri(rec, r, &parts[1]),
                "C10" => {
                    if r.chance(1, 2) {
                        mutate::random_mut::<IriSpec>(rec, r, &parts[1])
                    } else {
                        mutate::random_mut::<UriSpec>(rec, r, &parts[0])
                    }
                }
                "C11" => conv::random(rec, r, &parts),
                "C12" => builder::random(rec, r, &parts),
                "C13" => codec::random_enc(rec, r),
                "C14" => codec::random_dec(rec, r),
                "C15" | "C16" | "C17" => template::random(prop, rec, r),
                "C18" => eq::random(rec, r, &parts),
                "C19" => sink::random(rec, r, &parts),
                "C20" => plain::random(rec, r, &parts),
                _ => panic!("unknown property"),
            });
            rec.finish();
        }
        // replay MODULE EDGES OUTDIR: transitions emitted by a TLC run of the module
        #[cfg(feature = "std")]
        "replay" => {
            watchdog(30, a[4].to_string());
            let f: fn(&serde_json::Value) -> Result<(), String> = match a[2].as_str() {
                "MutateMC" => mutate::replay,
                "BuilderMC" => builder::replay,
                "TemplateMC" | "PrefixMC" => template::replay,
                "SinkMC" => sink::replay,
                "FaultMC" => fault::replay,
                "CodecMC" => codec::replay,
                _ => panic!("unknown module"),
            };
            let mut bad: Vec<String> = Vec::new();
            let mut n = 0;
            for line in std::fs::read_to_string(&a[3]).unwrap().lines() {
                n += 1;
                let mut v: serde_json::Value = serde_json::from_str(line).unwrap();
                beat(|| line.to_string());
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&v))).unwrap_or_else(|_| Err("panicked".into()));
                if let Err(e) = r {
                    v["why"] = format!("replayed transition: {e}").into();
                    bad.push(v.to_string());
                }
            }
            beat_done();
            bad.sort_by_key(|b| b.len());
            for b in bad.iter().take(3) {
                println!("DIFF {b}");
            }
            println!("SUMMARY {{\"replayed\":{n},\"differences\":{}}}", bad.len());
        }
        #[cfg(feature = "std")]
        "dfa" => dfa::main(&a[2], a[3] == "thorough", a[4].parse().unwrap(), &a[5], &a[6]),
        _ => panic!("unknown command"),
    }
}
