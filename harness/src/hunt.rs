//! Search for inputs that make the code do something new. What is found is recorded like everything else
//! and given to the specification; the search itself judges nothing.
use crate::core::*;
use std::time::{Duration, Instant};

struct Entry {
    tape: Vec<u64>,
    /// the features this entry was the first to show
    feats: Vec<u32>,
    used: u32,
}
/// Choices changed, removed, inserted, copied, taken over from another tape.
fn mutate(r: &mut Rng, t: &[u64], other: &[u64], dict: &[u64]) -> Vec<u64> {
    let mut v = t.to_vec();
    for _ in 0..1 + r.below(4) {
        let n = v.len();
        let at = r.below(n + 1);
        let val = match r.below(6) {
            0 if !dict.is_empty() => {
                let d = dict[r.below(dict.len())];
                match r.below(4) {
                    0 => d.saturating_sub(1),
                    1 => d + 1,
                    _ => d,
                }
            }
            1 => r.below(64) as u64,
            2 => r.below(0x110000) as u64,
            _ => r.next(),
        };
        match r.below(10) {
            0..=3 if at < n => v[at] = val,
            4 if at < n => v[at] = if r.chance(1, 2) { v[at].wrapping_add(1) } else { v[at].wrapping_sub(1) },
            5 => v.insert(at, val),
            6 if at < n => {
                let k = 1 + r.below((n - at).min(6));
                v.drain(at..at + k);
            }
            7 if n > 0 => {
                // copy a piece to elsewhere
                let from = r.below(n);
                let k = 1 + r.below((n - from).min(10));
                let p: Vec<u64> = v[from..from + k].to_vec();
                if r.chance(1, 2) {
                    v.splice(at..at, p);
                } else {
                    let e = (at + k).min(n);
                    v.splice(at..e, p);
                }
            }
            8 if !other.is_empty() => {
                let from = r.below(other.len());
                let k = 1 + r.below((other.len() - from).min(12));
                let e = (at + if r.chance(1, 2) { k } else { 0 }).min(n);
                v.splice(at..e, other[from..from + k].iter().copied());
            }
            9 if n > 0 => v.truncate(at),
            _ => {}
        }
    }
    v.truncate(1500);
    v
}
pub struct Limits {
    pub runs: usize,
    pub time: Duration,
    pub events: usize,
    /// the longest event text worth keeping
    pub size: usize,
}
/// `one` makes one random case from the choices it is given.
pub fn search(rec: &mut Rec, seed: u64, lim: &Limits, mut one: impl FnMut(&mut Rec, &mut Rng)) {
    let _ = covrt::entry();
    let t0 = Instant::now();
    let mut r = Rng::new(seed, 4242);
    let mut corpus: Vec<Entry> = Vec::new();
    // how often each feature was seen
    let ne = covrt::counters();
    let mut seen: Vec<u32> = vec![0; ne * 8 + covrt::CMPS];
    // how many recorded events took each edge
    let mut shown: Vec<u32> = vec![0; ne];
    let mut dict: Vec<u64> = Vec::new();
    let (mut first, mut more, mut panics): (Vec<String>, Vec<String>, Vec<String>) = Default::default();
    let mut runs = 0;
    let mut ran = 0;
    while runs < lim.runs && (runs % 64 != 0 || t0.elapsed() < lim.time) {
        if runs % 5000 == 0 {
            dict = covrt::constants();
        }
        runs += 1;
        let tape = if corpus.is_empty() || r.chance(1, 6) {
            Vec::new()
        } else {
            // of a few, the one with the rarest feature, or a recent one
            let n = corpus.len();
            let mut k = if r.chance(1, 3) { n - 1 - r.below(n.min(24)) } else { r.below(n) };
            for _ in 0..3 {
                let j = r.below(n);
                let rare = |e: &Entry| e.feats.iter().map(|f| seen[*f as usize]).min().unwrap_or(u32::MAX) as u64 + e.used as u64 * 4 + e.tape.len() as u64 / 2;
                if rare(&corpus[j]) < rare(&corpus[k]) {
                    k = j;
                }
            }
            corpus[k].used += 1;
            let o = r.below(n);
            mutate(&mut r, &corpus[k].tape, &corpus[o].tape, &dict)
        };
        let mut q = Rng::with_tape(tape, r.next());
        rec.hunt = Some(Hunt { lines: vec![], ran: false, panicked: false });
        one(rec, &mut q);
        let h = rec.hunt.take().unwrap();
        if !h.ran || h.lines.is_empty() {
            continue;
        }
        ran += 1;
        if h.lines.iter().map(|l| l.len()).sum::<usize>() > lim.size && !h.panicked {
            continue;
        }
        if h.panicked {
            if panics.len() < 20 {
                panics.extend(h.lines);
            }
            continue;
        }
        let mut new = Vec::new();
        let (mut by_edge, mut by_cmp) = (false, false);
        {
            covrt::features(|e, b| {
                let (f, is_edge) = match b {
                    Some(b) => (e * 8 + b as usize, true),
                    None => (ne * 8 + e, false),
                };
                let c = &mut seen[f];
                *c = c.saturating_add(1);
                if *c == 1 {
                    new.push(f as u32);
                    by_cmp |= !is_edge;
                }
                // several different runs for every edge, the first of which show it at all
                by_edge |= is_edge && (*c == 1 || shown[e] < 5);
            });
        }
        if by_edge {
            covrt::features(|e, b| {
                if b.is_some() {
                    shown[e] += 1
                }
            });
            first.extend(h.lines);
        } else if by_cmp {
            more.extend(h.lines);
        }
        if !new.is_empty() {
            corpus.push(Entry { tape: q.into_tape(), feats: new, used: 0 });
        }
    }
    let (f, m) = (first.len(), more.len());
    // the late finds are the unusual ones
    first.reverse();
    more.reverse();
    first.truncate(lim.events);
    more.truncate(lim.events - first.len());
    for l in panics.iter().chain(&first).chain(&more) {
        rec.put(l);
    }
    println!(
        "SEARCH runs {runs} with an event {ran} kept {} corpus {} features {} edges {} of {} mean tape {} constants {} first {f} more {m} in {:.1} s",
        rec.n,
        corpus.len(),
        seen.iter().filter(|x| **x > 0).count(),
        shown.iter().filter(|x| **x > 0).count(),
        ne,
        corpus.iter().map(|e| e.tape.len()).sum::<usize>() / corpus.len().max(1),
        dict.len(),
        t0.elapsed().as_secs_f64()
    );
}
