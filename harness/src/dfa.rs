//! Drives the validators with words generated from the automata TLC derived from the ABNF.
use crate::core::*;
use crate::iri::Fam;
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::types::*;
use iri_string::validate as v;
use std::collections::{HashMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

pub struct Dfa {
    pub name: String,
    pub acc: Vec<bool>,
    pub d: Vec<Vec<u32>>,
}
pub struct Autos {
    pub reps: Vec<u32>,
    pub bounds: Vec<(u32, usize)>,
    /// intervals of each class
    pub ivs: Vec<Vec<(u32, u32)>>,
    pub rules: Vec<Dfa>,
}
impl Autos {
    pub fn load(p: &str) -> Autos {
        let t = std::fs::read_to_string(p).unwrap();
        let mut it = t.lines();
        let reps: Vec<u32> = it.next().unwrap()[5..].split(' ').map(|x| x.parse().unwrap()).collect();
        let bounds: Vec<(u32, usize)> = it.next().unwrap()[7..]
            .split(' ')
            .map(|x| {
                let (a, b) = x.split_once(':').unwrap();
                (a.parse().unwrap(), b.parse().unwrap())
            })
            .collect();
        let mut ivs = vec![Vec::new(); reps.len()];
        for (i, &(b, k)) in bounds.iter().enumerate() {
            let e = if i + 1 < bounds.len() { bounds[i + 1].0 - 1 } else { 0x10ffff };
            ivs[k].push((b, e));
        }
        let mut rules = Vec::new();
        while let Some(l) = it.next() {
            let mut p = l.split(' ');
            assert_eq!(p.next(), Some("rule"));
            let name = p.next().unwrap().to_string();
            let n: usize = p.next().unwrap().parse().unwrap();
            let (mut acc, mut d) = (Vec::new(), Vec::new());
            for _ in 0..n {
                let mut q = it.next().unwrap().split(' ');
                acc.push(q.next().unwrap() == "1");
                d.push(q.map(|x| x.parse().unwrap()).collect());
            }
            rules.push(minimize(Dfa { name, acc, d }));
        }
        Autos { reps, bounds, ivs, rules }
    }
    pub fn class(&self, c: char) -> usize {
        let i = self.bounds.partition_point(|&(b, _)| b <= c as u32);
        self.bounds[i - 1].1
    }
    pub fn rule(&self, n: &str) -> &Dfa {
        self.rules.iter().find(|r| r.name == n).unwrap()
    }
    pub fn member(&self, k: usize, r: &mut Rng) -> char {
        for _ in 0..50 {
            let (a, b) = self.ivs[k][r.below(self.ivs[k].len())];
            let c = match r.below(4) {
                0 => a,
                1 => b,
                _ => a + r.below((b - a + 1) as usize) as u32,
            };
            if let Some(c) = char::from_u32(c) {
                return c;
            }
        }
        char::from_u32(self.reps[k]).unwrap_or('\u{0}')
    }
    pub fn run(&self, d: &Dfa, s: &str) -> bool {
        let mut q = 0u32;
        for c in s.chars() {
            q = d.d[q as usize][self.class(c)];
        }
        d.acc[q as usize]
    }
}
/// Moore's algorithm; state 0 stays the start state.
fn minimize(a: Dfa) -> Dfa {
    let n = a.acc.len();
    let mut blk: Vec<u32> = a.acc.iter().map(|&x| x as u32).collect();
    let mut cnt = 0;
    loop {
        let mut m: HashMap<Vec<u32>, u32> = HashMap::new();
        let mut nb = vec![0; n];
        for q in 0..n {
            let mut k = vec![blk[q]];
            k.extend(a.d[q].iter().map(|&t| blk[t as usize]));
            let l = m.len() as u32;
            nb[q] = *m.entry(k).or_insert(l);
        }
        blk = nb;
        if m.len() == cnt {
            break;
        }
        cnt = m.len();
    }
    let mut acc = vec![false; cnt];
    let mut d = vec![Vec::new(); cnt];
    for q in 0..n {
        let b = blk[q] as usize;
        acc[b] = a.acc[q];
        if d[b].is_empty() {
            d[b] = a.d[q].iter().map(|&t| blk[t as usize]).collect();
        }
    }
    assert_eq!(blk[0], 0);
    Dfa { name: a.name, acc, d }
}
impl Dfa {
    /// the classes that do not lead to the dead state
    pub fn live(&self) -> Vec<Vec<usize>> {
        let dead = self.finish().iter().position(|f| f.is_none());
        (0..self.acc.len()).map(|q| (0..self.d[q].len()).filter(|&k| Some(self.d[q][k] as usize) != dead).collect()).collect()
    }
    /// shortest class words leading from the start to every state
    fn access(&self) -> Vec<Vec<usize>> {
        let n = self.acc.len();
        let mut w: Vec<Option<Vec<usize>>> = vec![None; n];
        w[0] = Some(vec![]);
        let mut q = VecDeque::from([0usize]);
        while let Some(s) = q.pop_front() {
            for (c, &t) in self.d[s].iter().enumerate() {
                if w[t as usize].is_none() {
                    let mut x = w[s].clone().unwrap();
                    x.push(c);
                    w[t as usize] = Some(x);
                    q.push_back(t as usize);
                }
            }
        }
        w.into_iter().map(|x| x.unwrap()).collect()
    }
    /// shortest class word leading from each state to acceptance (None for the dead state)
    fn finish(&self) -> Vec<Option<Vec<usize>>> {
        let n = self.acc.len();
        let mut pre: Vec<Vec<(usize, usize)>> = vec![Vec::new(); n];
        for s in 0..n {
            let mut seen = std::collections::HashSet::new();
            for (c, &t) in self.d[s].iter().enumerate() {
                if seen.insert(t) {
                    pre[t as usize].push((s, c));
                }
            }
        }
        let mut w: Vec<Option<Vec<usize>>> = vec![None; n];
        let mut q = VecDeque::new();
        for s in 0..n {
            if self.acc[s] {
                w[s] = Some(vec![]);
                q.push_back(s);
            }
        }
        while let Some(t) = q.pop_front() {
            for &(s, c) in &pre[t] {
                if w[s].is_none() {
                    let mut x = vec![c];
                    x.extend(w[t].as_ref().unwrap());
                    w[s] = Some(x);
                    q.push_back(s);
                }
            }
        }
        w
    }
    /// a set of words that distinguishes every two states
    fn distinguishers(&self) -> Vec<Vec<usize>> {
        let n = self.acc.len();
        let end = |mut q: usize, w: &[usize]| {
            for &c in w {
                q = self.d[q][c] as usize;
            }
            self.acc[q]
        };
        let mut ws: Vec<Vec<usize>> = vec![vec![]];
        loop {
            let mut m: HashMap<Vec<bool>, usize> = HashMap::new();
            let mut clash = None;
            for q in 0..n {
                let sig: Vec<bool> = ws.iter().map(|w| end(q, w)).collect();
                if let Some(&p) = m.get(&sig) {
                    clash = Some((p, q));
                    break;
                }
                m.insert(sig, q);
            }
            let Some((a, b)) = clash else { return ws };
            // breadth-first search for a distinguishing word
            let mut seen = std::collections::HashSet::from([(a, b)]);
            let mut q = VecDeque::from([(a, b, Vec::new())]);
            'f: while let Some((x, y, w)) = q.pop_front() {
                for c in 0..self.d[x].len() {
                    let (u, v) = (self.d[x][c] as usize, self.d[y][c] as usize);
                    let mut w2: Vec<usize> = w.clone();
                    w2.push(c);
                    if self.acc[u] != self.acc[v] {
                        ws.push(w2);
                        break 'f;
                    }
                    if u != v && seen.insert((u, v)) {
                        q.push_back((u, v, w2));
                    }
                }
            }
        }
    }
}

// ---- the implementation's verdicts ------------------------------------------
type Api = (&'static str, fn(&str) -> bool, bool); // name, verdict, is cheap (used for every word)
macro_rules! types_api {
    ($v:expr, $b:ident, $o:ident, $s:ident) => {
        vec![
            ("validate", |s| $v(s).is_ok(), true),
            ("new", |s| $b::<$s>::new(s).map(|x| assert_eq!(x.as_str(), s)).is_ok(), true),
            ("<&T>::try_from(&str)", |s| <&$b<$s>>::try_from(s).is_ok(), false),
            ("<&T>::try_from(&[u8])", |s| <&$b<$s>>::try_from(s.as_bytes()).is_ok(), false),
            ("<&T>::try_from(&[u8]) with an invalid byte", |s| { let mut b = s.as_bytes().to_vec(); b.push(0xff); !<&$b<$s>>::try_from(&b[..]).is_ok() && $b::<$s>::new(s).is_ok() }, false),
            ("T::try_from(&str)", |s| $o::<$s>::try_from(s).is_ok(), false),
            ("T::try_from(&[u8])", |s| $o::<$s>::try_from(s.as_bytes()).is_ok(), false),
            ("T::try_from(String)", |s| match $o::<$s>::try_from(s.to_string()) { Ok(x) => { assert_eq!(x.as_str(), s); true } Err(e) => { assert_eq!(e.into_source(), s); false } }, false),
            ("from_str", |s| $o::<$s>::from_str(s).is_ok(), false),
        ]
    };
}
fn apis<S: Fam + 'static>(rule: &str) -> Vec<Api> {
    match (S::IRI, rule) {
        (false, "iri") => types_api!(v::iri::<UriSpec>, RiStr, RiString, UriSpec),
        (true, "iri") => types_api!(v::iri::<IriSpec>, RiStr, RiString, IriSpec),
        (false, "reference") => types_api!(v::iri_reference::<UriSpec>, RiReferenceStr, RiReferenceString, UriSpec),
        (true, "reference") => types_api!(v::iri_reference::<IriSpec>, RiReferenceStr, RiReferenceString, IriSpec),
        (false, "absolute") => types_api!(v::absolute_iri::<UriSpec>, RiAbsoluteStr, RiAbsoluteString, UriSpec),
        (true, "absolute") => types_api!(v::absolute_iri::<IriSpec>, RiAbsoluteStr, RiAbsoluteString, IriSpec),
        (false, "relative") => types_api!(v::relative_ref::<UriSpec>, RiRelativeStr, RiRelativeString, UriSpec),
        (true, "relative") => types_api!(v::relative_ref::<IriSpec>, RiRelativeStr, RiRelativeString, IriSpec),
        (false, "query") => query_apis::<UriSpec>(),
        (true, "query") => query_apis::<IriSpec>(),
        (false, "fragment") => fragment_apis::<UriSpec>(),
        (true, "fragment") => fragment_apis::<IriSpec>(),
        (_, "authority") => vec![("validate::authority", |s| v::authority::<S>(s).is_ok(), true)],
        (_, "userinfo") => vec![("validate::userinfo", |s| v::userinfo::<S>(s).is_ok(), true)],
        (_, "host") => vec![("validate::host", |s| v::host::<S>(s).is_ok(), true)],
        (_, "regname") => vec![("validate::reg_name", |s| v::reg_name::<S>(s).is_ok(), true)],
        (_, "path") => vec![("validate::path", |s| v::path::<S>(s).is_ok(), true)],
        (_, "segment") => vec![("validate::path_segment", |s| v::path_segment::<S>(s).is_ok(), true)],
        (_, "scheme") => vec![("validate::scheme", |s| v::scheme(s).is_ok(), true)],
        (_, "port") => vec![("validate::port", |s| v::port(s).is_ok(), true)],
        (_, "template") => vec![
            ("UriTemplateStr::new", |s| iri_string::template::UriTemplateStr::new(s).is_ok(), true),
            ("<&UriTemplateStr>::try_from(&str)", |s| <&iri_string::template::UriTemplateStr>::try_from(s).is_ok(), false),
            ("<&UriTemplateStr>::try_from(&[u8])", |s| <&iri_string::template::UriTemplateStr>::try_from(s.as_bytes()).is_ok(), false),
            ("UriTemplateString::try_from(String)", |s| match iri_string::template::UriTemplateString::try_from(s.to_string()) { Ok(x) => { assert_eq!(x.as_str(), s); true } Err(e) => { assert_eq!(e.into_source(), s); false } }, false),
            ("UriTemplateString::try_from(&str)", |s| iri_string::template::UriTemplateString::try_from(s).is_ok(), false),
            ("UriTemplateString::from_str", |s| iri_string::template::UriTemplateString::from_str(s).is_ok(), false),
        ],
        (_, "varname") => vec![("VarName::new", |s| iri_string::template::context::VarName::new(s).map(|x| assert_eq!(x.as_str(), s)).is_ok(), true)],
        _ => panic!("no api for {rule}"),
    }
}
fn query_apis<S: Fam + 'static>() -> Vec<Api> {
    let mut a: Vec<Api> = match S::IRI {
        false => types_api!(v::query::<UriSpec>, RiQueryStr, RiQueryString, UriSpec),
        true => types_api!(v::query::<IriSpec>, RiQueryStr, RiQueryString, IriSpec),
    };
    a.push(("RiQueryStr::from_prefixed(\"?\" + s)", |s| RiQueryStr::<S>::from_prefixed(&format!("?{s}")).map(|x| assert_eq!(x.as_str(), s)).is_ok(), false));
    // without the prefix it must fail, whatever the rest
    a.push((
        "RiQueryStr::from_prefixed(s) only with the prefix",
        |s| match RiQueryStr::<S>::from_prefixed(s) {
            Ok(x) => s.starts_with('?') && x.as_str() == &s[1..] && v::query::<S>(s).is_ok(),
            Err(_) => v::query::<S>(s).is_ok() && !(s.starts_with('?') && v::query::<S>(&s[1..]).is_ok()),
        },
        false,
    ));
    a
}
fn fragment_apis<S: Fam + 'static>() -> Vec<Api> {
    let mut a: Vec<Api> = match S::IRI {
        false => types_api!(v::fragment::<UriSpec>, RiFragmentStr, RiFragmentString, UriSpec),
        true => types_api!(v::fragment::<IriSpec>, RiFragmentStr, RiFragmentString, IriSpec),
    };
    a.push(("RiFragmentStr::from_prefixed(\"#\" + s)", |s| RiFragmentStr::<S>::from_prefixed(&format!("#{s}")).map(|x| assert_eq!(x.as_str(), s)).is_ok(), false));
    a.push((
        "RiFragmentStr::from_prefixed(s) only with the prefix",
        |s| match RiFragmentStr::<S>::from_prefixed(s) {
            // a fragment never starts with '#', so a success on an s accepted by the automaton is wrong
            Ok(_) => false,
            Err(_) => v::fragment::<S>(s).is_ok(),
        },
        false,
    ));
    a
}

/// Words the automaton accepts or rejects, each put to every API.
struct Job<'a> {
    au: &'a Autos,
    d: &'a Dfa,
    apis: Vec<Api>,
    slot: usize,
    words: u64,
    calls: u64,
    accepted: u64,
    diffs: Vec<(String, String)>,
}
static BEATS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static CURS: [Mutex<String>; 64] = [const { Mutex::new(String::new()) }; 64];

impl<'a> Job<'a> {
    fn diff(&mut self, api: &str, s: &str, want: bool, why: &str) {
        let l = J::op("accept").t("rule", &self.d.name).raw("api", &serde_json::to_string(api).unwrap()).s("s", s).f("want", want).raw("why", &serde_json::to_string(why).unwrap()).end();
        self.diffs.push((s.to_string(), l));
    }
    #[inline]
    fn word(&mut self, s: &str, want: bool, all: bool) {
        self.words += 1;
        self.accepted += want as u64;
        if self.diffs.len() > 200 {
            return;
        }
        // odd: a word is being processed
        BEATS[self.slot].fetch_add(1, Ordering::Relaxed);
        {
            let mut g = CURS[self.slot].lock().unwrap();
            g.clear();
            g.push_str(s);
        }
        for i in 0..self.apis.len() {
            let (name, f, cheap) = self.apis[i];
            if !(cheap || all) {
                continue;
            }
            self.calls += 1;
            match catch_unwind(AssertUnwindSafe(|| f(s))) {
                Ok(g) => {
                    if g != want {
                        self.diff(name, s, want, if want { "rejected, but the grammar derives it" } else { "accepted, but the grammar does not derive it" });
                    }
                }
                Err(_) => self.diff(name, s, want, "panicked (or returned another text)"),
            }
        }
        BEATS[self.slot].fetch_add(1, Ordering::Relaxed);
    }
    fn concrete(&mut self, w: &[usize], r: &mut Rng, rep: bool) -> (String, u32) {
        let mut s = String::new();
        let mut q = 0;
        for &k in w {
            let c = if rep { char::from_u32(self.au.reps[k]).unwrap_or('\u{e000}') } else { self.au.member(k, r) };
            s.push(c);
            q = self.d.d[q as usize][self.au.class(c)];
        }
        (s, q)
    }
    /// every string over the alphabet up to the length, carrying the state along
    fn exhaustive(&mut self, alphabet: &[(char, usize)], left: usize, s: &mut String, q: u32) {
        let want = self.d.acc[q as usize];
        self.word(s, want, s.len() <= 3);
        if left == 0 {
            return;
        }
        for &(c, k) in alphabet {
            s.push(c);
            let t = self.d.d[q as usize][k];
            self.exhaustive(alphabet, left - 1, s, t);
            s.pop();
        }
    }
}

fn alphabet(rule: &str) -> (&'static str, usize, usize) {
    // characters, length quick, length thorough
    match rule {
        "template" => ("{}a,:*1.%+!\"", 6, 7),
        "varname" => ("a.%1_:-\u{e9}", 7, 8),
        "scheme" => ("aZ1+-.:_%", 6, 7),
        "port" => ("09a:-\u{663}", 7, 8),
        "authority" | "host" => ("a1:@[]%.v\u{e9}", 6, 8),
        "userinfo" | "regname" => ("a1:@[%/F\u{e9}", 6, 8),
        "path" | "segment" | "query" | "fragment" => ("a:/?#%1@[\u{e000}", 6, 8),
        _ => ("a:/?#@[]%1", 7, 8),
    }
}

/// dfa PROP TIER SEED FILE OUT
pub fn main(prop: &str, thorough: bool, seed: u64, file: &str, _out: &str) {
    let au = Autos::load(file);
    let names: Vec<String> = au.rules.iter().map(|r| r.name.clone()).filter(|n| wanted(prop, n)).collect();
    let next = AtomicUsize::new(0);
    let results = Mutex::new(Vec::new());
    std::thread::spawn(|| {
        let mut last = [0u64; 64];
        let mut idle = [0; 64];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            for i in 0..64 {
                let b = BEATS[i].load(Ordering::Relaxed);
                if b == last[i] && b % 2 == 1 {
                    idle[i] += 1;
                    if idle[i] > 60 {
                        println!("HANG validating {:?}", CURS[i].lock().unwrap());
                        std::process::exit(7);
                    }
                } else {
                    idle[i] = 0;
                    last[i] = b;
                }
            }
        }
    });
    // (rule, part) pairs, so that the work spreads over the cores
    let parts = 4;
    std::thread::scope(|sc| {
        for slot in 0..8 {
            let (au, names, next, results) = (&au, &names, &next, &results);
            sc.spawn(move || loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= names.len() * parts {
                    break;
                }
                let (name, part) = (&names[k / parts], k % parts);
                let d = au.rule(name);
                let (sp, rule) = name.split_once('/').unwrap();
                let apis = if sp == "iri" { apis::<IriSpec>(rule) } else { apis::<UriSpec>(rule) };
                let mut j = Job { au, d, apis, slot, words: 0, calls: 0, accepted: 0, diffs: vec![] };
                let mut r = Rng::new(seed, 1000 + k as u64);
                drive(&mut j, rule, part, parts, thorough, &mut r);
                j.diffs.sort_by_key(|d| (d.0.len(), d.0.clone()));
                j.diffs.truncate(3);
                results.lock().unwrap().push((name.clone(), d.acc.len(), j.words, j.calls, j.accepted, j.diffs));
            });
        }
    });
    let res = results.into_inner().unwrap();
    let mut per: std::collections::BTreeMap<String, (usize, u64, u64, u64)> = Default::default();
    for (n, states, w, c, a, diffs) in &res {
        let e = per.entry(n.clone()).or_default();
        e.0 = *states;
        e.1 += w;
        e.2 += c;
        e.3 += a;
        for d in diffs {
            println!("DIFF {}", d.1);
        }
    }
    let tot: u64 = per.values().map(|x| x.1).sum();
    let calls: u64 = per.values().map(|x| x.2).sum();
    let rules: Vec<String> = per.iter().map(|(n, x)| format!("\"{}\":{{\"minimal_states\":{},\"words\":{},\"calls\":{},\"accepted\":{}}}", n, x.0, x.1, x.2, x.3)).collect();
    println!("SUMMARY {{\"words\":{},\"calls\":{},\"rules\":{{{}}}}}", tot, calls, rules.join(","));
}
fn wanted(prop: &str, n: &str) -> bool {
    let r = n.split_once('/').unwrap().1;
    match prop {
        "C01" => matches!(r, "iri" | "reference" | "absolute" | "relative"),
        "C02" => matches!(r, "authority" | "userinfo" | "host" | "regname" | "path" | "segment" | "query" | "fragment" | "scheme" | "port"),
        _ => matches!(r, "template" | "varname"),
    }
}
fn drive(j: &mut Job, rule: &str, part: usize, parts: usize, thorough: bool, r: &mut Rng) {
    let au = j.au;
    let d = j.d;
    // 1. exhaustive short strings
    let (chars, lq, lt) = alphabet(rule);
    let alpha: Vec<(char, usize)> = chars.chars().map(|c| (c, au.class(c))).collect();
    let len = if thorough { lt } else { lq } - cfg!(feature = "memchr") as usize;
    for (i, &(c, k)) in alpha.iter().enumerate() {
        if i % parts == part {
            j.exhaustive(&alpha, len - 1, &mut c.to_string(), d.d[0][k]);
        }
    }
    j.word("", d.acc[0], true);
    // 2. transition cover with distinguishing suffixes (W-method)
    let access = d.access();
    let finish = d.finish();
    let w = d.distinguishers();
    let n = d.acc.len();
    let budget = if thorough { 40_000_000 } else { 4_000_000 } / parts;
    let full = n * au.reps.len() * w.len() / parts;
    let keep = (budget as f64 / full as f64).min(1.0);
    for q in 0..n {
        if q % parts != part {
            continue;
        }
        for k in 0..au.reps.len() {
            let mut word = access[q].clone();
            word.push(k);
            let t = d.d[q][k] as usize;
            // always: straight to acceptance from the target, and from the source (a deviation there is otherwise valid)
            for fin in [&finish[t], &finish[q]] {
                if let Some(f) = fin {
                    let mut x = word.clone();
                    x.extend(f);
                    let (s, e) = j.concrete(&x, r, r_chance(q, k));
                    j.word(&s, d.acc[e as usize], q % 7 == 0 || n < 60);
                }
            }
            for suf in &w {
                if keep < 1.0 && (r.next() >> 11) as f64 / ((1u64 << 53) as f64) > keep {
                    continue;
                }
                let mut x = word.clone();
                x.extend(suf);
                let (s, e) = j.concrete(&x, r, false);
                j.word(&s, d.acc[e as usize], false);
            }
        }
    }
    // 3. every code point: in one state per distinct behaviour (set of live classes), class borders in all states
    let dead = finish.iter().position(|f| f.is_none());
    let mut sigs: HashMap<Vec<bool>, usize> = HashMap::new();
    for q in 0..n {
        if Some(q) == dead {
            continue;
        }
        let sig: Vec<bool> = d.d[q].iter().map(|&t| Some(t as usize) == dead).collect();
        let m = sigs.len();
        let cnt = sigs.entry(sig).or_insert(0);
        let _ = m;
        let all = *cnt < if thorough { 3 } else { 1 };
        *cnt += 1;
        if q % parts != part {
            continue;
        }
        let (pre, q2) = j.concrete(&access[q], r, true);
        if q2 as usize != q {
            continue;
        }
        let fins: Vec<Option<String>> = (0..au.reps.len())
            .map(|k| {
                let t = d.d[q][k] as usize;
                finish[t].as_ref().or(finish[q].as_ref()).map(|f| f.iter().map(|&k| char::from_u32(au.reps[k]).unwrap_or('\u{e000}')).collect())
            })
            .collect();
        let one = |j: &mut Job, c: u32| {
            if let Some(c) = char::from_u32(c) {
                let k = au.class(c);
                if let Some(f) = &fins[k] {
                    let mut s = pre.clone();
                    s.push(c);
                    s.push_str(f);
                    let mut t = d.d[q][k];
                    for c in f.chars() {
                        t = d.d[t as usize][au.class(c)];
                    }
                    j.word(&s, d.acc[t as usize], false);
                }
            }
        };
        if all {
            for c in 0..0x110000u32 {
                // the astral planes are uniform; visit them sparsely in the quick tier except near borders
                if thorough || c < 0x3100 || c % 61 == 0 || (c & 0xffff) >= 0xfff0 || (c & 0xffff) < 0x10 || (0xd700..0x10010).contains(&c) {
                    one(j, c);
                }
            }
        } else {
            for &(b, _) in &au.bounds {
                for c in b.saturating_sub(2)..=b + 1 {
                    one(j, c);
                }
            }
            for c in 0..0xc0 {
                one(j, c);
            }
        }
    }
    // 4. long random words, some damaged
    let live = d.live();
    for i in 0..(if thorough { 10_000_000 } else { 600_000 }) / parts {
        let s = walk(au, d, &live, &finish, r, if i % 10 == 0 { 120 } else { 30 });
        let want = au.run(d, &s);
        j.word(&s, want, i % 4 == 0);
    }
    // a cycle of the automaton many times over
    for i in 0..(if thorough { 120_000 } else { 6_000 }) / parts {
        let s = pumped(au, d, &live, &finish, r, i % 16 == 0);
        let want = au.run(d, &s);
        j.word(&s, want, i % 2 == 0);
    }
    // 5. words put together from rich components, some edited
    if rule != "template" && rule != "varname" {
        let p = crate::gen::Parts::new(d.name.starts_with("iri/"));
        for i in 0..(if thorough { 5_000_000 } else { 300_000 }) / parts {
            let s = component(&p, rule, r);
            let want = au.run(d, &s);
            j.word(&s, want, i % 4 == 0);
        }
    }
}
/// A word of the rule (nearly), put together from components.
fn component(p: &crate::gen::Parts, rule: &str, r: &mut Rng) -> String {
    let s = match rule {
        "authority" => p.authority(r),
        "userinfo" => p.user(r),
        "host" | "regname" => p.host(r),
        "path" => p.path(r, 4),
        "segment" => p.path(r, 1),
        "query" => p.query(r),
        "fragment" => p.frag(r),
        "scheme" => p.scheme(r),
        "port" => p.port(r),
        _ => {
            let scheme = if rule == "relative" { r.chance(1, 12) } else { !r.chance(1, 12) };
            p.reference(r, scheme, 4)
        }
    };
    if r.chance(1, 4) {
        crate::gen::edit(r, &s, p.iri)
    } else {
        s
    }
}
/// A random walk through the automaton, completed to an accepted word, perhaps damaged.
fn walk(au: &Autos, d: &Dfa, live: &[Vec<usize>], finish: &[Option<Vec<usize>>], r: &mut Rng, max: usize) -> String {
    let len = r.size(max - 1);
    let mut q = 0usize;
    let mut cs: Vec<char> = Vec::new();
    for _ in 0..len {
        if live[q].is_empty() {
            break;
        }
        // prefer moving on to a different state now and then
        let mut k = live[q][r.below(live[q].len())];
        if r.chance(1, 2) {
            for _ in 0..6 {
                if d.d[q][k] as usize != q {
                    break;
                }
                k = live[q][r.below(live[q].len())];
            }
        }
        let c = au.member(k, r);
        cs.push(c);
        q = d.d[q][au.class(c)] as usize;
    }
    if let Some(f) = &finish[q] {
        for &k in f {
            cs.push(au.member(k, r));
        }
    }
    if r.chance(1, 2) && !cs.is_empty() {
        let p = r.below(cs.len());
        match r.below(4) {
            0 => {
                cs.remove(p);
            }
            1 => {
                let c = cs[r.below(cs.len())];
                cs.insert(p, c)
            }
            2 => cs[p] = crate::gen::rand_char(r),
            _ => {
                let o = r.below(cs.len());
                cs.swap(p, o)
            }
        }
    }
    cs.iter().collect()
}
/// A walk in which one cycle is taken a great many times, completed to an accepted word, perhaps damaged.
fn pumped(au: &Autos, d: &Dfa, live: &[Vec<usize>], finish: &[Option<Vec<usize>>], r: &mut Rng, huge: bool) -> String {
    let mut q = 0usize;
    let mut cs: Vec<char> = Vec::new();
    // the states passed, with the length of the word there
    let mut at: Vec<(usize, usize)> = Vec::new();
    let want = 1 + r.below(40);
    for i in 0..200 {
        if i >= want {
            if let Some(&(_, from)) = at.iter().rev().find(|x| x.0 == q) {
                let n = if huge { [5000, 16384, 32768, 65530, 65536, 65540, 70000][r.below(7)] } else { [100, 127, 128, 255, 256, 257, 300, 511, 513, 1024, 2049, 4097][r.below(12)] };
                let cycle: Vec<char> = cs[from..].to_vec();
                let n = n + r.below(3);
                while cs.len() < n {
                    cs.extend(&cycle);
                }
                break;
            }
        }
        if live[q].is_empty() {
            break;
        }
        at.push((q, cs.len()));
        let k = live[q][r.below(live[q].len())];
        let c = au.member(k, r);
        cs.push(c);
        q = d.d[q][au.class(c)] as usize;
    }
    if r.chance(1, 4) {
        let p = cs.len() - r.below(cs.len().min(12) + 1);
        cs.insert(p, crate::gen::rand_char(r));
        return cs.iter().collect();
    }
    if r.chance(1, 2) {
        // some more steps
        for _ in 0..r.below(8) {
            if live[q].is_empty() {
                break;
            }
            let k = live[q][r.below(live[q].len())];
            let c = au.member(k, r);
            cs.push(c);
            q = d.d[q][au.class(c)] as usize;
        }
    }
    if let Some(f) = &finish[q] {
        for &k in f {
            cs.push(au.member(k, r));
        }
    }
    cs.iter().collect()
}
/// Searches for words that make the validators do something new; the automaton says what they have to answer.
#[cfg(feature = "cov")]
pub fn hunt(rec: &mut Rec, prop: &str, seed: u64, shard: usize, lim: &crate::hunt::Limits, file: &str) {
    let au = Autos::load(file);
    struct Rule<'a> {
        d: &'a Dfa,
        apis: Vec<Api>,
        live: Vec<Vec<usize>>,
        finish: Vec<Option<Vec<usize>>>,
        iri: usize,
    }
    let all: Vec<&Dfa> = au.rules.iter().filter(|r| wanted(prop, &r.name)).collect();
    let n = all.len();
    // few rules per shard, so that each is searched deeply
    let mine = (0..n).filter(|k| k % 8 == shard % 8 || n < 8 && k % n == shard % n);
    let rules: Vec<Rule> = mine
        .map(|k| {
            let d = all[k];
            let (sp, rule) = d.name.split_once('/').unwrap();
            Rule { d, apis: if sp == "iri" { apis::<IriSpec>(rule) } else { apis::<UriSpec>(rule) }, live: d.live(), finish: d.finish(), iri: (sp == "iri") as usize }
        })
        .collect();
    let parts = [crate::gen::Parts::new(false), crate::gen::Parts::new(true)];
    let mut diffs: Vec<(usize, String)> = Vec::new();
    let (mut words, mut calls, mut accepted) = (0u64, 0u64, 0u64);
    crate::hunt::search(rec, seed, lim, |rec, r| {
        let u = &rules[r.below(rules.len())];
        let rule = u.d.name.split_once('/').unwrap().1;
        let s = match r.below(4) {
            0 if rule == "template" => crate::template::rand_text(r),
            0 | 1 if !matches!(rule, "template" | "varname") => component(&parts[u.iri], rule, r),
            _ => walk(&au, u.d, &u.live, &u.finish, r, 40),
        };
        let want = au.run(u.d, &s);
        words += 1;
        accepted += want as u64;
        let every = r.chance(1, 8);
        let mut at = 0;
        let mut got: Option<bool> = None;
        rec.case(
            || format!("{} {s:?}", u.d.name),
            || {
                for (i, a) in u.apis.iter().enumerate() {
                    if a.2 || every {
                        at = i;
                        calls += 1;
                        let g = a.1(&s);
                        if g != want {
                            got = Some(g);
                            break;
                        }
                    }
                }
                at = usize::MAX;
                Some(String::from("{\"op\":\"word\"}"))
            },
        );
        if got.is_some() || at != usize::MAX {
            // once more, to see which (a panic leaves `at` where it was)
            let name = u.apis.iter().find(|a| catch_unwind(AssertUnwindSafe(|| a.1(&s))).map(|g| g != want).unwrap_or(true)).map(|a| a.0).unwrap_or("?");
            let why = match got {
                Some(true) => "accepted, but the grammar does not derive it",
                Some(false) => "rejected, but the grammar derives it",
                None => "panicked (or returned another text)",
            };
            diffs.push((s.len(), J::op("accept").t("rule", &u.d.name).raw("api", &serde_json::to_string(name).unwrap()).s("s", &s).f("want", want).raw("why", &serde_json::to_string(why).unwrap()).end()));
            if diffs.len() > 50 {
                diffs.sort();
                diffs.truncate(10);
            }
        }
    });
    diffs.sort();
    for d in diffs.iter().take(3) {
        println!("DIFF {}", d.1);
    }
    println!("WORDS {{\"words\":{words},\"calls\":{calls},\"accepted\":{accepted}}}");
}
fn r_chance(q: usize, k: usize) -> bool {
    (q + k) % 3 == 0
}
