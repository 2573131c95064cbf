//! Shared machinery: event writing, panic capture, watchdog, PRNG.
use std::collections::HashSet;
use std::fmt::Write as _;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Duration;

/// Random choices; with a tape, the choices can be read back, changed and replayed.
pub struct Rng {
    s: u64,
    tape: Option<Vec<u64>>,
    pos: usize,
}
impl Rng {
    pub fn new(seed: u64, salt: u64) -> Self {
        let mut r = Rng { s: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ salt.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567, tape: None, pos: 0 };
        for _ in 0..8 {
            r.next();
        }
        r
    }
    /// Takes the choices from the tape; once it is used up, chooses freely and extends the tape.
    #[cfg(feature = "cov")]
    pub fn with_tape(tape: Vec<u64>, seed: u64) -> Self {
        let mut r = Rng::new(seed, 77);
        r.tape = Some(tape);
        r
    }
    /// The choices made.
    #[cfg(feature = "cov")]
    pub fn into_tape(self) -> Vec<u64> {
        let mut t = self.tape.unwrap();
        t.truncate(self.pos);
        t
    }
    pub fn next(&mut self) -> u64 {
        if let Some(t) = &self.tape {
            if let Some(v) = t.get(self.pos) {
                self.pos += 1;
                return *v;
            }
        }
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        if let Some(t) = &mut self.tape {
            t.push(z);
            self.pos += 1;
        }
        z
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T: ?Sized>(&mut self, v: &[&'a T]) -> &'a T {
        v[self.below(v.len())]
    }
    /// A number of things: mostly at most `small`, now and then up to a dozen more.
    pub fn count(&mut self, small: usize) -> usize {
        let n = if self.chance(1, 7) { small + 12 } else { small };
        self.below(n + 1)
    }
    /// Rarely, and a limited number of times, a length near those at which a count kept in a byte or a fixed
    /// buffer goes wrong. Never on a tape: the search keeps small inputs only.
    pub fn long(&mut self) -> Option<usize> {
        static LEFT: AtomicUsize = AtomicUsize::new(72);
        if self.tape.is_some() || !self.chance(1, 250) || LEFT.load(Ordering::Relaxed) == 0 {
            return None;
        }
        let left = LEFT.fetch_sub(1, Ordering::Relaxed);
        const N: &[usize] = &[100, 127, 128, 129, 200, 253, 254, 255, 256, 257, 258, 300, 510, 511, 512, 513];
        const M: &[usize] = &[600, 1022, 1023, 1024, 1025, 1500, 2047, 2048, 2049];
        const H: &[usize] = &[65_534, 65_535, 65_536, 65_537, 65_538, 66_000];
        if left % 12 == 7 {
            return Some(H[self.below(H.len())]);
        }
        Some(if left % 9 == 0 { M[self.below(M.len())] } else { N[self.below(N.len())] })
    }
    /// A size: mostly at most `small`, rarely larger; a small choice on the tape is taken as it is.
    pub fn size(&mut self, small: usize) -> usize {
        let v = self.next();
        if v < 300 {
            v as usize
        } else if v % 97 == 0 {
            (v >> 20) as usize % 140
        } else {
            (v >> 20) as usize % (small + 1)
        }
    }
}

// ---- JSON event text -------------------------------------------------------
pub struct J(pub String);
impl J {
    pub fn op(op: &str) -> J {
        J(format!("{{\"op\":\"{}\"", op))
    }
    pub fn s(mut self, k: &str, v: &str) -> J {
        let _ = write!(self.0, ",\"{}\":", k);
        cps(&mut self.0, v);
        self
    }
    pub fn b(mut self, k: &str, v: &[u8]) -> J {
        let _ = write!(self.0, ",\"{}\":", k);
        bytes(&mut self.0, v);
        self
    }
    pub fn o(mut self, k: &str, v: Option<&str>) -> J {
        let _ = write!(self.0, ",\"{}\":", k);
        opt(&mut self.0, v);
        self
    }
    /// list of strings
    pub fn l<T: AsRef<str>>(mut self, k: &str, v: &[T]) -> J {
        let _ = write!(self.0, ",\"{}\":[", k);
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.0.push(',');
            }
            cps(&mut self.0, x.as_ref());
        }
        self.0.push(']');
        self
    }
    /// like `l`, for a list whose members have to be equal: if they are, one is written
    pub fn same<T: AsRef<str>>(self, k: &str, v: &[T]) -> J {
        let n = if v.iter().all(|x| x.as_ref() == v[0].as_ref()) { v.len().min(1) } else { v.len() };
        self.l(k, &v[..n])
    }
    /// list of optional strings
    pub fn lo<T: AsRef<str>>(mut self, k: &str, v: &[Option<T>]) -> J {
        let _ = write!(self.0, ",\"{}\":[", k);
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.0.push(',');
            }
            opt(&mut self.0, x.as_ref().map(|x| x.as_ref()));
        }
        self.0.push(']');
        self
    }
    pub fn t(mut self, k: &str, v: &str) -> J {
        let _ = write!(self.0, ",\"{}\":\"{}\"", k, v);
        self
    }
    pub fn n(mut self, k: &str, v: i64) -> J {
        let _ = write!(self.0, ",\"{}\":{}", k, v);
        self
    }
    pub fn f(mut self, k: &str, v: bool) -> J {
        let _ = write!(self.0, ",\"{}\":{}", k, v);
        self
    }
    pub fn fl(mut self, k: &str, v: &[bool]) -> J {
        let _ = write!(self.0, ",\"{}\":{:?}", k, v);
        self
    }
    pub fn nl(mut self, k: &str, v: &[i64]) -> J {
        let _ = write!(self.0, ",\"{}\":{:?}", k, v);
        self
    }
    pub fn raw(mut self, k: &str, v: &str) -> J {
        let _ = write!(self.0, ",\"{}\":{}", k, v);
        self
    }
    pub fn end(mut self) -> String {
        self.0.push('}');
        self.0
    }
}
pub fn cps(o: &mut String, v: &str) {
    o.push('[');
    let mut first = true;
    for c in v.chars() {
        if !first {
            o.push(',');
        }
        first = false;
        num(o, c as u32);
    }
    o.push(']');
}
fn num(o: &mut String, mut v: u32) {
    let mut d = [0u8; 10];
    let mut k = 10;
    loop {
        k -= 1;
        d[k] = b'0' + (v % 10) as u8;
        v /= 10;
        if v == 0 {
            break;
        }
    }
    for b in &d[k..] {
        o.push(*b as char);
    }
}
pub fn bytes(o: &mut String, v: &[u8]) {
    o.push('[');
    for (i, b) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        num(o, *b as u32);
    }
    o.push(']');
}
pub fn opt(o: &mut String, v: Option<&str>) {
    o.push('[');
    if let Some(v) = v {
        cps(o, v);
    }
    o.push(']');
}
pub fn jl<T: AsRef<str>>(v: &[T]) -> String {
    let mut o = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(x.as_ref());
    }
    o.push(']');
    o
}

/// The text with formatting parameters that must not matter: wide, cut, filled, alternate.
pub fn flagged<T: std::fmt::Display>(x: &T) -> Vec<String> {
    vec![format!("{x:>150}"), format!("{x:.1}"), format!("{x:*^99.2}"), format!("{x:+#0300}")]
}

// ---- recorder --------------------------------------------------------------
static BEAT: AtomicU64 = AtomicU64::new(0);
static CUR: Mutex<String> = Mutex::new(String::new());

/// Exits with a HANG line if a single case does not finish.
pub fn watchdog(limit_s: u64, out: String) {
    std::thread::spawn(move || {
        let mut last = BEAT.load(Ordering::Relaxed);
        let mut idle = 0;
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let now = BEAT.load(Ordering::Relaxed);
            if now == last && now != u64::MAX {
                idle += 1;
                if idle >= limit_s {
                    let cur = CUR.lock().unwrap().clone();
                    let _ = std::fs::write(format!("{}/hang.txt", out), &cur);
                    println!("HANG {}", cur);
                    std::process::exit(7);
                }
            } else {
                idle = 0;
                last = now;
            }
        }
    });
}
pub fn beat(desc: impl FnOnce() -> String) {
    BEAT.fetch_add(1, Ordering::Relaxed);
    if let Ok(mut g) = CUR.lock() {
        *g = desc();
    }
}
pub fn beat_done() {
    BEAT.store(u64::MAX, Ordering::Relaxed);
}

/// What happened in one observed run.
#[cfg(feature = "cov")]
pub struct Hunt {
    pub lines: Vec<String>,
    pub ran: bool,
    pub panicked: bool,
}
pub struct Rec {
    #[cfg(feature = "cov")]
    pub hunt: Option<Hunt>,
    files: Vec<BufWriter<File>>,
    pub n: usize,
    seen: HashSet<u64>,
    pub panics: usize,
    pub counts: std::collections::BTreeMap<String, usize>,
}
impl Rec {
    pub fn new(dir: &str, chunks: usize) -> Rec {
        Rec {
            #[cfg(feature = "cov")]
            hunt: None,
            files: (0..chunks)
                .map(|i| BufWriter::new(File::create(format!("{}/t{}.ndjson", dir, i)).unwrap()))
                .collect(),
            n: 0,
            seen: HashSet::new(),
            panics: 0,
            counts: Default::default(),
        }
    }
    /// Returns true the first time it sees the key.
    pub fn fresh(&mut self, key: &str) -> bool {
        use std::hash::{Hash, Hasher};
        #[cfg(feature = "cov")]
        if self.hunt.is_some() {
            return true;
        }
        let mut h = std::collections::hash_map::DefaultHasher::new();
        key.hash(&mut h);
        self.seen.insert(h.finish())
    }
    pub fn put(&mut self, line: &str) {
        #[cfg(feature = "cov")]
        if let Some(h) = &mut self.hunt {
            h.lines.push(line.to_string());
            return;
        }
        let k = self.n % self.files.len();
        self.files[k].write_all(line.as_bytes()).unwrap();
        self.files[k].write_all(b"\n").unwrap();
        self.n += 1;
        if let Some(e) = line.find("\",") {
            *self.counts.entry(line[7..e].to_string()).or_default() += 1;
        }
    }
    /// Runs `f`, which produces one event; a panic is recorded as an event no specification action allows.
    pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce() -> Option<String>) {
        let d = desc();
        beat(|| d.clone());
        #[cfg(feature = "cov")]
        if self.hunt.is_some() {
            covrt::start();
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        #[cfg(feature = "cov")]
        if let Some(h) = &mut self.hunt {
            covrt::stop();
            h.ran = true;
            h.panicked = r.is_err();
        }
        match r {
            Ok(Some(l)) => self.put(&l),
            Ok(None) => {}
            Err(_) => {
                self.panics += 1;
                let l = J::op("panic").s("in", &d).end();
                self.put(&l)
            }
        }
    }
    pub fn finish(mut self) {
        for f in &mut self.files {
            f.flush().unwrap();
        }
        beat_done();
        let c: Vec<String> = self.counts.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
        println!("SUMMARY {{\"events\":{},\"panics\":{},\"ops\":{{{}}}}}", self.n, self.panics, c.join(","));
    }
}
