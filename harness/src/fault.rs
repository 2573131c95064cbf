//! Memory that runs out (C21): an allocator that refuses on request, and operations that promise to report it.
use crate::core::*;
use crate::gen::*;
use crate::mutate::{otext, text, MaybeEnc, Own};
use crate::sink::{lazy, Eat, Form, LAZY};
use iri_string::format::{try_append_to_string, ToStringFallible};
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::types::*;
use serde_json::Value as Json;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::Display;

// ---- the allocator -------------------------------------------------------------
thread_local! {
    /// allocations still granted; negative: no limit
    static LEFT: Cell<i64> = const { Cell::new(-1) };
    /// only one refusal
    static ONCE: Cell<bool> = const { Cell::new(false) };
    static HITS: Cell<u32> = const { Cell::new(0) };
}
fn refused() -> bool {
    LEFT.try_with(|c| match c.get() {
        n if n < 0 => false,
        0 => {
            let _ = HITS.try_with(|h| h.set(h.get() + 1));
            if ONCE.try_with(|o| o.get()).unwrap_or(false) {
                c.set(-1);
            }
            true
        }
        n => {
            c.set(n - 1);
            false
        }
    })
    .unwrap_or(false)
}
pub struct Faulty;
unsafe impl GlobalAlloc for Faulty {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refused() {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && refused() {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: Faulty = Faulty;

/// Runs `f` with the allocations after the first `at` refused (or just one of them); says whether any was.
fn short_of_memory<R>(at: i64, once: bool, f: impl FnOnce() -> R) -> (R, bool) {
    HITS.with(|h| h.set(0));
    ONCE.with(|o| o.set(once));
    LEFT.with(|l| l.set(at));
    let r = f();
    LEFT.with(|l| l.set(-1));
    (r, HITS.with(|h| h.get()) > 0)
}

// ---- a process to die in -------------------------------------------------------
#[allow(suspicious_runtime_symbol_definitions)]
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(path: *const u8, flags: i32, ...) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(code: i32) -> !;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
}
pub struct Out(i32);
impl Out {
    fn line(&mut self, tag: char, s: &str) {
        let t = format!("{tag}{s}\n");
        let mut b = t.as_bytes();
        while !b.is_empty() {
            let n = unsafe { write(self.0, b.as_ptr(), b.len()) };
            if n <= 0 {
                break;
            }
            b = &b[n as usize..];
        }
    }
    /// What is about to be tried, should this be the end.
    fn intent(&mut self, s: &str) {
        self.line('I', s)
    }
    fn step(&mut self, s: &str) {
        self.line('S', s)
    }
}
/// The steps reported by `f` in a process of its own; if it does not survive, the last intent closes them.
fn in_child(f: impl FnOnce(&mut Out)) -> Vec<String> {
    let mut fds = [0i32; 2];
    unsafe {
        assert!(pipe(fds.as_mut_ptr()) == 0);
        let pid = fork();
        assert!(pid >= 0);
        if pid == 0 {
            alarm(20);
            setrlimit(4, &[0, 0]);
            let null = open(b"/dev/null\0".as_ptr(), 1);
            dup2(null, 2);
            close(fds[0]);
            let mut o = Out(fds[1]);
            let end = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut o)));
            _exit(end.is_err() as i32);
        }
        close(fds[1]);
        let mut got = Vec::new();
        let mut buf = [0u8; 65536];
        loop {
            let n = read(fds[0], buf.as_mut_ptr(), buf.len());
            if n <= 0 {
                break;
            }
            got.extend_from_slice(&buf[..n as usize]);
        }
        close(fds[0]);
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        let got = String::from_utf8_lossy(&got).into_owned();
        let mut steps: Vec<String> = Vec::new();
        let mut intent = "{}".to_string();
        for l in got.lines() {
            match l.split_at(1) {
                ("I", x) => intent = x.to_string(),
                (_, x) => steps.push(x.to_string()),
            }
        }
        if status != 0 {
            steps.push(intent);
        }
        steps
    }
}

// ---- lazy values ---------------------------------------------------------------
pub struct Faults;
fn one(w: &str, fault: bool, ok: bool, died: bool, pre: &str, got: &str) -> String {
    J(format!("{{\"w\":\"{w}\"")).f("fault", fault).f("ok", ok).f("died", died).s("pre", pre).s("got", got).end()
}
impl Eat for Faults {
    const OP: &'static str = "tlazy";
    fn eat<T: Display>(&mut self, r: &mut Rng, x: &T, forms: Vec<Form<'_>>) -> String {
        let spare = r.below(40);
        let steps = in_child(|o| {
            let mut attempt = |w: &str, at: i64, once: bool| -> bool {
                let pre = if w == "append" { "pre\u{e9}" } else { "" };
                o.intent(&one(w, true, false, true, pre, ""));
                let (res, hit) = match w {
                    "ded" => match forms.iter().find(|f| f.0) {
                        None => return false,
                        Some(f) => {
                            let (s, hit) = short_of_memory(at, once, || (f.1)());
                            (s.ok_or(String::new()), hit)
                        }
                    },
                    "string" => {
                        let (s, hit) = short_of_memory(at, once, || x.try_to_string());
                        (s.map_err(|_| String::new()), hit)
                    }
                    _ => {
                        let mut s = String::with_capacity(pre.len() + spare);
                        s.push_str(pre);
                        let (ok, hit) = short_of_memory(at, once, || try_append_to_string(&mut s, x).is_ok());
                        (if ok { Ok(s) } else { Err(s) }, hit)
                    }
                };
                let ok = res.is_ok();
                o.step(&one(w, hit, ok, false, pre, &res.unwrap_or_else(|s| s)));
                hit
            };
            for w in ["ded", "string", "append"] {
                for once in [false, true] {
                    let mut at = 0;
                    while attempt(w, at, once) && at < 30 {
                        at += 1;
                    }
                }
            }
        });
        jl(&steps)
    }
}
// ---- strings edited in place ---------------------------------------------------
/// The fallible edit; `None` if memory ran out.
fn try_edit<S: MaybeEnc>(o: &mut Own<S>, a: &str, x: &str) -> Option<Option<(usize, usize)>> {
    macro_rules! host {
        ($m:ident) => {
            match o {
                Own::Iri(v) => v.$m(x).ok().map(|r| r.map(|s| (s.as_ptr() as usize, s.len()))),
                Own::Ref(v) => v.$m(x).ok().map(|r| r.map(|s| (s.as_ptr() as usize, s.len()))),
                Own::Abs(v) => v.$m(x).ok().map(|r| r.map(|s| (s.as_ptr() as usize, s.len()))),
                Own::Rel(v) => v.$m(x).ok().map(|r| r.map(|s| (s.as_ptr() as usize, s.len()))),
            }
        };
    }
    match a {
        "tryhost" => host!(try_replace_host),
        "tryreg" => host!(try_replace_host_reg_name),
        _ => S::try_enc(o).then_some(None),
    }
}
fn exact<S: MaybeEnc>(o: &mut Own<S>) {
    match o {
        Own::Iri(v) => v.shrink_to_fit(),
        Own::Ref(v) => v.shrink_to_fit(),
        Own::Abs(v) => v.shrink_to_fit(),
        Own::Rel(v) => v.shrink_to_fit(),
    }
}
/// (result, whether a refusal happened, what was returned)
fn attempt<S: MaybeEnc>(o: &mut Own<S>, a: &str, x: &str, at: i64, once: bool) -> (bool, bool, Option<String>) {
    let (r, hit) = short_of_memory(at, once, || try_edit(o, a, x));
    let t = o.text();
    let ret = r.flatten().map(|(p, n)| {
        // the host returned is a part of the string itself
        let from = p.wrapping_sub(t.as_ptr() as usize);
        t.get(from..from.wrapping_add(n)).unwrap_or("not a part of the string").to_string()
    });
    (r.is_some(), hit, ret)
}
fn edits<S: MaybeEnc>(r: &mut Rng, parts: &Parts) -> Option<String> {
    let kind = ["iri", "reference", "absolute", "relative"][r.below(4)];
    let sc = match kind {
        "iri" | "absolute" => true,
        "relative" => false,
        _ => r.chance(1, 2),
    };
    let mut s = parts.edited(r, sc, 3);
    if !s.contains("//") {
        s = format!("{}//{}", if sc { "a:" } else { "" }, parts.authority(r));
    }
    if kind == "absolute" {
        s.truncate(s.find('#').unwrap_or(s.len()));
    }
    let mut v = Own::<S>::new(kind, &s)?;
    let mut plan: Vec<(&str, String)> = Vec::new();
    for _ in 0..1 + r.below(4) {
        let h = if r.chance(1, 5) { rand_str(r, 3, &["a", ":", "@", "[", "%41", "1.2.3.4", "."]) } else { parts.host(r) };
        plan.push((["tryhost", "tryreg", if S::IRI { "tryenc" } else { "tryhost" }][r.below(3)], h));
    }
    let once = r.chance(1, 2);
    let st = |a: &str, x: &str, fault, ok, died, s: &str, ret: Option<&str>| J(format!("{{\"a\":\"{a}\"")).s("x", x).f("fault", fault).f("ok", ok).f("died", died).s("s", s).o("ret", ret).end();
    let steps = in_child(|o| {
        for (a, x) in &plan {
            for at in 0..20 {
                exact(&mut v);
                o.intent(&st(a, x, true, false, true, "", None));
                let (ok, hit, ret) = attempt(&mut v, a, x, at, once);
                o.step(&st(a, x, hit, ok, false, v.text(), ret.as_deref()));
                if !hit {
                    break;
                }
            }
        }
    });
    Some(J::op("tmut").t("k", kind).t("sp", S::SP).s("s", &s).raw("steps", &jl(&steps)).end())
}
/// Conversion that gives the string away: the result or nothing.
fn into_uri(r: &mut Rng, parts: &Parts) -> Option<String> {
    let kind = ["iri", "reference", "absolute", "relative", "query", "fragment"][r.below(6)];
    let s = crate::mutate::random_iri(r, parts, kind);
    macro_rules! go {
        ($o:ident) => {{
            <$o>::try_from(s.as_str()).ok()?;
            in_child(|o| {
                for once in [false, true] {
                    for at in 0..20 {
                        let mut v = <$o>::try_from(s.as_str()).unwrap();
                        v.shrink_to_fit();
                        o.intent(&one("ded", true, false, true, "", ""));
                        let (x, hit) = short_of_memory(at, once, || v.try_encode_into_uri().ok());
                        o.step(&one("ded", hit, x.is_some(), false, "", x.as_ref().map_or("", |x| x.as_str())));
                        if !hit {
                            break;
                        }
                    }
                }
            })
        }};
    }
    let steps = match kind {
        "iri" => go!(IriString),
        "reference" => go!(IriReferenceString),
        "absolute" => go!(IriAbsoluteString),
        "relative" => go!(IriRelativeString),
        "query" => go!(IriQueryString),
        _ => go!(IriFragmentString),
    };
    Some(J::op("tlazy").t("w", "touri").t("sp", "iri").s("s", &s).raw("steps", &jl(&steps)).end())
}
pub fn record(rec: &mut Rec, r: &mut Rng, thorough: bool) {
    let parts = [Parts::new(false), Parts::new(true)];
    let k = if thorough { 10 } else { 1 };
    for i in 0..2400 * k {
        let w = LAZY[i % LAZY.len()];
        let iri = r.chance(1, 2);
        let mut q = Rng::new(r.next(), 21);
        rec.case(|| format!("memory for {w} case {i}"), || if iri { lazy::<IriSpec, _>(&mut q, w, &parts[1], &mut Faults) } else { lazy::<UriSpec, _>(&mut q, w, &parts[0], &mut Faults) });
    }
    for i in 0..2400 * k {
        let mut q = Rng::new(r.next(), 22);
        match i % 4 {
            0 => rec.case(|| format!("memory for edits case {i}"), || edits::<UriSpec>(&mut q, &parts[0])),
            1 | 2 => rec.case(|| format!("memory for edits case {i}"), || edits::<IriSpec>(&mut q, &parts[1])),
            _ => rec.case(|| format!("memory for conversion case {i}"), || into_uri(&mut q, &parts[1])),
        }
    }
}
/// Replays one history of FaultMC.
pub fn replay(v: &Json) -> Result<(), String> {
    fn go<S: MaybeEnc>(v: &Json) -> Result<(), String> {
        let (k, s) = (v["k"].as_str().unwrap(), text(&v["s"]));
        let steps = v["steps"].as_array().unwrap();
        let mut o = Own::<S>::new(k, &s).ok_or("the starting text is not accepted")?;
        let got = in_child(|out| {
            for (i, st) in steps.iter().enumerate() {
                let (a, x, refuse) = (st["a"].as_str().unwrap(), otext(&st["x"]).unwrap_or_default(), st["refuse"].as_bool().unwrap());
                exact(&mut o);
                out.intent(&format!("step {} does not survive", i + 1));
                let (ok, _, ret) = if refuse { attempt(&mut o, a, &x, 0, false) } else { attempt(&mut o, a, &x, -1, false) };
                let (want, wret) = (text(&st["s"]), otext(&st["ret"]));
                if ok == refuse {
                    out.step(&format!("step {} reports ok={ok}", i + 1));
                } else if o.text() != want {
                    out.step(&format!("after step {} the string is {:?}, specification: {want:?}", i + 1, o.text()));
                } else if ok && ret != wret {
                    out.step(&format!("step {} returns {ret:?}, specification: {wret:?}", i + 1));
                }
            }
        });
        match got.into_iter().next() {
            None => Ok(()),
            Some(e) => Err(e),
        }
    }
    if v["sp"] == "iri" {
        go::<IriSpec>(v)
    } else {
        go::<UriSpec>(v)
    }
}
