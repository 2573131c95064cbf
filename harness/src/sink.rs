//! Lazy values and the sinks they are written to (C19).
use crate::codec::{cut, Pieces, CONTEXTS};
use crate::core::*;
use crate::gen::*;
use crate::iri::Fam;
use crate::mutate::text;
use iri_string::build::Builder;
use iri_string::convert::MappedToUri;
use iri_string::format::{try_append_to_string, write_to_slice, ToDedicatedString, ToStringFallible};
use iri_string::percent_encode::PercentEncoded as P;
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::template::UriTemplateStr;
use iri_string::types::*;
use serde_json::Value as Json;
use std::fmt::{self, Display, Write};

struct Capped {
    out: String,
    left: usize,
    partial: bool,
}
impl Write for Capped {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let n = s.chars().count();
        if n <= self.left {
            self.left -= n;
            self.out.push_str(s);
            return Ok(());
        }
        if self.partial {
            self.out.extend(s.chars().take(self.left));
        }
        self.left = 0;
        Err(fmt::Error)
    }
}
/// Refuses one write and would accept what follows.
struct Once {
    out: String,
    n: usize,
    at: usize,
}
impl Write for Once {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.n += 1;
        if self.n == self.at {
            return Err(fmt::Error);
        }
        self.out.push_str(s);
        Ok(())
    }
}
fn step(w: &str, cap: usize, ok: bool, got: &str, fine: bool) -> String {
    J(format!("{{\"w\":\"{w}\"")).n("cap", cap as i64).f("ok", ok).s("got", got).f("fine", fine).end()
}
/// (ok, octets received, nothing else touched and the returned text is the one received)
fn slice<T: Display>(x: &T, cap: usize) -> (bool, Vec<u8>, bool) {
    let mut buf = vec![0xffu8; cap];
    let r = write_to_slice(&mut buf, x).map(|s| s.to_string());
    let n = buf.iter().position(|b| *b == 0xff).unwrap_or(cap);
    let fine = buf[n..].iter().all(|b| *b == 0xff) && r.as_ref().map_or(true, |s| s.as_bytes() == &buf[..n]);
    (r.is_ok(), buf[..n].to_vec(), fine)
}
/// A way to get the text, and whether it reports failures.
pub type Form<'a> = (bool, Box<dyn Fn() -> Option<String> + 'a>);
/// What is done with a lazy value.
pub trait Eat {
    const OP: &'static str;
    /// The steps observed.
    fn eat<T: Display>(&mut self, r: &mut Rng, x: &T, forms: Vec<Form<'_>>) -> String;
}
pub struct Sinks;
impl Eat for Sinks {
    const OP: &'static str = "sink";
    fn eat<T: Display>(&mut self, r: &mut Rng, x: &T, forms: Vec<Form<'_>>) -> String {
        sinks(x, r, &forms.iter().map(|f| (f.1)().unwrap()).collect::<Vec<_>>())
    }
}
/// Writes the value to every sink; `forms` are texts obtained otherwise.
fn sinks<T: Display>(x: &T, r: &mut Rng, forms: &[String]) -> String {
    let mut v = Vec::new();
    let full = x.to_string();
    for f in forms.iter().chain([&full, &x.try_to_string().unwrap(), &format!("{x}"), &format!("{}", format_args!("{x}"))]) {
        v.push(step("append", 0, true, f, true));
    }
    for f in flagged(x) {
        v.push(step("flags", 0, true, &f, true));
    }
    for pre in ["", "pre\u{e9}"] {
        if full.len() > 300 && pre.is_empty() {
            continue;
        }
        let mut s = String::with_capacity(r.below(8));
        s.push_str(pre);
        let ok = try_append_to_string(&mut s, x).is_ok();
        let fine = s.starts_with(pre);
        v.push(step("append", 0, ok, s.get(pre.len()..).unwrap_or(""), fine));
    }
    let (n, m) = (full.len(), full.chars().count());
    let mut caps: Vec<usize> = if n < 14 { (0..=n + 2).collect() } else { [0, 1, n / 2, n - 3, n - 2, n - 1, n, n + 1, n + 100].into_iter().chain((0..4).map(|_| r.below(n))).collect() };
    if n > 300 {
        caps = vec![n - 1, n, r.below(n)];
    }
    caps.sort();
    caps.dedup();
    for cap in caps {
        let (ok, got, fine) = slice(x, cap);
        v.push(J("{\"w\":\"slice\"".into()).n("cap", cap as i64).f("ok", ok).b("got", &got).f("fine", fine).end());
        if cap <= m + 1 {
            let mut c = Capped { out: String::new(), left: cap, partial: r.chance(1, 2) };
            let ok = write!(c, "{x}").is_ok();
            v.push(step("cap", cap, ok, &c.out, true));
        }
    }
    for at in 1..16 {
        if n > 300 && at > 3 {
            break;
        }
        let mut c = Once { out: String::new(), n: 0, at };
        let ok = write!(c, "{x}").is_ok();
        // a refused write has to be reported
        let fine = ok == (c.n < at);
        v.push(step("once", at, ok, &c.out, fine));
        if c.n < at {
            break;
        }
    }
    jl(&v)
}
fn ev<S: Fam, C: Eat>(w: &str, s: &str) -> J {
    J::op(C::OP).t("w", w).t("sp", S::SP).s("s", s)
}
pub fn lazy<S: Fam, C: Eat>(r: &mut Rng, w: &str, parts: &Parts, c: &mut C) -> Option<String> {
    let text = {
        let sc = r.chance(2, 3);
        parts.edited(r, sc, 4)
    };
    let text = if r.chance(1, 3) && !text.contains("//") && !text.contains(':') { format!("//{}{}", parts.authority(r), "/x") } else { text };
    macro_rules! forms {
        ($x:expr, $o:ty) => {{
            let f: Vec<Form<'_>> = vec![
                (false, Box::new(|| {
                    let a: $o = $x.to_dedicated_string();
                    Some(a.into())
                })),
                (true, Box::new(|| {
                    let b: Option<$o> = $x.try_to_dedicated_string().ok();
                    b.map(String::from)
                })),
            ];
            f
        }};
    }
    // the text as one of the kinds it may be
    let other = r.chance(1, 2);
    macro_rules! kinds {
        ($t:expr, $m:ident) => {
            if other && RiAbsoluteStr::<S>::new($t).is_ok() {
                $m!(RiAbsoluteStr, RiAbsoluteString, UriAbsoluteString)
            } else if other && RiStr::<S>::new($t).is_ok() {
                $m!(RiStr, RiString, UriString)
            } else if other && RiRelativeStr::<S>::new($t).is_ok() {
                $m!(RiRelativeStr, RiRelativeString, UriRelativeString)
            } else {
                $m!(RiReferenceStr, RiReferenceString, UriReferenceString)
            }
        };
    }
    match w {
        "norm" | "normp" => {
            macro_rules! go {
                ($b:ident, $o:ident) => {{
                    let i = $b::<S>::new(&text).ok()?;
                    let x = if w == "norm" { i.normalize() } else { i.normalize_but_preserve_authorityless_relative_path() };
                    let f = forms!(x, $o<S>);
                    Some(ev::<S, C>(w, &text).raw("steps", &c.eat(r, &x, f)).end())
                }};
            }
            if other && RiAbsoluteStr::<S>::new(&text).is_ok() {
                go!(RiAbsoluteStr, RiAbsoluteString)
            } else {
                go!(RiStr, RiString)
            }
        }
        "resolve" | "rnorm" => {
            let b = parts.reference(r, true, 3);
            let b = b.split('#').next().unwrap();
            let b = RiAbsoluteStr::<S>::new(b).ok()?;
            let q = RiReferenceStr::<S>::new(&text).ok()?;
            let x = if w == "resolve" { q.resolve_against(b) } else { q.resolve_against(b).and_normalize() };
            let f = forms!(x, RiString<S>);
            Some(ev::<S, C>(w, b.as_str()).s("x", q.as_str()).raw("steps", &c.eat(r, &x, f)).end())
        }
        "mask" => {
            macro_rules! go {
                ($b:ident, $o:ident, $u:ident) => {{
                    let x = $b::<S>::new(&text).ok()?.mask_password();
                    let f = forms!(x, $o<S>);
                    Some(ev::<S, C>(w, &text).raw("steps", &c.eat(r, &x, f)).end())
                }};
            }
            kinds!(&text, go)
        }
        "replace" => {
            let pw = rand_unicode(r, 3);
            macro_rules! go {
                ($b:ident, $o:ident, $u:ident) => {{
                    let x = $b::<S>::new(&text).ok()?.mask_password();
                    let x = x.replace_password(cut(r, &pw));
                    Some(ev::<S, C>(w, &text).s("x", &pw).raw("steps", &c.eat(r, &x, vec![])).end())
                }};
            }
            kinds!(&text, go)
        }
        "touri" => {
            let p = Parts::new(true);
            let sc = r.chance(2, 3);
            let mut s = p.reference(r, sc, 2);
            for _ in 0..r.below(4) {
                s.push(['\u{e9}', '\u{3042}', '\u{1f600}', '\u{a0}', 'a'][r.below(5)]);
            }
            macro_rules! go {
                ($b:ident, $o:ident, $u:ident) => {{
                    let x = MappedToUri::from($b::<S>::new(&s).ok()?);
                    let f = forms!(x, $u);
                    Some(ev::<S, C>(w, &s).raw("steps", &c.eat(r, &x, f)).end())
                }};
            }
            match r.below(8) {
                0 => {
                    let s = s.rsplit('?').next().unwrap();
                    let x = MappedToUri::from(RiQueryStr::<S>::new(s).ok()?);
                    let f = forms!(x, UriQueryString);
                    Some(ev::<S, C>(w, s).raw("steps", &c.eat(r, &x, f)).end())
                }
                1 => {
                    let s = s.rsplit('#').next().unwrap();
                    let x = MappedToUri::from(RiFragmentStr::<S>::new(s).ok()?);
                    let f = forms!(x, UriFragmentString);
                    Some(ev::<S, C>(w, s).raw("steps", &c.eat(r, &x, f)).end())
                }
                _ => kinds!(&s, go),
            }
        }
        "pctenc" => {
            let s = rand_unicode(r, 5) + &rand_str(r, 4, PCHARISH);
            let p = cut(r, &s);
            let ctx = CONTEXTS[r.below(CONTEXTS.len())];
            let x: P<Pieces, S> = match ctx {
                "regname" => P::from_reg_name(p),
                "user" => P::from_user(p),
                "password" => P::from_password(p),
                "segment" => P::from_path_segment(p),
                "path" => P::from_path(p),
                "query" => P::from_query(p),
                "fragment" => P::from_fragment(p),
                "unreserve" => P::unreserve(p),
                _ => P::characters(p),
            };
            Some(ev::<S, C>(w, &s).t("ctx", ctx).raw("steps", &c.eat(r, &x, vec![])).end())
        }
        "build" | "nbuild" => {
            let q = RiReferenceStr::<S>::new(&text).ok()?;
            let mut b = Builder::from(q);
            if w == "nbuild" {
                b.normalize();
            }
            // the same components given in other forms
            if let Some(a) = q.authority_components() {
                match a.userinfo() {
                    Some(u) if r.chance(1, 2) => match u.split_once(':') {
                        Some((u, p)) => b.userinfo((u, p)),
                        None => b.userinfo((u, None)),
                    },
                    _ => {}
                }
                if let Ok(ip) = a.host().trim_matches(['[', ']']).parse::<std::net::IpAddr>() {
                    if ip.to_string() == a.host().trim_matches(['[', ']']) && r.chance(2, 3) {
                        b.ip_address(ip);
                    }
                }
                match a.port().map(|p| (p, p.parse::<u16>())) {
                    Some((p, Ok(n))) if n.to_string() == p && r.chance(2, 3) => b.port(n),
                    _ => {}
                }
            }
            macro_rules! go {
                ($b:ident, $o:ident, $u:ident) => {{
                    let x = b.build::<$b<S>>().ok()?;
                    let f = forms!(x, $o<S>);
                    Some(ev::<S, C>(w, &text).raw("steps", &c.eat(r, &x, f)).end())
                }};
            }
            kinds!(&text, go)
        }
        "expand" => {
            let t = crate::template::rand_template(r, 3);
            let (ctx, js) = crate::template::some_env(r, &t)?;
            let ts = UriTemplateStr::new(&t).ok()?;
            ts.expand_dynamic_to_string::<S, _>(&mut ctx.clone()).ok()?;
            let f: Vec<Form<'_>> = vec![(false, Box::new(|| ts.expand_dynamic_to_string::<S, _>(&mut ctx.clone()).ok()))];
            let x = ts.expand::<S, _>(&ctx).ok()?;
            Some(ev::<S, C>(w, &t).raw("env", &js).raw("steps", &c.eat(r, &x, f)).end())
        }
        _ => {
            let s = rand_unicode(r, 8);
            let x = cut(r, &s);
            Some(ev::<S, C>(w, &s).raw("steps", &c.eat(r, &x, vec![])).end())
        }
    }
}
pub const LAZY: &[&str] = &["norm", "norm", "normp", "resolve", "rnorm", "mask", "mask", "replace", "touri", "pctenc", "build", "nbuild", "expand", "str"];
pub fn record(rec: &mut Rec, r: &mut Rng, thorough: bool) {
    let parts = [Parts::new(false), Parts::new(true)];
    for i in 0..if thorough { 60000 } else { 5000 } {
        let w = LAZY[i % LAZY.len()];
        let iri = r.chance(1, 2);
        let mut q = Rng::new(r.next(), 19);
        rec.case(|| format!("sinks {w} case {i}"), || if iri { lazy::<IriSpec, _>(&mut q, w, &parts[1], &mut Sinks) } else { lazy::<UriSpec, _>(&mut q, w, &parts[0], &mut Sinks) });
    }
}
#[cfg(feature = "cov")]
pub fn random(rec: &mut Rec, r: &mut Rng, parts: &[Parts; 2]) {
    let w = r.pick(LAZY);
    if r.chance(1, 2) {
        rec.case(|| format!("sinks {w}"), || lazy::<IriSpec, _>(r, w, &parts[1], &mut Sinks));
    } else {
        rec.case(|| format!("sinks {w}"), || lazy::<UriSpec, _>(r, w, &parts[0], &mut Sinks));
    }
}
/// Replays one finished run of SinkMC.
pub fn replay(v: &Json) -> Result<(), String> {
    let x = Pieces(v["pieces"].as_array().unwrap().iter().enumerate().map(|(i, p)| (text(p), i % 2 == 1)).collect());
    let whole = Pieces(v["pieces"].as_array().unwrap().iter().map(|p| (text(p), false)).collect());
    let full = text(&v["text"]);
    if v["w"] == "append" {
        for x in [x, whole] {
            let mut s = String::from("ab");
            if try_append_to_string(&mut s, &x).is_err() || s != format!("ab{full}") {
                return Err(format!("appended: {s:?}"));
            }
        }
        return Ok(());
    }
    let cap = v["cap"].as_u64().unwrap() as usize;
    let ok = v["ok"].as_bool().unwrap();
    for x in [x, whole] {
        let (k, got, fine) = slice(&x, cap);
        if k != ok || !fine || !full.as_bytes().starts_with(&got) || (ok && got.len() != full.len()) {
            return Err(format!("slice of {cap} octets: ok={k}, {got:?}"));
        }
    }
    Ok(())
}
