//! Owned strings under edits (C10), conversion to URIs (C08), conversions between kinds (C11).
use crate::core::*;
use crate::gen::*;
use crate::iri::{shuffle, view_of, Fam};
use iri_string::convert::MappedToUri;
use iri_string::format::ToDedicatedString;
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::types::*;
use serde_json::Value;

// ---- C10 ---------------------------------------------------------------------
pub enum Own<S: Fam> {
    Iri(RiString<S>),
    Ref(RiReferenceString<S>),
    Abs(RiAbsoluteString<S>),
    Rel(RiRelativeString<S>),
}
macro_rules! each {
    ($self:expr, $x:ident => $e:expr) => {
        match $self {
            Own::Iri($x) => $e,
            Own::Ref($x) => $e,
            Own::Abs($x) => $e,
            Own::Rel($x) => $e,
        }
    };
}
impl<S: Fam> Own<S> {
    pub fn new(kind: &str, s: &str) -> Option<Own<S>> {
        Some(match kind {
            "iri" => Own::Iri(s.to_string().try_into().ok()?),
            "reference" => Own::Ref(s.to_string().try_into().ok()?),
            "absolute" => Own::Abs(s.to_string().try_into().ok()?),
            _ => Own::Rel(s.to_string().try_into().ok()?),
        })
    }
    pub fn text(&self) -> &str {
        each!(self, x => x.as_str())
    }
    pub fn view(&self) -> String {
        view_of::<S>(
            match self {
                Own::Iri(_) => "iri",
                Own::Ref(_) => "reference",
                Own::Abs(_) => "absolute",
                Own::Rel(_) => "relative",
            },
            self.text(),
        )
    }
}
/// Whether the type offers the edit is decided by the types themselves.
pub trait MaybeEnc: Fam + Sized {
    fn enc(_: &mut Own<Self>, _try: bool);
    /// Whether there was enough memory.
    fn try_enc(_: &mut Own<Self>) -> bool;
}
impl MaybeEnc for UriSpec {
    fn enc(_: &mut Own<Self>, _: bool) {
        panic!("no such operation")
    }
    fn try_enc(_: &mut Own<Self>) -> bool {
        panic!("no such operation")
    }
}
impl MaybeEnc for IriSpec {
    fn try_enc(o: &mut Own<Self>) -> bool {
        each!(o, x => x.try_encode_to_uri_inline().is_ok())
    }
    fn enc(o: &mut Own<Self>, t: bool) {
        each!(o, x => if t { x.try_encode_to_uri_inline().unwrap() } else { x.encode_to_uri_inline() })
    }
}
pub fn apply<S: MaybeEnc>(o: &mut Own<S>, a: &str, x: Option<&str>) -> Option<String> {
    match a {
        "frag" => {
            let f = x.map(|x| RiFragmentStr::<S>::new(x).unwrap());
            match o {
                Own::Iri(o) => o.set_fragment(f),
                Own::Ref(o) => o.set_fragment(f),
                Own::Rel(o) => o.set_fragment(f),
                Own::Abs(_) => panic!("no such operation"),
            }
            None
        }
        "host" => each!(o, o => o.replace_host(x.unwrap()).map(|s| s.to_string())),
        "tryhost" => each!(o, o => o.try_replace_host(x.unwrap()).unwrap().map(|s| s.to_string())),
        "reg" => each!(o, o => o.replace_host_reg_name(x.unwrap()).map(|s| s.to_string())),
        "tryreg" => each!(o, o => o.try_replace_host_reg_name(x.unwrap()).unwrap().map(|s| s.to_string())),
        "rmpw" => {
            each!(o, o => o.remove_password_inline());
            None
        }
        "rmnpw" => {
            each!(o, o => o.remove_nonempty_password_inline());
            None
        }
        "enc" | "tryenc" => {
            S::enc(o, a == "tryenc");
            None
        }
        _ => panic!("unknown edit"),
    }
}
pub fn text(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}
pub fn otext(v: &Value) -> Option<String> {
    v.as_array().unwrap().first().map(text)
}
fn replay_one<S: MaybeEnc>(v: &Value) -> Result<(), String> {
    let (k, s, a, x, t, ret) = (v["k"].as_str().unwrap(), text(&v["s"]), v["a"].as_str().unwrap(), otext(&v["x"]), text(&v["t"]), otext(&v["ret"]));
    let mut o = Own::<S>::new(k, &s).ok_or("the starting text is not accepted")?;
    let r = apply(&mut o, a, x.as_deref());
    if r != ret {
        return Err(format!("returned {r:?}, specification: {ret:?}"));
    }
    if o.text() != t {
        return Err(format!("became {:?}, specification: {t:?}", o.text()));
    }
    if Own::<S>::new(k, &t).is_none() {
        return Err("the result is not valid".into());
    }
    Ok(())
}
/// Replays one transition of MutateMC.
pub fn replay(v: &Value) -> Result<(), String> {
    if v["sp"] == "iri" {
        replay_one::<IriSpec>(v)
    } else {
        replay_one::<UriSpec>(v)
    }
}
pub fn record_mut<S: MaybeEnc>(rec: &mut Rec, r: &mut Rng, thorough: bool) {
    let parts = Parts::new(S::IRI);
    for _ in 0..if thorough { 20000 } else { 2500 } {
        random_mut::<S>(rec, r, &parts);
    }
    // long components, replaced and to replace others
    for &n in stretches(S::IRI) {
        let l = |x: &str| Some(x.repeat(n));
        let short = |x: &str| Some(x.to_string());
        for s in stretched(n) {
            mut_case::<S>(rec, "reference", &s, &[("reg", short("x.y")), ("rmnpw", None), ("frag", short("g"))]);
            if s.starts_with('s') {
                let a = s.split('#').next().unwrap();
                mut_case::<S>(rec, "absolute", a, &[("tryhost", short("[::1]")), ("rmpw", None)]);
            }
        }
        mut_case::<S>(rec, "iri", "s://u:p@h:1/p?q#f", &[("tryreg", l("b")), ("frag", l("b")), ("host", short("[::1]")), ("frag", None)]);
        mut_case::<S>(rec, "relative", "//h", &[("host", l("b")), ("frag", short("")), ("tryreg", short("c"))]);
    }
}
/// One random history.
pub fn random_mut<S: MaybeEnc>(rec: &mut Rec, r: &mut Rng, parts: &Parts) {
    let kind = ["iri", "reference", "absolute", "relative"][r.below(4)];
    let mut s;
    let mut tries = 0;
    loop {
        let sc = match kind {
            "iri" | "absolute" => true,
            "relative" => false,
            _ => r.chance(1, 2),
        };
        s = parts.edited(r, sc, 3);
        if kind == "absolute" {
            s.truncate(s.find('#').unwrap_or(s.len()));
        }
        tries += 1;
        if tries > 30 {
            return;
        }
        if Own::<S>::new(kind, &s).is_some() && (s.contains("//") || r.chance(1, 4)) {
            break;
        }
    }
    let len = 1 + r.count(7);
    let mut plan: Vec<(&str, Option<String>)> = Vec::new();
    while plan.len() < len {
        let host = |r: &mut Rng| match r.below(6) {
            0 => rand_str(r, 3, &["a", ":", "@", "[", "]", "%41", "1", "."]),
            1 => r.pick(&["[", "a@b", "h:1", "%", "[::1]x", "/", "a/b", "\u{e9}", "\u{e000}", "[v1.x", "256.1.1.1", "%zz", "a b", "?", "#"]).to_string(),
            _ => {
                let mut h = parts.host(r);
                while r.chance(1, 4) {
                    h = edit(r, &h, S::IRI);
                }
                h
            }
        };
        match r.below(if S::IRI { 9 } else { 8 }) {
            0 | 1 if kind != "absolute" => {
                let f = parts.frag(r);
                let f = if r.chance(1, 3) || RiFragmentStr::<S>::new(&f).is_err() { None } else { Some(f) };
                plan.push(("frag", f))
            }
            2 => plan.push(("host", Some(host(r)))),
            3 => plan.push(("tryhost", Some(host(r)))),
            4 => plan.push(("reg", Some(host(r)))),
            5 => plan.push(("tryreg", Some(host(r)))),
            6 if r.chance(1, 2) => plan.push(("rmpw", None)),
            7 => plan.push(("rmnpw", None)),
            8 if r.chance(1, 3) => plan.push((if r.chance(1, 2) { "enc" } else { "tryenc" }, None)),
            _ => {}
        }
        tries += 1;
        if tries > 80 {
            break;
        }
    }
    mut_case::<S>(rec, kind, &s, &plan);
}
fn mut_case<S: MaybeEnc>(rec: &mut Rec, kind: &str, s: &str, plan: &[(&str, Option<String>)]) {
    rec.case(
        || format!("mut {kind} {} {s:?} {plan:?}", S::SP),
        || {
            let mut o = Own::<S>::new(kind, s).unwrap();
            let mut steps = Vec::new();
            for (a, x) in plan {
                let ret = apply(&mut o, a, x.as_deref());
                steps.push(J::op("s").t("a", a).o("x", x.as_deref()).o("ret", ret.as_deref()).s("s", o.text()).raw("v", &o.view()).end());
            }
            if steps.is_empty() {
                return None;
            }
            Some(J::op("mut").t("k", kind).t("sp", S::SP).s("s", s).raw("steps", &jl(&steps)).end())
        },
    );
}

// ---- C08 ---------------------------------------------------------------------
macro_rules! touri {
    ($kind:expr, $s:expr, $ib:ident, $io:ident, $ub:ident, $uo:ident, $b:ident, $o:ident) => {{
        let s: &str = $s;
        let i = $ib::new(s).ok()?;
        let own = || $io::try_from(s).unwrap();
        let mut o: Vec<String> = Vec::new();
        o.push(i.encode_to_uri().to_string());
        let d: $uo = i.encode_to_uri().to_dedicated_string();
        o.push(d.into());
        o.push(MappedToUri::from(i).to_string());
        let oi = own();
        o.push(MappedToUri::from(&oi).to_string());
        let mut x = own();
        x.encode_to_uri_inline();
        o.push(x.to_string());
        let mut x = own();
        x.try_encode_to_uri_inline().unwrap();
        o.push(x.to_string());
        o.push(own().encode_into_uri().into());
        o.push(own().try_encode_into_uri().unwrap().into());
        let valid = o.iter().all(|u| $ub::new(u).is_ok());
        if let Ok(u) = $ub::new(s) {
            // a URI maps to itself
            if MappedToUri::from(u).to_string() != s {
                return Some(J::op("uri mapped to another text").s("s", s).end());
            }
        }
        let a = vec![i.as_uri().map(|u| u.to_string()), $ub::new(s).ok().map(|u| u.to_string())];
        let (ok, t) = match own().try_into_uri() {
            Ok(u) => (true, u.to_string()),
            Err(i) => (false, i.to_string()),
        };
        Some(J::op("touri").t("k", $kind).s("s", s).same("o", &o).f("valid", valid).lo("as", &a).raw("tryinto", &format!("[{{\"ok\":{ok},\"s\":{}}}]", { let mut b = String::new(); cps(&mut b, &t); b })).end())
    }};
}
fn touri_event(kind: &str, s: &str) -> Option<String> {
    match kind {
        "iri" => touri!(kind, s, IriStr, IriString, UriStr, UriString, RiStr, RiString),
        "reference" => touri!(kind, s, IriReferenceStr, IriReferenceString, UriReferenceStr, UriReferenceString, RiReferenceStr, RiReferenceString),
        "absolute" => touri!(kind, s, IriAbsoluteStr, IriAbsoluteString, UriAbsoluteStr, UriAbsoluteString, RiAbsoluteStr, RiAbsoluteString),
        "relative" => touri!(kind, s, IriRelativeStr, IriRelativeString, UriRelativeStr, UriRelativeString, RiRelativeStr, RiRelativeString),
        "query" => touri!(kind, s, IriQueryStr, IriQueryString, UriQueryStr, UriQueryString, RiQueryStr, RiQueryString),
        _ => touri!(kind, s, IriFragmentStr, IriFragmentString, UriFragmentStr, UriFragmentString, RiFragmentStr, RiFragmentString),
    }
}
pub fn ucs(r: &mut Rng, priv_ok: bool) -> char {
    loop {
        let c = rand_char(r);
        let u = c as u32;
        if u >= 0xa0 && (priv_ok || !(0xe000..0xf900).contains(&u)) {
            return c;
        }
    }
}
pub fn random_iri(r: &mut Rng, parts: &Parts, kind: &str) -> String {
    let mut s = String::new();
    match kind {
        "query" | "fragment" => {
            if r.chance(1, 2) {
                s = rich(r, ":@/?", true, kind == "query");
            }
            for _ in 0..r.size(13) {
                if r.chance(1, 2) {
                    s.push(ucs(r, kind == "query"));
                } else {
                    s.push_str(PCHARISH[r.below(PCHARISH.len())]);
                }
            }
        }
        _ => {
            let sc = kind != "relative" && (kind != "reference" || r.chance(1, 2));
            s = parts.edited(r, sc, 4);
            // sprinkle
            for _ in 0..r.below(5) {
                let cs: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
                let p = cs[r.below(cs.len())];
                let n = r.long().unwrap_or(1 + r.size(8));
                for _ in 0..n {
                    s.insert(p, ucs(r, false));
                }
            }
            if kind == "absolute" {
                s.truncate(s.find('#').unwrap_or(s.len()));
            }
        }
    }
    s
}
#[cfg(feature = "cov")]
pub fn random_uri(rec: &mut Rec, r: &mut Rng, parts: &Parts) {
    let kind = ["iri", "reference", "absolute", "relative", "query", "fragment"][r.below(6)];
    let s = random_iri(r, parts, kind);
    rec.case(|| format!("touri {kind} {s:?}"), || touri_event(kind, &s));
}
pub fn record_uri(rec: &mut Rec, r: &mut Rng, thorough: bool) {
    let parts = Parts::new(true);
    let kinds = ["iri", "reference", "absolute", "relative", "query", "fragment"];
    let mut go = |kind: &str, s: &str| {
        if rec.fresh(&format!("{kind}{s}")) {
            rec.case(|| format!("touri {kind} {s:?}"), || touri_event(kind, s));
        }
    };
    for kind in kinds {
        // runs of non-ASCII characters of every length up to 30, alone, and between ASCII characters
        for c in ['\u{a0}', '\u{3042}', '\u{10000}', '\u{efffd}'] {
            for n in 0..30 {
                for (a, b) in [("", ""), ("a", "b"), ("", "b%C3")] {
                    let run: String = std::iter::repeat(c).take(n).collect();
                    let s = match kind {
                        "iri" | "absolute" => format!("s:{a}{run}{b}"),
                        _ => format!("{a}{run}{b}"),
                    };
                    if s.ends_with("%C3") && kind == "none" {
                        continue;
                    }
                    go(kind, &s);
                }
            }
        }
        for _ in 0..if thorough { 20000 } else { 2500 } {
            let s = random_iri(r, &parts, kind);
            go(kind, &s);
        }
    }
    for &n in &[250, 65_600] {
        for s in stretched(n) {
            // each long component with something to encode on either side
            go("reference", &s.replacen("q", "\u{e9}", 1).replacen("f", "\u{3042}", 1).replace("bb", "b\u{e9}").chars().take(n).collect::<String>());
        }
    }
    let mut all: Vec<u32> = (0..0x110000).collect();
    shuffle(r, &mut all);
    // single characters all over the range, in the widest component
    for &c in all.iter().take(if thorough { 60000 } else { 4000 }) {
        if let Some(c) = char::from_u32(c) {
            go("query", &c.to_string());
        }
    }
}
