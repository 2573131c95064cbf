//! Histories of builder calls (C12).
use crate::core::*;
use crate::gen::*;
use crate::iri::Fam;
use crate::mutate::{otext, text};
use iri_string::build::{Builder, PortBuilder, UserinfoBuilder};
use iri_string::format::{ToDedicatedString, ToStringFallible};
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::types::*;
use serde_json::Value;
use std::collections::HashSet;

thread_local!(static POOL: std::cell::RefCell<HashSet<&'static str>> = Default::default());
/// Builders borrow their arguments; distinct texts are few.
fn keep(s: &str) -> &'static str {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        if let Some(x) = p.get(s) {
            return *x;
        }
        let x: &'static str = Box::leak(s.to_string().into_boxed_str());
        p.insert(x);
        x
    })
}
/// `form` selects among overloads that mean the same.
fn call(b: &mut Builder<'static>, op: &str, x: &str, y: Option<&str>, form: usize) {
    let s = keep(x);
    match op {
        "scheme" => b.scheme(s),
        "unset_scheme" => b.unset_scheme(),
        "path" => b.path(s),
        "unset_authority" => b.unset_authority(),
        "userinfo" => {
            if form % 2 == 0 {
                b.userinfo(s)
            } else {
                let o: &'static String = Box::leak(Box::new(s.to_string()));
                b.userinfo(o)
            }
        }
        "userpass" => match (form % 2, y) {
            (1, Some(p)) => b.userinfo((s, keep(p))),
            _ => b.userinfo((s, y.map(keep))),
        },
        "userinfo_none" => b.userinfo(UserinfoBuilder::default()),
        "unset_userinfo" => b.unset_userinfo(),
        "host" => match (form % 2, x.parse::<std::net::IpAddr>(), x.strip_prefix('[').and_then(|h| h.strip_suffix(']')).and_then(|h| h.parse::<std::net::Ipv6Addr>().ok())) {
            (1, Ok(std::net::IpAddr::V4(a)), _) if a.to_string() == x => b.ip_address(a),
            (1, _, Some(a)) if format!("[{a}]") == x => b.ip_address(std::net::IpAddr::V6(a)),
            _ => b.host(s),
        },
        "port" => match (form % 4, x.parse::<u16>()) {
            (1, Ok(n)) if n.to_string() == x => b.port(n),
            (2, Ok(n)) if n.to_string() == x && n < 256 => b.port(n as u8),
            (3, _) => {
                let o: &'static String = Box::leak(Box::new(s.to_string()));
                b.port(o)
            }
            _ => b.port(s),
        },
        "port_none" => b.port(PortBuilder::default()),
        "unset_port" => b.unset_port(),
        "query" => b.query(s),
        "unset_query" => b.unset_query(),
        "fragment" => b.fragment(s),
        "unset_fragment" => b.unset_fragment(),
        "normalize" => b.normalize(),
        "unset_normalize" => b.unset_normalize(),
        _ => panic!("unknown builder call"),
    }
}
/// One attempt to build: texts in every form and the normalizability verdict.
type Attempt = Option<(Vec<String>, bool, bool)>;
macro_rules! attempt {
    ($b:expr, $S:ty, $t:ident, $o:ident) => {{
        match $b.clone().build::<$t<$S>>() {
            Err(_) => None,
            Ok(x) => {
                let mut o: Vec<String> = Vec::new();
                o.push(x.to_string());
                o.push(x.clone().to_string());
                o.extend(flagged(&x));
                o.push(x.try_to_string().unwrap());
                let d: $o<$S> = x.to_dedicated_string();
                o.push(d.into());
                o.push(x.try_to_dedicated_string().unwrap().into());
                let e = x.ensure_rfc3986_normalizable().is_err();
                o.push(<$o<$S>>::from(&x).into());
                o.push(<$o<$S>>::from(x).into());
                let valid = <$t<$S>>::new(&o[0]).is_ok();
                Some((o, e, valid))
            }
        }
    }};
}
fn attempts<S: Fam>(b: &Builder<'static>) -> [(&'static str, Attempt); 4] {
    [
        ("reference", attempt!(b, S, RiReferenceStr, RiReferenceString)),
        ("iri", attempt!(b, S, RiStr, RiString)),
        ("absolute", attempt!(b, S, RiAbsoluteStr, RiAbsoluteString)),
        ("relative", attempt!(b, S, RiRelativeStr, RiRelativeString)),
    ]
}
fn attempts_json<S: Fam>(b: &Builder<'static>, out: &mut Vec<String>) {
    for (k, a) in attempts::<S>(b) {
        let j = J(format!("{{\"sp\":\"{}\",\"k\":\"{}\"", S::SP, k));
        out.push(match a {
            None => j.f("ok", false).l::<&str>("o", &[]).f("ens", false).f("valid", true).end(),
            Some((o, e, v)) => j.f("ok", true).same("o", &o).f("ens", e).f("valid", v).end(),
        });
    }
}
fn start(kind: &str, iri: bool, form: usize, s: &str) -> Option<Builder<'static>> {
    fn go<S: Fam + 'static>(kind: &str, form: usize, s: &str) -> Option<Builder<'static>> {
        let s = keep(s);
        macro_rules! from {
            ($t:ident, $o:ident) => {{
                let t = <$t<S>>::new(s).ok()?;
                if form % 2 == 0 {
                    Builder::from(t)
                } else {
                    let o: &'static $o<S> = Box::leak(Box::new(t.to_owned()));
                    Builder::from(o)
                }
            }};
        }
        Some(match kind {
            "iri" => from!(RiStr, RiString),
            "reference" => from!(RiReferenceStr, RiReferenceString),
            "absolute" => from!(RiAbsoluteStr, RiAbsoluteString),
            _ => from!(RiRelativeStr, RiRelativeString),
        })
    }
    if iri {
        go::<IriSpec>(kind, form, s)
    } else {
        go::<UriSpec>(kind, form, s)
    }
}
/// Replays one transition of BuilderMC.
pub fn replay(v: &Value) -> Result<(), String> {
    let s = &v["b"];
    let mut b = Builder::new();
    let mut set = |op: &str, x: &Value| {
        if let Some(x) = otext(x) {
            call(&mut b, op, &x, None, 0);
        }
    };
    set("scheme", &s["scheme"]);
    set("query", &s["query"]);
    set("fragment", &s["frag"]);
    if let Some(a) = s["auth"].as_array().unwrap().first() {
        let host = text(&a["host"]);
        match a["user"]["k"].as_str().unwrap() {
            "none" => {}
            "direct" => call(&mut b, "userinfo", &text(&a["user"]["u"]), None, 0),
            _ => call(&mut b, "userpass", &text(&a["user"]["u"]), otext(&a["user"]["p"]).as_deref(), 0),
        }
        call(&mut b, "host", &host, None, 0);
        if let Some(p) = otext(&a["port"]) {
            call(&mut b, "port", &p, None, 0);
        }
    }
    call(&mut b, "path", &text(&s["path"]), None, 0);
    if s["norm"].as_bool().unwrap() {
        call(&mut b, "normalize", "", None, 0);
    }
    call(&mut b, v["op"].as_str().unwrap(), &text(&v["x"]), otext(&v["y"]).as_deref(), 0);
    for (sp, at) in [("uri", attempts::<UriSpec>(&b)), ("iri", attempts::<IriSpec>(&b))] {
        let want = &v["r"][sp];
        let sch = v["sch"].as_bool().unwrap();
        for (k, a) in at {
            let ok = want["ok"].as_bool().unwrap()
                && match k {
                    "reference" => true,
                    "iri" => sch,
                    "absolute" => sch && !v["fr"].as_bool().unwrap(),
                    _ => !sch,
                };
            match a {
                None if !ok => {}
                None => return Err(format!("{sp} {k} is refused")),
                Some((o, _, _)) if !ok => return Err(format!("{sp} {k} is built: {:?}", o[0])),
                Some((o, e, valid)) => {
                    let t = text(&want["s"]);
                    if o.iter().any(|x| *x != t) {
                        return Err(format!("{sp} {k} is built as {o:?}, specification: {t:?}"));
                    }
                    if e != v["ens"].as_bool().unwrap() {
                        return Err(format!("{sp} {k}: ensure_rfc3986_normalizable reports {e}"));
                    }
                    if !valid {
                        return Err(format!("{sp} {k}: the built text is not valid"));
                    }
                }
            }
        }
    }
    Ok(())
}
const OPS: &[&str] = &[
    "scheme", "scheme", "path", "path", "path", "path", "userinfo", "userpass", "host", "host", "host", "port", "port", "query", "fragment", "normalize", "normalize", "unset_scheme",
    "unset_authority", "userinfo_none", "unset_userinfo", "port_none", "unset_port", "unset_query", "unset_fragment", "unset_normalize",
];
/// C09: debug output of builders that hold a password.
pub fn record_debug(rec: &mut Rec, r: &mut Rng) {
    for n in 0..300 {
        let pw = format!("Zq{}{}", r.below(1000), ["", ":x", "%41", "@", "!"][n % 5]);
        let u = ["", "u", "%20", "bad\u{7f}"][r.below(4)];
        let whole = keep(&format!("{u}:{pw}"));
        let mut d = vec![
            format!("{:?}", UserinfoBuilder::from(whole)),
            format!("{:#?}", UserinfoBuilder::from((u, keep(&pw)))),
            format!("{:?}", UserinfoBuilder::from((u, Some(keep(&pw))))),
        ];
        let mut b = Builder::new();
        b.scheme("a");
        if n % 2 == 0 {
            b.userinfo(whole);
        } else {
            b.userinfo((u, keep(&pw)));
        }
        b.host("h");
        d.push(format!("{b:?}"));
        d.push(format!("{b:#?}"));
        if let Ok(x) = b.clone().build::<iri_string::types::IriStr>() {
            d.push(format!("{x:?}"));
        }
        rec.put(&J::op("dbgpw").s("pw", &pw).l("d", &d).end());
    }
}
pub fn record(rec: &mut Rec, r: &mut Rng, thorough: bool) {
    let parts = [Parts::new(false), Parts::new(true)];
    for _ in 0..if thorough { 12000 } else { 1400 } {
        random(rec, r, &parts);
    }
    // every setter with every odd argument, alone and within something
    for op in ["scheme", "path", "host", "userinfo", "query", "fragment", "port", "userpass"] {
        for x in BAD.iter().chain(ODD) {
            let call = |op: &'static str, x: &str, y: Option<&str>| (op, x.to_string(), y.map(str::to_string), 0);
            let (pre, post) = if op == "port" { ("8", "0") } else { ("a", "b") };
            let whole = format!("{pre}{x}{post}");
            let mut plan = vec![call("scheme", "s", None)];
            if op != "path" {
                plan.push(call("host", "h", None));
            }
            for t in [*x, &whole] {
                if op == "userpass" {
                    plan.push(call(op, t, Some("p")));
                    plan.push(call(op, "u", Some(t)));
                } else {
                    plan.push(call(op, t, None));
                }
            }
            build_case(rec, &None, 0, &plan);
        }
    }
    // long components, given at the start and one by one
    for &n in &[250, 256] {
        let call = |op: &'static str, x: &str| (op, x.to_string(), None, 0);
        for s in stretched(n) {
            for iri in [false, true] {
                build_case(rec, &Some(("reference", iri, s.clone())), 0, &[call("host", "x"), call("normalize", ""), call("unset_fragment", "")]);
            }
        }
        for op in ["scheme", "path", "host", "userinfo", "query", "fragment", "port"] {
            let x = if op == "port" { "1" } else { "b" }.repeat(n);
            build_case(rec, &None, 0, &[call("scheme", "s"), call("host", "h"), call(op, &x), call("fragment", "f")]);
        }
    }
}
/// Arguments of which at least some setter must refuse.
const BAD: &[&str] = &[
    "", ":", "/", "?", "#", "[", "%", "%4", "a b", "@", "\u{e000}", "\u{fdd0}", "1", "+", "a:b", "//", "\\", "é", "[::1", "::1", "[v1.]", "1.2.3.4", "\u{0}", "a/b",
];
/// Characters that pass for something they are not: digits, letters, spaces outside ASCII, and borders of the classes.
const ODD: &[&str] = &[
    "\u{663}", "\u{ff10}", "\u{bd}", "\u{2170}", "\u{212a}", "\u{17f}", "\u{130}", "\u{ff21}", "\u{ff0f}", "\u{3002}", "\u{2024}", "\u{a0}", "\u{85}", "\u{200b}", "\u{202e}", "\u{feff}", "\u{d7ff}", "\u{f8ff}",
    "\u{fdef}", "\u{fdf0}", "\u{ffef}", "\u{fff0}", "\u{ffff}", "\u{1fffe}", "\u{e0fff}", "\u{e1000}", "\u{efffe}", "\u{f0000}", "\u{10fffd}", "\u{7f}", "\t", "\n", "\r", "%\u{663}\u{664}", "%ff", "%g0", "%0g", "%0", "%%41",
];
/// One random history.
pub fn random(rec: &mut Rec, r: &mut Rng, both: &[Parts; 2]) {
    let parts = &both[1];
    let bad = BAD;
    {
        let mut init: Option<(&str, bool, String)> = None;
        if r.chance(1, 3) {
            let iri = r.chance(1, 2);
            let sc = r.chance(1, 2);
            let mut s = both[iri as usize].edited(r, sc, 3);
            let k = match (sc, r.chance(1, 2)) {
                (_, true) => "reference",
                (false, _) => "relative",
                (true, _) if r.chance(1, 2) => "iri",
                _ => {
                    s.truncate(s.find('#').unwrap_or(s.len()));
                    "absolute"
                }
            };
            if start(k, iri, 0, &s).is_some() {
                init = Some((k, iri, s));
            }
        }
        // mostly valid arguments: a single invalid one makes everything after it fail
        let dirty = r.chance(1, 4);
        let mut plan: Vec<(&str, String, Option<String>, usize)> = Vec::new();
        for _ in 0..r.count(8) + if init.is_some() { 0 } else { 2 } {
            let op = OPS[r.below(OPS.len())];
            let mut y = None;
            let mut x = match op {
                "scheme" => parts.scheme(r),
                "path" => match r.below(4) {
                    0 => {
                        let p = parts.path(r, 3);
                        if p.starts_with('/') { format!("/{p}") } else { p }
                    }
                    1 => rand_str(r, 6, &["/", ".", "..", "a", "%2e", ":", "b:c", "//"]),
                    _ => parts.path(r, 4),
                },
                "userinfo" => parts.user(r),
                "userpass" => {
                    y = if r.chance(1, 4) { None } else { Some(parts.user(r)) };
                    if r.chance(1, 4) { rich(r, "", true, false) } else { ["", "u", "%41", "!$&'()*+,;=", "u:v", "\u{e9}"][r.below(6)].to_string() }
                }
                "host" => parts.host(r),
                "port" => parts.port(r),
                "query" => parts.query(r),
                "fragment" => parts.frag(r),
                _ => String::new(),
            };
            if op.starts_with("unset") || op == "normalize" || op.ends_with("none") {
            } else if dirty && r.chance(1, 5) {
                x = bad[r.below(bad.len())].to_string();
                if y.is_some() && r.chance(1, 2) {
                    y = Some(bad[r.below(bad.len())].to_string());
                }
            }
            plan.push((op, x, y, r.below(4)));
        }
        let form = r.below(2);
        build_case(rec, &init, form, &plan);
    }
}
type Plan<'a> = [(&'a str, String, Option<String>, usize)];
fn build_case(rec: &mut Rec, init: &Option<(&str, bool, String)>, form: usize, plan: &Plan) {
    rec.case(
        || format!("build {init:?} {plan:?}"),
        || {
            let mut b = match init {
                None => Builder::new(),
                Some((k, iri, s)) => start(k, *iri, form, s).unwrap(),
            };
            let mut steps = Vec::new();
            let step = |b: &Builder<'static>, op: &str, x: &str, y: Option<&str>| {
                let mut out = Vec::new();
                attempts_json::<UriSpec>(b, &mut out);
                attempts_json::<IriSpec>(b, &mut out);
                J::op(op).s("x", x).o("y", y).raw("r", &jl(&out)).end()
            };
            steps.push(step(&b, "none", "", None));
            for (op, x, y, form) in plan {
                call(&mut b, op, x, y.as_deref(), *form);
                steps.push(step(&b, op, x, y.as_deref()));
            }
            Some(J::op("build").o("s", init.as_ref().map(|i| i.2.as_str())).raw("steps", &jl(&steps)).end())
        },
    );
}
