//! Routes that need no allocation in the crate (C20): the same events as elsewhere, recorded by
//! every build of the crate, with inputs long enough for any search to leave its simple case.
use crate::core::*;
use crate::fam::{ac_json, cut, encode, view, Fam, Pieces, CONTEXTS};
use crate::gen::*;
use iri_string::build::Builder;
use iri_string::convert::MappedToUri;
use iri_string::format::write_to_slice;
use iri_string::percent_encode::decode::{decode_whatwg_bytes, DecodedFragment};
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::template::context::{AssocVisitor, Context, DynamicContext, ListVisitor, VisitPurpose, Visitor};
use iri_string::template::UriTemplateStr;
use iri_string::types::*;
use iri_string::validate as v;
use std::cmp::Ordering;
use std::fmt::Display;
use std::ops::ControlFlow;

/// The text, formatted and written to buffers of two sizes.
fn texts<T: Display>(x: &T) -> Vec<String> {
    let s = x.to_string();
    let mut out = vec![];
    for n in [s.len(), s.len() + 9] {
        let mut b = vec![0u8; n];
        out.push(write_to_slice(&mut b, x).map(|s| s.to_string()).unwrap_or_else(|_| "does not fit".into()));
    }
    let mut b = vec![0u8; s.len().saturating_sub(1)];
    if !s.is_empty() && write_to_slice(&mut b, x).is_ok() {
        out.push("fits though too long".into());
    }
    out.push(s);
    out
}
macro_rules! all_kinds {
    ($s:expr, $S:ty, $m:ident) => {
        match $s {
            "iri" => $m!(RiStr<$S>),
            "reference" => $m!(RiReferenceStr<$S>),
            "absolute" => $m!(RiAbsoluteStr<$S>),
            "relative" => $m!(RiRelativeStr<$S>),
            "query" => $m!(RiQueryStr<$S>),
            _ => $m!(RiFragmentStr<$S>),
        }
    };
}
const KINDS: &[&str] = &["iri", "reference", "absolute", "relative", "query", "fragment"];
fn parse_event<S: Fam>(k: &str, s: &str) -> String {
    let (mut ok, mut o) = (vec![], vec![]);
    macro_rules! m {
        ($t:ty) => {{
            match <$t>::new(s) {
                Ok(x) => {
                    ok.push(true);
                    o.push(x.as_str().to_string());
                    o.push(x.to_string());
                    o.push(AsRef::<str>::as_ref(x).to_string());
                }
                Err(_) => ok.push(false),
            }
            ok.push(<&$t>::try_from(s).is_ok());
            ok.push(<&$t>::try_from(s.as_bytes()).is_ok());
        }};
    }
    all_kinds!(k, S, m);
    ok.push(match k {
        "iri" => v::iri::<S>(s).is_ok(),
        "reference" => v::iri_reference::<S>(s).is_ok(),
        "absolute" => v::absolute_iri::<S>(s).is_ok(),
        "relative" => v::relative_ref::<S>(s).is_ok(),
        "query" => v::query::<S>(s).is_ok(),
        _ => v::fragment::<S>(s).is_ok(),
    });
    J::op("parse").t("k", k).t("sp", S::SP).s("s", s).fl("ok", &ok).same("o", &o).raw("bad", "[]").end()
}
fn split_event<S: Fam>(s: &str) -> Option<String> {
    let r = RiReferenceStr::<S>::new(s).ok()?;
    let mut w = vec![view("reference", r.scheme_str(), r.authority_str(), r.path_str(), r.query_str(), r.query().map(|q| q.as_str()), r.fragment_str(), r.fragment().map(|q| q.as_str()), ac_json(r.authority_components()))];
    if let Ok(r) = RiStr::<S>::new(s) {
        w.push(view("iri", Some(r.scheme_str()), r.authority_str(), r.path_str(), r.query_str(), r.query().map(|q| q.as_str()), r.fragment_str(), r.fragment().map(|q| q.as_str()), ac_json(r.authority_components())));
    }
    if let Ok(r) = RiAbsoluteStr::<S>::new(s) {
        w.push(view("absolute", Some(r.scheme_str()), r.authority_str(), r.path_str(), r.query_str(), r.query().map(|q| q.as_str()), None, None, ac_json(r.authority_components())));
        let f = FixedBaseResolver::new(r);
        w.push(view("base", Some(f.scheme_str()), f.authority_str(), f.path_str(), f.query_str(), f.query().map(|q| q.as_str()), None, None, ac_json(r.authority_components())));
    }
    if let Ok(r) = RiRelativeStr::<S>::new(s) {
        w.push(view("relative", None, r.authority_str(), r.path_str(), r.query_str(), r.query().map(|q| q.as_str()), r.fragment_str(), r.fragment().map(|q| q.as_str()), ac_json(r.authority_components())));
    }
    Some(J::op("split").t("sp", S::SP).s("s", s).raw("v", &jl(&w)).end())
}
fn resolve_event<S: Fam>(b: &str, s: &str) -> Option<Vec<String>> {
    let base = RiAbsoluteStr::<S>::new(b).ok()?;
    let q = RiReferenceStr::<S>::new(s).ok()?;
    let x = q.resolve_against(base);
    let mut o = texts(&x);
    o.extend(texts(&FixedBaseResolver::new(base).resolve(q)));
    let e1 = J::op("resolve").t("sp", S::SP).s("b", b).s("r", s).f("valid", RiStr::<S>::new(&o[0]).is_ok()).same("o", &o).end();
    let d = texts(&q.resolve_against(base).and_normalize());
    let p = texts(&q.resolve_against(base).and_normalize_but_preserve_authorityless_relative_path());
    let valid = RiStr::<S>::new(&d[0]).is_ok() && RiStr::<S>::new(&p[0]).is_ok();
    let e2 = J::op("rnorm").t("sp", S::SP).s("b", b).s("r", s).same("d", &d).same("p", &p).f("valid", valid).end();
    let n = x.ensure_rfc3986_normalizable().is_ok();
    let w = [q.resolve_against(base).and_normalize().ensure_rfc3986_normalizable().is_ok()];
    let e3 = J::op("rensure").t("sp", S::SP).s("b", b).s("r", s).f("n", n).fl("v", &w).end();
    Some(vec![e1, e2, e3])
}
fn norm_event<S: Fam>(s: &str) -> Option<Vec<String>> {
    let i = RiStr::<S>::new(s).ok()?;
    let mut d = texts(&i.normalize());
    let mut p = texts(&i.normalize_but_preserve_authorityless_relative_path());
    let preds = |i: &RiStr<S>| [i.is_normalized(), i.is_normalized_rfc3986(), i.is_normalized_but_authorityless_relative_path_preserved()];
    let mut ps = vec![format!("{:?}", preds(i))];
    let mut en = vec![i.ensure_rfc3986_normalizable().is_ok()];
    if let Ok(a) = RiAbsoluteStr::<S>::new(s) {
        d.extend(texts(&a.normalize()));
        p.extend(texts(&a.normalize_but_preserve_authorityless_relative_path()));
        ps.push(format!("{:?}", [a.is_normalized(), a.is_normalized_rfc3986(), a.is_normalized_but_authorityless_relative_path_preserved()]));
        en.push(a.ensure_rfc3986_normalizable().is_ok());
    }
    let valid = RiStr::<S>::new(&d[0]).is_ok() && RiStr::<S>::new(&p[0]).is_ok();
    let e1 = J::op("norm").t("sp", S::SP).s("s", s).same("d", &d).same("p", &p).f("valid", valid).end();
    let (n, m) = (d[0].clone(), p[0].clone());
    let mut v = vec![e1, J::op("ensure").t("sp", S::SP).s("s", s).fl("v", &en).end()];
    if let (Ok(n2), Ok(m2)) = (RiStr::<S>::new(&n), RiStr::<S>::new(&m)) {
        let nn = vec![n2.normalize().to_string()];
        let mm = vec![m2.normalize_but_preserve_authorityless_relative_path().to_string()];
        v.push(J::op("isnorm").t("sp", S::SP).s("s", s).raw("p", &format!("[{}]", ps.join(","))).s("n", &n).s("m", &m).l("nn", &nn).l("mm", &mm).fl("np", &preds(n2)).fl("mp", &preds(m2)).end());
    }
    Some(v)
}
fn mask_event<S: Fam>(s: &str) -> Option<String> {
    RiReferenceStr::<S>::new(s).ok()?;
    let (mut m, mut dbg, mut rep, mut rdbg, mut pw) = (vec![], vec![], vec![], vec![], vec![]);
    macro_rules! go {
        ($b:ident) => {
            if let Ok(r) = $b::<S>::new(s) {
                let k = r.mask_password();
                m.extend(texts(&k));
                dbg.push(format!("{:?}", k));
                let x = k.replace_password("*X*");
                rep.extend(texts(&x));
                rdbg.push(format!("{x:?}"));
                let got = std::cell::RefCell::new(Vec::new());
                rep.push(k.replace_password_with(|p| { got.borrow_mut().push(p.to_string()); "*X*" }).to_string());
                let got = got.into_inner();
                pw.push(if got.len() > 1 { "many".into() } else { let mut o = String::new(); opt(&mut o, got.first().map(|x| x.as_str())); o });
            }
        };
    }
    go!(RiReferenceStr);
    go!(RiStr);
    go!(RiAbsoluteStr);
    go!(RiRelativeStr);
    Some(J::op("mask").t("sp", S::SP).s("s", s).same("m", &m).same("dbg", &dbg).same("rep", &rep).same("rdbg", &rdbg).raw("pw", &jl(&pw)).raw("rm", "[]").raw("rmn", "[]").f("valid", true).end())
}
macro_rules! touri {
    ($k:expr, $s:expr, $ib:ident, $ub:ident) => {{
        let s: &str = $s;
        let i = $ib::new(s).ok()?;
        let mut o = texts(&i.encode_to_uri());
        o.extend(texts(&MappedToUri::from(i)));
        let valid = o.iter().all(|u| $ub::new(u).is_ok());
        let a = vec![i.as_uri().map(|u| u.to_string()), $ub::new(s).ok().map(|u| u.to_string())];
        Some(J::op("touri").t("k", $k).s("s", s).same("o", &o).f("valid", valid).lo("as", &a).raw("tryinto", "[]").end())
    }};
}
fn touri_event(k: &str, s: &str) -> Option<String> {
    match k {
        "iri" => touri!(k, s, IriStr, UriStr),
        "reference" => touri!(k, s, IriReferenceStr, UriReferenceStr),
        "absolute" => touri!(k, s, IriAbsoluteStr, UriAbsoluteStr),
        "relative" => touri!(k, s, IriRelativeStr, UriRelativeStr),
        "query" => touri!(k, s, IriQueryStr, UriQueryStr),
        _ => touri!(k, s, IriFragmentStr, UriFragmentStr),
    }
}
fn pctenc_event<S: Fam>(r: &mut Rng, ctx: &str, s: &str) -> String {
    let o = vec![encode::<S, _>(ctx, s), encode::<S, _>(ctx, cut(r, s))];
    J::op("pctenc").t("sp", S::SP).t("ctx", ctx).s("s", s).same("o", &o).end()
}
fn decode_event(s: &[u8]) -> String {
    let d = decode_whatwg_bytes(s);
    let mut joined = Vec::new();
    let mut steps = Vec::new();
    let mut it = d.bytes_fragments();
    for _ in 0..s.len() + 2 {
        let (k, b) = match it.next() {
            None => ("end", vec![]),
            Some(DecodedFragment::Direct(b)) => ("direct", b.to_vec()),
            Some(DecodedFragment::DecodedByte(b)) => ("byte", vec![b]),
            Some(DecodedFragment::StrayPercent) => ("stray", vec![b'%']),
        };
        joined.extend_from_slice(&b);
        steps.push(format!("{{\"k\":\"{k}\",\"b\":{b:?},\"rest\":{:?}}}", it.not_yet_decoded()));
        if k == "end" {
            break;
        }
    }
    let tb = d.to_bytes();
    J::op("decode")
        .b("s", s)
        .b("nyd", d.not_yet_decoded())
        .raw("all", &format!("[{joined:?}]"))
        .f("borrowed", tb.is_some())
        .raw("tb", &tb.map_or("[]".to_string(), |b| format!("[{b:?}]")))
        .o("str", std::str::from_utf8(&joined).ok())
        .raw("steps", &jl(&steps))
        .end()
}
fn cmp_event<S: Fam>(k: &str, a: &str, b: &str) -> Option<String> {
    let (mut eq, mut ord) = (vec![], vec![]);
    let sign = |o: Ordering| o as i64;
    macro_rules! m {
        ($t:ty) => {{
            let x = <$t>::new(a).ok()?;
            eq.extend([x == b, b == x]);
            ord.extend([x.partial_cmp(b).map_or(9, sign), b.partial_cmp(x).map_or(9, |o| -sign(o))]);
            if let Ok(y) = <$t>::new(b) {
                eq.extend([x == y, y == x, x == &y]);
                ord.extend([sign(x.cmp(y)), -sign(y.cmp(x)), x.partial_cmp(y).map_or(9, sign)]);
            }
        }};
    }
    all_kinds!(k, S, m);
    Some(J::op("cmp").s("a", a).s("b", b).fl("eq", &eq).nl("ord", &ord).raw("h", "[]").end())
}
// ---- builders ----------------------------------------------------------------
fn attempts<S: Fam>(b: &Builder<'_>, out: &mut Vec<String>) {
    macro_rules! one {
        ($k:literal, $t:ident) => {{
            let j = J(format!("{{\"sp\":\"{}\",\"k\":\"{}\"", S::SP, $k));
            out.push(match b.clone().build::<$t<S>>() {
                Err(_) => j.f("ok", false).l::<&str>("o", &[]).f("ens", false).f("valid", true).end(),
                Ok(x) => {
                    let o = texts(&x);
                    let valid = $t::<S>::new(&o[0]).is_ok();
                    j.f("ok", true).same("o", &o).f("ens", x.ensure_rfc3986_normalizable().is_err()).f("valid", valid).end()
                }
            });
        }};
    }
    one!("reference", RiReferenceStr);
    one!("iri", RiStr);
    one!("absolute", RiAbsoluteStr);
    one!("relative", RiRelativeStr);
}
fn build_event(r: &mut Rng, iri: bool, parts: &Parts) -> Option<String> {
    let pick = |r: &mut Rng, v: &[&'static str]| {
        let i = r.below(v.len());
        stretch(r, v[i], iri)
    };
    let mut b = Builder::new();
    let mut start = None;
    if r.chance(1, 3) {
        let sc = r.chance(1, 2);
        let s: &'static str = Box::leak(parts.reference(r, sc, 3).into_boxed_str());
        b = if iri { Builder::from(IriReferenceStr::new(s).ok()?) } else { Builder::from(UriReferenceStr::new(s).ok()?) };
        start = Some(s);
    }
    let mut steps = Vec::new();
    for _ in 0..1 + r.count(4) {
        let mut y: Option<String> = None;
        let op = ["scheme", "path", "path", "path", "userinfo", "userpass", "host", "port", "query", "fragment", "normalize", "unset_authority", "unset_scheme"][r.below(13)];
        let x: String = match op {
            "scheme" => pick(r, &parts.schemes),
            "path" => {
                let p = parts.path(r, 3);
                stretch(r, &p, iri)
            }
            "userinfo" => pick(r, &parts.users),
            "userpass" => {
                y = r.chance(2, 3).then(|| pick(r, &parts.users));
                pick(r, &["u", "", "u:v"])
            }
            "host" => pick(r, &parts.hosts),
            "port" => r.pick(&parts.ports).to_string(),
            "query" => pick(r, &parts.queries),
            "fragment" => pick(r, &parts.frags),
            _ => String::new(),
        };
        let xs: &'static str = Box::leak(x.clone().into_boxed_str());
        let ys: Option<&'static str> = y.clone().map(|y| &*Box::leak(y.into_boxed_str()));
        match op {
            "scheme" => b.scheme(xs),
            "path" => b.path(xs),
            "userinfo" => b.userinfo(xs),
            "userpass" => b.userinfo((xs, ys)),
            "host" => b.host(xs),
            "port" => b.port(xs),
            "query" => b.query(xs),
            "fragment" => b.fragment(xs),
            "normalize" => b.normalize(),
            "unset_authority" => b.unset_authority(),
            _ => b.unset_scheme(),
        }
        let mut rs = Vec::new();
        attempts::<UriSpec>(&b, &mut rs);
        attempts::<IriSpec>(&b, &mut rs);
        steps.push(J(format!("{{\"op\":\"{op}\"")).s("x", &x).o("y", y.as_deref()).raw("r", &jl(&rs)).end());
    }
    Some(J::op("build").o("s", start).raw("steps", &jl(&steps)).end())
}
// ---- templates ---------------------------------------------------------------
#[derive(Clone)]
enum Val {
    Undef,
    Str(String),
    List(Vec<String>),
    Assoc(Vec<(String, String)>),
}
fn val_json(v: &Val) -> String {
    let txt = |x: &String| { let mut o = String::new(); cps(&mut o, x); o };
    let (mut k, mut s, mut l, mut a) = ("undef", "[]".to_string(), "[]".to_string(), "[]".to_string());
    match v {
        Val::Undef => {}
        Val::Str(x) => (k, s) = ("str", txt(x)),
        Val::List(x) => (k, l) = ("list", jl(&x.iter().map(txt).collect::<Vec<_>>())),
        Val::Assoc(x) => (k, a) = ("assoc", jl(&x.iter().map(|(x, y)| format!("[{},{}]", txt(x), txt(y))).collect::<Vec<_>>())),
    }
    format!("{{\"k\":\"{k}\",\"s\":{s},\"l\":{l},\"a\":{a}}}")
}
#[derive(Clone)]
struct Env {
    v: Vec<(String, Val)>,
    steps: Vec<(&'static str, String)>,
    form: usize,
    chunks: u64,
}
impl Env {
    fn find(&self, n: &str) -> Val {
        self.v.iter().find(|(m, _)| m == n).map_or(Val::Undef, |(_, v)| v.clone())
    }
    fn json(&self) -> String {
        jl(&self.v.iter().map(|(n, v)| J("{\"z\":0".into()).s("n", n).raw("v", &val_json(v)).end()).collect::<Vec<_>>())
    }
}
impl Context for Env {
    fn visit<V: Visitor>(&self, visitor: V) -> V::Result {
        let mut r = Rng::new(self.chunks, 3);
        let mut c = |s: &str| -> Pieces { cut(&mut r, s) };
        match self.find(visitor.var_name().as_str()) {
            Val::Undef => visitor.visit_undefined(),
            Val::Str(s) => visitor.visit_string(c(&s)),
            Val::List(l) => match self.form % 3 {
                0 => {
                    let mut w = visitor.visit_list();
                    for x in &l {
                        if let ControlFlow::Break(r) = w.visit_item(c(x)) {
                            return r;
                        }
                    }
                    w.finish()
                }
                1 => visitor.visit_list().visit_items_and_finish(l.iter().map(|x| c(x))),
                _ => visitor.visit_list_direct(&l),
            },
            Val::Assoc(l) => match self.form % 3 {
                0 => {
                    let mut w = visitor.visit_assoc();
                    for (k, x) in &l {
                        if let ControlFlow::Break(r) = w.visit_entry(c(k), c(x)) {
                            return r;
                        }
                    }
                    w.finish()
                }
                1 => visitor.visit_assoc().visit_entries_and_finish(l.iter().map(|(k, x)| (k, x))),
                _ => visitor.visit_assoc_direct(l.iter().map(|(k, x)| (k, x))),
            },
        }
    }
}
struct Dyn(Env);
impl DynamicContext for Dyn {
    fn visit_dynamic<V: Visitor>(&mut self, visitor: V) -> V::Result {
        let n = visitor.var_name().as_str().to_string();
        let op = match visitor.purpose() {
            VisitPurpose::Typecheck => "type",
            VisitPurpose::Expand => "value",
            _ => "other",
        };
        self.0.steps.push((op, n));
        self.0.visit(visitor)
    }
    fn on_expansion_start(&mut self) {
        self.0.steps.push(("start", String::new()));
    }
    fn on_expansion_end(&mut self) {
        self.0.steps.push(("end", String::new()));
    }
}
const NAMES: &[&str] = &["x", "y", "a.b", "%41z", "a_very_long_name.of_a_variable.with_dots", "x"];
fn text(r: &mut Rng) -> String {
    let s = match r.below(4) {
        0 => rand_unicode(r, 6),
        1 => rand_str(r, 8, &["%", "%4", "%41", "%c3%a9", "a", "/", "\u{e9}", " ", "%E3%81", ","]),
        2 => String::new(),
        _ => rand_str(r, 6, PCHARISH),
    };
    stretch(r, &s, true)
}
fn template(r: &mut Rng) -> String {
    let mut t = String::new();
    for _ in 0..=r.below(3) {
        if r.chance(1, 2) {
            let l = r.pick(&["", "a", "/", "?", "%41", "\u{e9}", "http://h/", "&", "%c3%a9", "#"]).to_string();
            t.push_str(&stretch(r, &l, true));
            continue;
        }
        t.push('{');
        t.push_str(r.pick(&["", "", "+", "#", ".", "/", ";", "?", "&"]));
        for i in 0..=r.below(3) {
            if i > 0 {
                t.push(',');
            }
            t.push_str(r.pick(NAMES));
            t.push_str(r.pick(&["", "", "", "*", "*", ":1", ":20", ":9999"]));
        }
        t.push('}');
    }
    t
}
fn template_events<S: Fam>(r: &mut Rng) -> Option<Vec<String>> {
    let t = template(r);
    let Ok(ts) = UriTemplateStr::new(&t) else {
        return Some(vec![J::op("parse").t("k", "template").t("sp", S::SP).s("s", &t).fl("ok", &[false]).raw("o", "[]").raw("bad", "[]").end()]);
    };
    let vars: Vec<String> = ts.variables().map(|v| v.as_str().to_string()).collect();
    let mut e = Env { v: vec![], steps: vec![], form: r.below(3), chunks: r.next() };
    for n in NAMES.iter().take(5) {
        if vars.iter().any(|v| v == n) && r.chance(5, 6) {
            let v = match r.below(6) {
                0 => Val::Undef,
                1..=3 => Val::Str(text(r)),
                4 => Val::List((0..r.count(3)).map(|_| text(r) + "z").collect()),
                _ => Val::Assoc((0..r.count(3)).map(|_| (text(r), text(r))).collect()),
            };
            e.v.push((n.to_string(), v));
        }
    }
    let (mut o, mut ok) = (vec![], vec![]);
    match ts.expand::<S, _>(&e) {
        Ok(x) => {
            ok.push(true);
            o.extend(texts(&x));
        }
        Err(_) => ok.push(false),
    }
    let mut d = Dyn(e.clone());
    let mut w = String::new();
    let good = ts.expand_dynamic::<S, _, _>(&mut w, &mut d).is_ok();
    ok.push(good);
    if good {
        o.push(w.clone());
    }
    let e1 = J::op("expand").t("sp", S::SP).s("t", &t).raw("env", &e.json()).fl("ok", &ok).same("o", &o).raw("conv", "[]").l("vars", &vars).end();
    let steps: Vec<String> = d.0.steps.iter().map(|(op, n)| J(format!("{{\"op\":\"{op}\"")).s("name", n).raw("v", &val_json(&e.find(n))).end()).collect();
    let e2 = J::op("dyn").t("sp", S::SP).s("t", &t).raw("env", &e.json()).raw("cap", "[]").f("ok", good).s("out", &w).raw("steps", &jl(&steps)).end();
    let mut p = vec![t.clone()];
    p.push(ts.to_string());
    let e3 = J::op("parse").t("k", "template").t("sp", S::SP).s("s", &t).fl("ok", &[true]).same("o", &p).raw("bad", "[]").end();
    Some(vec![e1, e2, e3])
}

// ---- inputs ------------------------------------------------------------------
/// Inserts a long run of plain characters somewhere.
fn stretch(r: &mut Rng, s: &str, iri: bool) -> String {
    if r.chance(2, 3) {
        return s.to_string();
    }
    let mut at = r.below(s.len() + 1);
    while !s.is_char_boundary(at) {
        at -= 1;
    }
    let n = [3, 7, 8, 9, 15, 16, 17, 23, 31, 32, 33, 47, 63, 64, 65][r.below(15)];
    let fill = match r.below(if iri { 4 } else { 3 }) {
        0 => "a",
        1 => "Z",
        2 => "9",
        _ => "\u{e9}",
    };
    format!("{}{}{}", &s[..at], fill.repeat(n), &s[at..])
}
fn many(rec: &mut Rec, d: String, f: impl FnOnce() -> Option<Vec<String>>) {
    if !rec.fresh(&d) {
        return;
    }
    let mut out = vec![];
    let o = &mut out;
    rec.case(|| d.clone(), move || {
        *o = f()?;
        None
    });
    for e in out {
        rec.put(&e);
    }
}
fn soup(r: &mut Rng) -> Vec<u8> {
    let s = rand_str(r, 6, &["%", "%4", "%41", "%c3%a9", "a", "%zz", "\u{e9}", "%%", "%ff", "4"]);
    let s = stretch(r, &s, true);
    let mut b = s.into_bytes();
    if r.chance(1, 4) {
        let at = r.below(b.len() + 1);
        b.insert(at, 0xff);
    }
    b
}
/// One random case.
#[cfg(feature = "cov")]
pub fn random(rec: &mut Rec, r: &mut Rng, both: &[Parts; 2]) {
    let sp = r.chance(1, 2);
    let parts = &both[sp as usize];
    macro_rules! go {
        ($f:ident($($a:expr),*)) => {
            if sp { $f::<IriSpec>($($a),*) } else { $f::<UriSpec>($($a),*) }
        };
    }
    let kind = KINDS[r.below(6)];
    let sc = r.chance(2, 3);
    let what = r.below(10);
    if what < 7 {
        let s = if r.chance(1, 4) { rand_str(r, 5, &[":", "/", "?", "#", "@", "[", "]", "%", "a", "qqqqqqqqqqqqqqqqqqqqqqqqqqqqq"]) } else { parts.edited(r, sc, 3) };
        let s = stretch(r, &s, sp);
        match what {
            0 => many(rec, format!("parse {kind} {sp} {s:?}"), || Some(vec![go!(parse_event(kind, &s))])),
            1 => many(rec, format!("split {sp} {s:?}"), || go!(split_event(&s)).map(|e| vec![e])),
            2 => many(rec, format!("mask {sp} {s:?}"), || go!(mask_event(&s)).map(|e| vec![e])),
            3 => many(rec, format!("norm {sp} {s:?}"), || go!(norm_event(&s))),
            4 => many(rec, format!("touri {kind} {s:?}"), || touri_event(kind, &s).map(|e| vec![e])),
            5 => {
                let b = parts.edited(r, true, 4);
                let b = stretch(r, b.split('#').next().unwrap(), sp);
                many(rec, format!("resolve {sp} {b:?} {s:?}"), || go!(resolve_event(&b, &s)))
            }
            _ => {
                let b = edit(r, &s, sp);
                many(rec, format!("cmp {sp} {kind} {s:?} {b:?}"), || go!(cmp_event(kind, &s, &b)).map(|e| vec![e]))
            }
        }
        return;
    }
    match what {
        7 => {
            let s = text(r);
            let ctx = CONTEXTS[r.below(CONTEXTS.len())];
            many(rec, format!("pctenc {sp} {ctx} {s:?}"), || Some(vec![go!(pctenc_event(r, ctx, &s))]))
        }
        8 if r.chance(1, 2) => many(rec, format!("build {sp}"), || build_event(r, sp, parts).map(|e| vec![e])),
        8 => many(rec, format!("template {sp}"), || go!(template_events(r))),
        _ => {
            let b = soup(r);
            many(rec, format!("decode {b:?}"), || Some(vec![decode_event(&b)]))
        }
    }
}
pub fn record(rec: &mut Rec, r: &mut Rng, thorough: bool) {
    let k = if thorough { 10 } else { 1 };
    for sp in [false, true] {
        let parts = Parts::new(sp);
        macro_rules! go {
            ($f:ident($($a:expr),*)) => {
                if sp { $f::<IriSpec>($($a),*) } else { $f::<UriSpec>($($a),*) }
            };
        }
        // orders of delimiters, with short and long text around them
        let mut delims: Vec<String> = Vec::new();
        for filler in ["a", "qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq"] {
            all_strings(&[":", "/", "?", "#", "@", "[", "]", "%", filler], 4, &mut |s| delims.push(s.into()));
        }
        crate::gen::shuffle(r, &mut delims);
        delims.truncate(1500 * k);
        for n in 0..1500 * k {
            let sc = r.chance(2, 3);
            let s = parts.reference(r, sc, 3);
            let s = if n % 4 == 0 { format!("{}//{}{}", if sc { "a:" } else { "" }, parts.authority(r), "/p:q@r?s") } else { s };
            let s = stretch(r, &s, sp);
            delims.push(stretch(r, &s, sp));
        }
        for s in &delims {
            let kind = KINDS[r.below(6)];
            many(rec, format!("parse {kind} {sp} {s:?}"), || Some(vec![go!(parse_event(kind, s))]));
            many(rec, format!("split {sp} {s:?}"), || go!(split_event(s)).map(|e| vec![e]));
            if r.chance(1, 3) {
                many(rec, format!("mask {sp} {s:?}"), || go!(mask_event(s)).map(|e| vec![e]));
            }
            if r.chance(1, 3) {
                many(rec, format!("norm {sp} {s:?}"), || go!(norm_event(s)));
            }
            if sp && r.chance(1, 2) {
                many(rec, format!("touri {kind} {s:?}"), || touri_event(kind, s).map(|e| vec![e]));
            }
        }
        for n in 0..1500 * k {
            let b = parts.reference(r, true, 4);
            let b = stretch(r, b.split('#').next().unwrap(), sp);
            let q = parts.reference(r, n % 8 == 0, 4);
            let q = stretch(r, &q, sp);
            many(rec, format!("resolve {sp} {b:?} {q:?}"), || go!(resolve_event(&b, &q)));
        }
        for n in 0..800 * k {
            let a = &delims[r.below(delims.len())];
            let mut b = if n % 2 == 0 { a.clone() } else { delims[r.below(delims.len())].clone() };
            if n % 4 == 0 {
                b.push('a');
            }
            let kind = KINDS[r.below(6)];
            many(rec, format!("cmp {sp} {kind} {a:?} {b:?}"), || go!(cmp_event(kind, a, &b)).map(|e| vec![e]));
        }
        for n in 0..900 * k {
            let s = text(r);
            let ctx = CONTEXTS[n % CONTEXTS.len()];
            let mut q = Rng::new(r.next(), 1);
            many(rec, format!("pctenc {sp} {ctx} {s:?}"), || Some(vec![go!(pctenc_event(&mut q, ctx, &s))]));
        }
        for n in 0..900 * k {
            let mut q = Rng::new(r.next(), 2);
            many(rec, format!("build {sp} {n}"), || build_event(&mut q, sp, &parts).map(|e| vec![e]));
            let mut q = Rng::new(r.next(), 3);
            many(rec, format!("template {sp} {n}"), || go!(template_events(&mut q)));
        }
    }
    for _ in 0..1200 * k {
        let b = soup(r);
        many(rec, format!("decode {b:?}"), || Some(vec![decode_event(&b)]));
    }
}
