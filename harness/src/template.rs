//! URI templates: variables (C15), static expansion (C16), the dynamic protocol (C17).
use crate::codec::{cut, Pieces};
use crate::core::*;
use crate::gen::*;
use crate::iri::Fam;
use crate::mutate::text;
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::template::context::{AssocVisitor, Context, DynamicContext, ListVisitor, VarName, VisitPurpose, Visitor};
use iri_string::template::simple_context::{SimpleContext, Value};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use iri_string::types::*;
use serde_json::Value as Json;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::{self, Write as _};
use std::ops::ControlFlow;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Undef,
    Str(String),
    List(Vec<String>),
    Assoc(Vec<(String, String)>),
}
use Val::*;
impl Val {
    fn json(&self) -> String {
        let mut s = "[]".to_string();
        let (mut l, mut a) = ("[]".to_string(), "[]".to_string());
        let k = match self {
            Undef => "undef",
            Str(x) => {
                s.clear();
                cps(&mut s, x);
                "str"
            }
            List(x) => {
                let v: Vec<String> = x.iter().map(|x| { let mut o = String::new(); cps(&mut o, x); o }).collect();
                l = jl(&v);
                "list"
            }
            Assoc(x) => {
                let v: Vec<String> = x.iter().map(|(x, y)| { let mut o = "[".into(); cps(&mut o, x); o.push(','); cps(&mut o, y); o.push(']'); o }).collect();
                a = jl(&v);
                "assoc"
            }
        };
        format!("{{\"k\":\"{k}\",\"s\":{s},\"l\":{l},\"a\":{a}}}")
    }
    fn of(v: &Json) -> Val {
        let arr = |v: &Json| -> Vec<Json> { v.as_array().unwrap().clone() };
        match v["k"].as_str().unwrap() {
            "undef" => Undef,
            "str" => Str(text(&v["s"])),
            "list" => List(arr(&v["l"]).iter().map(text).collect()),
            _ => Assoc(arr(&v["a"]).iter().map(|p| (text(&p[0]), text(&p[1]))).collect()),
        }
    }
    fn simple(&self) -> Value {
        match self {
            Undef => Value::Undefined,
            Str(s) => Value::String(s.clone()),
            List(l) => Value::List(l.clone()),
            Assoc(a) => Value::Assoc(a.clone()),
        }
    }
}
pub type Env = Vec<(String, Val)>;
fn env_json(e: &Env) -> String {
    let v: Vec<String> = e.iter().map(|(n, v)| J("{\"z\":0".into()).s("n", n).raw("v", &v.json()).end()).collect();
    jl(&v)
}
fn simple(e: &Env) -> SimpleContext {
    let mut c = SimpleContext::new();
    for (n, v) in e {
        c.insert(n.clone(), v.simple());
    }
    c
}

/// How a value is handed to the visitor: a value in pieces, and one of the equivalent visitor interfaces.
enum Shown {
    Undef,
    Str(Pieces),
    List(Vec<Pieces>),
    Assoc(Vec<(Pieces, Pieces)>),
}
fn give<V: Visitor>(visitor: V, v: &Shown, form: usize) -> V::Result {
    match v {
        Shown::Undef => visitor.visit_undefined(),
        Shown::Str(s) => visitor.visit_string(s),
        Shown::List(l) => match form % 3 {
            0 => {
                let mut w = visitor.visit_list();
                for x in l {
                    if let ControlFlow::Break(r) = w.visit_item(x) {
                        return r;
                    }
                }
                w.finish()
            }
            1 => visitor.visit_list().visit_items_and_finish(l),
            _ => visitor.visit_list_direct(l.iter().map(|x| format!("{x}"))),
        },
        Shown::Assoc(l) => match form % 3 {
            0 => {
                let mut w = visitor.visit_assoc();
                for (k, x) in l {
                    if let ControlFlow::Break(r) = w.visit_entry(k, x) {
                        return r;
                    }
                }
                w.finish()
            }
            1 => visitor.visit_assoc().visit_entries_and_finish(l.iter().map(|(k, x)| (k, x))),
            _ => visitor.visit_assoc_direct(l.iter().map(|(k, x)| (k.to_string(), x))),
        },
    }
}
struct Chunky {
    vals: HashMap<String, (Shown, usize)>,
}
fn whole(s: &str) -> Pieces {
    Pieces(vec![(s.to_string(), false)])
}
impl Chunky {
    fn new(e: &Env, mut r: Option<&mut Rng>) -> Chunky {
        let mut c = |s: &str| match &mut r {
            Some(r) => cut(r, s),
            None => whole(s),
        };
        let mut vals = HashMap::new();
        for (i, (n, v)) in e.iter().enumerate() {
            let s = match v {
                Undef => Shown::Undef,
                Str(s) => Shown::Str(c(s)),
                List(l) => Shown::List(l.iter().map(|x| c(x)).collect()),
                Assoc(l) => Shown::Assoc(l.iter().map(|(k, x)| (c(k), c(x))).collect()),
            };
            vals.insert(n.clone(), (s, i));
        }
        if let Some(r) = r {
            for v in vals.values_mut() {
                v.1 = r.below(3);
            }
        }
        Chunky { vals }
    }
}
impl Context for Chunky {
    fn visit<V: Visitor>(&self, visitor: V) -> V::Result {
        match self.vals.get(visitor.var_name().as_str()) {
            None => visitor.visit_undefined(),
            Some((v, f)) => give(visitor, v, *f),
        }
    }
}
/// Records what the expander asks.
struct Dyn<'a> {
    inner: &'a Chunky,
    env: &'a Env,
    steps: Vec<(&'static str, String)>,
}
impl DynamicContext for Dyn<'_> {
    fn visit_dynamic<V: Visitor>(&mut self, visitor: V) -> V::Result {
        let n = visitor.var_name().as_str().to_string();
        let op = match visitor.purpose() {
            VisitPurpose::Typecheck => "type",
            VisitPurpose::Expand => "value",
            _ => "other",
        };
        self.steps.push((op, n));
        self.inner.visit(visitor)
    }
    fn on_expansion_start(&mut self) {
        self.steps.push(("start", String::new()));
    }
    fn on_expansion_end(&mut self) {
        self.steps.push(("end", String::new()));
    }
}
impl Dyn<'_> {
    fn json(&self) -> String {
        let v: Vec<String> = self
            .steps
            .iter()
            .map(|(op, n)| {
                let v = self.env.iter().find(|(m, _)| m == n).map_or(Undef, |(_, v)| v.clone());
                J(format!("{{\"op\":\"{op}\"")).s("name", n).raw("v", &v.json()).end()
            })
            .collect();
        jl(&v)
    }
}
/// A sink that refuses everything after `cap` characters.
struct Capped {
    out: String,
    left: usize,
    partial: bool,
}
impl fmt::Write for Capped {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let n = s.chars().count();
        if n <= self.left {
            self.left -= n;
            self.out.push_str(s);
            return Ok(());
        }
        if self.partial {
            self.out.extend(s.chars().take(self.left));
        }
        self.left = 0;
        Err(fmt::Error)
    }
}
fn conv<S: Fam>(t: &UriTemplateStr, c: &SimpleContext, full: &str) -> String {
    let mut v = Vec::new();
    macro_rules! one {
        ($k:literal, $o:ident) => {{
            let x = t.expand::<S, _>(c).unwrap();
            let (ok, s) = match <$o<S>>::try_from(x) {
                Ok(s) => (true, String::from(s)),
                Err(e) => (false, e.into_source()),
            };
            v.push(J(format!("{{\"k\":\"{}\"", $k)).f("ok", ok).f("same", s == full).end());
        }};
    }
    one!("iri", RiString);
    one!("reference", RiReferenceString);
    one!("absolute", RiAbsoluteString);
    one!("relative", RiRelativeString);
    jl(&v)
}
/// One static expansion by every route.
fn expand_event<S: Fam>(r: &mut Rng, t: &str, e: &Env) -> String {
    let ts = UriTemplateStr::new(t).expect("the generated template is valid");
    let to = UriTemplateString::try_from(t.to_string()).unwrap();
    let ctx = simple(e);
    let chunky = Chunky::new(e, Some(r));
    let mut o: Vec<String> = Vec::new();
    let mut oks = Vec::new();
    let mut put = |x: Result<String, ()>| {
        oks.push(x.is_ok());
        if let Ok(x) = x {
            o.push(x);
        }
    };
    put(ts.expand::<S, _>(&ctx).map(|x| x.to_string()).map_err(|_| ()));
    put(to.expand::<S, _>(&chunky).map(|x| x.to_string()).map_err(|_| ()));
    put(to.expand_dynamic_to_string::<S, _>(&mut ctx.clone()).map_err(|_| ()));
    {
        let mut d = Dyn { inner: &chunky, env: e, steps: vec![] };
        let mut w = String::new();
        put(ts.expand_dynamic::<S, _, _>(&mut w, &mut d).map(|_| w).map_err(|_| ()));
    }
    let cv = if oks[0] { conv::<S>(ts, &ctx, &o[0]) } else { "[]".into() };
    let vars: Vec<String> = ts.variables().map(|v| v.as_str().to_string()).collect();
    J::op("expand").t("sp", S::SP).s("t", t).raw("env", &env_json(e)).fl("ok", &oks).same("o", &o).raw("conv", &cv).l("vars", &vars).end()
}
fn dyn_event<S: Fam>(r: &mut Rng, t: &str, e: &Env, cap: Option<usize>) -> String {
    let ts = UriTemplateStr::new(t).expect("the generated template is valid");
    let chunky = Chunky::new(e, Some(r));
    let mut d = Dyn { inner: &chunky, env: e, steps: vec![] };
    let (ok, out) = match cap {
        None if r.chance(1, 2) => match ts.expand_dynamic_to_string::<S, _>(&mut d) {
            Ok(s) => (true, s),
            Err(_) => (false, String::new()),
        },
        _ => {
            let mut w = Capped { out: String::new(), left: cap.unwrap_or(usize::MAX), partial: r.chance(1, 2) };
            let ok = ts.expand_dynamic::<S, _, _>(&mut w, &mut d).is_ok();
            (ok, w.out)
        }
    };
    let c = cap.map_or("[]".to_string(), |c| format!("[{c}]"));
    J::op("dyn").t("sp", S::SP).s("t", t).raw("env", &env_json(e)).raw("cap", &c).f("ok", ok).s("out", &out).raw("steps", &d.json()).end()
}
fn vars_event(t: &str, u: &str) -> Option<String> {
    use std::{borrow::Cow, rc::Rc, sync::Arc};
    let ts = UriTemplateStr::new(t).ok()?;
    let to = UriTemplateString::try_from(t).unwrap();
    let names = |x: &UriTemplateStr| -> Vec<String> { x.variables().map(|v| v.as_str().to_string()).collect() };
    let a = names(ts);
    let b: Vec<String> = to.variables().map(|v| VarName::new(v.as_str()).expect("listed name is a variable name").as_str().to_string()).collect();
    // a fresh iterator, and one cloned half way
    let mut it = ts.variables();
    let mut c: Vec<String> = it.by_ref().take(a.len() / 2).map(|v| v.as_str().to_string()).collect();
    let it2 = it.clone();
    c.extend(it2.map(|v| v.as_str().to_string()));
    let all = format!("[{}]", [a, b, c].map(|v| { let v: Vec<String> = v.iter().map(|x| { let mut o = String::new(); cps(&mut o, x); o }).collect(); jl(&v) }).join(","));
    // the same template in every form of string
    let mut small = to.clone();
    small.shrink_to_fit();
    let forms: Vec<String> = vec![
        ts.to_string(),
        <&str>::from(ts).to_string(),
        AsRef::<str>::as_ref(&to).to_string(),
        std::borrow::Borrow::<UriTemplateStr>::borrow(&to).as_str().to_string(),
        std::borrow::Borrow::<str>::borrow(&to).to_string(),
        to.to_string(),
        to.as_slice().to_string(),
        small.as_str().to_string(),
        String::from(to.clone()),
        ts.to_owned().into(),
        UriTemplateString::from(ts).into(),
        Box::<UriTemplateStr>::from(ts).to_string(),
        Box::<UriTemplateStr>::from(to.clone()).to_string(),
        Rc::<UriTemplateStr>::from(ts).to_string(),
        Arc::<UriTemplateStr>::from(ts).to_string(),
        Cow::<UriTemplateStr>::from(ts).to_string(),
        Cow::<UriTemplateStr>::from(to.clone()).into_owned().into(),
        UriTemplateString::try_from(t.as_bytes()).ok()?.into(),
        serde_json::from_value::<UriTemplateString>(serde_json::to_value(&to).ok()?).ok()?.into(),
        serde_json::from_str::<UriTemplateString>(&serde_json::to_string(ts).ok()?).ok()?.into(),
    ];
    let lens = vec![ts.len() == t.len(), to.len() == t.len(), ts.is_empty() == t.is_empty()];
    // one template behind another
    let mut ap = to;
    let mut av = Vec::new();
    let mut fine = true;
    if let Ok(us) = UriTemplateStr::new(u) {
        ap.append(us);
        fine = UriTemplateStr::new(ap.as_str()).is_ok();
        av = names(&ap);
    }
    let u = if UriTemplateStr::new(u).is_ok() { u } else { "" };
    if u.is_empty() {
        av = names(&ap);
    }
    Some(J::op("vars").s("t", t).raw("v", &all).same("forms", &forms).fl("lens", &lens).s("u", u).s("ap", ap.as_str()).f("fine", fine).l("av", &av).end())
}

const NAMES: &[&str] = &["x", "y", "x", "y", "a.b", "%41z", "_", "n0"];
const TEXTS: &[&str] = &[
    "", "a", "value", "a b", "/p/q", "50%", "%41", "%C3%A9", "%c3%a9%zz", "%e3%81%82%E3", "%E0%9F%80", "%ed%a0%80", "%f4%90%80%80", "%F0%9F%98%80!", "\u{e9}\u{3042}", "\u{1f600}", "\u{e000}", "\u{10ffff}",
    "%", "%4", "%%41", "#?[]@!$&'()*+,;=:/", "\"<>\\^`{|}", "-._~", "\u{7f}\u{80}\u{a0}", "%25", "%C3", "a%C3\u{e9}%A9", "%c3%28", "%f0%28%8c%28", "Hello World!", "=", ",", "%61%2F%c3%a9",
];
const LITS: &[&str] = &["", "a", "/", "?", "#", "%41", "%c3%a9", "\u{e9}", "'", "!$&()*+,;=", "[::1]", "http://h/", ":", "@", "\u{e000}", "\u{10fffd}", "~_", "%E3%81", "&", "//"];
pub fn rand_text(r: &mut Rng) -> String {
    if let Some(x) = run_upto(r, true, &["a", "%", "%41", "%c3%a9", " ", "/", "%4", "%e3%81", "\u{e000}"], 1100) {
        return format!("{}{x}{}", r.pick(TEXTS), r.pick(TEXTS));
    }
    match r.below(9) {
        0..=3 => r.pick(TEXTS).to_string(),
        4 => rand_unicode(r, 6),
        5 | 6 => rich(r, ":@/?#[] %", true, true),
        7 => {
            let s = r.pick(TEXTS);
            edit(r, s, true)
        }
        8 if r.chance(1, 2) => octets(r),
        _ => format!("{}{}{}", r.pick(TEXTS), r.pick(TEXTS), r.pick(TEXTS)),
    }
}
/// Triplets in an order of no meaning, with now and then something else between them.
fn octets(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.below(9) {
        match r.below(8) {
            0 => s.push_str(r.pick(&["%", "%4", "b", "\u{e9}", "/"])),
            1 => {
                let _ = write!(s, "%{:02x}", r.below(256));
            }
            _ => s.push_str(r.pick(&["%41", "%80", "%81", "%BF", "%9f", "%90", "%a0", "%C3", "%c1", "%E0", "%e3", "%ED", "%F0", "%f4", "%f5", "%2F"])),
        }
    }
    s
}
fn rand_val(r: &mut Rng) -> Val {
    match r.below(10) {
        0 => Undef,
        1..=5 => Str(rand_text(r)),
        6 | 7 => {
            if let Some(n) = r.long().map(|n| n.min(1100)) {
                return List(vec![r.pick(&["", "a", "%", "b c"]).to_string(); n / 4]);
            }
            List((0..r.count(3)).map(|_| rand_text(r)).collect())
        }
        _ => Assoc((0..r.count(3)).map(|_| (rand_text(r), rand_text(r))).collect()),
    }
}
pub fn rand_template(r: &mut Rng, max: usize) -> String {
    let mut t = String::new();
    for _ in 0..=r.count(max) {
        if r.chance(1, 3) {
            if let Some(x) = run_upto(r, true, &["a", "%41", "/", "{y}", "{+z*}", "\u{e000}"], 1100) {
                t.push_str(&x);
            } else if r.chance(1, 5) {
                t.push_str(&rich(r, ":@/?#[]", true, true).replace('\'', ""));
            } else {
                t.push_str(r.pick(LITS));
            }
            continue;
        }
        t.push('{');
        t.push_str(r.pick(&["", "", "+", "#", ".", "/", ";", "?", "&"]));
        for i in 0..=r.count(3) {
            if i > 0 {
                t.push(',');
            }
            match run_upto(r, false, &["a", "a.", "%41", "y,"], 1100) {
                Some(x) => {
                    t.push_str(&x);
                    t.push('y')
                }
                None => t.push_str(r.pick(NAMES)),
            }
            match r.below(6) {
                0 | 1 => t.push('*'),
                2 => {
                    let n = if r.chance(1, 3) { r.size(40).max(1) } else { [1, 2, 3, 4, 5, 6, 7, 9, 10, 30, 100, 9999][r.below(12)] };
                    let _ = write!(t, ":{n}");
                }
                _ => {}
            }
        }
        t.push('}');
    }
    t
}
fn rand_env(r: &mut Rng) -> Env {
    let mut e: Env = Vec::new();
    for n in ["x", "y", "a.b", "%41z", "_"] {
        if r.chance(4, 5) {
            e.push((n.into(), rand_val(r)));
        }
    }
    e
}
/// Names that occur in the template only, to keep events small.
fn relevant(t: &str, e: Env) -> Env {
    let Ok(t) = UriTemplateStr::new(t) else { return e };
    let names: HashSet<String> = t.variables().map(|v| v.as_str().to_string()).collect();
    e.into_iter().filter(|(n, _)| names.contains(n)).collect()
}
/// A cap with which no open question of the RFC (a list of one empty string) matters.
fn cappable(e: &Env) -> bool {
    !e.iter().any(|(_, v)| matches!(v, List(l) if l.len() == 1 && l[0].is_empty()))
}

/// A context for the template in which no open question matters.
pub fn some_env(r: &mut Rng, t: &str) -> Option<(SimpleContext, String)> {
    let e = relevant(t, rand_env(r));
    cappable(&e).then(|| (simple(&e), env_json(&e)))
}
// ---- structures with fields ---------------------------------------------------
struct Naive<'a> {
    s: String,
    o: Option<&'a str>,
    n: i64,
    big: u128,
    l: Vec<String>,
    arr: [&'a str; 2],
    sl: &'a [char],
    m: BTreeMap<String, u8>,
    h: HashMap<&'a str, String>,
    bs: BTreeSet<i32>,
    hs: HashSet<u8>,
    c: std::borrow::Cow<'a, str>,
    b: Box<str>,
    u: (),
    f: f64,
    no: Option<Vec<u8>>,
}
fn one_digit<V: Visitor>(v: V, x: &f64) -> V::Result {
    v.visit_string(format_args!("{x:.1}"))
}
iri_string::impl_template_context_naive!(Naive<'_> {
    s,
    o: "opt",
    n,
    big: "big.num",
    l: "list",
    arr,
    sl,
    m: "%6D",
    h,
    bs,
    hs,
    c,
    b,
    u,
    f => one_digit,
    no,
});

const FIELDS: &[&str] = &["s", "opt", "n", "big.num", "list", "arr", "sl", "%6D", "h", "bs", "hs", "c", "b", "u", "f", "no", "o", "l", "m", "zz"];
fn naive_event<S: Fam>(r: &mut Rng) -> String {
    let texts: Vec<String> = (0..8).map(|_| rand_text(r)).collect();
    let chars: Vec<char> = texts[3].chars().take(3).collect();
    let v = Naive {
        s: texts[0].clone(),
        o: if r.chance(1, 3) { None } else { Some(&texts[1]) },
        n: r.next() as i64 >> r.below(64),
        big: u128::MAX >> r.below(128),
        l: (0..r.below(8)).map(|i| texts[i].clone()).collect(),
        arr: [&texts[4], &texts[5]],
        sl: &chars,
        m: (0..r.below(6)).map(|i| (texts[i].clone(), i as u8 * 50)).collect(),
        h: (0..r.below(2)).map(|i| (&texts[i][..], texts[i + 1].clone())).collect(),
        bs: (0..r.count(4)).map(|i| 7 - 5 * i as i32).collect(),
        hs: (0..r.below(2)).map(|i| i as u8 * 90).collect(),
        c: if r.chance(1, 2) { texts[6].clone().into() } else { (&texts[6][..]).into() },
        b: texts[7].clone().into(),
        u: (),
        f: (r.below(1000) as f64) / 10.0 - 20.0,
        no: None,
    };
    fn list<T: ToString>(i: impl IntoIterator<Item = T>) -> Val {
        List(i.into_iter().map(|x| x.to_string()).collect())
    }
    let env: Env = vec![
        ("s".into(), Str(v.s.clone())),
        ("opt".into(), v.o.map_or(Undef, |x| Str(x.into()))),
        ("n".into(), Str(v.n.to_string())),
        ("big.num".into(), Str(v.big.to_string())),
        ("list".into(), list(&v.l)),
        ("arr".into(), list(v.arr)),
        ("sl".into(), list(v.sl)),
        ("%6D".into(), Assoc(v.m.iter().map(|(k, x)| (k.clone(), x.to_string())).collect())),
        ("h".into(), Assoc(v.h.iter().map(|(k, x)| (k.to_string(), x.clone())).collect())),
        ("bs".into(), list(&v.bs)),
        ("hs".into(), list(&v.hs)),
        ("c".into(), Str(v.c.to_string())),
        ("b".into(), Str(v.b.to_string())),
        ("f".into(), Str(format!("{:.1}", v.f))),
    ];
    let mut t = String::new();
    for _ in 0..=r.below(2) {
        t.push('{');
        t.push_str(r.pick(&["", "+", "#", ".", "/", ";", "?", "&"]));
        for i in 0..=r.below(3) {
            if i > 0 {
                t.push(',');
            }
            t.push_str(r.pick(FIELDS));
            match r.below(8) {
                0 | 1 | 2 => t.push('*'),
                3 => t.push_str(":2"),
                _ => {}
            }
        }
        t.push('}');
    }
    let ts = UriTemplateStr::new(&t).unwrap();
    let (mut o, mut oks) = (Vec::new(), Vec::new());
    let x = ts.expand::<S, _>(&v).map(|x| x.to_string());
    oks.push(x.is_ok());
    o.extend(x.ok());
    let mut w = String::new();
    let x = ts.expand_dynamic::<S, _, _>(&mut w, &mut { v }).map(|_| w);
    oks.push(x.is_ok());
    o.extend(x.ok());
    let vars: Vec<String> = ts.variables().map(|v| v.as_str().to_string()).collect();
    J::op("expand").t("sp", S::SP).s("t", &t).raw("env", &env_json(&relevant(&t, env))).fl("ok", &oks).same("o", &o).raw("conv", "[]").l("vars", &vars).end()
}

/// Histories of a `SimpleContext`.
fn store_event(r: &mut Rng) -> String {
    let mut c = SimpleContext::new();
    let mut steps = Vec::new();
    let back = |v: Option<Value>| -> String {
        match v {
            None => "[]".into(),
            Some(v) => format!(
                "[{}]",
                match v {
                    Value::Undefined => Undef,
                    Value::String(s) => Str(s),
                    Value::List(l) => List(l),
                    Value::Assoc(a) => Assoc(a),
                }
                .json()
            ),
        }
    };
    let names = ["x", "y", "a.b", "x", "", "bad name", "%41", "%4", ".x", "x.", "a..b", "\u{e9}", "_%c3"];
    for _ in 0..2 + r.count(10) {
        let n = names[r.below(names.len())];
        match r.below(8) {
            0..=4 => {
                let v = rand_val(r);
                let old = match (&v, r.below(2)) {
                    (Str(s), 0) => c.insert(n, &s[..]),
                    (Str(s), _) => c.insert(n.to_string(), s.clone()),
                    _ => c.insert(n, v.simple()),
                };
                steps.push(J("{\"op\":\"insert\"".into()).s("n", n).raw("v", &v.json()).raw("r", &back(old)).end());
            }
            5 => {
                if r.chance(1, 3) {
                    c.clear();
                    steps.push(J("{\"op\":\"clear\"".into()).s("n", "").raw("v", &Undef.json()).raw("r", "[]").end());
                }
            }
            _ => {}
        }
        let n = names[r.below(names.len())];
        if let Ok(v) = VarName::new(n) {
            let got = back(c.get(v).cloned());
            steps.push(J("{\"op\":\"get\"".into()).s("n", n).raw("v", &Undef.json()).raw("r", &got).end());
            if r.chance(1, 3) {
                // what an expansion sees
                let t = format!("{{{n}}}");
                let x = UriTemplateStr::new(&t).unwrap().expand::<UriSpec, _>(&c).unwrap().to_string();
                let mut o = "[".to_string();
                cps(&mut o, &x);
                o.push(']');
                steps.push(J("{\"op\":\"expand\"".into()).s("n", n).raw("v", &Undef.json()).raw("r", &o).end());
            }
        }
        if r.chance(1, 4) {
            c = c.clone();
        }
    }
    if steps.is_empty() {
        steps.push(J("{\"op\":\"clear\"".into()).s("n", "").raw("v", &Undef.json()).raw("r", "[]").end());
    }
    J::op("store").raw("steps", &jl(&steps)).end()
}
/// One random case.
#[cfg(feature = "cov")]
pub fn random(prop: &str, rec: &mut Rec, r: &mut Rng) {
    let iri = r.chance(1, 2);
    let mut t = rand_template(r, 4);
    if prop == "C15" {
        while r.chance(1, 3) {
            t = edit(r, &t, true);
        }
        let u = rand_template(r, 3);
        rec.case(|| format!("variables {t:?} and {u:?}"), || vars_event(&t, &u));
        return;
    }
    if prop == "C16" && r.chance(1, 8) {
        rec.case(|| "expand with a structure".into(), || Some(if iri { naive_event::<UriSpec>(r) } else { naive_event::<IriSpec>(r) }));
        return;
    }
    if prop == "C16" && r.chance(1, 12) {
        rec.case(|| "SimpleContext".into(), || Some(store_event(r)));
        return;
    }
    if r.chance(1, 4) {
        t = edit(r, &t, true);
    }
    if UriTemplateStr::new(&t).is_err() {
        return;
    }
    let e = relevant(&t, rand_env(r));
    let cap = if prop == "C17" && r.chance(1, 2) && cappable(&e) { Some(r.size(30)) } else { None };
    let d = || format!("{} iri={iri} {t:?} {e:?} cap {cap:?}", if prop == "C16" { "expand" } else { "expand_dynamic" });
    rec.case(d, || {
        Some(match (prop, iri) {
            ("C16", false) => expand_event::<UriSpec>(r, &t, &e),
            ("C16", true) => expand_event::<IriSpec>(r, &t, &e),
            (_, false) => dyn_event::<UriSpec>(r, &t, &e, cap),
            (_, true) => dyn_event::<IriSpec>(r, &t, &e, cap),
        })
    });
}
pub fn record(prop: &str, rec: &mut Rec, r: &mut Rng, thorough: bool) {
    let k = if thorough { 12 } else { 1 };
    let both = |rec: &mut Rec, r: &mut Rng, iri: bool, t: &str, e: Env, cap: Option<usize>| {
        let e = relevant(t, e);
        if !rec.fresh(&format!("{iri}{t}\u{0}{e:?}{cap:?}")) {
            return;
        }
        let mut q = Rng::new(r.next(), 11);
        let d = || format!("{} iri={iri} {t:?} {e:?} cap {cap:?}", if prop == "C16" { "expand" } else { "expand_dynamic" });
        rec.case(d, || {
            Some(match (prop, iri) {
                ("C16", false) => expand_event::<UriSpec>(&mut q, t, &e),
                ("C16", true) => expand_event::<IriSpec>(&mut q, t, &e),
                (_, false) => dyn_event::<UriSpec>(&mut q, t, &e, cap),
                (_, true) => dyn_event::<IriSpec>(&mut q, t, &e, cap),
            })
        });
    };
    if prop != "C15" {
        // long prefixes of values about as long
        for (i, n) in [9usize, 10, 99, 100, 128, 255, 256, 257, 511, 512, 999, 1000, 1024, 2048, 4096, 5000, 8192, 9999].into_iter().enumerate() {
            for (j, (unit, chars)) in [("a", 1), ("\u{e9}", 1), ("%41%zz", 4)].into_iter().enumerate() {
                if j > 0 && n > 1024 {
                    continue;
                }
                let x = unit.repeat((n + 2) / chars + 1);
                for op in [["", "+", "?"][(i + j) % 3], ["#", ";", ""][(i + j) % 3]] {
                    both(rec, r, (i + j) % 2 == 0, &format!("{{{op}x:{n}}}"), vec![("x".into(), Str(x.clone()))], None);
                }
            }
        }
    }
    match prop {
        "C15" => {
            for _ in 0..4000 * k {
                let t = rand_template(r, 6);
                let u = rand_template(r, 3);
                if rec.fresh(&t) {
                    rec.case(|| format!("variables {t:?} and {u:?}"), || vars_event(&t, &u));
                }
            }
        }
        "C16" => {
            // every operator and modifier with every stock text
            for op in ["", "+", "#", ".", "/", ";", "?", "&"] {
                for m in ["", "*", ":1", ":2", ":3", ":5"] {
                    for x in TEXTS {
                        let t = format!("{{{op}x{m}}}");
                        both(rec, r, true, &t, vec![("x".into(), Str(x.to_string()))], None);
                        if m.len() < 2 {
                            both(rec, r, false, &t, vec![("x".into(), List(vec![x.to_string(), "b".into()]))], None);
                            both(rec, r, true, &t, vec![("x".into(), Assoc(vec![(x.to_string(), x.to_string())]))], None);
                        }
                    }
                }
            }
            // collections of every size up to nine, the same trouble in every member
            for op in ["", "+", "#", ".", "/", ";", "?", "&"] {
                for m in ["", "*"] {
                    for n in 0..10 {
                        for x in ["a", "", ",", "%41 \u{e9}", "&=;/?#%"] {
                            let t = format!("{{{op}x{m},y}}");
                            let iri = n % 2 == 0;
                            both(rec, r, iri, &t, vec![("x".into(), List(vec![x.into(); n])), ("y".into(), Str("z".into()))], None);
                            both(rec, r, iri, &t, vec![("x".into(), Assoc(vec![(x.into(), x.into()); n]))], None);
                            if n > 0 {
                                // a variable list of that length
                                let vars: Vec<String> = (0..n).map(|i| format!("v{i}{m}")).collect();
                                let env = (0..n).map(|i| (format!("v{i}"), if i % 4 == 3 { Undef } else { Str(x.into()) })).collect();
                                both(rec, r, iri, &format!("{{{op}{}}}", vars.join(",")), env, None);
                            }
                        }
                    }
                }
            }
            for n in 0..12000 * k {
                let t = rand_template(r, 4);
                let e = rand_env(r);
                both(rec, r, n % 2 == 0, &t, e, None);
            }
            // prefixes of every length over mixed text
            for n in 0..1500 * k {
                let t = format!("{{{}x:{}}}", ["+", "#", "", "?", ";"][n % 5], 1 + r.below(8));
                let x = if r.chance(1, 2) { rich(r, "%", true, true) } else if r.chance(1, 2) { rand_str(r, 6, &["%C3", "%A9", "%c3%a9", "a", "\u{e9}", "%", "%E3%81%82", "%E3", "%81", "%41", "/"]) } else { rand_text(r) };
                both(rec, r, n % 2 == 0, &t, vec![("x".into(), Str(x))], None);
            }
            for n in 0..2500 * k {
                let mut q = Rng::new(r.next(), 12);
                rec.case(|| "expand with a structure".into(), || Some(if n % 2 == 0 { naive_event::<UriSpec>(&mut q) } else { naive_event::<IriSpec>(&mut q) }));
            }
            for _ in 0..1200 * k {
                let mut q = Rng::new(r.next(), 13);
                rec.case(|| "SimpleContext".into(), || Some(store_event(&mut q)));
            }
        }
        _ => {
            for n in 0..5000 * k {
                let t = rand_template(r, 4);
                let e = rand_env(r);
                let mut cap = None;
                if n % 3 != 0 && cappable(&e) {
                    // every failure point, roughly
                    let len = UriTemplateStr::new(&t).unwrap().expand::<IriSpec, _>(&simple(&e)).map_or(10, |x| x.to_string().chars().count());
                    cap = Some(r.below(len + 2));
                }
                both(rec, r, n % 2 == 0, &t, e, cap);
            }
            // one template, every failure point
            for n in 0..40 * k {
                let t = rand_template(r, 3);
                let e = rand_env(r);
                if !cappable(&e) {
                    continue;
                }
                let len = UriTemplateStr::new(&t).unwrap().expand::<IriSpec, _>(&simple(&e)).map_or(6, |x| x.to_string().chars().count());
                for cap in 0..=(len + 1).min(60) {
                    both(rec, r, n % 2 == 0, &t, e.clone(), Some(cap));
                }
            }
        }
    }
}
/// Replays one finished dialogue of TemplateMC.
pub fn replay(v: &Json) -> Result<(), String> {
    fn go<S: Fam>(v: &Json) -> Result<(), String> {
        let t = text(&v["t"]);
        let ts = UriTemplateStr::new(&t).map_err(|_| "the template is refused".to_string())?;
        let asked: Vec<(String, Val)> = v["log"].as_array().unwrap().iter().map(|x| (text(&x["n"]), Val::of(&x["v"]))).collect();
        let mut env: Env = Vec::new();
        for (n, x) in &asked {
            if !env.iter().any(|(m, _)| m == n) {
                env.push((n.clone(), x.clone()));
            }
        }
        let (o, o2, err) = (text(&v["o"]), text(&v["o2"]), v["err"].as_str().unwrap());
        let cap = v["cap"].as_array().unwrap().first().map(|x| x.as_u64().unwrap() as usize);
        // what the dialogue must look like
        let mut want: Vec<(&str, String)> = vec![("start", String::new())];
        for (i, (n, _)) in asked.iter().enumerate() {
            want.push(("type", n.clone()));
            if !(err == "type" && i + 1 == asked.len()) {
                want.push(("value", n.clone()));
            }
        }
        want.push(("end", String::new()));
        for partial in [false, true] {
            let mut seed = Rng::new(t.len() as u64, 5 + partial as u64);
            let chunky = Chunky::new(&env, if partial { Some(&mut seed) } else { None });
            let mut d = Dyn { inner: &chunky, env: &env, steps: vec![] };
            let mut w = Capped { out: String::new(), left: cap.unwrap_or(usize::MAX), partial };
            let ok = ts.expand_dynamic::<S, _, _>(&mut w, &mut d).is_ok();
            if ok != err.is_empty() {
                return Err(format!("expansion gives ok={ok}, specification: {err:?}"));
            }
            if ok && w.out != o && w.out != o2 {
                return Err(format!("expands to {:?}, specification: {o:?}", w.out));
            }
            if !ok && !o.starts_with(&w.out) {
                return Err(format!("the sink received {:?}, which is no prefix of {o:?}", w.out));
            }
            if d.steps != want {
                return Err(format!("the context is asked {:?}, specification: {want:?}", d.steps));
            }
        }
        if cap.is_none() {
            let ctx = simple(&env);
            let r = ts.expand::<S, _>(&ctx);
            if r.is_ok() != err.is_empty() {
                return Err(format!("static expansion gives ok={}, specification: {err:?}", r.is_ok()));
            }
            if let Ok(x) = r {
                let x = x.to_string();
                if x != o && x != o2 {
                    return Err(format!("expands statically to {x:?}, specification: {o:?}"));
                }
            }
        }
        Ok(())
    }
    if v["sp"] == "iri" {
        go::<IriSpec>(v)
    } else {
        go::<UriSpec>(v)
    }
}
