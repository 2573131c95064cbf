//! Comparison, hashing, parsing, serialization (C18).
use crate::core::*;
use crate::gen::*;
use crate::iri::Fam;
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::template::{UriTemplateStr, UriTemplateString};
use iri_string::types::*;
use serde::de::value::{BorrowedStrDeserializer, Error as DeError, StrDeserializer, StringDeserializer};
use serde::de::IntoDeserializer;
use serde::Deserialize;
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

/// Results of comparing two operands that carry the texts a and b, every form of operands.
#[derive(Default)]
struct Cmp {
    eq: Vec<bool>,
    ord: Vec<i64>,
    h: Vec<bool>,
}
fn sign(o: Option<Ordering>) -> i64 {
    match o {
        Some(Ordering::Less) => -1,
        Some(Ordering::Equal) => 0,
        Some(Ordering::Greater) => 1,
        None => 9,
    }
}
impl Cmp {
    fn pair<A: ?Sized + PartialEq<B> + PartialOrd<B>, B: ?Sized + PartialEq<A> + PartialOrd<A>>(&mut self, a: &A, b: &B) {
        self.eq.push(a == b);
        self.eq.push(!(a != b));
        self.eq.push(b == a);
        self.eq.push(!(b != a));
        let o = sign(a.partial_cmp(b));
        let p = sign(b.partial_cmp(a));
        self.ord.push(o);
        self.ord.push(-p);
        // the derived operators
        self.ord.push(if a < b { -1 } else if a > b { 1 } else if a <= b && a >= b { 0 } else { 8 });
        self.ord.push(if b < a { 1 } else if b > a { -1 } else if b <= a && b >= a { 0 } else { 8 });
    }
    fn total<A: ?Sized + Ord>(&mut self, a: &A, b: &A) {
        self.eq.push(a == b);
        self.ord.push(sign(Some(a.cmp(b))));
    }
    fn hash(&mut self, s: &str, xs: &[u64]) {
        let h = hash(s);
        self.h.extend(xs.iter().map(|x| *x == h));
    }
}
fn hash<T: ?Sized + Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// Operands of one kind; `$T` is the family of the right operand.
macro_rules! same_kind {
    ($c:expr, $slice:ident, $owned:ident, $S:ty, $T:ty, $a:expr, $b:expr) => {{
        let (c, a, b): (&mut Cmp, &str, &str) = ($c, $a, $b);
        let x = <$slice<$S>>::new(a).unwrap();
        let xo = <$owned<$S>>::from(x);
        c.hash(a, &[hash(x), hash(&x), hash(&xo)]);
        if let Ok(y) = <$slice<$S>>::new(b) {
            c.total(x, y);
            c.pair(x, y);
            c.total(&xo, &<$owned<$S>>::from(y));
        }
        if let Ok(y) = <$slice<$T>>::new(b) {
            let yo = <$owned<$T>>::from(y);
            let yc: Cow<'_, $slice<$T>> = Cow::Borrowed(y);
            let yco: Cow<'_, $slice<$T>> = Cow::Owned(yo.clone());
            c.pair(x, &y);
            c.pair(&x, y);
            c.pair(x, &yo);
            c.pair(&x, &yo);
            c.pair(&xo, &yo);
            c.pair(&x, &yc);
            c.pair(&x, &yco);
            c.pair(&xo, &yc);
            c.pair(&xo, &yco);
        }
        same_str!(c, x, xo, b);
    }};
}
/// Against plain strings (valid or not).
macro_rules! same_str {
    ($c:expr, $x:expr, $xo:expr, $b:expr) => {{
        let (c, x, xo, b) = ($c, $x, &$xo, $b);
        let bs = String::from(b);
        let bc: Cow<'_, str> = Cow::Borrowed(b);
        let bo: Cow<'_, str> = Cow::Owned(bs.clone());
        c.pair(x, b);
        c.pair(x, &b);
        c.pair(&x, b);
        c.pair(x, &bc);
        c.pair(&x, &bc);
        c.pair(x, &bo);
        c.pair(xo, b);
        c.pair(xo, &b);
        c.pair(xo, &bc);
        c.pair(xo, &bo);
        c.pair(xo, &bs);
    }};
}
/// A kind against a wider one.
macro_rules! wider {
    ($c:expr, $fs:ident, $fo:ident, $ts:ident, $to:ident, $S:ty, $T:ty, $a:expr, $b:expr) => {{
        let (c, a, b): (&mut Cmp, &str, &str) = ($c, $a, $b);
        if let (Ok(x), Ok(y)) = (<$fs<$S>>::new(a), <$ts<$T>>::new(b)) {
            let xo = <$fo<$S>>::from(x);
            let yo = <$to<$T>>::from(y);
            let xc: Cow<'_, $fs<$S>> = Cow::Borrowed(x);
            let yc: Cow<'_, $ts<$T>> = Cow::Owned(yo.clone());
            c.pair(x, y);
            c.pair(&x, y);
            c.pair(x, &y);
            c.pair(x, &yc);
            c.pair(&x, &yc);
            c.pair(&xc, y);
            c.pair(&xc, &y);
            c.pair(x, &yo);
            c.pair(&x, &yo);
            c.pair(&xc, &yo);
            c.pair(&xo, y);
            c.pair(&xo, &y);
            c.pair(&xo, &yc);
            c.pair(&xo, &yo);
        }
    }};
}
fn cmp_event<S: Fam, T: Fam>(k: &str, a: &str, b: &str) -> Option<String> {
    let mut c = Cmp::default();
    macro_rules! kind {
        ($slice:ident, $owned:ident) => {{
            <$slice<S>>::new(a).ok()?;
            same_kind!(&mut c, $slice, $owned, S, T, a, b);
        }};
    }
    match k {
        "iri" => {
            kind!(RiStr, RiString);
            wider!(&mut c, RiStr, RiString, RiReferenceStr, RiReferenceString, S, T, a, b);
        }
        "reference" => kind!(RiReferenceStr, RiReferenceString),
        "absolute" => {
            kind!(RiAbsoluteStr, RiAbsoluteString);
            wider!(&mut c, RiAbsoluteStr, RiAbsoluteString, RiStr, RiString, S, T, a, b);
            wider!(&mut c, RiAbsoluteStr, RiAbsoluteString, RiReferenceStr, RiReferenceString, S, T, a, b);
        }
        "relative" => {
            kind!(RiRelativeStr, RiRelativeString);
            wider!(&mut c, RiRelativeStr, RiRelativeString, RiReferenceStr, RiReferenceString, S, T, a, b);
        }
        "query" => kind!(RiQueryStr, RiQueryString),
        "fragment" => kind!(RiFragmentStr, RiFragmentString),
        _ => {
            let x = UriTemplateStr::new(a).ok()?;
            let xo = UriTemplateString::from(x);
            c.hash(a, &[hash(x), hash(&x), hash(&xo)]);
            if let Ok(y) = UriTemplateStr::new(b) {
                let yo = UriTemplateString::from(y);
                c.total(x, y);
                c.total(&xo, &yo);
                c.pair(x, y);
                c.pair(&xo, &yo);
            }
            same_str!(&mut c, x, xo, b);
        }
    }
    Some(J::op("cmp").t("k", k).t("sp", S::SP).s("a", a).s("b", b).fl("eq", &c.eq).nl("ord", &c.ord).fl("h", &c.h).end())
}
/// Every way to read a text as a kind, and to write it.
fn parse_event<S: Fam>(k: &str, s: &str) -> String {
    let mut ok = Vec::new();
    let mut o: Vec<String> = Vec::new();
    let mut bad = Vec::new();
    let json = serde_json::to_string(s).unwrap();
    macro_rules! go {
        ($slice:ty, $owned:ty) => {{
            type D<'a> = BorrowedStrDeserializer<'a, DeError>;
            let mut put = |x: Option<$owned>| {
                ok.push(x.is_some());
                if let Some(x) = x {
                    o.push(x.to_string());
                    o.push(String::from(x));
                }
            };
            put(s.parse::<$owned>().ok());
            put(<$owned>::deserialize(D::new(s)).ok());
            let d: StrDeserializer<'_, DeError> = s.into_deserializer();
            put(<$owned>::deserialize(d).ok());
            let d: StringDeserializer<DeError> = s.to_string().into_deserializer();
            put(<$owned>::deserialize(d).ok());
            put(serde_json::from_str::<$owned>(&json).ok());
            let b = <&$slice>::deserialize(D::new(s)).ok();
            put(b.map(|b| b.to_owned()));
            if !json.contains('\\') {
                put(serde_json::from_str::<&$slice>(&json).ok().map(|b| b.to_owned()));
            }
            if let Ok(b) = <&$slice>::try_from(s) {
                let own = <$owned>::from(b);
                o.push(format!("{b}"));
                o.push(format!("{own}"));
                for j in [serde_json::to_string(b), serde_json::to_string(&own), serde_json::to_string(&b)] {
                    o.push(serde_json::from_str::<String>(&j.unwrap()).unwrap());
                }
                o.push(serde_json::to_value(b).unwrap().as_str().unwrap().to_string());
            }
            for j in ["null", "1", "[]", "{}", "true"] {
                bad.push(serde_json::from_str::<$owned>(j).is_err());
                bad.push(serde_json::from_str::<&$slice>(j).is_err());
            }
        }};
    }
    match k {
        "iri" => go!(RiStr<S>, RiString<S>),
        "reference" => go!(RiReferenceStr<S>, RiReferenceString<S>),
        "absolute" => go!(RiAbsoluteStr<S>, RiAbsoluteString<S>),
        "relative" => go!(RiRelativeStr<S>, RiRelativeString<S>),
        "query" => go!(RiQueryStr<S>, RiQueryString<S>),
        "fragment" => go!(RiFragmentStr<S>, RiFragmentString<S>),
        _ => go!(UriTemplateStr, UriTemplateString),
    }
    J::op("parse").t("k", k).t("sp", S::SP).s("s", s).fl("ok", &ok).same("o", &o).fl("bad", &bad).end()
}
const KINDS: &[&str] = &["iri", "reference", "absolute", "relative", "query", "fragment", "template"];
fn sample(r: &mut Rng, p: &Parts, k: &str) -> String {
    match k {
        "iri" => p.edited(r, true, 2),
        "absolute" => {
            let s = p.edited(r, true, 2);
            s.split('#').next().unwrap().to_string()
        }
        "relative" => p.edited(r, false, 2),
        "query" => p.query(r) + &rand_str(r, 3, PCHARISH),
        "fragment" => p.frag(r) + &rand_str(r, 3, PCHARISH),
        "template" => crate::template::rand_template(r, 3),
        _ => {
            let c = r.chance(1, 2);
            p.edited(r, c, 2)
        }
    }
}
/// A text that is near to the given one: equal, a prefix, an extension, one character changed, another case.
fn near(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    match r.below(6) {
        0 => {}
        1 => {
            v.truncate(r.below(v.len() + 1));
        }
        2 => v.extend(rand_str(r, 2, PCHARISH).chars()),
        3 if !v.is_empty() => {
            let i = r.below(v.len());
            v[i] = rand_char(r);
        }
        4 if !v.is_empty() => {
            let i = r.below(v.len());
            v[i] = if v[i].is_ascii_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() };
        }
        _ => {
            let i = r.below(v.len() + 1);
            v.insert(i, ['a', '%', '\u{e9}', '\u{ffef}', '\u{10000}', '0', '/'][r.below(7)]);
        }
    }
    v.into_iter().collect()
}
pub fn record(rec: &mut Rec, r: &mut Rng, thorough: bool) {
    let parts = [Parts::new(false), Parts::new(true)];
    for _ in 0..if thorough { 40000 } else { 4000 } {
        let k = r.pick(KINDS);
        let a = compare(rec, r, &parts, k);
        parse(rec, r, k, a);
    }
}
#[cfg(feature = "cov")]
pub fn random(rec: &mut Rec, r: &mut Rng, parts: &[Parts; 2]) {
    let k = r.pick(KINDS);
    if r.chance(1, 2) {
        compare(rec, r, parts, k);
    } else {
        let a = sample(r, &parts[1], k);
        parse(rec, r, k, a);
    }
}
fn compare(rec: &mut Rec, r: &mut Rng, parts: &[Parts; 2], k: &str) -> String {
    let p = &parts[r.below(2)];
    let a = sample(r, p, k);
    let b = match r.below(4) {
        0 => {
            let k2 = KINDS[r.below(6)];
            sample(r, p, k2)
        }
        _ => near(r, &a),
    };
    let f = r.below(4);
    if rec.fresh(&format!("c{f}{k}{a}\u{0}{b}")) {
        rec.case(
            || format!("compare {k} {a:?} {b:?}"),
            || match f {
                0 => cmp_event::<UriSpec, UriSpec>(k, &a, &b),
                1 => cmp_event::<UriSpec, IriSpec>(k, &a, &b),
                2 => cmp_event::<IriSpec, UriSpec>(k, &a, &b),
                _ => cmp_event::<IriSpec, IriSpec>(k, &a, &b),
            },
        );
    }
    a
}
fn parse(rec: &mut Rec, r: &mut Rng, k: &str, a: String) {
    let s = match r.below(6) {
        0 | 1 => a,
        2 => rand_unicode(r, 5),
        3 => rand_str(r, 6, &["a", ":", "/", "?", "#", "%41", "%4", "[", "]", "@", "{", "}", "\u{e9}", " ", "\"", "\\"]),
        4 => edit(r, &a, true),
        _ => near(r, &a),
    };
    let iri = r.chance(1, 2);
    if rec.fresh(&format!("p{iri}{k}{s}")) {
        rec.case(|| format!("parse {k} iri={iri} {s:?}"), || Some(if iri { parse_event::<IriSpec>(k, &s) } else { parse_event::<UriSpec>(k, &s) }));
    }
}
