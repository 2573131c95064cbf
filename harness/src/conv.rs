//! Conversions between the string kinds (C11).
use crate::core::*;
use crate::gen::*;
use crate::iri::Fam;
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::types::*;
use std::borrow::{Borrow, Cow};
use std::convert::TryFrom;
use std::rc::Rc;
use std::sync::Arc;

pub struct Out {
    sp: &'static str,
    /// names of the calls, kind, family, success, text; calls with the same outcome are recorded once
    r: Vec<(String, String, String, bool, usize)>,
    texts: Vec<String>,
    af: Vec<String>,
}
impl Out {
    fn sp(&mut self, n: &str, k: &str, sp: &str, ok: bool, s: &str) {
        let t = self.texts.iter().position(|t| t == s).unwrap_or_else(|| {
            self.texts.push(s.to_string());
            self.texts.len() - 1
        });
        match self.r.iter_mut().find(|r| r.1 == k && r.2 == sp && r.3 == ok && r.4 == t) {
            Some(r) => {
                r.0.push_str("; ");
                r.0.push_str(n);
            }
            None => self.r.push((n.into(), k.into(), sp.into(), ok, t)),
        }
    }
    fn put(&mut self, n: &str, k: &str, ok: bool, s: &str) {
        let sp = self.sp;
        self.sp(n, k, sp, ok, s)
    }
    fn af(&mut self, n: &str, a: &str, f: Option<&str>) {
        self.af.push(J(format!("{{\"n\":\"{n}\"")).s("a", a).o("f", f).end());
    }
}
/// Forms of one kind: borrowed, owned, boxed, shared, copy-on-write, plain.
macro_rules! forms {
    ($o:expr, $k:expr, $S:ty, $slice:ident, $owned:ident, $s:expr) => {{
        let (o, k, s): (&mut Out, &str, &str) = ($o, $k, $s);
        let b = <$slice<$S>>::new(s).unwrap();
        let own = || <$owned<$S>>::from(b);
        o.put("as_str", k, true, b.as_str());
        o.put("as_ref str", k, true, AsRef::<str>::as_ref(b));
        o.put("into str", k, true, <&str>::from(b));
        o.put("as_ref self", k, true, AsRef::<$slice<$S>>::as_ref(b).as_str());
        o.put("box", k, true, Box::<$slice<$S>>::from(b).as_str());
        o.put("rc", k, true, Rc::<$slice<$S>>::from(b).as_str());
        o.put("arc", k, true, Arc::<$slice<$S>>::from(b).as_str());
        o.put("cow", k, matches!(Cow::<$slice<$S>>::from(b), Cow::Borrowed(_)), Cow::<$slice<$S>>::from(b).as_str());
        o.put("to_owned", k, true, b.to_owned().as_str());
        o.put("owned", k, true, own().as_slice().as_str());
        o.put("owned clone", k, true, own().clone().as_str());
        o.put("owned deref", k, true, (&*own()).as_str());
        o.put("owned as_ref str", k, true, AsRef::<str>::as_ref(&own()));
        o.put("owned as_ref slice", k, true, AsRef::<$slice<$S>>::as_ref(&own()).as_str());
        o.put("owned borrow str", k, true, Borrow::<str>::borrow(&own()));
        o.put("owned borrow slice", k, true, Borrow::<$slice<$S>>::borrow(&own()).as_str());
        o.put("owned box", k, true, Box::<$slice<$S>>::from(own()).as_str());
        o.put("owned cow", k, matches!(Cow::<$slice<$S>>::from(own()), Cow::Owned(_)), Cow::<$slice<$S>>::from(own()).as_str());
        o.put("owned string", k, true, &String::from(own()));
        let mut x = own();
        x.shrink_to_fit();
        o.put("shrunk", k, x.capacity() >= s.len() && x.len() == s.len() && x.is_empty() == s.is_empty() && b.len() == s.len(), x.as_str());
    }};
}
/// From a kind to a wider one, and back from the wider one.
macro_rules! widen {
    ($o:expr, $S:ty, $k:expr, $slice:ident, $owned:ident, $wk:expr, $wslice:ident, $wowned:ident, $s:expr) => {{
        let (o, s): (&mut Out, &str) = ($o, $s);
        if let Ok(b) = <$slice<$S>>::new(s) {
            o.put("as_ref wider", $wk, true, AsRef::<$wslice<$S>>::as_ref(b).as_str());
            o.put("into wider", $wk, true, <&$wslice<$S>>::from(b).as_str());
            let own = b.to_owned();
            o.put("owned as_ref wider", $wk, true, AsRef::<$wslice<$S>>::as_ref(&own).as_str());
            o.put("owned into wider", $wk, true, <$wowned<$S>>::from(own).as_str());
        }
        if let Ok(w) = <$wslice<$S>>::new(s) {
            let r = <&$slice<$S>>::try_from(w);
            o.put("try narrower", $k, r.is_ok(), r.map(|x| x.as_str()).unwrap_or(s));
            match <$owned<$S>>::try_from(w.to_owned()) {
                Ok(x) => o.put("owned try narrower", $k, true, x.as_str()),
                Err(e) => {
                    let v = e.validation_error() == e.clone().validation_error();
                    let back: $wowned<$S> = e.into_source();
                    o.put("owned try narrower", if v { $k } else { "error changed" }, false, back.as_str())
                }
            }
        }
    }};
}
macro_rules! plain {
    ($o:expr, $k:expr, $S:ty, $slice:ident, $owned:ident, $s:expr) => {{
        let (o, k, s): (&mut Out, &str, &str) = ($o, $k, $s);
        let r = <$slice<$S>>::new(s);
        o.put("new", k, r.is_ok(), r.map(|x| x.as_str()).unwrap_or(s));
        let r = <&$slice<$S>>::try_from(s);
        o.put("try_from str", k, r.is_ok(), r.map(|x| x.as_str()).unwrap_or(s));
        let r = <&$slice<$S>>::try_from(s.as_bytes());
        o.put("try_from bytes", k, r.is_ok(), r.map(|x| x.as_str()).unwrap_or(s));
        let r = <$owned<$S>>::try_from(s);
        o.put("owned try_from str", k, r.is_ok(), r.as_ref().map(|x| x.as_str()).unwrap_or(s));
        let r = <$owned<$S>>::try_from(s.as_bytes());
        o.put("owned try_from bytes", k, r.is_ok(), r.as_ref().map(|x| x.as_str()).unwrap_or(s));
        let r = s.parse::<$owned<$S>>();
        o.put("parse", k, r.is_ok(), r.as_ref().map(|x| x.as_str()).unwrap_or(s));
        match <$owned<$S>>::try_from(s.to_string()) {
            Ok(x) => o.put("owned try_from string", k, true, x.as_str()),
            Err(e) => o.put("owned try_from string", k, false, &e.into_source()),
        }
    }};
}
fn conv_event<S: Fam>(s: &str, family: impl FnOnce(&mut Out, &str)) -> String {
    let mut out = Out { sp: S::SP, r: vec![], texts: vec![], af: vec![] };
    let o = &mut out;
    plain!(o, "iri", S, RiStr, RiString, s);
    plain!(o, "reference", S, RiReferenceStr, RiReferenceString, s);
    plain!(o, "absolute", S, RiAbsoluteStr, RiAbsoluteString, s);
    plain!(o, "relative", S, RiRelativeStr, RiRelativeString, s);
    plain!(o, "query", S, RiQueryStr, RiQueryString, s);
    plain!(o, "fragment", S, RiFragmentStr, RiFragmentString, s);
    if RiStr::<S>::new(s).is_ok() {
        forms!(o, "iri", S, RiStr, RiString, s);
        let i = RiStr::<S>::new(s).unwrap();
        let (a, f) = i.to_absolute_and_fragment();
        o.af("to_absolute_and_fragment", a.as_str(), f.map(|f| f.as_str()));
        o.af("to_absolute", i.to_absolute().as_str(), f.map(|f| f.as_str()));
        let (a, f) = i.to_owned().into_absolute_and_fragment();
        o.af("into_absolute_and_fragment", a.as_str(), f.as_ref().map(|f| f.as_str()));
        o.af("into_absolute", i.to_owned().into_absolute().as_str(), i.fragment().map(|f| f.as_str()));
    }
    if let Ok(r) = RiReferenceStr::<S>::new(s) {
        forms!(o, "reference", S, RiReferenceStr, RiReferenceString, s);
        match r.to_iri() {
            Ok(x) => o.put("to_iri", "iri", true, x.as_str()),
            Err(x) => o.put("to_iri else", "relative", true, x.as_str()),
        }
        match r.to_relative_iri() {
            Ok(x) => o.put("to_relative_iri", "relative", true, x.as_str()),
            Err(x) => o.put("to_relative_iri else", "iri", true, x.as_str()),
        }
        match r.to_owned().into_iri() {
            Ok(x) => o.put("into_iri", "iri", true, x.as_str()),
            Err(x) => o.put("into_iri else", "relative", true, x.as_str()),
        }
        match r.to_owned().into_relative_iri() {
            Ok(x) => o.put("into_relative_iri", "relative", true, x.as_str()),
            Err(x) => o.put("into_relative_iri else", "iri", true, x.as_str()),
        }
    }
    if RiAbsoluteStr::<S>::new(s).is_ok() {
        forms!(o, "absolute", S, RiAbsoluteStr, RiAbsoluteString, s);
    }
    if RiRelativeStr::<S>::new(s).is_ok() {
        forms!(o, "relative", S, RiRelativeStr, RiRelativeString, s);
    }
    if RiQueryStr::<S>::new(s).is_ok() {
        forms!(o, "query", S, RiQueryStr, RiQueryString, s);
    }
    if RiFragmentStr::<S>::new(s).is_ok() {
        forms!(o, "fragment", S, RiFragmentStr, RiFragmentString, s);
    }
    widen!(o, S, "iri", RiStr, RiString, "reference", RiReferenceStr, RiReferenceString, s);
    widen!(o, S, "absolute", RiAbsoluteStr, RiAbsoluteString, "iri", RiStr, RiString, s);
    widen!(o, S, "absolute", RiAbsoluteStr, RiAbsoluteString, "reference", RiReferenceStr, RiReferenceString, s);
    widen!(o, S, "relative", RiRelativeStr, RiRelativeString, "reference", RiReferenceStr, RiReferenceString, s);
    for (pre, t) in [("?", s), ("#", s), ("", s)] {
        // a prefixed query or fragment
        let full = format!("{pre}{t}");
        let q = RiQueryStr::<S>::from_prefixed(&full);
        let f = RiFragmentStr::<S>::from_prefixed(&full);
        let name = match pre {
            "?" => ["query", "never"],
            "#" => ["never", "fragment"],
            _ => ["pquery", "pfragment"],
        };
        o.put("from_prefixed query", name[0], q.is_ok(), if pre.is_empty() { s } else { q.map(|q| q.as_str()).unwrap_or(s) });
        o.put("from_prefixed fragment", name[1], f.is_ok(), if pre.is_empty() { s } else { f.map(|q| q.as_str()).unwrap_or(s) });
    }
    family(o, s);
    let r: Vec<String> = out.r.iter().map(|(n, k, sp, ok, t)| J(format!("{{\"n\":\"{n}\"")).t("k", k).t("sp", sp).f("ok", *ok).raw("t", &(t + 1).to_string()).end()).collect();
    J::op("conv").t("sp", S::SP).s("s", s).l("texts", &out.texts).raw("r", &jl(&r)).raw("af", &jl(&out.af)).end()
}
macro_rules! up {
    ($o:expr, $s:expr, $k:expr, $us:ident, $uo:ident, $is:ident, $io:ident) => {
        if let Ok(u) = $us::new($s) {
            $o.sp("as_ref iri", $k, "iri", true, AsRef::<$is>::as_ref(u).as_str());
            let own = $uo::from(u);
            $o.sp("owned as_ref iri", $k, "iri", true, AsRef::<$is>::as_ref(&own).as_str());
            $o.sp("owned into iri", $k, "iri", true, $io::from(own).as_str());
        }
    };
}
macro_rules! down {
    ($o:expr, $s:expr, $k:expr, $is:ident, $io:ident) => {
        if let Ok(i) = $is::new($s) {
            let u = i.as_uri();
            $o.sp("as_uri", $k, "uri", u.is_some(), u.map(|u| u.as_str()).unwrap_or($s));
            match i.to_owned().try_into_uri() {
                Ok(u) => $o.sp("try_into_uri", $k, "uri", true, u.as_str()),
                Err(i) => $o.sp("try_into_uri", $k, "uri", false, i.as_str()),
            }
        }
    };
}
fn uri_event(s: &str) -> String {
    conv_event::<UriSpec>(s, |o, s| {
        up!(o, s, "iri", UriStr, UriString, IriStr, IriString);
        up!(o, s, "reference", UriReferenceStr, UriReferenceString, IriReferenceStr, IriReferenceString);
        up!(o, s, "absolute", UriAbsoluteStr, UriAbsoluteString, IriAbsoluteStr, IriAbsoluteString);
        up!(o, s, "relative", UriRelativeStr, UriRelativeString, IriRelativeStr, IriRelativeString);
        up!(o, s, "query", UriQueryStr, UriQueryString, IriQueryStr, IriQueryString);
        up!(o, s, "fragment", UriFragmentStr, UriFragmentString, IriFragmentStr, IriFragmentString);
    })
}
fn iri_event(s: &str) -> String {
    conv_event::<IriSpec>(s, |o, s| {
        down!(o, s, "iri", IriStr, IriString);
        down!(o, s, "reference", IriReferenceStr, IriReferenceString);
        down!(o, s, "absolute", IriAbsoluteStr, IriAbsoluteString);
        down!(o, s, "relative", IriRelativeStr, IriRelativeString);
        down!(o, s, "query", IriQueryStr, IriQueryString);
        down!(o, s, "fragment", IriFragmentStr, IriFragmentString);
    })
}
/// Replays one text of ConvMC: which kinds it has, and where it splits.
pub fn record(rec: &mut Rec, r: &mut Rng, thorough: bool) {
    let mut go = |s: &str| {
        if rec.fresh(s) {
            rec.case(|| format!("conv uri {s:?}"), || Some(uri_event(s)));
            rec.case(|| format!("conv iri {s:?}"), || Some(iri_event(s)));
        }
    };
    // short strings over the characters that decide kinds
    all_strings(&["a", ":", "/", "?", "#"], 4, &mut go);
    all_strings(&["a:", "//", "[", "]", "@", "%", "%41", "\u{e9}", "\u{e000}", "#", "?", "1"], if thorough { 4 } else { 2 }, &mut go);
    let pi = Parts::new(true);
    let pu = Parts::new(false);
    let p = [pu, pi];
    for _ in 0..if thorough { 12000 } else { 1600 } {
        let s = random_text(r, &p);
        go(&s);
    }
    for s in stretched(250) {
        go(&s);
    }
}
fn random_text(r: &mut Rng, parts: &[Parts; 2]) -> String {
    let p = &parts[r.below(2)];
    let sc = r.chance(1, 2);
    let mut s = match r.below(8) {
        0 => rich(r, ":@/?", p.iri, true),
        _ => p.edited(r, sc, 3),
    };
    if r.chance(1, 8) {
        // damage
        let cs: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
        let k = cs[r.below(cs.len())];
        s.insert_str(k, ["#", "%", "\u{fdd0}", "\u{e000}", ":", "//", "[", "<", "\\"][r.below(9)]);
    }
    s
}
#[cfg(feature = "cov")]
pub fn random(rec: &mut Rec, r: &mut Rng, parts: &[Parts; 2]) {
    let s = random_text(r, parts);
    if r.chance(1, 2) {
        rec.case(|| format!("conv uri {s:?}"), || Some(uri_event(&s)));
    } else {
        rec.case(|| format!("conv iri {s:?}"), || Some(iri_event(&s)));
    }
}
