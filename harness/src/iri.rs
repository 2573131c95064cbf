//! Recorders for the operations on IRI strings (decomposition, resolution, normalization, masking).
use crate::core::*;
use crate::gen::*;
pub use crate::gen::shuffle;
use iri_string::components::AuthorityComponents;
use iri_string::format::ToDedicatedString;
use iri_string::resolve::FixedBaseResolver;
use iri_string::types::*;

pub use crate::fam::Fam;
use crate::fam::{ac_json, view};

/// The accessors of one type on a text.
pub fn view_of<S: Fam>(kind: &str, s: &str) -> String {
    match kind {
        "iri" => {
            let r = RiStr::<S>::new(s).unwrap();
            view("iri", Some(r.scheme_str()), r.authority_str(), r.path_str(), r.query_str(), r.query().map(|q| q.as_str()), r.fragment_str(), r.fragment().map(|q| q.as_str()), ac_json(r.authority_components()))
        }
        "reference" => {
            let r = RiReferenceStr::<S>::new(s).unwrap();
            view("reference", r.scheme_str(), r.authority_str(), r.path_str(), r.query_str(), r.query().map(|q| q.as_str()), r.fragment_str(), r.fragment().map(|q| q.as_str()), ac_json(r.authority_components()))
        }
        "absolute" => {
            let r = RiAbsoluteStr::<S>::new(s).unwrap();
            view("absolute", Some(r.scheme_str()), r.authority_str(), r.path_str(), r.query_str(), r.query().map(|q| q.as_str()), None, None, ac_json(r.authority_components()))
        }
        _ => {
            let r = RiRelativeStr::<S>::new(s).unwrap();
            view("relative", None, r.authority_str(), r.path_str(), r.query_str(), r.query().map(|q| q.as_str()), r.fragment_str(), r.fragment().map(|q| q.as_str()), ac_json(r.authority_components()))
        }
    }
}

/// C03: one event per string, with the decomposition reported by every type that can hold it.
pub fn split_event<S: Fam>(s: &str) -> Option<String> {
    let mut views = Vec::new();
    if let Ok(r) = RiReferenceStr::<S>::new(s) {
        views.push(view("reference", r.scheme_str(), r.authority_str(), r.path_str(), r.query_str(), r.query().map(|q| q.as_str()), r.fragment_str(), r.fragment().map(|q| q.as_str()), ac_json(r.authority_components())));
        let o = r.to_owned();
        views.push(view("reference", o.scheme_str(), o.authority_str(), o.path_str(), o.query_str(), o.query().map(|q| q.as_str()), o.fragment_str(), o.fragment().map(|q| q.as_str()), ac_json(AuthorityComponents::from_iri(&o))));
    } else {
        return None;
    }
    if let Ok(r) = RiStr::<S>::new(s) {
        views.push(view("iri", Some(r.scheme_str()), r.authority_str(), r.path_str(), r.query_str(), r.query().map(|q| q.as_str()), r.fragment_str(), r.fragment().map(|q| q.as_str()), ac_json(r.authority_components())));
    }
    if let Ok(r) = RiAbsoluteStr::<S>::new(s) {
        views.push(view("absolute", Some(r.scheme_str()), r.authority_str(), r.path_str(), r.query_str(), r.query().map(|q| q.as_str()), None, None, ac_json(r.authority_components())));
        let f = FixedBaseResolver::new(r);
        views.push(view("base", Some(f.scheme_str()), f.authority_str(), f.path_str(), f.query_str(), f.query().map(|q| q.as_str()), None, None, ac_json(r.authority_components())));
    }
    if let Ok(r) = RiRelativeStr::<S>::new(s) {
        views.push(view("relative", None, r.authority_str(), r.path_str(), r.query_str(), r.query().map(|q| q.as_str()), r.fragment_str(), r.fragment().map(|q| q.as_str()), ac_json(r.authority_components())));
    }
    Some(J::op("split").t("sp", S::SP).s("s", s).raw("v", &jl(&views)).end())
}

/// C04
pub fn resolve_event<S: Fam>(b: &str, r: &str) -> Option<String> {
    let base = RiAbsoluteStr::<S>::new(b).ok()?;
    let re = RiReferenceStr::<S>::new(r).ok()?;
    let mut o = vec![re.resolve_against(base).to_string()];
    let d: RiString<S> = re.resolve_against(base).to_dedicated_string();
    o.push(d.to_string());
    let f = FixedBaseResolver::new(base);
    o.push(f.resolve(re).to_string());
    o.push(RiString::<S>::from(f.resolve(re)).into());
    o.push(RiString::<S>::from(&FixedBaseResolver::new(f.base()).resolve(re)).into());
    if let Ok(rel) = RiRelativeStr::<S>::new(r) {
        o.push(rel.resolve_against(base).to_string());
    }
    let valid = RiStr::<S>::new(&o[0]).is_ok();
    Some(J::op("resolve").t("sp", S::SP).s("b", b).s("r", r).same("o", &o).f("valid", valid).end())
}
/// C05, resolution with normalization
pub fn rnorm_event<S: Fam>(b: &str, r: &str) -> Option<String> {
    let base = RiAbsoluteStr::<S>::new(b).ok()?;
    let re = RiReferenceStr::<S>::new(r).ok()?;
    let mut d = vec![re.resolve_against(base).and_normalize().to_string()];
    d.push(FixedBaseResolver::new(base).resolve(re).and_normalize().to_dedicated_string().into());
    let mut x = re.resolve_against(base);
    x.enable_normalization();
    d.push(x.to_string());
    let mut p = vec![re.resolve_against(base).and_normalize_but_preserve_authorityless_relative_path().to_string()];
    let mut x = FixedBaseResolver::new(base).resolve(re);
    x.enable_normalization_preserving_authorityless_relative_path();
    p.push(x.to_dedicated_string().into());
    let valid = RiStr::<S>::new(&d[0]).is_ok() && RiStr::<S>::new(&p[0]).is_ok();
    Some(J::op("rnorm").t("sp", S::SP).s("b", b).s("r", r).same("d", &d).same("p", &p).f("valid", valid).end())
}
/// C05
pub fn norm_event<S: Fam>(s: &str) -> Option<String> {
    let i = RiStr::<S>::new(s).ok()?;
    let mut d = vec![i.normalize().to_string(), i.normalize().to_dedicated_string().into(), RiString::<S>::from(i.normalize()).into()];
    let mut p = vec![
        i.normalize_but_preserve_authorityless_relative_path().to_string(),
        i.normalize_but_preserve_authorityless_relative_path().to_dedicated_string().into(),
    ];
    if let Ok(a) = RiAbsoluteStr::<S>::new(s) {
        d.push(a.normalize().to_string());
        d.push(a.normalize().to_dedicated_string().into());
        d.push(RiAbsoluteString::<S>::from(a.normalize()).into());
        p.push(a.normalize_but_preserve_authorityless_relative_path().to_string());
        p.push(a.normalize_but_preserve_authorityless_relative_path().to_dedicated_string().into());
    }
    let valid = RiStr::<S>::new(&d[0]).is_ok() && RiStr::<S>::new(&p[0]).is_ok();
    Some(J::op("norm").t("sp", S::SP).s("s", s).same("d", &d).same("p", &p).f("valid", valid).end())
}
/// C06
pub fn isnorm_event<S: Fam>(s: &str) -> Option<String> {
    let i = RiStr::<S>::new(s).ok()?;
    let n = i.normalize().to_string();
    let p = i.normalize_but_preserve_authorityless_relative_path().to_string();
    let i2 = RiStr::<S>::new(&n).ok();
    let p2 = RiStr::<S>::new(&p).ok();
    let preds = |i: &RiStr<S>| [i.is_normalized(), i.is_normalized_rfc3986(), i.is_normalized_but_authorityless_relative_path_preserved()];
    let mut ps: Vec<String> = vec![format!("{:?}", preds(i))];
    if let Ok(a) = RiAbsoluteStr::<S>::new(s) {
        ps.push(format!("{:?}", [a.is_normalized(), a.is_normalized_rfc3986(), a.is_normalized_but_authorityless_relative_path_preserved()]));
    }
    Some(
        J::op("isnorm")
            .t("sp", S::SP)
            .s("s", s)
            .raw("p", &jl(&ps))
            .s("n", &n)
            .s("m", &p)
            .l("nn", &i2.map(|i| vec![i.normalize().to_string()]).unwrap_or_default())
            .l("mm", &p2.map(|i| vec![i.normalize_but_preserve_authorityless_relative_path().to_string()]).unwrap_or_default())
            .raw("np", &i2.map(|i| format!("{:?}", preds(i))).unwrap_or("[]".into()))
            .raw("mp", &p2.map(|i| format!("{:?}", preds(i))).unwrap_or("[]".into()))
            .end(),
    )
}
/// C07
pub fn ensure_event<S: Fam>(s: &str) -> Option<String> {
    let i = RiStr::<S>::new(s).ok()?;
    let mut v = vec![
        i.ensure_rfc3986_normalizable().is_ok(),
        i.normalize().ensure_rfc3986_normalizable().is_ok(),
        i.normalize_but_preserve_authorityless_relative_path().ensure_rfc3986_normalizable().is_ok(),
    ];
    if let Ok(a) = RiAbsoluteStr::<S>::new(s) {
        v.push(a.ensure_rfc3986_normalizable().is_ok());
        v.push(a.normalize().ensure_rfc3986_normalizable().is_ok());
    }
    Some(J::op("ensure").t("sp", S::SP).s("s", s).fl("v", &v).end())
}
pub fn rensure_event<S: Fam>(b: &str, r: &str) -> Option<String> {
    let base = RiAbsoluteStr::<S>::new(b).ok()?;
    let re = RiReferenceStr::<S>::new(r).ok()?;
    let n = re.resolve_against(base);
    let n = n.ensure_rfc3986_normalizable().is_ok();
    let v = [
        re.resolve_against(base).and_normalize().ensure_rfc3986_normalizable().is_ok(),
        re.resolve_against(base).and_normalize_but_preserve_authorityless_relative_path().ensure_rfc3986_normalizable().is_ok(),
    ];
    Some(J::op("rensure").t("sp", S::SP).s("b", b).s("r", r).f("n", n).fl("v", &v).end())
}

/// C09
pub fn mask_event<S: Fam>(s: &str) -> Option<String> {
    RiReferenceStr::<S>::new(s).ok()?;
    let mut m: Vec<String> = vec![]; // masked
    let mut dbg: Vec<String> = vec![]; // debug of masked
    let mut rep: Vec<String> = vec![]; // replaced by "*X*"
    let mut rdbg: Vec<String> = vec![];
    let mut pw: Vec<String> = vec![]; // password passed to the replacer
    let mut rm: Vec<String> = vec![];
    let mut rmn: Vec<String> = vec![];
    let mut valid = true;
    macro_rules! go {
        ($b:ident, $o:ident) => {
            if let Ok(r) = $b::<S>::new(s) {
                let k = r.mask_password();
                m.push(k.to_string());
                let ded: $o<S> = k.to_dedicated_string();
                m.push(ded.to_string());
                m.extend(flagged(&k));
                rep.extend(flagged(&k.replace_password("*X*")));
                dbg.push(format!("{:?}", k));
                rep.push(k.replace_password("*X*").to_string());
                rdbg.push(format!("{:?}", k.replace_password("*X*")));
                let mut got = Vec::new();
                rep.push(k.replace_password_with(|p| { got.push(p.to_string()); "*X*" }).to_string());
                pw.push(if got.len() > 1 { "many".into() } else { let mut o = String::new(); opt(&mut o, got.first().map(|x| x.as_str())); o });
                let mut a = r.to_owned();
                a.remove_password_inline();
                valid &= $b::<S>::new(a.as_str()).is_ok();
                rm.push(a.into());
                let mut a = r.to_owned();
                a.remove_nonempty_password_inline();
                valid &= $b::<S>::new(a.as_str()).is_ok();
                rmn.push(a.into());
            }
        };
    }
    go!(RiReferenceStr, RiReferenceString);
    go!(RiStr, RiString);
    go!(RiAbsoluteStr, RiAbsoluteString);
    go!(RiRelativeStr, RiRelativeString);
    Some(
        J::op("mask").t("sp", S::SP).s("s", s).same("m", &m).same("dbg", &dbg).same("rep", &rep).same("rdbg", &rdbg).raw("pw", &jl(&pw)).same("rm", &rm).same("rmn", &rmn).f("valid", valid).end(),
    )
}

/// One random case.
#[cfg(feature = "cov")]
pub fn random<S: Fam>(prop: &str, rec: &mut Rec, r: &mut Rng, parts: &Parts) {
    macro_rules! one {
        ($f:ident, $s:expr) => {{
            let s: &str = $s;
            rec.case(|| format!("{} {} {:?}", stringify!($f), S::SP, s), || $f::<S>(s));
        }};
    }
    macro_rules! two {
        ($f:ident, $b:expr, $s:expr) => {{
            let (b, s): (&str, &str) = ($b, $s);
            rec.case(|| format!("{} {} {:?} {:?}", stringify!($f), S::SP, b, s), || $f::<S>(b, s));
        }};
    }
    let pair = |r: &mut Rng| {
        let b = parts.edited(r, true, 5);
        let b = b.split('#').next().unwrap().to_string();
        let sc = r.chance(1, 6);
        let q = if r.chance(1, 6) { deep_path(r) } else { parts.edited(r, sc, 5) };
        (b, q)
    };
    let auth = |r: &mut Rng| {
        let mut s = format!("{}//{}", ["", "a:", "HTTP:"][r.below(3)], rand_str(r, 5, &["a", ":", "@", "1", "[::1]", "%3a", "[v1.a:b]", "%40", ":0"]));
        s.push_str(["", "/", "/a@b:c", "?x:y@z/", "#u:p@h/", "/p?q#f", "/:@"][r.below(7)]);
        s
    };
    match prop {
        "C03" => {
            let sc = r.chance(2, 3);
            let s = if r.chance(1, 6) { auth(r) } else { parts.edited(r, sc, 4) };
            one!(split_event, &s)
        }
        "C04" => {
            let (b, q) = pair(r);
            two!(resolve_event, &b, &q)
        }
        "C05" | "C07" => {
            if r.chance(1, 3) {
                let (b, q) = pair(r);
                if prop == "C05" {
                    two!(rnorm_event, &b, &q)
                } else {
                    two!(rensure_event, &b, &q)
                }
            } else {
                let s = parts.edited(r, true, 6);
                if prop == "C05" {
                    one!(norm_event, &s)
                } else {
                    one!(ensure_event, &s)
                }
            }
        }
        "C06" => {
            let mut s = parts.edited(r, true, 6);
            if r.chance(1, 3) {
                // a normal form, possibly disturbed
                if let Ok(i) = RiStr::<S>::new(&s) {
                    s = i.normalize().to_string();
                    if r.chance(1, 2) {
                        s = edit(r, &s, S::IRI);
                    }
                }
            }
            one!(isnorm_event, &s)
        }
        _ => {
            let sc = r.chance(2, 3);
            let s = if r.chance(1, 2) { auth(r) } else { parts.edited(r, sc, 3) };
            one!(mask_event, &s)
        }
    }
}

// ---- input pools -----------------------------------------------------------
/// Short references composed of delimiter-heavy tokens, plus structured random ones.
pub fn references<S: Fam>(r: &mut Rng, tokens: &[&str], max: usize, rnd: usize, f: &mut impl FnMut(&str)) {
    all_strings(tokens, max, f);
    let parts = Parts::new(S::IRI);
    for _ in 0..rnd {
        let scheme = r.chance(2, 3);
        f(&parts.reference(r, scheme, 5));
    }
}

pub fn record<S: Fam>(prop: &str, rec: &mut Rec, r: &mut Rng, thorough: bool) {
    let k = if thorough { 8 } else { 1 };
    let parts = Parts::new(S::IRI);
    macro_rules! one {
        ($f:ident, $s:expr) => {{
            let s: &str = $s;
            if rec.fresh(&format!("{}{}{}", stringify!($f), S::SP, s)) {
                rec.case(|| format!("{} {} {:?}", stringify!($f), S::SP, s), || $f::<S>(s));
            }
        }};
    }
    macro_rules! two {
        ($f:ident, $b:expr, $s:expr) => {{
            let (b, s): (&str, &str) = ($b, $s);
            if rec.fresh(&format!("{}{}{}\u{0}{}", stringify!($f), S::SP, b, s)) {
                rec.case(|| format!("{} {} {:?} {:?}", stringify!($f), S::SP, b, s), || $f::<S>(b, s));
            }
        }};
    }
    let mut strs: Vec<String> = Vec::new();
    match prop {
        "C03" => {
            references::<S>(r, &["a", ":", "/", "?", "#", "@", "[::1]", "1", "%41", "."], 5, 0, &mut |s| {
                if RiReferenceStr::<S>::new(s).is_ok() {
                    strs.push(s.into())
                }
            });
            // keep all short ones, sample the rest
            let lim = 6000 * k;
            let mut long: Vec<String> = strs.iter().filter(|s| s.len() > 4).cloned().collect();
            strs.retain(|s| s.len() <= 4);
            shuffle(r, &mut long);
            long.truncate(lim);
            strs.extend(long);
            for _ in 0..5000 * k {
                let sc = r.chance(2, 3);
                strs.push(parts.edited(r, sc, 4));
            }
            addresses(r, &mut strs);
            for a in delim_authorities(r, 1500 * k) {
                let pre = if r.chance(1, 2) { "a:" } else { "" };
                let p = ["", "/", "/a@b:c", "?x@y:z/", "#:@/", "/p?q#f"][r.below(6)];
                strs.push(format!("{}//{}{}", pre, a, p));
            }
            for &n in stretches(S::IRI) {
                strs.extend(stretched(n));
            }
            for s in &strs {
                one!(split_event, s);
            }
        }
        "C04" | "C05" | "C07" => {
            let bases = ["a:", "a:/", "a:b/c", "http://h", "http://h/", "a://h/b/c/d;p?q", "a:/b/c/d?q", "a:/../b/%2e%2E/c", "a://", "A://U@EX%41.com:/%7e/../x", "a:b", "a:b?q", "a:/b//c/", "a:.//b", "a:..", "a:/.//b"];
            let mut pairs: Vec<(String, String)> = Vec::new();
            let mut refs: Vec<String> = Vec::new();
            all_strings(&["/", ".", "..", "a", "%2e", "//", ":", "?", "#"], 3, &mut |s| refs.push(s.into()));
            all_strings(&["/", "..", "a", "."], 5, &mut |s| refs.push(s.into()));
            shuffle(r, &mut refs);
            for b in bases {
                for q in refs.iter().skip(r.below(5)).step_by(if thorough { 2 } else { 17 }) {
                    pairs.push((b.into(), q.clone()));
                }
            }
            for _ in 0..5000 * k {
                let b = parts.reference(r, true, 5);
                let b = b.split('#').next().unwrap().to_string();
                let sc = r.chance(1, 6);
                pairs.push((b, parts.edited(r, sc, 5)));
            }
            for _ in 0..1200 * k {
                let b = ["a:", "a:/", "a://h/", "a:b/"][r.below(4)];
                let b = if r.chance(1, 2) { format!("{b}{}", deep_path(r)) } else { format!("{b}b/c/d") };
                let q = match r.below(4) {
                    0 => parts.reference(r, false, 5),
                    1 => format!("/{}", deep_path(r)),
                    _ => deep_path(r),
                };
                pairs.push((b, q));
            }
            let (fx, lim) = match prop {
                "C04" => (0, 12000),
                "C05" => (1, 4000),
                _ => (2, 6000),
            };
            shuffle(r, &mut pairs);
            pairs.truncate(lim * k);
            for &n in stretches(S::IRI) {
                for x in stretched(n) {
                    let (b, full) = (x.split('#').next().unwrap().to_string(), x.starts_with('s'));
                    if full && fx == 0 {
                        for q in ["/x", "x/../y", ""] {
                            pairs.push((b.clone(), q.into()));
                        }
                    } else if full {
                        pairs.push((b, "?".into()));
                    }
                    pairs.push(("a://h/b?q".into(), x));
                }
            }
            for (b, q) in &pairs {
                match fx {
                    0 => two!(resolve_event, b, q),
                    1 => two!(rnorm_event, b, q),
                    _ => two!(rensure_event, b, q),
                }
            }
            if fx > 0 {
                norm_inputs::<S>(r, &parts, k, &mut strs);
                for s in &strs {
                    if fx == 1 {
                        one!(norm_event, s)
                    } else {
                        one!(ensure_event, s)
                    }
                }
            }
        }
        "C06" => {
            norm_inputs::<S>(r, &parts, k, &mut strs);
            for &n in stretches(S::IRI) {
                strs.extend(stretched(n).into_iter().filter(|s| s.starts_with('s')));
            }
            for s in &strs {
                one!(isnorm_event, s);
            }
        }
        "C09" => {
            for a in delim_authorities(r, 4000 * k) {
                let pre = ["", "a:", "HTTP:"][r.below(3)];
                let p = ["", "/", "/a@b:c", "?x:y@z/", "#u:p@h/", "/p?q#f", "/:@"][r.below(7)];
                strs.push(format!("{}//{}{}", pre, a, p));
            }
            for _ in 0..3000 * k {
                let sc = r.chance(2, 3);
                strs.push(parts.edited(r, sc, 3));
            }
            all_strings(&["a", ":", "/", "@", "//", "?", "#"], 4, &mut |s| strs.push(s.into()));
            for &n in stretches(S::IRI) {
                strs.extend(stretched(n));
            }
            for s in &strs {
                one!(mask_event, s);
            }
        }
        _ => panic!("unknown property {prop}"),
    }
}

/// Authorities rich in delimiters.
pub fn delim_authorities(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v = Vec::new();
    all_strings(&["a", ":", "@", "1", "[::1]", "%3a"], 4, &mut |s| v.push(s.into()));
    shuffle(r, &mut v);
    v.truncate(n);
    for _ in 0..n {
        let u = rand_str(r, 5, &["a", ":", "%40", "%3A", "!", "pw", "0"]);
        let h = ["", "h", "[::1]", "[v1.a:b]", "1.2.3.4", "%40"][r.below(6)];
        let p = ["", ":", ":0", ":8080"][r.below(4)];
        v.push(format!("{}@{}{}", u, h, p));
    }
    v
}
/// Inputs for normalization: every component's awkward forms, alone and combined.
pub fn norm_inputs<S: Fam>(r: &mut Rng, parts: &Parts, k: usize, strs: &mut Vec<String>) {
    // dot segments: all paths of few segments
    let segs = ["", ".", "..", "a", "%2e", "%2E.", "b:c", "%41"];
    let mut paths: Vec<String> = Vec::new();
    all_strings(&segs.iter().map(|s| format!("/{s}")).collect::<Vec<_>>().iter().map(|s| s.as_str()).collect::<Vec<_>>(), 4, &mut |s| paths.push(s.into()));
    shuffle(r, &mut paths);
    paths.truncate(3000 * k);
    for p in &paths {
        match r.below(3) {
            0 => strs.push(format!("a:{}", p)),
            1 => strs.push(format!("a:{}", p.strip_prefix('/').unwrap_or(p))),
            _ => strs.push(format!("a://h{}", p)),
        }
    }
    // percent-encoded octet sequences in every component
    let bytes: &[u8] = &[0x00, 0x20, 0x25, 0x2d, 0x2e, 0x2f, 0x41, 0x5a, 0x61, 0x7e, 0x7f, 0x80, 0x81, 0xa0, 0xbf, 0xc0, 0xc2, 0xc3, 0xdf, 0xe0, 0xe3, 0xed, 0xee, 0xef, 0xf0, 0xf3, 0xf4, 0xf5, 0xff];
    let nseq = 4000 * k;
    for i in 0..nseq {
        let mut e = String::new();
        if i % 3 == 0 {
            let n = 1 + r.below(5);
            for _ in 0..n {
                let b = bytes[r.below(bytes.len())];
                e.push_str(&if r.chance(1, 2) { format!("%{:02X}", b) } else { format!("%{:02x}", b) });
                if r.chance(1, 8) {
                    e.push('B');
                }
            }
        } else {
            // well-formed characters, possibly damaged
            let n = 1 + r.below(2);
            for _ in 0..n {
                let mut buf = [0; 4];
                let c = rand_char(r);
                let b = c.encode_utf8(&mut buf).as_bytes();
                let cut = if r.chance(1, 6) { r.below(b.len()) } else { b.len() };
                for x in &b[..cut] {
                    e.push_str(&if r.chance(1, 3) { format!("%{:02x}", x) } else { format!("%{:02X}", x) });
                }
                if r.chance(1, 6) {
                    e.push_str(["Q", "-", "%41", "%c3"][r.below(4)]);
                }
            }
        }
        strs.push(match i % 7 {
            0 => format!("a:{}", e),
            1 => format!("a://{}@H", e),
            2 | 3 => format!("a://{}", e),
            4 => format!("a:?{}", e),
            5 => format!("a:#{}", e),
            _ => format!("a://h/{}/x", e),
        });
    }
    // systematic borders of well-formedness
    for (i, e) in pct_sequences().iter().enumerate() {
        strs.push(match i % 6 {
            0 => format!("a:{e}"),
            1 => format!("a://{e}"),
            2 => format!("a://{e}@h"),
            3 => format!("a:?{e}A"),
            4 => format!("a:/#{e}%41"),
            _ => format!("a://h/{e}/{e}"),
        });
    }
    for i in 0..1500 * k {
        let p = deep_path(r);
        strs.push(match i % 3 {
            0 => format!("a:{p}"),
            1 => format!("a:/{p}"),
            _ => format!("a://h/{p}"),
        });
    }
    for _ in 0..4000 * k {
        strs.push(parts.edited(r, true, 5));
    }
}
/// Numeric hosts: every value in some place, border values in every place, and as many groups as possible.
pub fn addresses(r: &mut Rng, strs: &mut Vec<String>) {
    let mut hosts: Vec<String> = Vec::new();
    let put = |hosts: &mut Vec<String>, r: &mut Rng, at: usize, x: &str| {
        let v: Vec<String> = (0..4).map(|i| if i == at { x.to_string() } else { [1, 7, 10, 42, 99, 100, 192, 255][r.below(8)].to_string() }).collect();
        hosts.push(v.join("."));
    };
    for n in 0..=300 {
        let at = r.below(4);
        put(&mut hosts, r, at, &n.to_string());
    }
    for x in ["", "0", "00", "01", "000", "001", "9", "10", "99", "100", "199", "200", "239", "240", "249", "250", "255", "256", "260", "300", "999", "1000", "%31", "a", "-1", "+1"] {
        for at in 0..4 {
            put(&mut hosts, r, at, x);
        }
    }
    for _ in 0..500 {
        hosts.push(v4ish(r));
        hosts.push(v6ish(r));
        if r.chance(1, 2) {
            hosts.push(vfuture(r));
        }
    }
    for h in hosts {
        strs.push(format!("{}//{}{}{}{}", ["", "a:"][r.below(2)], ["", "", "u@", "u:p@"][r.below(4)], h, ["", ":", ":80"][r.below(3)], ["", "/", "?q", "#f"][r.below(4)]));
    }
}
/// Paths with many segments: sizes around and beyond any small fixed bound, with runs of `..`.
pub fn deep_path(r: &mut Rng) -> String {
    let mut v: Vec<&str> = Vec::new();
    for _ in 0..1 + r.below(4) {
        for _ in 0..r.below(12) {
            v.push(["a", "b", "c", "x%7e", "", "1"][r.below(6)]);
        }
        for _ in 0..r.below(10) {
            v.push(["..", "..", "..", ".", "%2e%2E", "%2E"][r.below(6)]);
        }
    }
    v.push(["", "z", "..", "."][r.below(4)]);
    v.join("/")
}
/// Percent-encoded octet sequences at the borders of UTF-8 well-formedness and of the character classes.
pub fn pct_sequences() -> Vec<String> {
    let mut v = Vec::new();
    let pct = |b: &[u8]| b.iter().enumerate().map(|(i, x)| if (i + b.len()) % 2 == 0 { format!("%{x:02X}") } else { format!("%{x:02x}") }).collect::<String>();
    // raw encodings of a number in 2, 3 and 4 octets, well-formed or not
    let raw = |c: u32, n: usize| -> Vec<u8> {
        match n {
            1 => vec![c as u8],
            2 => vec![0xC0 | (c >> 6) as u8 & 0x1F, 0x80 | (c & 63) as u8],
            3 => vec![0xE0 | (c >> 12) as u8 & 0x0F, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8],
            _ => vec![0xF0 | (c >> 18) as u8 & 7, 0x80 | (c >> 12 & 63) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8],
        }
    };
    let mut nums: Vec<u32> = Vec::new();
    for e in EDGES.iter().chain(&[0x2d, 0x41, 0x400, 0x7fe, 0xfff, 0x1000, 0x7fff, 0x8000, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0x3ffff, 0x40000, 0xfffff, 0x10ffff, 0x110000, 0x13ffff, 0x140000, 0x1fffff]) {
        for d in 0..3 {
            nums.push((e + d).saturating_sub(1));
        }
    }
    for p in 1..17 {
        // plane borders: noncharacters
        nums.extend([p * 0x10000 - 3, p * 0x10000 - 2, p * 0x10000 - 1, p * 0x10000, p * 0x10000 + 1]);
    }
    nums.sort();
    nums.dedup();
    for &c in &nums {
        for n in 1..=4 {
            if c < [0x80, 0x800, 0x10000, 0x200000][n - 1] {
                v.push(pct(&raw(c, n)));
            }
        }
    }
    // every octet as a lead, with border continuations
    for lead in 0x7e..=0xffu32 {
        for c2 in [0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0] {
            v.push(pct(&[lead as u8, c2, 0xbf, 0xbf]));
            v.push(pct(&[lead as u8, c2, 0x80]));
        }
        v.push(pct(&[lead as u8, 0x90, 0x80, 0x7f]));
        v.push(pct(&[lead as u8, 0x90, 0xc0, 0x80]));
        v.push(format!("{}x", pct(&[lead as u8, 0x90])));
    }
    v
}
