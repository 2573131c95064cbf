//! The two families, and helpers that need no allocating interface of the crate.
use crate::core::*;
use iri_string::components::AuthorityComponents;
use iri_string::percent_encode::PercentEncoded;
use iri_string::spec::Spec;
use std::fmt::{self, Write as _};

pub trait Fam: Spec {
    const SP: &'static str;
    const IRI: bool;
}
impl Fam for iri_string::spec::UriSpec {
    const SP: &'static str = "uri";
    const IRI: bool = false;
}
impl Fam for iri_string::spec::IriSpec {
    const SP: &'static str = "iri";
    const IRI: bool = true;
}

pub fn ac_json(a: Option<AuthorityComponents<'_>>) -> String {
    match a {
        None => "[]".into(),
        Some(a) => {
            let mut o = String::from("[{\"user\":");
            opt(&mut o, a.userinfo());
            o.push_str(",\"host\":");
            cps(&mut o, a.host());
            o.push_str(",\"reg\":");
            opt(&mut o, a.reg_name());
            o.push_str(",\"port\":");
            opt(&mut o, a.port());
            o.push_str("}]");
            o
        }
    }
}
pub fn view(kind: &str, scheme: Option<&str>, auth: Option<&str>, path: &str, q: Option<&str>, q2: Option<&str>, f: Option<&str>, f2: Option<&str>, ac: String) -> String {
    J::op("view").t("k", kind).o("scheme", scheme).o("auth", auth).s("path", path).o("query", q).o("query2", q2).o("frag", f).o("frag2", f2).raw("ac", &ac).end()
}

pub const CONTEXTS: &[&str] = &["regname", "user", "password", "segment", "path", "query", "fragment", "unreserve", "character"];

/// A value that formats itself in pieces; the `bool` asks for `write_char`.
#[derive(Clone)]
pub struct Pieces(pub Vec<(String, bool)>);
impl fmt::Display for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for (p, chars) in &self.0 {
            if *chars {
                for c in p.chars() {
                    f.write_char(c)?;
                }
            } else {
                f.write_str(p)?;
            }
        }
        Ok(())
    }
}
/// Random cut of a text, with empty pieces.
pub fn cut(r: &mut Rng, s: &str) -> Pieces {
    let mut v = Vec::new();
    let mut cur = String::new();
    let m = r.below(4);
    for c in s.chars() {
        if m == 0 || r.chance(1, 1 + m) {
            v.push((std::mem::take(&mut cur), r.chance(1, 2)));
            if r.chance(1, 8) {
                v.push((String::new(), false));
            }
        }
        cur.push(c);
    }
    v.push((cur, r.chance(1, 2)));
    Pieces(v)
}
pub fn encode<S: Fam, T: fmt::Display>(ctx: &str, x: T) -> String {
    use PercentEncoded as P;
    let p: PercentEncoded<T, S> = match ctx {
        "regname" => P::from_reg_name(x),
        "user" => P::from_user(x),
        "password" => P::from_password(x),
        "segment" => P::from_path_segment(x),
        "path" => P::from_path(x),
        "query" => P::from_query(x),
        "fragment" => P::from_fragment(x),
        "unreserve" => P::unreserve(x),
        _ => P::characters(x),
    };
    p.to_string()
}
