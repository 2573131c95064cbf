//! Percent-encoding (C13) and percent-decoding (C14).
use crate::core::*;
use crate::gen::*;
pub use crate::fam::{cut, encode, Pieces, CONTEXTS};
use crate::iri::Fam;
use iri_string::percent_encode::decode::{decode_whatwg_bytes, DecodedFragment};
use iri_string::spec::{IriSpec, UriSpec};
use serde_json::Value;

fn enc_event<S: Fam>(r: &mut Rng, ctx: &str, s: &str) -> String {
    let o = vec![
        encode::<S, _>(ctx, s),
        encode::<S, _>(ctx, Pieces(vec![(s.to_string(), true)])),
        encode::<S, _>(ctx, cut(r, s)),
        encode::<S, _>(ctx, format_args!("{}{}", cut(r, s), "")),
    ];
    J::op("pctenc").t("sp", S::SP).t("ctx", ctx).s("s", s).same("o", &o).end()
}
fn enc_text(r: &mut Rng) -> String {
    if let Some(x) = run(r, true, &["a", "%", "%41", " ", "/", "%4", "\u{7f}", "\u{e000}"]) {
        return format!("{}{x}{}", rand_str(r, 3, PCHARISH), rand_unicode(r, 2));
    }
    match r.below(4) {
        0 => rand_unicode(r, 12),
        1 => rand_str(r, 12, PCHARISH),
        2 => {
            let mut s = rich(r, ":@/?#[]%", true, true);
            while r.chance(1, 2) {
                s = edit(r, &s, true);
            }
            s
        }
        _ => rand_str(r, 8, &["%", "4", "1", "f", "%41", "%zz", "/", "?", "#", "[", "]", "@", ":", " ", "\u{e9}", "\u{e000}", "\"", "\u{10ffff}"]),
    }
}
#[cfg(feature = "cov")]
pub fn random_enc(rec: &mut Rec, r: &mut Rng) {
    let (sp, ctx, s) = (r.chance(1, 2), CONTEXTS[r.below(CONTEXTS.len())], enc_text(r));
    rec.case(|| format!("pctenc iri={sp} {ctx} {s:?}"), || Some(if sp { enc_event::<IriSpec>(r, ctx, &s) } else { enc_event::<UriSpec>(r, ctx, &s) }));
}
pub fn record_enc(rec: &mut Rec, r: &mut Rng, thorough: bool) {
    let go = |rec: &mut Rec, r: &mut Rng, sp: bool, ctx: &str, s: &str| {
        if rec.fresh(&format!("{sp}{ctx}{s}")) {
            let mut q = Rng::new(r.next(), 7);
            rec.case(
                || format!("pctenc iri={sp} {ctx} {s:?}"),
                || Some(if sp { enc_event::<IriSpec>(&mut q, ctx, s) } else { enc_event::<UriSpec>(&mut q, ctx, s) }),
            );
        }
    };
    for sp in [false, true] {
        for ctx in CONTEXTS {
            // every ASCII character, every class border
            let mut s = String::new();
            for c in 0..128u8 {
                s.push(c as char);
            }
            go(rec, r, sp, ctx, &s);
            for c in 0..128u8 {
                go(rec, r, sp, ctx, &(c as char).to_string());
            }
            for b in EDGES {
                let mut s = String::new();
                for d in 0..7u32 {
                    if let Some(c) = char::from_u32((b + d).wrapping_sub(3)) {
                        s.push(c);
                        go(rec, r, sp, ctx, &c.to_string());
                    }
                }
                go(rec, r, sp, ctx, &s);
            }
            for c in SPECIAL {
                go(rec, r, sp, ctx, &format!("{c}"));
                go(rec, r, sp, ctx, &format!("{c}a{c}"));
            }
            // blocks of consecutive code points all over the range
            for _ in 0..if thorough { 1500 } else { 120 } {
                let st = r.below(0x110000) as u32;
                let s: String = (st..st + 48).filter_map(char::from_u32).collect();
                go(rec, r, sp, ctx, &s);
            }
            for _ in 0..if thorough { 6000 } else { 500 } {
                let s = enc_text(r);
                go(rec, r, sp, ctx, &s);
            }
        }
    }
}

// ---- C14 ---------------------------------------------------------------------
fn frag(f: Option<DecodedFragment<'_>>) -> (&'static str, Vec<u8>) {
    match f {
        None => ("end", vec![]),
        Some(DecodedFragment::Direct(b)) => ("direct", b.to_vec()),
        Some(DecodedFragment::DecodedByte(b)) => ("byte", vec![b]),
        Some(DecodedFragment::StrayPercent) => ("stray", vec![b'%']),
    }
}
fn optb(v: Option<&[u8]>) -> String {
    match v {
        None => "[]".into(),
        Some(b) => format!("[{b:?}]"),
    }
}
fn dec_event(s: &[u8]) -> String {
    let d = decode_whatwg_bytes(s);
    let ib = d.into_bytes();
    let borrowed = matches!(ib, std::borrow::Cow::Borrowed(b) if b.as_ptr() == s.as_ptr() && b.len() == s.len());
    let mut joined = Vec::new();
    let mut steps = Vec::new();
    let mut it = d.bytes_fragments();
    let mut left = s.len() + 2;
    loop {
        let f = frag(it.next());
        joined.extend_from_slice(&f.1);
        steps.push(format!("{{\"k\":\"{}\",\"b\":{:?},\"rest\":{:?}}}", f.0, f.1, it.not_yet_decoded()));
        left -= 1;
        if f.0 == "end" || left == 0 {
            break;
        }
    }
    // once exhausted it stays so; a clone goes on alone
    let mut c = d.bytes_fragments();
    c.next();
    let mut c2 = c.clone();
    let (a, b) = (frag(c.next()), frag(c2.next()));
    let fine = it.next().is_none() && a == b && c.not_yet_decoded() == c2.not_yet_decoded();
    let all = format!("[{:?},{:?}]", &*ib, joined);
    let st = d.into_string().ok();
    J::op(if fine { "decode" } else { "decode iterator not fused" })
        .b("s", s)
        .b("nyd", d.not_yet_decoded())
        .raw("all", &all)
        .f("borrowed", borrowed)
        .raw("tb", &optb(d.to_bytes()))
        .o("str", st.as_deref())
        .raw("steps", &jl(&steps))
        .end()
}
pub fn record_dec(rec: &mut Rec, r: &mut Rng, thorough: bool) {
    let go = |rec: &mut Rec, s: &[u8]| {
        if rec.fresh(&format!("{s:?}")) {
            rec.case(|| format!("decode {s:?}"), || Some(dec_event(s)));
        }
    };
    // every two characters after a percent character
    for a in 0..256usize {
        for b in 0..if thorough { 256usize } else { 16 } {
            let b = if thorough { b as u8 } else { [b'0', b'9', b'/', b':', b'A', b'F', b'G', b'@', b'a', b'f', b'g', b'`', b'%', 0, 0x80, 0xff][b] };
            go(rec, &[b'%', a as u8, b]);
            go(rec, &[b'%', b, a as u8, b'x']);
        }
    }
    // characters some decoders treat specially, raw and encoded, alone and at either end
    for c in SPECIAL.iter().copied().chain((0..128).map(char::from)).chain((0..600).map(|_| char::from_u32(r.below(0x10f800) as u32).unwrap_or('\u{fffd}'))).collect::<Vec<char>>() {
        let raw = c.to_string();
        let up: String = raw.bytes().map(|b| format!("%{b:02X}")).collect();
        let mixed: String = raw.bytes().enumerate().map(|(i, b)| if i % 2 == 0 { format!("%{b:02x}") } else { format!("%{b:02X}") }).collect();
        for (i, x) in [&raw, &up, &mixed].into_iter().enumerate() {
            for t in [x.to_string(), format!("{x}%41b"), format!("a%42{x}"), format!("{x}{x}")].iter().skip(if i == 2 { 2 } else { 0 }) {
                go(rec, t.as_bytes());
            }
        }
    }
    for n in 0..if thorough { 60000 } else { 7000 } {
        let s = dec_text(r, n % 10 == 0);
        go(rec, &s);
    }
}
#[cfg(feature = "cov")]
pub fn random_dec(rec: &mut Rec, r: &mut Rng) {
    let s = dec_text(r, false);
    rec.case(|| format!("decode {s:?}"), || Some(dec_event(&s)));
}
fn dec_text(r: &mut Rng, long: bool) -> Vec<u8> {
    let toks: &[&[u8]] = &[
        b"%", b"%%", b"%4", b"%41", b"%4G", b"%G1", b"4", b"a", b"xyz", b"%c3", b"%a9", b"%C3%A9", b"%e3%81%82", b"%f0%9f%98%80", b"%ff", b"%ed%a0%80", b"%00", b"\xc3", b"\xa9",
        b"\xe3\x81\x82", b"\xff", b"\0", b"100% ", b"%25", b"%2", b"%+1", b"% 1", b"%-1",
    ];
    let mut s: Vec<u8> = Vec::new();
    for _ in 0..if long { r.below(30) } else { r.size(6) } {
        match r.below(8) {
            0 => s.extend_from_slice(pct(r).as_bytes()),
            1 => s.push(r.below(256) as u8),
            _ => s.extend_from_slice(toks[r.below(toks.len())]),
        }
    }
    if let Some(x) = run(r, true, &["a", "%", "%41", "%c3%a9", "%4", "%zz", "4"]) {
        let at = r.below(s.len() + 1);
        s.splice(at..at, x.into_bytes());
    }
    if r.chance(1, 30) {
        // long literal runs
        let k = r.below(70);
        let at = r.below(s.len() + 1);
        s.splice(at..at, std::iter::repeat(b'q').take(k));
    }
    // the event grows with the product of the length and the number of fragments
    if s.iter().filter(|b| **b == b'%').count() > 300 {
        s.truncate(1100);
    }
    s
}
fn vb(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
/// Replays one transition of CodecMC.
pub fn replay(v: &Value) -> Result<(), String> {
    if v["m"] == "enc" {
        let s = crate::mutate::text(&v["s"]);
        let ctx = v["ctx"].as_str().unwrap();
        let want = crate::mutate::text(&v["o"]);
        let per_char = Pieces(s.chars().map(|c| (c.to_string(), false)).collect());
        let got = if v["sp"] == "iri" { [encode::<IriSpec, _>(ctx, &s), encode::<IriSpec, _>(ctx, per_char)] } else { [encode::<UriSpec, _>(ctx, &s), encode::<UriSpec, _>(ctx, per_char)] };
        if got.iter().any(|g| *g != want) {
            return Err(format!("encodes to {got:?}, specification: {want:?}"));
        }
        return Ok(());
    }
    let s = vb(&v["s"]);
    let d = decode_whatwg_bytes(&s);
    let mut it = d.bytes_fragments();
    let (k, b) = frag(it.next());
    if k != v["k"].as_str().unwrap() || b != vb(&v["b"]) || it.not_yet_decoded() != &vb(&v["rest"])[..] {
        return Err(format!("next fragment {k} {b:?}, remaining {:?}", it.not_yet_decoded()));
    }
    let all = vb(&v["all"]);
    if *d.into_bytes() != all[..] {
        return Err(format!("into_bytes gives {:?}", d.into_bytes()));
    }
    let need = v["need"].as_bool().unwrap();
    if d.to_bytes().is_some() == need || d.to_bytes().is_some_and(|b| b != &all[..]) {
        return Err(format!("to_bytes gives {:?}", d.to_bytes()));
    }
    if d.into_string().ok() != String::from_utf8(all).ok() {
        return Err("into_string differs".into());
    }
    Ok(())
}
