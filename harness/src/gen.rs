//! Input generators.
use crate::core::Rng;

pub const SCHEMES: &[&str] = &["a", "http", "HTTP", "Z+9-.q"];
pub const USERS: &[&str] = &["", "u", "u:p", ":", "u:", ":p", "u:p:q", "%41%2f:%c3%a9", "!$&'()*+,;=~", "::"];
pub const HOSTS: &[&str] = &[
    "", "h", "EXAMPLE.Com", "%41b", "1.2.3.4", "1.2.3.256", "[::1]", "[1:2:3:4:5:6:7:8]", "[::FFFF:1.2.3.4]", "[vF.A:b]",
    "a%2Fb", "%c3%a9.X", "%E3%81%82", "%E3%81X", "%80Z", "01.2.3.4", "Z%7e",
];
pub const HOSTS_I: &[&str] = &["\u{e9}X", "X\u{3042}.Y", "%4a\u{10000}", "\u{a0}%C3%A9"];
pub const PORTS: &[&str] = &["", "0", "80", "65536", "000443"];
pub const SEGS: &[&str] = &[
    "", ".", "..", "a", "b", "%2e", "%2E.", ".%2e", "%2e%2E", "a:b", "%41", "%2f", "%c3%a9", "%E3%81", "@", "...", ".a", "a.", "%7E;x=1",
    "%2e%2", "%2e%2ea", "%252e",
];
pub const SEGS_I: &[&str] = &["\u{e9}", "\u{3042}%E3%81%82", "\u{efffd}"];
pub const QUERIES: &[&str] = &["", "q", "a=1&b=/?:@", "%41%2f%7e", "%e3%81%82%E3", "u:p@h", "//x/../y", "%f0%9f%98%80"];
pub const QUERIES_I: &[&str] = &["\u{3042}\u{e000}", "\u{10fffd}%ee%80%80", "%C2%80%c2%a0"];
pub const FRAGS: &[&str] = &["", "f", "/?:@!$", "%41%2f%7e", "%e3%81%82%E3", "a/../b"];
pub const FRAGS_I: &[&str] = &["\u{3042}", "\u{ffef}%c3%a9"];

fn with<'a>(sp: bool, a: &[&'a str], b: &[&'a str]) -> Vec<&'a str> {
    let mut v = a.to_vec();
    if sp {
        v.extend_from_slice(b);
    }
    v
}
pub struct Parts {
    pub iri: bool,
    pub schemes: Vec<&'static str>,
    pub users: Vec<&'static str>,
    pub hosts: Vec<&'static str>,
    pub ports: Vec<&'static str>,
    pub segs: Vec<&'static str>,
    pub queries: Vec<&'static str>,
    pub frags: Vec<&'static str>,
}
impl Parts {
    pub fn new(iri: bool) -> Parts {
        Parts {
            iri,
            schemes: SCHEMES.to_vec(),
            users: with(iri, USERS, &["\u{e9}:\u{3042}", "\u{1f600}"]),
            hosts: with(iri, HOSTS, HOSTS_I),
            ports: PORTS.to_vec(),
            segs: with(iri, SEGS, SEGS_I),
            queries: with(iri, QUERIES, QUERIES_I),
            frags: with(iri, FRAGS, FRAGS_I),
        }
    }
    /// Now and then a long run before or after the text.
    fn extended(&self, r: &mut Rng, s: String, units: &[&str]) -> String {
        match run(r, self.iri, units) {
            None => s,
            Some(x) if r.chance(1, 2) => x + &s,
            Some(x) => s + &x,
        }
    }
    pub fn user(&self, r: &mut Rng) -> String {
        let s = self.user0(r);
        self.extended(r, s, &["a", ":", "%41", "!"])
    }
    pub fn host(&self, r: &mut Rng) -> String {
        let s = self.host0(r);
        if s.starts_with('[') {
            return s;
        }
        self.extended(r, s, &["a", "a.", "%41", "%e3%81%82", "Z", "1"])
    }
    pub fn port(&self, r: &mut Rng) -> String {
        let s = self.port0(r);
        self.extended(r, s, &["0", "9"])
    }
    pub fn scheme(&self, r: &mut Rng) -> String {
        let s = self.scheme0(r);
        match run(r, false, &["a", "A", "+", "0"]) {
            None => s,
            Some(x) => s + &x,
        }
    }
    pub fn query(&self, r: &mut Rng) -> String {
        let s = self.query0(r);
        self.extended(r, s, &["a", "?", "/", "%41", "a=b&"])
    }
    pub fn frag(&self, r: &mut Rng) -> String {
        let s = self.frag0(r);
        self.extended(r, s, &["a", "?", "/", "%41", "!"])
    }
    pub fn path(&self, r: &mut Rng, max: usize) -> String {
        let mut s = self.path0(r, max);
        if let Some(x) = run(r, self.iri, &["a", "/a", "/", "/..", "/.", "/a/..", "%41", "%2e", "/%2e%2E", "a/", "../", "./", ":", "@"]) {
            let x = if r.chance(1, 3) { deep(r, x.len()) } else { x };
            // before, after, or at a slash
            match r.below(4) {
                0 => s.push_str(&x),
                1 => s.insert_str(0, &x),
                n => {
                    let at: Vec<usize> = s.match_indices('/').map(|(i, _)| i).collect();
                    let at = if at.is_empty() { 0 } else { at[r.below(at.len())] + n - 2 };
                    s.insert_str(at, &x)
                }
            }
        }
        s
    }
    fn user0(&self, r: &mut Rng) -> String {
        match r.below(5) {
            0 => rich(r, ":", self.iri, false),
            1 => format!("{}:{}", rich(r, "", self.iri, false), rich(r, ":", self.iri, false)),
            _ => r.pick(&self.users).to_string(),
        }
    }
    fn host0(&self, r: &mut Rng) -> String {
        match r.below(12) {
            0 => v4ish(r),
            1 => v6ish(r),
            2 => vfuture(r),
            3 => rich(r, "", self.iri, false),
            4 => domain(r),
            _ => r.pick(&self.hosts).to_string(),
        }
    }
    fn port0(&self, r: &mut Rng) -> String {
        match r.below(4) {
            0 => (0..r.size(7)).map(|_| (b'0' + r.below(10) as u8) as char).collect(),
            _ => r.pick(&self.ports).to_string(),
        }
    }
    fn scheme0(&self, r: &mut Rng) -> String {
        match r.below(6) {
            0 => {
                const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-.";
                let mut s = String::new();
                s.push(A[r.below(52)] as char);
                for _ in 0..r.size(6) {
                    s.push(A[r.below(A.len())] as char);
                }
                s
            }
            1 => r.pick(&["http", "https", "urn", "mailto", "file", "data", "ftp", "ws"]).to_string(),
            _ => r.pick(&self.schemes).to_string(),
        }
    }
    fn query0(&self, r: &mut Rng) -> String {
        if r.chance(1, 4) { rich(r, ":@/?", self.iri, true) } else { r.pick(&self.queries).to_string() }
    }
    fn frag0(&self, r: &mut Rng) -> String {
        if r.chance(1, 4) { rich(r, ":@/?", self.iri, false) } else { r.pick(&self.frags).to_string() }
    }
    pub fn authority(&self, r: &mut Rng) -> String {
        let mut s = String::new();
        if r.chance(1, 2) {
            s.push_str(&self.user(r));
            s.push('@');
        }
        s.push_str(&self.host(r));
        if r.chance(1, 3) {
            s.push(':');
            s.push_str(&self.port(r));
        }
        s
    }
    fn path0(&self, r: &mut Rng, max: usize) -> String {
        let n = r.size(max);
        let mut s = String::new();
        if r.chance(2, 3) {
            s.push('/');
        }
        for i in 0..n {
            if i > 0 {
                s.push('/');
            }
            // small random segments or stock ones
            match r.below(12) {
                0 => s.push_str(&rand_str(r, 4, PCHARISH)),
                1 => s.push_str(&rich(r, ":@", self.iri, false)),
                2 => s.push_str(r.pick(&["..", "..", ".", "%2e%2E"])),
                _ => s.push_str(r.pick(&self.segs)),
            }
        }
        s
    }
    /// A reference, possibly edited.
    pub fn edited(&self, r: &mut Rng, scheme: bool, max_seg: usize) -> String {
        let mut s = self.reference(r, scheme, max_seg);
        while r.chance(1, 3) {
            s = edit(r, &s, self.iri);
        }
        s
    }
    pub fn reference(&self, r: &mut Rng, scheme: bool, max_seg: usize) -> String {
        let mut s = String::new();
        if scheme {
            s.push_str(&self.scheme(r));
            s.push(':');
        }
        let auth = r.chance(1, 2);
        if auth {
            s.push_str("//");
            s.push_str(&self.authority(r));
        }
        let p = self.path(r, max_seg);
        if auth && !p.is_empty() && !p.starts_with('/') {
            s.push('/');
        }
        s.push_str(&p);
        if r.chance(1, 3) {
            s.push('?');
            s.push_str(&self.query(r));
        }
        if r.chance(1, 3) {
            s.push('#');
            s.push_str(&self.frag(r));
        }
        s
    }
}
/// Characters that programs like to treat specially.
pub const SPECIAL: &[char] = &[
    '\u{feff}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{0}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{ad}', '\u{130}', '\u{131}', '\u{17f}', '\u{df}', '\u{300}', '\u{345}', '\u{3c2}', '\u{1e9e}', '\u{200b}', '\u{200d}',
    '\u{200e}', '\u{2024}', '\u{2028}', '\u{2029}', '\u{202e}', '\u{2060}', '\u{212a}', '\u{2170}', '\u{2f}', '\u{3000}', '\u{3002}', '\u{663}', '\u{bd}', '\u{d7ff}', '\u{e000}', '\u{fb01}', '\u{fe0f}', '\u{ff0e}', '\u{ff0f}',
    '\u{ff10}', '\u{ff21}', '\u{1f1e6}', '\u{1fffe}', '\u{e0001}', '\u{e0fff}', '\u{f0000}', '\u{10ffff}',
];
/// An IRI with everything in it, one component of which is long.
pub fn stretched(n: usize) -> Vec<String> {
    let base = ["s", "u", "p", "h", "1", "/p", "q", "f"];
    (0..base.len())
        .map(|i| {
            let c: Vec<String> = base.iter().enumerate().map(|(j, x)| if i == j { format!("{x}{}", if j == 4 { "0" } else { "b" }.repeat(n)) } else { x.to_string() }).collect();
            format!("{}://{}:{}@{}:{}{}?{}#{}", c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7])
        })
        .chain([format!("s:{}", "ab/".repeat(n / 3)), format!("//{}", "b".repeat(n)), format!("{}?q", "b".repeat(n)), format!("?{}", "b".repeat(n)), format!("/{}#f", "b".repeat(n))])
        .collect()
}
/// Lengths about which an offset kept in too few bits goes wrong.
pub fn stretches(iri: bool) -> &'static [usize] {
    if iri { &[250, 256] } else { &[250, 65_600] }
}
/// Rarely, one thing many times over.
pub fn run(r: &mut Rng, iri: bool, units: &[&str]) -> Option<String> {
    run_upto(r, iri, units, usize::MAX)
}
/// `max`: how long, unless it is repeats of `a`.
pub fn run_upto(r: &mut Rng, iri: bool, units: &[&str], max: usize) -> Option<String> {
    let n = r.long()?;
    let k = r.below(units.len() + iri as usize);
    let u = if k < units.len() { units[k] } else { ["\u{e9}", "\u{3042}", "\u{10000}"][r.below(3)] };
    let n = if u == "a" { n } else { n.min(max) };
    let mut s = u.repeat(n / u.len());
    if r.chance(1, 3) {
        s.push_str(u);
    }
    Some(s)
}
/// Many segments, and about as many that take them away again.
fn deep(r: &mut Rng, n: usize) -> String {
    let n = if n > 320 { 256 } else { n };
    let (down, up) = (r.pick(&["/a", "/", "/%61", "a/", "/./b"]), r.pick(&["/..", "/..", "/.%2e", "/.././."]));
    let back = (n + r.below(5)).saturating_sub(2);
    format!("{}{}", down.repeat(n), up.repeat(back))
}
pub const PCHARISH: &[&str] = &[
    "a", "Z", "0", ".", "-", "_", "~", "!", "$", "&", "'", "(", ")", "*", "+", ",", ";", "=", ":", "@", "%2e", "%2F", "%41", "%7e", "%C3%A9", "%e3", "%81",
];
pub fn rand_str(r: &mut Rng, max: usize, alphabet: &[&str]) -> String {
    let n = r.below(max + 1);
    (0..n).map(|_| alphabet[r.below(alphabet.len())]).collect()
}
/// Calls `f` on every concatenation of at most `max` tokens.
pub fn all_strings(tokens: &[&str], max: usize, f: &mut impl FnMut(&str)) {
    fn go(tokens: &[&str], left: usize, cur: &mut String, f: &mut impl FnMut(&str)) {
        f(cur);
        if left == 0 {
            return;
        }
        for t in tokens {
            let l = cur.len();
            cur.push_str(t);
            go(tokens, left - 1, cur, f);
            cur.truncate(l);
        }
    }
    go(tokens, max, &mut String::new(), f)
}
pub const EDGES: &[u32] = &[
    0, 0x20, 0x21, 0x22, 0x23, 0x25, 0x2d, 0x2e, 0x2f, 0x39, 0x3a, 0x40, 0x5b, 0x5c, 0x5d, 0x5e, 0x60, 0x7b, 0x7e, 0x7f, 0x80, 0x9f, 0xa0, 0xff, 0x7ff,
    0x800, 0x3042, 0xd7ff, 0xe000, 0xf8ff, 0xf900, 0xfdcf, 0xfdd0, 0xfdef, 0xfdf0, 0xffef, 0xfff0, 0xffff, 0x10000, 0x1fffd, 0x1fffe, 0x20000,
    0xdfffd, 0xe0000, 0xe0fff, 0xe1000, 0xefffd, 0xefffe, 0xf0000, 0xffffd, 0xffffe, 0x100000, 0x10fffd, 0x10fffe, 0x10ffff,
];
/// Random code point, biased to class boundaries.
pub fn rand_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(4) {
            0 => r.below(0x80) as u32,
            1 => EDGES[r.below(EDGES.len())],
            2 => EDGES[r.below(EDGES.len())].wrapping_add(r.below(5) as u32).wrapping_sub(2),
            _ => r.below(0x110000) as u32,
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}
pub fn rand_unicode(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    (0..n).map(|_| rand_char(r)).collect()
}
pub fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
}

// ---- rich components ---------------------------------------------------------
/// Percent-encoded octets: whole characters, cut ones, damaged ones, arbitrary octets; digits of either case.
pub fn pct(r: &mut Rng) -> String {
    let mut b: Vec<u8> = Vec::new();
    match r.below(6) {
        0 => b.push(r.below(256) as u8),
        1 => b.push(0x20 + r.below(0x5f) as u8),
        _ => {
            let mut buf = [0; 4];
            let c = if r.chance(1, 3) { ['\u{e9}', '\u{3042}', '\u{1f600}', '\u{a0}', '\u{e000}', '\u{efffd}'][r.below(6)] } else { rand_char(r) };
            let e = c.encode_utf8(&mut buf).as_bytes();
            b.extend(e);
            match r.below(8) {
                0 => b.truncate(1 + r.below(e.len())),
                1 => {
                    let i = r.below(b.len());
                    b[i] = r.below(256) as u8
                }
                2 => {
                    b.remove(0);
                }
                _ => {}
            }
        }
    }
    let style = r.below(3);
    let mut s = String::new();
    for x in b {
        let up = match style {
            0 => true,
            1 => false,
            _ => r.chance(1, 2),
        };
        s.push_str(&if up { format!("%{x:02X}") } else { format!("%{x:02x}") });
    }
    s
}
pub fn ucschar(r: &mut Rng, private: bool) -> char {
    loop {
        let c = rand_char(r);
        let u = c as u32;
        if u >= 0xa0 && u & 0xfffe != 0xfffe && !(0xfdd0..0xfdf0).contains(&u) && !(0xfff0..0x10000).contains(&u) && !(0xe0000..0xe1000).contains(&u) && (private || !((0xe000..0xf900).contains(&u) || u >= 0xf0000)) {
            return c;
        }
    }
}
/// A text of a component: every allowed character, every kind of encoded octet.
pub fn rich(r: &mut Rng, extra: &str, iri: bool, private: bool) -> String {
    const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&'()*+,;=";
    let x = extra.as_bytes();
    let mut s = String::new();
    for _ in 0..r.size(7) {
        match r.below(if iri { 7 } else { 6 }) {
            0 | 1 => s.push_str(&pct(r)),
            2 if !x.is_empty() => s.push(x[r.below(x.len())] as char),
            3 => s.push(A[62 + r.below(A.len() - 62)] as char),
            6 => s.push(ucschar(r, private)),
            _ => s.push(A[r.below(A.len())] as char),
        }
    }
    s
}
/// Four numbers, mostly an IPv4 address.
pub fn v4ish(r: &mut Rng) -> String {
    let mut v: Vec<String> = Vec::new();
    let n = if r.chance(1, 12) { 3 + r.below(3) } else { 4 };
    for _ in 0..n {
        v.push(match r.below(12) {
            0 => ["", "00", "01", "000", "0", "255", "256", "1000", "x", "%31"][r.below(10)].to_string(),
            1 | 2 => r.below(300).to_string(),
            3..=5 => r.below(256).to_string(),
            _ => [0, 1, 9, 10, 19, 99, 100, 127, 192, 199, 200, 249, 250, 255][r.below(14)].to_string(),
        });
    }
    v.join(".")
}
fn h16(r: &mut Rng) -> String {
    let n = if r.chance(1, 20) { 5 } else { 1 + r.below(4) };
    (0..n).map(|_| b"0123456789abcdefABCDEF"[r.below(22)] as char).collect()
}
/// Groups in brackets, mostly an IPv6 address.
pub fn v6ish(r: &mut Rng) -> String {
    let v4 = r.chance(1, 3);
    let full = if v4 { 6 } else { 8 };
    let mut s = String::from("[");
    let mut g: Vec<String> = Vec::new();
    if r.chance(2, 3) {
        // with an elision
        let total = r.below(full) + r.chance(1, 12) as usize;
        let left = r.below(total + 1);
        let a: Vec<String> = (0..left).map(|_| h16(r)).collect();
        let mut b: Vec<String> = (left..total).map(|_| h16(r)).collect();
        if v4 {
            b.push(v4ish(r));
        }
        s.push_str(&a.join(":"));
        s.push_str("::");
        s.push_str(&b.join(":"));
    } else {
        let n = if r.chance(1, 10) { full - 1 + r.below(3) } else { full };
        for _ in 0..n {
            g.push(h16(r));
        }
        if v4 {
            g.push(v4ish(r));
        }
        s.push_str(&g.join(":"));
    }
    s.push(']');
    s
}
pub fn vfuture(r: &mut Rng) -> String {
    let mut s = String::from(if r.chance(1, 2) { "[v" } else { "[V" });
    for _ in 0..1 + r.size(2) {
        s.push(b"0123456789abcdefABCDEF"[r.below(22)] as char);
    }
    s.push('.');
    const A: &[u8] = b"abzABZ019-._~!$&'()*+,;=:";
    for _ in 0..1 + r.size(5) {
        s.push(A[r.below(A.len())] as char);
    }
    s.push(']');
    s
}
pub fn domain(r: &mut Rng) -> String {
    let n = 1 + r.size(4);
    (0..n).map(|_| ["www", "Example", "com", "org", "x-y", "a1", "1", "xn--abc", "localhost", ""][r.below(10)]).collect::<Vec<_>>().join(".")
}
/// One change to a text: characters inserted, removed, replaced, repeated, recased, encoded.
pub fn edit(r: &mut Rng, s: &str, iri: bool) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let at = r.below(v.len() + 1);
    let rc = |r: &mut Rng| -> char {
        let x = r.next();
        if x < 0x110000 {
            // a choice made deliberately
            return char::from_u32(x as u32).unwrap_or('a');
        }
        match r.below(if iri { 5 } else { 4 }) {
            0 => (0x21 + r.below(0x5e) as u8) as char,
            1 => b":/?#@[]%.-+0aZ"[r.below(14)] as char,
            2 => b"0123456789"[r.below(10)] as char,
            3 => b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[r.below(52)] as char,
            _ => ucschar(r, false),
        }
    };
    match r.below(9) {
        0 | 1 => {
            let c = rc(r);
            v.insert(at, c);
        }
        2 if at < v.len() => {
            v[at] = rc(r);
        }
        3 if at < v.len() => {
            let n = (1 + r.size(2)).min(v.len() - at);
            v.drain(at..at + n);
        }
        4 => {
            // repeat a character or a piece
            let from = r.below(at + 1);
            let from = if at - from > 12 { at - 1 } else { from };
            let piece: Vec<char> = v[from..at].to_vec();
            let n = r.size(3);
            let n = if piece.len() > 1 { n.min(1 + 200 / piece.len()) } else { n };
            let mut add = Vec::new();
            for _ in 0..n {
                add.extend(&piece);
            }
            v.splice(at..at, add);
        }
        5 if at < v.len() => {
            v[at] = if v[at].is_ascii_lowercase() { v[at].to_ascii_uppercase() } else { v[at].to_ascii_lowercase() };
        }
        6 if at < v.len() => {
            let mut b = [0; 4];
            let e: String = v[at].encode_utf8(&mut b).bytes().map(|b| format!("%{b:02X}")).collect();
            v.splice(at..at + 1, e.chars());
        }
        7 => {
            // a run of one character up to a length
            let c = rc(r);
            let n = r.size(6);
            v.splice(at..at, std::iter::repeat(c).take(n));
        }
        _ => {
            let p = pct(r);
            v.splice(at..at, p.chars());
        }
    }
    v.into_iter().collect()
}
