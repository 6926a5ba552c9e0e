//! Workload generators. Everything is drawn from the choice tape.
use crate::env::{Chunk, Pend, Repr};
use crate::model::*;
use crate::refp::{self, Addr, Dom};
use std::net::{Ipv4Addr, Ipv6Addr};
use std::sync::Arc;
use yv_engine::src::Src;
use yv_glue::{User, KINDS};

pub fn cap(s: &Src) -> usize {
    match s.scale {
        0 => 12,
        1 => 80,
        2 => 1100,
        _ => 9000,
    }
}

fn label(s: &mut Src) -> Vec<u8> {
    let n = 1 + s.size(if s.scale >= 2 { 70 } else { 12 });
    let mut l = s.from_alphabet(n, b"abcXYZ019-");
    if l[0] == b'-' {
        l[0] = b'a';
    }
    let k = l.len() - 1;
    if l[k] == b'-' {
        l[k] = b'z';
    }
    l
}

pub fn dom(s: &mut Src) -> Dom {
    match s.below(8) {
        0..=4 => {
            let n = 1 + s.below(3) + if s.scale >= 2 && s.chance(1, 10) { s.size(60) } else { 0 };
            let mut h = vec![];
            for i in 0..n {
                if i > 0 {
                    h.push(b'.');
                }
                h.extend(label(s));
            }
            Dom::Host(h)
        }
        5 => Dom::Host(b"example.org".to_vec()),
        6 => {
            let v = s.raw();
            let b = v.to_be_bytes();
            let b = match s.below(4) {
                0 => [127, 0, 0, 1],
                1 => [255, 255, 255, 255],
                _ => b,
            };
            Dom::V4(Ipv4Addr::from(b))
        }
        _ => {
            let mut seg = [0u16; 8];
            match s.below(4) {
                0 => seg[7] = 1,
                1 => {
                    for x in seg.iter_mut() {
                        *x = s.raw() as u16;
                    }
                }
                2 => {
                    seg[5] = 0xffff;
                    seg[6] = s.raw() as u16;
                    seg[7] = s.raw() as u16;
                }
                _ => {
                    seg[0] = 0x2001;
                    seg[1] = s.raw() as u16;
                    seg[7] = s.below(16) as u16;
                }
            }
            Dom::V6(Ipv6Addr::from(seg))
        }
    }
}

const ATOMS: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-/=?^_`{|}~";

pub fn local(s: &mut Src) -> Vec<u8> {
    match s.below(8) {
        0..=4 => {
            let n = 1 + s.below(3);
            let mut l = vec![];
            for i in 0..n {
                if i > 0 {
                    l.push(b'.');
                }
                let m = cap(s).min(300);
                let k = 1 + s.size(m);
                l.extend(s.from_alphabet(k, ATOMS));
            }
            l
        }
        5 => {
            let d = s.dict_str();
            let l: Vec<u8> = d.into_iter().filter(|&c| refp::atext(c)).collect();
            if l.is_empty() {
                b"postmaster".to_vec()
            } else {
                l
            }
        }
        _ => {
            let mut l = vec![b'"'];
            let m = cap(s).min(300);
            let k = s.size(m);
            for _ in 0..k {
                match s.below(6) {
                    0 => {
                        l.push(b'\\');
                        let c = *s.pick(b"\"\\ @a.<>~");
                        l.push(c);
                    }
                    1 => l.push(*s.pick(b" @<>.,:;()[]~")),
                    2 => {
                        let c = 32 + s.below(95) as u8;
                        if c == b'"' || c == b'\\' {
                            l.push(b'\\');
                        }
                        l.push(c);
                    }
                    3 => {
                        l.push(b'\\');
                        l.push(32 + s.below(95) as u8);
                    }
                    _ => l.push(*s.pick(b"abcABC123")),
                }
            }
            l.push(b'"');
            l
        }
    }
}

pub fn addr(s: &mut Src) -> Addr {
    let local = local(s);
    let host = if s.chance(1, 10) { None } else { Some(dom(s)) };
    Addr { local, host }
}

fn blanks(s: &mut Src, min: usize) -> Vec<u8> {
    let n = min + if s.chance(1, 4) { 1 + s.below(3) } else { 0 };
    (0..n).map(|_| if s.chance(1, 4) { b'\t' } else { b' ' }).collect()
}

/// A keyword in some case
pub fn kw(s: &mut Src, k: &[u8]) -> Vec<u8> {
    match s.below(4) {
        0 | 1 => k.to_vec(),
        2 => k.to_ascii_lowercase(),
        _ => k.iter().map(|c| if s.chance(1, 2) { c.to_ascii_lowercase() } else { *c }).collect(),
    }
}

pub fn params(s: &mut Src) -> Vec<u8> {
    let mut r = vec![];
    if !s.chance(1, 3) {
        return r;
    }
    let n = 1 + s.size(if s.scale >= 2 { 40 } else { 3 });
    for i in 0..n {
        r.extend(blanks(s, 1));
        match s.below(5) {
            0 => r.extend_from_slice(b"SIZE"),
            1 => r.extend_from_slice(b"BODY"),
            _ => {
                let k = 1 + s.below(6);
                let mut key = s.from_alphabet(k, b"abcXYZ09-");
                if key[0] == b'-' {
                    key[0] = b'k';
                }
                r.extend(key);
            }
        }
        // keys are made distinct
        r.extend(i.to_string().bytes());
        if s.chance(1, 2) {
            r.push(b'=');
            let m = cap(s).min(200);
            let k = 1 + s.size(m);
            for _ in 0..k {
                let c = 33 + s.below(94) as u8;
                r.push(if c == b'=' { b'+' } else { c });
            }
        }
    }
    r
}

fn route(s: &mut Src) -> Vec<u8> {
    let mut r = vec![];
    let n = 1 + s.below(3);
    for i in 0..n {
        if i > 0 {
            r.push(b',');
        }
        r.push(b'@');
        r.extend(dom(s).wire());
    }
    r.push(b':');
    r
}

fn path(s: &mut Src, a: &Addr) -> Vec<u8> {
    let mut p = vec![];
    if s.chance(1, 8) {
        p.extend(route(s));
    }
    p.extend(a.wire());
    if s.chance(1, 8) {
        p
    } else {
        let mut r = vec![b'<'];
        r.extend(p);
        r.push(b'>');
        r
    }
}

pub fn mail_line(s: &mut Src) -> Vec<u8> {
    let mut l = kw(s, b"MAIL FROM:");
    l.extend(blanks(s, 0));
    if s.chance(1, 8) {
        l.extend_from_slice(b"<>");
    } else {
        let a = addr(s);
        l.extend(path(s, &a));
    }
    l.extend(params(s));
    l.extend(blanks(s, 0));
    l.extend_from_slice(b"\r\n");
    l
}

pub fn rcpt_line(s: &mut Src) -> Vec<u8> {
    let mut l = kw(s, b"RCPT TO:");
    l.extend(blanks(s, 0));
    let a = addr(s);
    l.extend(path(s, &a));
    l.extend(params(s));
    l.extend(blanks(s, 0));
    l.extend_from_slice(b"\r\n");
    l
}

pub fn data_line(s: &mut Src) -> Vec<u8> {
    let mut l = kw(s, b"DATA");
    l.extend(blanks(s, 0));
    l.extend_from_slice(b"\r\n");
    l
}

/// Free text of a command: printable, with the odd high byte
pub fn text(s: &mut Src, min: usize) -> Vec<u8> {
    if s.chance(1, 8) {
        let d: Vec<u8> = s.dict_str().into_iter().filter(|&c| c != b'\r' && c != b'\n').collect();
        if d.len() >= min {
            return d;
        }
    }
    let m = cap(s);
    let n = min + s.size(m);
    if s.chance(1, 8) {
        return utf8(s, n);
    }
    if n > 64 {
        return s.from_alphabet(n, b"abcdefghij KLMNOP.\t\x80\xff<>@");
    }
    (0..n)
        .map(|_| match s.below(12) {
            0 => b' ',
            1 => b'\t',
            2 => 128 + s.below(128) as u8,
            3 => s.below(256) as u8,
            _ => 33 + s.below(94) as u8,
        })
        .map(|c| if c == b'\r' || c == b'\n' { b'.' } else { c })
        .collect()
}

/// Text in UTF-8, with characters of one to four bytes
pub fn utf8(s: &mut Src, n: usize) -> Vec<u8> {
    let mut r = vec![];
    let dense = 1 + s.below(8) as u32;
    while r.len() < n {
        let c = if s.chance(dense, 8) { *s.pick(&['\u{e9}', '\u{fc}', '\u{df}', '\u{80}', '\u{7ff}', '\u{800}', '\u{2019}', '\u{65e5}', '\u{130}', '\u{fe0f}', '\u{ffff}', '\u{1f600}', '\u{10ffff}']) } else { (32 + s.below(95)) as u8 as char };
        r.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
    }
    r
}

/// Any other well-formed command
pub fn other_line(s: &mut Src) -> Vec<u8> {
    let mut l = match s.below(8) {
        0 | 1 => {
            let h = s.chance(1, 2);
            let mut l = kw(s, if h { b"EHLO" } else { b"HELO" });
            l.extend(blanks(s, 1));
            l.extend(dom(s).wire());
            l.extend(blanks(s, 0));
            l
        }
        2 | 3 => {
            let q = s.chance(1, 2);
            let mut l = kw(s, if q { b"QUIT" } else { b"RSET" });
            l.extend(blanks(s, 0));
            l
        }
        4 | 5 => {
            let q = s.chance(1, 2);
            let mut l = kw(s, if q { b"NOOP" } else { b"HELP" });
            if s.chance(1, 2) {
                l.push(if s.chance(1, 4) { b'\t' } else { b' ' });
                l.extend(text(s, 0));
            }
            l
        }
        _ => {
            let q = s.chance(1, 2);
            let mut l = kw(s, if q { b"EXPN" } else { b"VRFY" });
            l.push(if s.chance(1, 4) { b'\t' } else { b' ' });
            l.extend(text(s, 1));
            l
        }
    };
    l.extend_from_slice(b"\r\n");
    l
}

pub fn valid_line(s: &mut Src) -> Vec<u8> {
    match s.below(4) {
        0 => mail_line(s),
        1 => rcpt_line(s),
        2 => data_line(s),
        _ => other_line(s),
    }
}

const SPECIAL: &[u8] = b"\r\n. \t<>@:,=-[]\"\\;\0\x7f\x80\xffaA0";

/// A small corruption
pub fn mutate(s: &mut Src, l: &mut Vec<u8>) {
    let k = 1 + s.below(3);
    for _ in 0..k {
        let n = l.len();
        match s.below(9) {
            8 => {
                let k = 1 + s.below(3);
                let u = utf8(s, k);
                let i = s.below(n + 1);
                l.splice(i..i, u);
            }
            0 => {
                if n > 0 {
                    let i = s.below(n);
                    l[i] = *s.pick(SPECIAL);
                }
            }
            1 => {
                let i = s.below(n + 1);
                l.insert(i, *s.pick(SPECIAL));
            }
            2 => {
                if n > 0 {
                    let i = s.below(n);
                    l.remove(i);
                }
            }
            3 => {
                if n > 0 {
                    let i = s.below(n);
                    l[i] = s.byte();
                }
            }
            4 => {
                if n > 1 {
                    let i = s.below(n - 1);
                    l.swap(i, i + 1);
                }
            }
            5 => {
                if n > 0 {
                    let i = s.below(n);
                    let j = i + 1 + s.below((n - i).min(8));
                    let b = l[i..j.min(n)].to_vec();
                    let p = s.below(n + 1);
                    l.splice(p..p, b);
                }
            }
            6 => {
                let d = s.dict_str();
                let i = s.below(n + 1);
                l.splice(i..i, d);
            }
            _ => {
                if n > 0 {
                    let i = s.below(n);
                    l[i] ^= 0x20;
                }
            }
        }
    }
}

/// Something that is most likely no command
pub fn junk_line(s: &mut Src) -> Vec<u8> {
    match s.below(7) {
        6 => {
            let m = cap(s);
            let n = s.size(m);
            let mut l = if s.chance(1, 2) { kw(s, b"XFOO ") } else { vec![] };
            l.extend(utf8(s, n));
            l.extend_from_slice(b"\r\n");
            l
        }
        0 | 1 | 2 => {
            let mut l = valid_line(s);
            let e = l.len() - 2;
            let mut b = l[..e].to_vec();
            mutate(s, &mut b);
            l = b;
            l.extend_from_slice(b"\r\n");
            l
        }
        3 => {
            let mut l = text(s, 0);
            l.extend_from_slice(b"\r\n");
            l
        }
        4 => b"\r\n".to_vec(),
        _ => {
            let m = cap(s);
            let n = s.size(m);
            let mut l = s.bytes(n);
            l.extend_from_slice(b"\r\n");
            l
        }
    }
}

/// Message text
pub fn message(s: &mut Src) -> Vec<u8> {
    let m = match s.scale {
        0 => 8,
        1 => 60,
        2 => 3000,
        _ => 70_000,
    };
    let n = s.size(m);
    match s.below(6) {
        0 | 1 => s.from_alphabet(n, b"\r\n.x"),
        2 => {
            // lines
            let mut r = vec![];
            let k = s.below(6) + if s.scale >= 2 { s.size(60) } else { 0 };
            for _ in 0..k {
                match s.below(8) {
                    0 => r.extend_from_slice(b"."),
                    1 => r.extend_from_slice(b".."),
                    2 => r.extend_from_slice(b".x"),
                    3 => (),
                    4 => r.extend_from_slice(b"QUIT"),
                    5 => r.extend_from_slice(b"MAIL FROM:<x@y>"),
                    _ => {
                        let q = s.size(90);
                        r.extend(if s.chance(1, 4) { utf8(s, q) } else { s.from_alphabet(q, b"abc .\xe9") });
                    }
                }
                match s.below(10) {
                    0 => r.push(b'\n'),
                    1 => r.push(b'\r'),
                    2 => r.extend_from_slice(b"\r\r\n"),
                    _ => r.extend_from_slice(b"\r\n"),
                }
            }
            r
        }
        3 => {
            let mut r = s.from_alphabet(n, b"ab\n\r.");
            r.extend(s.dict_str());
            r
        }
        4 => s.bytes(n),
        _ => s.from_alphabet(n, b"hello world.\r\n"),
    }
}

/// What follows the terminator sequence's look, without being it
pub const FAKE_ENDS: &[&[u8]] = &[
    b"\n.\n", b"\r.\r", b"\n.\r\n", b"\r\n.\n", b"\r\n.\r", b"\r\n..\r\n", b"\r\n. \r\n", b"\r\r\n.x\r\n", b"\r\n.\r\r\n", b"\n\r.\r\n",
    b"\r.\r\n", b"\0\r\n.\0\r\n", b"\r\n\0.\r\n",
];

pub fn chunking(s: &mut Src, wire: &[u8], gates: Option<&[(usize, usize)]>) -> Vec<Chunk> {
    let mut v = vec![];
    let style = s.below(6);
    let mut p = 0;
    let mut gi = 0;
    let mut gate = 0;
    while p < wire.len() {
        let mut n = match style {
            0 => wire.len() - p,
            1 => 1,
            2 => 1 + s.below(4),
            3 => 1 + s.below(40),
            4 => {
                // cut around the interesting bytes
                let q = wire[p..].iter().position(|c| b"\r\n.".contains(c)).unwrap_or(wire.len() - p);
                (q + s.below(3)).max(1)
            }
            _ => 1 + s.size(wire.len()),
        };
        if v.len() > 3000 {
            n = wire.len() - p;
        }
        let mut e = (p + n).min(wire.len());
        if let Some(g) = gates {
            while gi < g.len() && g[gi].0 <= p {
                gate = g[gi].1;
                gi += 1;
            }
            if gi < g.len() && g[gi].0 < e {
                e = g[gi].0;
            }
        }
        let repr = match s.below(5) {
            0 | 1 => Repr::Plain,
            2 => Repr::Roomy,
            3 => Repr::Shared,
            _ => Repr::Window,
        };
        if s.chance(1, 12) {
            // packets without content, now and then many in a row
            let n = if s.chance(1, 8) { 1 + s.size(300) } else { 1 };
            let n = if v.len() > 3000 { 1 } else { n };
            v.extend((0..n).map(|_| Chunk { data: vec![], repr, gate }));
        }
        v.push(Chunk { data: wire[p..e].to_vec(), repr, gate });
        p = e;
    }
    if s.chance(1, 12) {
        v.push(Chunk { data: vec![], repr: Repr::Plain, gate });
    }
    v
}

pub fn one_chunk(wire: &[u8]) -> Vec<Chunk> {
    vec![Chunk { data: wire.to_vec(), repr: Repr::Plain, gate: 0 }]
}

pub fn pend(s: &mut Src) -> Pend {
    match s.below(3) {
        0 => vec![],
        1 => {
            let n = 1 + s.below(9);
            let mut v: Vec<u8> = (0..n).map(|_| s.below(4) as u8).collect();
            v.push(0);
            v
        }
        _ => vec![s.below(3) as u8],
    }
}

pub fn reply_text(s: &mut Src, max: usize) -> Vec<u8> {
    let n = s.size(max);
    if n > 64 {
        return s.from_alphabet(n, b"abcdefghijklmnopqrstuvwxyz 0123456789\t~!-");
    }
    (0..n)
        .map(|_| match s.below(10) {
            0 => 9,
            1 => b' ',
            2 => b'-',
            3 => b'~',
            _ => 32 + s.below(95) as u8,
        })
        .collect()
}

#[derive(Clone)]
pub struct Opts {
    /// probability (of 8) that a decision refuses
    pub refuse: u32,
    pub edits: bool,
    pub texts: usize,
    pub plain: bool,
    pub part: bool,
    /// each of 16: how often each kind of step is taken out of the natural order
    pub disorder: u32,
    pub junk: u32,
    /// raw bytes in bodies rather than encoded messages
    pub raw_bodies: bool,
    /// cut the conversation at any point
    pub cut: u32,
    /// (of 16) cut it inside a message, mostly near its end
    pub cut_body: u32,
    pub pieces: usize,
    pub gates: bool,
    /// fragments with bare CR/LF and other line-end tricks
    pub tricks: u32,
    pub repeat: bool,
}

impl Default for Opts {
    fn default() -> Opts {
        Opts {
            refuse: 2,
            edits: true,
            texts: 40,
            plain: false,
            part: false,
            disorder: 2,
            junk: 2,
            raw_bodies: false,
            cut: 2,
            cut_body: 1,
            pieces: 24,
            gates: true,
            tricks: 0,
            repeat: true,
        }
    }
}

fn some_addr(s: &mut Src) -> Vec<u8> {
    let a = addr(s).wire();
    if s.chance(1, 2) {
        b"rewritten@example.net".to_vec()
    } else {
        a
    }
}

fn edit(s: &mut Src, o: &Opts) -> Edit {
    if !o.edits || !s.chance(1, 3) {
        return Edit::None;
    }
    match s.below(5) {
        0 | 1 => {
            let a = some_addr(s);
            Edit::Replace(Some(a))
        }
        2 => {
            let a = if s.chance(1, 3) { None } else { Some(some_addr(s)) };
            Edit::SetFrom(a)
        }
        3 => Edit::AddRcpt(some_addr(s)),
        _ => Edit::DropRcpt(s.below(5)),
    }
}

fn code(s: &mut Src) -> u16 {
    match s.below(4) {
        0 => *s.pick(&[550, 450, 451, 552, 553, 521]),
        1 => s.below(1000) as u16,
        2 => 500 + s.below(100) as u16,
        _ => 400 + s.below(100) as u16,
    }
}

fn steps(s: &mut Src, o: &Opts, tag: &str) -> Vec<Step> {
    let n = 1 + s.below(5);
    (0..n)
        .map(|i| {
            let accept = !s.chance(o.refuse, 8);
            let code = code(s);
            let mut text = format!("{}{} ", tag, i).into_bytes();
            text.extend(reply_text(s, o.texts));
            let mut e = edit(s, o);
            if tag == "from" {
                e = match e {
                    Edit::Replace(a) => Edit::Replace(a),
                    Edit::SetFrom(a) => Edit::Replace(a),
                    _ => Edit::None,
                };
            }
            Step { accept, code, text, edit: e }
        })
        .collect()
}

pub fn plan(s: &mut Src, o: &Opts) -> Plan {
    let handle = (0..1 + s.below(4))
        .map(|i| {
            let mut text = format!("msg{} ", i).into_bytes();
            text.extend(reply_text(s, o.texts));
            HandleStep {
                accept: !s.chance(o.refuse, 8),
                accept_cut: s.chance(1, 4),
                code: code(s),
                text,
                extra: if s.chance(1, 3) { 1 + s.below(2) } else { 0 },
                pauses: s.chance(1, 3),
                style: 0,
            }
        })
        .collect();
    let replies = KINDS
        .iter()
        .map(|k| {
            let c = if s.chance(1, 2) { plain_code(*k) } else { s.below(1000) as u16 };
            let mut t = format!("{:?} ", k).into_bytes();
            t.extend(reply_text(s, o.texts));
            (c, t)
        })
        .collect();
    let host = match s.below(12) {
        0 => vec![],
        1 => (0..[63, 255, 490, 506, 507, 1020][s.below(6)]).map(|i| b"Mail-01.eXample."[i % 16]).collect(),
        _ => dom(s).wire(),
    };
    let part = if o.part { Some(s.below(1 << 16) as u32 & if s.chance(1, 3) { 0xf800 } else { 0xffff }) } else { None };
    let general = if o.part {
        ["banner", "okay", "bad"]
            .iter()
            .map(|k| {
                let mut t = format!("{} ", k).into_bytes();
                t.extend(reply_text(s, o.texts));
                (s.below(1000) as u16, t)
            })
            .collect()
    } else {
        vec![]
    };
    Plan {
        plain: o.plain,
        part,
        general,
        live: o.part && s.chance(1, 3),
        from: steps(s, o, "from"),
        to: steps(s, o, "to"),
        data: steps(s, o, "data"),
        handle,
        replies,
        host,
        user: User { id: s.raw() as u64, trail: vec![] },
    }
}

/// A conversation
pub struct Conv {
    pub plan: Arc<Plan>,
    pub wire: Vec<u8>,
    /// (offset, replies the client has seen before sending what follows)
    pub gates: Vec<(usize, usize)>,
    pub eof_gate: usize,
    pub model: Model,
}

pub fn conversation(s: &mut Src, o: &Opts) -> Conv {
    let plan = Arc::new(plan(s, o));
    let mut m = Model::new(plan.clone());
    let mut wire: Vec<u8> = vec![];
    let mut gates = vec![];
    let n = 1 + s.below(o.pieces) + if s.scale >= 2 { s.below(o.pieces) } else { 0 };
    let lock = o.gates && s.chance(1, 2);
    let mut big = 0;
    let mut bodies: Vec<(usize, usize)> = vec![];
    for _ in 0..n {
        let mut reps = 1;
        let in_body = m.in_data();
        let mut piece = if m.in_data() {
            body_piece(s, o)
        } else if o.tricks > 0 && s.chance(o.tricks, 16) {
            trick(s)
        } else if s.chance(o.junk, 16) {
            junk_line(s)
        } else if s.chance(2, 16) {
            other_line(s)
        } else if s.chance(o.disorder, 16) {
            match s.below(3) {
                0 => mail_line(s),
                1 => rcpt_line(s),
                _ => data_line(s),
            }
        } else {
            match m.transaction() {
                None => mail_line(s),
                Some(0) => rcpt_line(s),
                Some(_) => {
                    if s.chance(1, 2) {
                        data_line(s)
                    } else {
                        rcpt_line(s)
                    }
                }
            }
        };
        if o.repeat && !m.in_data() && s.chance(1, 24) {
            let m = match s.scale {
                0 => 4,
                1 => 20,
                2 => 120,
                _ => 1100,
            };
            reps = 1 + s.size(m);
            if reps * piece.len() > 60_000 {
                reps = 1;
            }
        }
        if wire.len() + reps * piece.len() > 400_000 {
            break;
        }
        if in_body {
            bodies.push((wire.len(), wire.len() + piece.len()));
        }
        if lock && (reps == 1 || big > 2) {
            gates.push((wire.len(), m.replies.len()));
        }
        for _ in 0..reps {
            m.push(&piece);
            wire.extend_from_slice(&piece);
            if reps > 1 {
                if m.in_data() {
                    break;
                }
                // distinct addresses
                if let Some(k) = piece.iter().position(|&c| c == b'<') {
                    if piece.get(k + 1).map_or(false, |c| c.is_ascii_alphanumeric()) {
                        let c = b'a' + (wire.len() % 26) as u8;
                        piece[k + 1] = c;
                    }
                }
            }
        }
        if reps > 1 {
            big += 1;
        }
    }
    // usually let the message end
    if m.in_data() && !s.chance(1, 4) {
        let b = refp::encode(b"bye\r\n");
        m.push(&b[..]);
        wire.extend_from_slice(&b);
    }
    let mut at = None;
    if !bodies.is_empty() && s.chance(o.cut_body, 16) {
        let (a, e) = bodies[s.below(bodies.len())];
        let back = if s.chance(3, 4) { s.below(7) } else { s.below(e - a + 1) };
        at = Some((e - back.min(e - a)).min(wire.len()));
    } else if o.cut > 0 && s.chance(o.cut, 16) && !wire.is_empty() {
        at = Some(s.below(wire.len()));
    }
    if let Some(k) = at {
        wire.truncate(k);
        m = Model::new(plan.clone());
        m.push(&wire);
        gates.retain(|g| g.0 < k);
    }
    let eof_gate = if lock && s.chance(1, 2) {
        // before the message that gets cut, if any
        m.replies.len()
    } else {
        0
    };
    m.finish();
    Conv { plan, wire, gates, eof_gate, model: m }
}

fn body_piece(s: &mut Src, o: &Opts) -> Vec<u8> {
    if o.raw_bodies && s.chance(1, 2) {
        let mut b = match s.below(4) {
            0 => message(s),
            1 => {
                let n = 1 + s.below(10);
                s.from_alphabet(n, b"\r\n.x")
            }
            _ => {
                let mut b = vec![];
                for _ in 0..1 + s.below(4) {
                    b.extend_from_slice(s.pick(FAKE_ENDS));
                    if s.chance(1, 2) {
                        b.extend_from_slice(b"MAIL FROM:<smuggled@example.org>\r\n");
                    }
                    if s.chance(1, 4) {
                        b.extend_from_slice(b"RCPT TO:<victim@example.org>\r\nDATA\r\n");
                    }
                }
                b
            }
        };
        if s.chance(1, 2) {
            b.extend_from_slice(b"\r\n.\r\n");
        }
        b
    } else {
        let m = message(s);
        refp::encode(&m)
    }
}

/// Pieces of lines whose ends are not CRLF
fn trick(s: &mut Src) -> Vec<u8> {
    let mut l = valid_line(s);
    let n = l.len() - 2;
    match s.below(9) {
        0 => {
            l.truncate(n);
            l.push(b'\n');
        }
        1 => {
            l.truncate(n);
            l.push(b'\r');
        }
        2 => {
            l.truncate(n);
            l.extend_from_slice(b"\n\r");
        }
        3 => {
            l.truncate(n);
            l.extend_from_slice(b"\r\r\n");
        }
        4 => {
            l.truncate(n);
        }
        5 => {
            l.insert(0, b'\n');
        }
        6 => {
            l.truncate(n);
            l.extend_from_slice(b"\0\r\n");
        }
        7 => {
            l.truncate(n);
            l.extend_from_slice(b"\n");
            l.extend(valid_line(s));
        }
        _ => {
            l.truncate(n);
            l.extend_from_slice(b"\r");
            l.extend(valid_line(s));
        }
    }
    l
}
