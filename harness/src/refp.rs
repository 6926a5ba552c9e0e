//! Reference grammar of command lines, mailboxes and reply lines, written from RFC 5321 and the
//! documented deviations of the project (see DESIGN.md), independently of the parsers under test.
use std::collections::BTreeMap;
use std::net::{Ipv4Addr, Ipv6Addr};
use std::str::FromStr;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Dom {
    Host(Vec<u8>),
    V4(Ipv4Addr),
    V6(Ipv6Addr),
}

impl Dom {
    pub fn wire(&self) -> Vec<u8> {
        match self {
            Dom::Host(h) => h.clone(),
            Dom::V4(a) => format!("[{}]", a).into_bytes(),
            Dom::V6(a) => format!("[IPv6:{}]", a).into_bytes(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Addr {
    pub local: Vec<u8>,
    pub host: Option<Dom>,
}

impl Addr {
    pub fn wire(&self) -> Vec<u8> {
        let mut r = self.local.clone();
        if let Some(h) = &self.host {
            r.push(b'@');
            r.extend(h.wire());
        }
        r
    }
    /// The local part with its quoting undone
    pub fn canonical(&self) -> Vec<u8> {
        if self.local.first() != Some(&b'"') {
            return self.local.clone();
        }
        let inner = &self.local[1..self.local.len() - 1];
        let mut r = vec![];
        let mut i = 0;
        while i < inner.len() {
            if inner[i] == b'\\' {
                i += 1;
            }
            r.push(inner[i]);
            i += 1;
        }
        r
    }
}

pub type Params = BTreeMap<Vec<u8>, Option<Vec<u8>>>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Cmd {
    Data,
    Ehlo(Dom),
    Expn(Vec<u8>),
    Helo(Dom),
    Help(Vec<u8>),
    Mail(Option<Addr>, Params),
    Noop(Vec<u8>),
    Quit,
    Rcpt(Addr, Params),
    Rset,
    Vrfy(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Accept(Cmd),
    Reject,
    /// Accepting it with this reading or refusing it are both fine
    Either(Cmd),
}

fn blank(c: u8) -> bool {
    c == b' ' || c == b'\t'
}
pub fn atext(c: u8) -> bool {
    c.is_ascii_alphanumeric() || b"!#$%&'*+-/=?^_`{|}~".contains(&c)
}

/// A cursor over the line; `soft` is set when something unspecified was read
struct P<'a> {
    b: &'a [u8],
    i: usize,
    soft: bool,
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<u8> {
        self.b.get(self.i).cloned()
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == Some(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self, w: &[u8]) -> bool {
        let r = &self.b[self.i..];
        if r.len() >= w.len() && r[..w.len()].eq_ignore_ascii_case(w) {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    fn blanks(&mut self) -> usize {
        let s = self.i;
        while self.peek().map_or(false, blank) {
            self.i += 1;
        }
        self.i - s
    }
    fn run(&mut self, f: impl Fn(u8) -> bool) -> &'a [u8] {
        let s = self.i;
        while self.peek().map_or(false, &f) {
            self.i += 1;
        }
        &self.b[s..self.i]
    }
    fn done(&self) -> bool {
        self.i == self.b.len()
    }
    fn local(&mut self) -> Option<Vec<u8>> {
        let s = self.i;
        if self.eat(b'"') {
            loop {
                let c = self.peek()?;
                self.i += 1;
                match c {
                    b'"' => break,
                    b'\\' => {
                        let d = self.peek()?;
                        if !(32..=126).contains(&d) {
                            return None;
                        }
                        self.i += 1;
                    }
                    32..=126 => (),
                    _ => return None,
                }
            }
        } else {
            loop {
                if self.run(atext).is_empty() {
                    return None;
                }
                if !self.eat(b'.') {
                    break;
                }
            }
        }
        Some(self.b[s..self.i].to_vec())
    }
    fn domain(&mut self) -> Option<Dom> {
        if self.eat(b'[') {
            let s = self.i;
            let e = s + self.b[s..].iter().position(|&c| c == b']')?;
            let t = std::str::from_utf8(&self.b[s..e]).ok()?;
            self.i = e + 1;
            if t.len() >= 5 && t.as_bytes()[..5].eq_ignore_ascii_case(b"IPv6:") {
                return Some(Dom::V6(Ipv6Addr::from_str(&t[5..]).ok()?));
            }
            let parts: Vec<&str> = t.split('.').collect();
            if parts.len() != 4 {
                return None;
            }
            let mut o = [0u8; 4];
            for (k, p) in parts.iter().enumerate() {
                if p.is_empty() || p.len() > 20 || !p.bytes().all(|c| c.is_ascii_digit()) {
                    return None;
                }
                let v: u128 = p.parse().ok()?;
                if v > 255 {
                    return None;
                }
                if p.len() > 1 && p.starts_with('0') {
                    self.soft = true; // leading zeros
                }
                o[k] = v as u8;
            }
            return Some(Dom::V4(Ipv4Addr::from(o)));
        }
        let s = self.i;
        loop {
            let l = self.run(|c| c.is_ascii_alphanumeric() || c == b'-');
            if l.is_empty() || l[0] == b'-' {
                return None;
            }
            if l[l.len() - 1] == b'-' {
                self.soft = true;
            }
            if !self.eat(b'.') {
                break;
            }
        }
        Some(Dom::Host(self.b[s..self.i].to_vec()))
    }
    fn mailbox(&mut self) -> Option<Addr> {
        let local = self.local()?;
        let host = if self.eat(b'@') { Some(self.domain()?) } else { None };
        Some(Addr { local, host })
    }
    /// optional source route, then mailbox
    fn path(&mut self) -> Option<Addr> {
        if self.peek() == Some(b'@') {
            loop {
                if !self.eat(b'@') {
                    return None;
                }
                self.domain()?;
                if self.eat(b',') {
                    continue;
                }
                if !self.eat(b':') {
                    return None;
                }
                break;
            }
        } else if self.eat(b':') {
            self.soft = true;
        }
        self.mailbox()
    }
    fn maybe_bracketed(&mut self) -> Option<Addr> {
        if self.eat(b'<') {
            let a = self.path()?;
            if !self.eat(b'>') {
                return None;
            }
            Some(a)
        } else {
            self.path()
        }
    }
    fn params(&mut self) -> Option<Params> {
        let mut m = Params::new();
        loop {
            let n = self.blanks();
            if self.done() {
                return Some(m);
            }
            if n == 0 {
                return None;
            }
            let k = self.run(|c| c.is_ascii_alphanumeric() || c == b'-').to_vec();
            if k.is_empty() || k[0] == b'-' {
                return None;
            }
            let v = if self.eat(b'=') {
                let v = self.run(|c| (33..=126).contains(&c) && c != b'=').to_vec();
                if v.is_empty() {
                    return None;
                }
                Some(v)
            } else {
                None
            };
            if m.insert(k, v).is_some() {
                self.soft = true;
            }
        }
    }
}

/// Reads one complete command line (with its CRLF)
pub fn command(line: &[u8]) -> Verdict {
    let n = line.len();
    if n < 2 || &line[n - 2..] != b"\r\n" {
        return Verdict::Reject;
    }
    let body = &line[..n - 2];
    if body.windows(2).any(|w| w == b"\r\n") || (body.ends_with(b"\r") && false) {
        return Verdict::Reject;
    }
    let mut p = P { b: body, i: 0, soft: false };
    let lead = p.blanks();
    match cmd(&mut p) {
        Some(c) => {
            if lead > 0 {
                match c {
                    Cmd::Ehlo(_) | Cmd::Helo(_) => p.soft = true,
                    _ => return Verdict::Reject,
                }
            }
            if p.soft {
                Verdict::Either(c)
            } else {
                Verdict::Accept(c)
            }
        }
        None => Verdict::Reject,
    }
}

fn cmd(p: &mut P) -> Option<Cmd> {
    if p.word(b"MAIL FROM:") {
        p.blanks();
        let a = if p.b[p.i..].starts_with(b"<>") {
            p.i += 2;
            None
        } else {
            Some(p.maybe_bracketed()?)
        };
        return Some(Cmd::Mail(a, p.params()?));
    }
    if p.word(b"RCPT TO:") {
        p.blanks();
        let a = p.maybe_bracketed()?;
        return Some(Cmd::Rcpt(a, p.params()?));
    }
    if p.b.len() < p.i + 4 {
        return None;
    }
    let verb = p.b[p.i..p.i + 4].to_ascii_uppercase();
    p.i += 4;
    let rest = &p.b[p.i..];
    let text = |p: &mut P, need: bool| -> Option<Vec<u8>> {
        if rest.is_empty() {
            return if need { None } else { Some(vec![]) };
        }
        if !blank(rest[0]) {
            return None;
        }
        let t = rest[1..].to_vec();
        if t.contains(&b'\r') || t.contains(&b'\n') || (need && t.is_empty()) {
            p.soft = true;
        }
        Some(t)
    };
    match &verb[..] {
        b"DATA" | b"QUIT" | b"RSET" => {
            p.blanks();
            if !p.done() {
                return None;
            }
            Some(match &verb[..] {
                b"DATA" => Cmd::Data,
                b"QUIT" => Cmd::Quit,
                _ => Cmd::Rset,
            })
        }
        b"EHLO" | b"HELO" => {
            if p.blanks() == 0 {
                return None;
            }
            let d = p.domain()?;
            p.blanks();
            if !p.done() {
                return None;
            }
            Some(if &verb[..] == b"EHLO" { Cmd::Ehlo(d) } else { Cmd::Helo(d) })
        }
        b"HELP" => Some(Cmd::Help(text(p, false)?)),
        b"NOOP" => Some(Cmd::Noop(text(p, false)?)),
        b"EXPN" => Some(Cmd::Expn(text(p, true)?)),
        b"VRFY" => Some(Cmd::Vrfy(text(p, true)?)),
        _ => None,
    }
}

/// Reads a bare mailbox; `Err(())` when it is not one, the flag when it is in unspecified land
pub fn mailbox(b: &[u8]) -> Result<(Addr, bool), ()> {
    let mut p = P { b, i: 0, soft: false };
    match p.mailbox() {
        Some(a) if p.done() => Ok((a, p.soft)),
        _ => Err(()),
    }
}

/// Undoes the transparency encoding. Returns the text, and how much of the input was used up to
/// and including the terminator, if it is there.
pub fn decode(b: &[u8]) -> (Vec<u8>, Option<usize>) {
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    let mut bol = true;
    while i < b.len() {
        if bol && b[i] == b'.' {
            if b[i..].starts_with(b".\r\n") {
                return (out, Some(i + 3));
            }
            i += 1;
            bol = false;
            continue;
        }
        out.push(b[i]);
        bol = b[i] == b'\n' && i > 0 && b[i - 1] == b'\r';
        i += 1;
    }
    (out, None)
}

/// For an unterminated message: the part of the text that is certain, whatever may follow
pub fn decode_certain(b: &[u8]) -> Vec<u8> {
    for tail in [&b".\r"[..], b"."] {
        if b.ends_with(tail) {
            let k = b.len() - tail.len();
            if k == 0 || b[..k].ends_with(b"\r\n") {
                return decode(&b[..k]).0;
            }
        }
    }
    decode(b).0
}

/// Transparency encoding of a message
pub fn encode(b: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(b.len() + 8);
    let mut bol = true;
    for i in 0..b.len() {
        if bol && b[i] == b'.' {
            out.push(b'.');
        }
        out.push(b[i]);
        bol = b[i] == b'\n' && i > 0 && b[i - 1] == b'\r';
    }
    if !bol {
        out.extend_from_slice(b"\r\n");
    }
    out.extend_from_slice(b".\r\n");
    out
}

/// One server reply
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Reply {
    pub code: u16,
    pub text: Vec<u8>,
    pub lines: usize,
    /// lines without a text
    pub empty: usize,
}

/// Incremental strict reader of server replies
#[derive(Default, Clone)]
pub struct ReplyReader {
    buf: Vec<u8>,
    cur: Option<Reply>,
    pub done: Vec<Reply>,
    pub max_line: usize,
    /// what is written is no replies
    pub off: bool,
}

impl ReplyReader {
    pub fn push(&mut self, b: &[u8]) -> Result<(), String> {
        if self.off {
            return Ok(());
        }
        self.buf.extend_from_slice(b);
        let mut pos = 0;
        while let Some(k) = self.buf[pos..].windows(2).position(|w| w == b"\r\n") {
            let l = self.buf[pos..pos + k].to_vec();
            pos += k + 2;
            self.line(&l)?;
        }
        self.buf.drain(..pos);
        if self.buf.len() > 512 {
            return Err(format!("reply line longer than 512 bytes: {}", yv_engine::util::show(&self.buf)));
        }
        Ok(())
    }
    fn line(&mut self, l: &[u8]) -> Result<(), String> {
        let bad = |w: &str| Err(format!("malformed reply line ({}): {}", w, yv_engine::util::show(l)));
        self.max_line = self.max_line.max(l.len() + 2);
        if l.len() + 2 > 512 {
            return bad("longer than 512 bytes");
        }
        if l.len() < 4 || !l[..3].iter().all(|c| c.is_ascii_digit()) {
            return bad("no code");
        }
        let code = (l[0] - b'0') as u16 * 100 + (l[1] - b'0') as u16 * 10 + (l[2] - b'0') as u16;
        if !l[4..].iter().all(|&c| c == 9 || (32..=126).contains(&c)) {
            return bad("not printable");
        }
        let last = match l[3] {
            b' ' => true,
            b'-' => false,
            _ => return bad("no separator"),
        };
        let c = self.cur.get_or_insert(Reply { code, text: vec![], lines: 0, empty: 0 });
        if c.code != code {
            return Err(format!("reply mixes codes {} and {}", c.code, code));
        }
        c.text.extend_from_slice(&l[4..]);
        c.lines += 1;
        c.empty += (l.len() == 4) as usize;
        if last {
            let c = self.cur.take().unwrap();
            self.done.push(c);
        }
        Ok(())
    }
    /// Nothing half-written?
    pub fn clean(&self) -> bool {
        self.buf.is_empty() && self.cur.is_none()
    }
}

/// (code, is the last line, text) of a reply line; the flag when it is in unspecified land
pub fn reply_line(b: &[u8]) -> Result<(u16, bool, Vec<u8>, bool), ()> {
    let n = b.len();
    if n < 6 || &b[n - 2..] != b"\r\n" || !b[..3].iter().all(|c| c.is_ascii_digit()) {
        return Err(());
    }
    let last = match b[3] {
        b' ' => true,
        b'-' => false,
        _ => return Err(()),
    };
    let t = &b[4..n - 2];
    if t.windows(2).any(|w| w == b"\r\n") {
        return Err(());
    }
    let code = (b[0] - b'0') as u16 * 100 + (b[1] - b'0') as u16 * 10 + (b[2] - b'0') as u16;
    let soft = t.len() > 506 || !t.iter().all(|&c| c == 9 || (32..=126).contains(&c));
    Ok((code, last, t.to_vec(), soft))
}
