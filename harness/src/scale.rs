//! Sizes and numbers well beyond those the random workloads reach: tens of thousands of commands,
//! recipients, mails, packets, pieces and dots, and lines, packets, texts and replies around 2^8, 2^12,
//! 2^16 and 2^18 bytes.  Everything here takes time in proportion to what is sent.
use crate::env::*;
use crate::msg;
use crate::refp;
use crate::session::R;
use bytes::BytesMut;
use smtp_message::{ByteSlice, Command, Email, ReplyCode, Sendable};
use std::{
    future::ready,
    sync::{Arc, Mutex},
    task::{Context, Poll},
};
use yv_engine::run::{violation, Fail, Obs};
use yv_engine::util::{mix, show, Rng};
use yv_glue::*;

fn wire_of<T: Sendable>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    let _ = t.send_to(&mut v);
    v
}

#[derive(Default)]
struct Told {
    /// sort of call, what it was about, recipients so far
    calls: Vec<(u8, Vec<u8>, usize)>,
    mails: Vec<(Vec<u8>, Vec<Vec<u8>>, Vec<u8>, bool)>,
}

/// Decides by the address alone: a local part that starts with r is refused
struct Tell(Arc<Mutex<Told>>);

fn refusal() -> Decision {
    Decision::Reject(Refusal { code: ReplyCode::POLICY_REASON, msg: "refused".into() })
}

impl Policy for Tell {
    fn new_mail<'a>(&'a mut self) -> SBox<'a, ()> {
        Box::pin(ready(()))
    }
    fn filter_from<'a>(&'a mut self, from: &'a mut Option<Email>, _: &'a mut Conn) -> SBox<'a, Decision> {
        let a = wire_of(from);
        let no = a.starts_with(b"r");
        self.0.lock().unwrap().calls.push((0, a, 0));
        Box::pin(ready(if no { refusal() } else { Decision::Accept }))
    }
    fn filter_to<'a>(&'a mut self, to: &'a mut Email, m: &'a mut MailMetadata, _: &'a mut Conn) -> SBox<'a, Decision> {
        let a = wire_of(to);
        let no = a.starts_with(b"r");
        self.0.lock().unwrap().calls.push((1, a, m.to.len()));
        Box::pin(ready(if no { refusal() } else { Decision::Accept }))
    }
    fn filter_data<'a>(&'a mut self, m: &'a mut MailMetadata, _: &'a mut Conn) -> SBox<'a, Decision> {
        self.0.lock().unwrap().calls.push((2, wire_of(&m.from), m.to.len()));
        Box::pin(ready(Decision::Accept))
    }
    fn handle_mail<'a>(&'a mut self, mut body: Box<dyn Body + 'a>, m: MailMetadata, _: &'a mut Conn) -> LBox<'a, Decision> {
        let told = self.0.clone();
        Box::pin(async move {
            let mut text = vec![];
            while let Some(b) = futures::future::poll_fn(|cx: &mut Context<'_>| -> Poll<Option<BytesMut>> { body.poll(cx) }).await {
                text.extend_from_slice(&b);
            }
            let ok = body.complete().is_ok();
            told.lock().unwrap().mails.push((wire_of(&m.from), m.to.iter().map(wire_of).collect(), text, ok));
            if ok {
                Decision::Accept
            } else {
                refusal()
            }
        })
    }
    fn hostname(&self) -> Vec<u8> {
        b"h.example".to_vec()
    }
    fn reply(&self, k: Kind) -> (u16, Vec<u8>) {
        (code_of(k), format!("{:?}", k).into_bytes())
    }
}

fn code_of(k: Kind) -> u16 {
    600 + KINDS.iter().position(|x| *x == k).unwrap() as u16
}

enum Op {
    Noop(Vec<u8>),
    Bad(Vec<u8>),
    Mail(Vec<u8>),
    Rcpt(Vec<u8>),
    Data(Vec<u8>),
}

/// What is sent and what is due for it
#[derive(Default)]
struct Talk {
    wire: Vec<u8>,
    codes: Vec<u16>,
    told: Told,
    meta: Option<(Vec<u8>, Vec<Vec<u8>>)>,
    longest: usize,
}

impl Talk {
    fn new() -> Talk {
        Talk { codes: vec![code_of(Kind::Welcome)], ..Talk::default() }
    }
    fn say(&mut self, k: Kind) {
        self.codes.push(code_of(k))
    }
    fn line(&mut self, parts: &[&[u8]]) {
        self.longest = self.longest.max(parts.iter().map(|p| p.len()).sum());
        for p in parts {
            self.wire.extend_from_slice(p);
        }
        self.wire.extend_from_slice(b"\r\n");
    }
    fn op(&mut self, op: Op) {
        match op {
            Op::Noop(t) => {
                self.line(&[b"NOOP ", &t]);
                self.say(Kind::Unimplemented);
            }
            Op::Bad(t) => {
                self.line(&[b"XBAD", &t]);
                self.say(Kind::Unrecognized);
            }
            Op::Mail(a) => {
                self.line(&[b"MAIL FROM:<", &a, b">"]);
                if self.meta.is_some() {
                    self.say(Kind::AlreadyInMail);
                    return;
                }
                self.told.calls.push((0, a.clone(), 0));
                if a.starts_with(b"r") {
                    self.codes.push(550);
                } else {
                    self.say(Kind::MailOkay);
                    self.meta = Some((a, vec![]));
                }
            }
            Op::Rcpt(a) => {
                self.line(&[b"RCPT TO:<", &a, b">"]);
                let Some((_, to)) = &mut self.meta else {
                    self.say(Kind::RcptBeforeMail);
                    return;
                };
                self.told.calls.push((1, a.clone(), to.len()));
                if a.starts_with(b"r") {
                    self.codes.push(550);
                } else {
                    to.push(a);
                    self.say(Kind::RcptOkay);
                }
            }
            Op::Data(text) => {
                self.line(&[b"DATA"]);
                match self.meta.take() {
                    None => self.say(Kind::DataBeforeMail),
                    Some((f, to)) if to.is_empty() => {
                        self.meta = Some((f, to));
                        self.say(Kind::DataBeforeRcpt);
                    }
                    Some((f, to)) => {
                        self.told.calls.push((2, f.clone(), to.len()));
                        self.say(Kind::DataOkay);
                        self.wire.extend(refp::encode(&text));
                        let (t, _) = refp::decode(&refp::encode(&text));
                        self.told.mails.push((f, to, t, true));
                        self.say(Kind::MailAccepted);
                    }
                }
            }
        }
    }
}

const COUNTS: [usize; 5] = [255, 256, 257, 4096, 70_000];
const RCPTS: [usize; 8] = [255, 256, 257, 1000, 4097, 65_535, 65_536, 65_537];
const SIZES: [usize; 14] = [500, 512, 998, 1000, 1001, 1024, 2048, 4096, 4097, 8192, 65_535, 65_536, 65_537, 270_000];
const TEXTS: usize = 20;

/// All the talks: many commands, many recipients, many mails, long lines, long messages
fn talks() -> usize {
    2 * COUNTS.len() + 2 * RCPTS.len() + COUNTS.len() + SIZES.len() + TEXTS
}

fn talk(mut k: usize) -> (String, Talk) {
    let mut t = Talk::new();
    let small = b"x\r\n.y\r\n".to_vec();
    if k < 2 * COUNTS.len() {
        let n = COUNTS[k / 2];
        t.op(Op::Mail(b"a@b".to_vec()));
        if k % 2 == 1 {
            t.op(Op::Rcpt(b"first@b".to_vec()));
        }
        for i in 0..n {
            t.op(match i % 5 {
                0 => Op::Noop(format!("{}", i).into_bytes()),
                1 => Op::Bad(format!("{}", i).into_bytes()),
                2 => Op::Mail(b"other@b".to_vec()),
                3 if k % 2 == 0 => Op::Data(vec![]),
                3 => Op::Bad(b"".to_vec()),
                _ => Op::Rcpt(b"refused@b".to_vec()),
            });
        }
        t.op(Op::Rcpt(b"c@d".to_vec()));
        t.op(Op::Data(small.clone()));
        t.op(Op::Rcpt(b"c@d".to_vec()));
        return (format!("{} commands within a mail", n), t);
    }
    k -= 2 * COUNTS.len();
    if k < 2 * RCPTS.len() {
        let n = RCPTS[k / 2];
        t.op(Op::Mail(b"a@b".to_vec()));
        for i in 0..n {
            if k % 2 == 1 {
                t.op(Op::Rcpt(b"refused@b".to_vec()));
            } else {
                t.op(Op::Rcpt(format!("u{}@b", i / 2).into_bytes()));
            }
        }
        if k % 2 == 1 {
            t.op(Op::Data(vec![]));
            t.op(Op::Rcpt(b"c@d".to_vec()));
        }
        t.op(Op::Data(small.clone()));
        t.op(Op::Mail(b"a@b".to_vec()));
        t.op(Op::Data(small));
        return (format!("{} recipients, {}", n, if k % 2 == 1 { "refused" } else { "accepted" }), t);
    }
    k -= 2 * RCPTS.len();
    if k < COUNTS.len() {
        let n = COUNTS[k];
        for i in 0..n {
            t.op(Op::Mail(if i % 7 == 3 { b"refused@b".to_vec() } else { format!("m{}@b", i).into_bytes() }));
            t.op(Op::Rcpt(format!("u{}@b", i).into_bytes()));
            t.op(Op::Data(format!("{}\r\n", i).into_bytes()));
        }
        return (format!("{} mails", n), t);
    }
    k -= COUNTS.len();
    if k < SIZES.len() {
        // lines of about that length: text, junk
        let n = SIZES[k];
        for d in [0, 7, 8, 9] {
            t.op(Op::Noop(vec![b'n'; n - d]));
            t.op(Op::Bad(vec![b'\r'; n - d]));
        }
        t.op(Op::Mail(b"a@b".to_vec()));
        t.op(Op::Rcpt(b"c@d".to_vec()));
        t.op(Op::Data(vec![b'l'; n]));
        t.op(Op::Noop(b"".to_vec()));
        return (format!("lines of {} bytes", n), t);
    }
    k -= SIZES.len();
    t.op(Op::Mail(b"a@b".to_vec()));
    t.op(Op::Rcpt(b"c@d".to_vec()));
    t.op(Op::Data(text(k)));
    t.op(Op::Noop(b"after".to_vec()));
    t.op(Op::Mail(b"a@b".to_vec()));
    t.op(Op::Rcpt(b"c@d".to_vec()));
    t.op(Op::Data(vec![]));
    (format!("text {}", k), t)
}

/// Long message texts
fn text(k: usize) -> Vec<u8> {
    match k {
        0 => b".a\r\n".repeat(70_000),
        1 => vec![b'x'; 300_000],
        2 => b"\r\n".repeat(140_000),
        3 => b".\r\n".repeat(70_000),
        4 => vec![b'\r'; 70_000],
        5 => vec![b'\n'; 70_000],
        6 => b"\r\n.\r.\n.".repeat(20_000),
        7 => vec![b'.'; 140_000],
        8 | 9 => {
            let mut r = Rng::new(k as u64);
            (0..200_000).map(|_| b"\r\n.x"[r.below(4)]).collect()
        }
        // a packet that ends at or near the end of the message, with the terminator in or behind it
        _ => {
            let mut t = vec![b'y'; 65_536 * (1 + k % 2) - (k - 10) / 2 - 2];
            t.extend_from_slice(b"\r\n");
            t
        }
    }
}

/// Ways to cut n bytes into packets
const WAYS: usize = 20;

fn cuts(n: usize, way: usize, least: usize) -> Vec<usize> {
    let step = match way {
        0 => n,
        1 => 65_536,
        2 => 65_535,
        3 => 65_537,
        4 => 131_072,
        5 => 4096,
        6 => 4097,
        7 => 256,
        8 => 255,
        9 => 257,
        10 => 3,
        11 => 1,
        // near the end
        _ => {
            let k = way - 11;
            return if n > k { vec![n - k, k] } else { vec![n] };
        }
    };
    let step = step.max(least).max(1);
    let mut v = vec![step; n / step];
    if n % step > 0 {
        v.push(n % step);
    }
    v
}

fn chunks(wire: &[u8], way: usize, least: usize) -> Vec<Chunk> {
    let mut at = 0;
    cuts(wire.len(), way, least)
        .into_iter()
        .map(|n| {
            at += n;
            Chunk { data: wire[at - n..at].to_vec(), repr: Repr::Plain, gate: 0 }
        })
        .collect()
}

struct Done {
    codes: Vec<u16>,
    told: Told,
    world: World,
    end: String,
    ok: bool,
}

fn play(t: &Talk, wire: &[u8], way: usize, o: &mut Obs) -> Done {
    // a line is searched from its start with each packet
    let least = t.longest / 64;
    let ch = chunks(wire, way, least);
    o.max("packets", ch.len() as u64);
    o.max("bytes", wire.len() as u64);
    o.max("commands", t.codes.len() as u64);
    let world = World::new(ch, 0, vec![]);
    let told = Arc::new(Mutex::new(Told::default()));
    let r: BoxReader = Box::pin(world.reader());
    let w: BoxWriter = Box::pin(world.sink());
    let s = session_custom(r, w, User { id: 1, trail: vec![] }, Custom(Box::new(Tell(told.clone()))));
    let (end, _) = drive(&world, s, 1, None);
    let codes = world.lock().replies().iter().map(|r| r.code).collect();
    let told = std::mem::take(&mut *told.lock().unwrap());
    Done { codes, told, world, ok: matches!(end, End::Done(Ok(()))), end: format!("{:?}", end) }
}

fn differ<T: PartialEq>(got: &[T], want: &[T]) -> Option<usize> {
    if got == want {
        return None;
    }
    Some((0..).find(|i| got.get(*i) != want.get(*i)).unwrap())
}

pub const REPLIES: u32 = 1;
pub const CALLS: u32 = 2;
pub const ENVELOPES: u32 = 4;
pub const TEXT: u32 = 8;
pub const ENDS: u32 = 16;

fn judge(name: &str, want: (&[u16], &Told), d: &Done, aspects: u32) -> R {
    if aspects & ENDS != 0 && !d.ok {
        return violation(format!("{}: the session does not end well: {}", name, d.end));
    }
    if aspects & REPLIES != 0 {
        if let Some(i) = differ(&d.codes, want.0) {
            return violation(format!("{}: reply {} has code {:?}, expected {:?} ({} replies, expected {})", name, i, d.codes.get(i), want.0.get(i), d.codes.len(), want.0.len()));
        }
    }
    if aspects & CALLS != 0 {
        if let Some(i) = differ(&d.told.calls, &want.1.calls) {
            return violation(format!("{}: policy call {} is {:?}, expected {:?}", name, i, d.told.calls.get(i), want.1.calls.get(i)));
        }
    }
    if aspects & (ENVELOPES | TEXT) != 0 {
        for i in 0..want.1.mails.len().max(d.told.mails.len()) {
            let (Some(g), Some(e)) = (d.told.mails.get(i), want.1.mails.get(i)) else {
                return violation(format!("{}: {} messages were handed over, expected {}", name, d.told.mails.len(), want.1.mails.len()));
            };
            if aspects & ENVELOPES != 0 && (g.0 != e.0 || g.1 != e.1) {
                let k = differ(&g.1, &e.1);
                return violation(format!("{}: the envelope of message {} has {} recipients, expected {}; the first that differs is {:?}", name, i, g.1.len(), e.1.len(), k));
            }
            if aspects & TEXT != 0 && (g.2 != e.2 || g.3 != e.3) {
                let k = differ(&g.2, &e.2);
                return violation(format!(
                    "{}: message {} arrives with {} bytes, complete {}, expected {} and {}; the first byte that differs is {:?}",
                    name,
                    i,
                    g.2.len(),
                    g.3,
                    e.2.len(),
                    e.3,
                    k
                ));
            }
        }
    }
    if let Some(p) = &d.world.lock().protocol {
        if aspects & REPLIES != 0 {
            return violation(format!("{}: {}", name, p));
        }
    }
    Ok(())
}

/// Pairs of a talk and a way to cut it: every way for long texts and lines, three for the rest
fn pairs() -> Vec<(usize, usize)> {
    let many = 2 * COUNTS.len() + 2 * RCPTS.len() + COUNTS.len();
    let mut v = vec![];
    for k in 0..talks() {
        for w in 0..WAYS {
            if k >= many || [0, 5, 7].contains(&w) {
                v.push((k, w));
            }
        }
    }
    v
}

pub fn total(_: bool) -> u64 {
    pairs().len() as u64
}

fn nth(i: u64, o: &mut Obs) -> Option<(String, usize, Talk)> {
    let &(k, way) = pairs().get(i as usize)?;
    let (name, t) = talk(k);
    o.nontrivial = true;
    o.sig = mix(mix(o.sig, k as u64), way as u64);
    o.add("large_talks", 1);
    Some((format!("{}, cut in way {}", name, way), way, t))
}

fn describe(name: &str, t: &Talk, d: &Done, o: &mut Obs) {
    if o.describe {
        o.desc = format!("{}: {} bytes; {} replies, {} policy calls, {} messages", name, t.wire.len(), d.codes.len(), d.told.calls.len(), d.told.mails.len());
    }
}

pub fn case(i: u64, o: &mut Obs, aspects: u32) -> R {
    let Some((name, way, t)) = nth(i, o) else { return Ok(()) };
    let d = play(&t, &t.wire, way, o);
    describe(&name, &t, &d, o);
    judge(&name, (&t.codes, &t.told), &d, aspects)
}

/// The same in one packet
pub fn same(i: u64, o: &mut Obs) -> R {
    let Some((name, way, t)) = nth(i, o) else { return Ok(()) };
    if way == 0 {
        o.nontrivial = false;
        return Ok(());
    }
    let a = play(&t, &t.wire, 0, o);
    let d = play(&t, &t.wire, way, o);
    describe(&name, &t, &d, o);
    if a.end != d.end {
        return violation(format!("{}: ends {}, in one packet {}", name, d.end, a.end));
    }
    judge(&name, (&a.codes, &a.told), &d, REPLIES | CALLS | ENVELOPES | TEXT)
}

/// A message cut off late: within the last bytes of a long talk
pub fn cut_total(_: bool) -> u64 {
    (TEXTS * 6) as u64
}

pub fn cut_case(i: u64, o: &mut Obs) -> R {
    let k = i as usize % TEXTS;
    let off = 1 + i as usize / TEXTS;
    let mut t = Talk::new();
    t.op(Op::Mail(b"a@b".to_vec()));
    t.op(Op::Rcpt(b"c@d".to_vec()));
    t.op(Op::Data(text(k)));
    let wire = &t.wire[..t.wire.len() - off];
    o.nontrivial = true;
    o.sig = mix(mix(o.sig, k as u64), off as u64);
    o.add("large_cut_messages", 1);
    let whole = t.told.mails[0].2.clone();
    for way in [0, 1, 3, 7] {
        let d = play(&t, wire, way, o);
        match d.told.mails.as_slice() {
            [m] if !m.3 && whole.starts_with(&m.2) => (),
            [m] if m.3 => return violation(format!("text {} without its last {} bytes is reported complete", k, off)),
            [m] => return violation(format!("text {} without its last {} bytes: {} bytes arrive, not what was sent", k, off, m.2.len())),
            _ => return violation(format!("text {} without its last {} bytes: {} messages", k, off, d.told.mails.len())),
        }
        if d.world.lock().polled_after_end > 0 {
            return violation(format!("text {} without its last {} bytes: the input is polled after its end", k, off));
        }
    }
    Ok(())
}

// ---- the decoder and encoder alone

pub fn msg_total(_: bool) -> u64 {
    (TEXTS * WAYS) as u64
}

fn brief(e: Fail, k: usize, way: usize) -> Fail {
    match e {
        Fail::Violation(m) => Fail::Violation(format!("long text {} cut in way {}: {}", k, way, m.chars().take(700).collect::<String>())),
        e => e,
    }
}

fn noted(i: u64, o: &mut Obs) -> (usize, usize) {
    o.nontrivial = true;
    let (k, way) = (i as usize % TEXTS, i as usize / TEXTS);
    o.sig = mix(mix(o.sig, k as u64), way as u64);
    o.add("long_texts", 1);
    if o.describe {
        o.desc = format!("long text {} ({:?}...), cut in way {}", k, show(&text(k)[..20]), way);
    }
    (k, way)
}

pub fn m01(i: u64, o: &mut Obs) -> R {
    let (k, way) = noted(i, o);
    let wire = refp::encode(&text(k));
    o.max("long_text_packets", cuts(wire.len(), way, 1).len() as u64);
    msg::m01_check(&wire, chunks(&wire, way, 1)).map_err(|e| brief(e, k, way))
}

pub fn m02(i: u64, o: &mut Obs) -> R {
    let (k, way) = noted(i, o);
    let t = text(k);
    let items: Vec<Vec<u8>> = chunks(&t, way, 1).into_iter().map(|c| c.data).collect();
    o.max("long_text_pieces", items.len() as u64);
    msg::m02_check(&items, vec![], 1, (i % 3) as u8, o).map_err(|e| brief(e, k, way))
}

pub fn m03(i: u64, o: &mut Obs) -> R {
    let (k, way) = noted(i, o);
    let mut wire = refp::encode(&text(k));
    wire.extend_from_slice(b"QUIT\r\n");
    wire.extend(vec![b'z'; [0, 1, 70_000][k % 3]]);
    msg::m03_check(&wire, chunks(&wire, way, 1), vec![], 1, 1, o).map_err(|e| brief(e, k, way))
}

// ---- long commands, addresses, strings

const LENGTHS: &[usize] = &[
    127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 65_538, 70_000,
    131_072, 262_145,
];

const ADDRESSES: usize = 9;

/// An address about n bytes long
fn long_address(kind: usize, n: usize) -> Vec<u8> {
    let mut v = vec![];
    let digit = |i: usize| b"abcdefghijklmnopqrstuvwxyz0123456789"[(i * 7 + i / 36) % 36];
    match kind {
        0 => {
            v.extend((0..n).map(digit));
            v.extend_from_slice(b"@b.example");
        }
        1 => {
            v.extend((0..n).map(|i| if i % 2 == 1 && i + 1 < n { b'.' } else { digit(i) }));
            v.extend_from_slice(b"@b.example");
        }
        2 => {
            v.push(b'"');
            v.extend((0..n).map(digit));
            v.extend_from_slice(b"\"@b.example");
        }
        3 => {
            v.push(b'"');
            (0..n / 2).for_each(|i| v.extend_from_slice(&[b'\\', digit(i)]));
            v.extend_from_slice(b"\"@b.example");
        }
        4 => {
            v.push(b'"');
            v.extend(b"\\\"".repeat(n / 2));
            v.extend_from_slice(b"\"@b.example");
        }
        5 => {
            v.extend_from_slice(b"a@");
            v.extend((0..n).map(digit));
        }
        6 => {
            v.extend_from_slice(b"a@");
            v.extend((0..n).map(|i| if i % 2 == 1 && i + 1 < n { b'.' } else { digit(i) }));
        }
        7 => {
            v.extend_from_slice(b"a@b");
            v.extend(b"-".repeat(n));
            v.push(b'c');
        }
        _ => v.extend((0..n).map(digit)),
    }
    v
}

const LINES: usize = 3 * ADDRESSES + 10;

/// A command about n bytes long
fn long_line(kind: usize, n: usize) -> Vec<u8> {
    let mut v = vec![];
    let put = |v: &mut Vec<u8>, p: &[u8]| v.extend_from_slice(p);
    let a = kind % ADDRESSES;
    match kind / ADDRESSES {
        0 => {
            put(&mut v, b"MAIL FROM:<");
            put(&mut v, &long_address(a, n));
            put(&mut v, b"> SIZE=1");
        }
        1 => {
            put(&mut v, b"RCPT TO:<");
            put(&mut v, &long_address(a, n));
            put(&mut v, b">");
        }
        2 if a == 5 || a == 6 || a == 7 => {
            put(&mut v, b"EHLO ");
            put(&mut v, &long_address(a, n)[2..]);
        }
        2 => {
            // a source route, to be left out
            put(&mut v, b"MAIL FROM:<");
            for i in 0..n / 9 {
                put(&mut v, format!("@h{}.ex,", i).as_bytes());
            }
            v.pop();
            v.push(b':');
            put(&mut v, &long_address(a, 300));
            put(&mut v, b">");
        }
        _ => match kind - 3 * ADDRESSES {
            0 => {
                put(&mut v, b"MAIL FROM:<a@b>");
                for i in 0..n / 8 {
                    put(&mut v, format!(" K{}=v{}", i, i).as_bytes());
                }
            }
            1 => {
                put(&mut v, b"MAIL FROM:<a@b> KEY=");
                v.extend(b"v".repeat(n));
            }
            2 => {
                put(&mut v, b"RCPT TO:<a@b> ");
                v.extend(b"K".repeat(n));
                put(&mut v, b" LAST=1");
            }
            3 => {
                put(&mut v, b"NOOP ");
                v.extend(b"text ".repeat(n / 5));
                v.push(b'.');
            }
            4 => {
                put(&mut v, b"VRFY ");
                v.extend(b"v".repeat(n));
            }
            5 => {
                put(&mut v, b"EXPN ");
                v.extend(b"e".repeat(n));
            }
            6 => {
                put(&mut v, b"HELP ");
                v.extend(b"h".repeat(n));
            }
            7 => v.extend(b"X".repeat(n)),
            8 => {
                put(&mut v, b"DATA ");
                v.extend(b"d".repeat(n));
            }
            _ => {
                put(&mut v, b"QUIT");
                v.extend(b"\0".repeat(n));
            }
        },
    }
    v.extend_from_slice(b"\r\n");
    v
}

fn long(i: u64, kinds: usize, o: &mut Obs) -> (usize, usize) {
    let (kind, n) = (i as usize % kinds, LENGTHS[i as usize / kinds]);
    o.nontrivial = true;
    o.sig = mix(mix(o.sig, kind as u64), n as u64);
    o.add("long_inputs", 1);
    o.max("long_input_bytes", n as u64);
    if o.describe {
        o.desc = format!("long input of sort {} and about {} bytes", kind, n);
    }
    (kind, n)
}

fn shorter<T>(r: Result<T, Fail>, kind: usize, n: usize) -> Result<T, Fail> {
    r.map_err(|e| match e {
        Fail::Violation(m) => Fail::Violation(format!("long input of sort {} and about {} bytes: {}", kind, n, m.chars().take(700).collect::<String>())),
        e => e,
    })
}

pub fn line_total() -> u64 {
    (LINES * LENGTHS.len()) as u64
}

pub fn lines(_: bool) -> u64 {
    line_total()
}

pub fn m04(i: u64, o: &mut Obs) -> R {
    let (kind, n) = long(i, LINES, o);
    let l = long_line(kind, n);
    shorter(msg::m04_check(&l, bytes::Bytes::from(&l[..]), o), kind, n)
}

pub fn m05(i: u64, o: &mut Obs) -> R {
    let (kind, n) = long(i, LINES, o);
    shorter(msg::m05_line(&long_line(kind, n), o), kind, n)
}

pub fn m08(i: u64, o: &mut Obs) -> R {
    let (kind, n) = long(i, LINES, o);
    let l = long_line(kind, n);
    msg::m08_check(&bytes::Bytes::from(&l[..]), &l, o);
    let l = &l[..l.len() - 3];
    msg::m08_check(&bytes::Bytes::from(l), l, o);
    let l = long_address(kind % ADDRESSES, n);
    msg::m08_check(&bytes::Bytes::from(&l[..]), &l, o);
    Ok(())
}

pub fn address_total() -> u64 {
    (ADDRESSES * LENGTHS.len()) as u64
}

pub fn m06(i: u64, o: &mut Obs) -> R {
    let (kind, n) = long(i, ADDRESSES, o);
    shorter(msg::m06_check(&long_address(kind, n), o), kind, n)
}

pub fn m11(i: u64, o: &mut Obs) -> R {
    let (kind, n) = long(i, LINES, o);
    let l = long_line(kind, n);
    let text = SmtpString::from(&l[..]);
    let cmd = Command::parse(bytes::Bytes::from(&l[..])).ok();
    for c in [None, Some(cmd)] {
        let w = |w: &mut dyn std::io::Write| match &c {
            None => text.send_to(w),
            Some(Some(c)) => c.send_to(w),
            Some(None) => Ok(()),
        };
        let mut whole = vec![];
        let _ = w(&mut whole);
        let len = whole.len();
        if len == 0 {
            continue;
        }
        for limits in [&[3usize, 0, 1][..], &[255, 256, 257], &[65_535], &[65_536], &[1 << 20]] {
            for fail in [None, Some(len - 1), Some(len / 2), Some(len.saturating_sub(65_536)), Some(len.min(256))] {
                shorter(msg::m11_check(&w, &whole, limits, fail, std::io::ErrorKind::BrokenPipe, o), kind, n)?;
            }
        }
    }
    Ok(())
}

const STRINGS: usize = 3;

pub fn string_total(_: bool) -> u64 {
    (STRINGS * LENGTHS.len()) as u64
}

/// Strings joined and cut, views taken of views
pub fn m09(i: u64, o: &mut Obs) -> R {
    let (kind, n) = long(i, STRINGS, o);
    shorter(strings(kind, n, o), kind, n)
}

fn strings(kind: usize, n: usize, o: &mut Obs) -> R {
    let data = |n: usize, s: usize| -> Vec<u8> { (0..n).map(|i| ((i * 7 + i / 251 + s) % 253) as u8).collect() };
    let d = data(n, 0);
    match kind {
        0 => {
            for &m in LENGTHS {
                let e = data(m, 99);
                let t = SmtpString::from(&d[..]) + SmtpString::from(&e[..]);
                o.add("joins", 1);
                if t.byte_len() != n + m || t.bytes()[..n] != d[..] || t.bytes()[n..] != e[..] {
                    return violation(format!("{} and {} bytes joined are {} bytes, the first that differs {:?}", n, m, t.byte_len(), t.iter_bytes().zip(d.iter().chain(&e)).position(|(a, b)| a != b)));
                }
                let w = wire_of(&t);
                if w != t.bytes()[..] || SmtpString::from(w) != t {
                    return violation(format!("a string of {} bytes is not written as it is", n + m));
                }
                if (m == n) != (SmtpString::from(&data(m, 0)[..]) == SmtpString::from(&d[..])) {
                    return violation(format!("equality of strings of {} and {} bytes is wrong", n, m));
                }
            }
            // one made of many
            let mut t = SmtpString::from(&b""[..]);
            for b in d.chunks(1 + n / 300) {
                t = t + SmtpString::from(b);
            }
            if t.bytes()[..] != d[..] {
                return violation(format!("{} bytes joined from pieces are wrong", n));
            }
        }
        1 => {
            let t = SmtpString::from(&d[..]);
            for &c in LENGTHS.iter().chain(&[1, 2, 3, 506, 507, 508, n - 1, n, n + 1, 1 << 32, usize::max_value()]) {
                o.add("chunkings", 1);
                let mut at = 0;
                for p in t.byte_chunks(c) {
                    let k = c.min(n - at);
                    if p.byte_len() != k || k == 0 || p.bytes()[..] != d[at..at + k] {
                        return violation(format!("{} bytes cut into pieces of {}: the one at {} has {} bytes", n, c, at, p.byte_len()));
                    }
                    at += k;
                }
                if at != n {
                    return violation(format!("{} bytes cut into pieces of {}: only {} come", n, c, at));
                }
            }
            for p in LENGTHS.iter().map(|&l| l - 1).filter(|&p| p < n) {
                if t.byte(p) != d[p] {
                    return violation(format!("byte {} of {} is wrong", p, n));
                }
            }
        }
        _ => {
            use nom::{FindSubstring, InputIter, InputLength, Slice};
            let buf = bytes::Bytes::from(&d[..]);
            let v = ByteSlice::from(&buf);
            let ends: Vec<usize> = LENGTHS.iter().flat_map(|&l| [l, n.saturating_sub(l)]).filter(|&l| l <= n).collect();
            for &a in &ends {
                for &b in ends.iter().filter(|&&b| b >= a) {
                    o.add("sub_slices", 1);
                    let x = v.slice(a..b);
                    let y = v.slice(a..).slice(..b - a);
                    let z = v.slice(..b).slice(a..);
                    for w in [&x, &y, &z] {
                        if w.demote() != &d[a..b] || w.len() != b - a || w.input_len() != b - a || w.promote()[..] != d[a..b] {
                            return violation(format!("[{}..{}] of a view of {} bytes is wrong", a, b, n));
                        }
                    }
                    if x != y || x != z || (x == v) != (b - a == n) {
                        return violation(format!("[{}..{}] of a view of {} bytes taken in two ways is not the same", a, b, n));
                    }
                }
                let rest = v.slice(a..);
                if rest.iter_elements().count() != n - a || rest.slice_index(n - a) != Some(n - a) || rest.slice_index(n - a + 1).is_some() {
                    return violation(format!("the size of [{}..] of a view of {} bytes is wrong", a, n));
                }
            }
            // something that is only at the very end
            let mut e = vec![b'x'; n];
            e.extend_from_slice(b"?!");
            let buf = bytes::Bytes::from(e);
            let v = ByteSlice::from(&buf);
            if InputIter::position(&v, |c| c == b'?') != Some(n) || FindSubstring::<&[u8]>::find_substring(&v, &b"?!"[..]) != Some(n) || v.iter_indices().last() != Some((n + 1, b'!')) {
                return violation(format!("what comes after {} bytes is not found there", n));
            }
        }
    }
    Ok(())
}
