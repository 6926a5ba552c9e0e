//! What lasts: sessions and messages of any length in bounded memory.  A counting allocator sees
//! every byte that this thread holds; the sessions here run against a policy, a reader and a writer
//! that record nothing themselves.
use crate::gen;
use crate::refp;
use bytes::{Bytes, BytesMut};
use futures::{Sink, Stream};
use smtp_message::{Email, ReplyCode};
use std::{
    future::ready,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Wake, Waker},
};
use yv_engine::mem::take;
use yv_engine::run::{violation, Fail, Obs};
use yv_engine::src::Src;
use yv_engine::util::{mix, show};
use yv_glue::*;

pub type R = Result<(), Fail>;

struct Nothing;
impl Wake for Nothing {
    fn wake(self: Arc<Self>) {}
}

/// Packets given out again and again
struct Again {
    packets: Arc<Vec<Vec<u8>>>,
    /// how a packet is made: 0 of its own, 1 cut from a bigger buffer
    style: u8,
    at: usize,
    round: usize,
    rounds: usize,
    seen: Arc<Mutex<Vec<(i64, i64, i64)>>>,
}

impl Stream for Again {
    type Item = BytesMut;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<BytesMut>> {
        if self.at == 0 {
            let m = take();
            // (room for all of them was made before)
            self.seen.lock().unwrap().push(m);
            if self.round == self.rounds {
                return Poll::Ready(None);
            }
        }
        let p = &self.packets[self.at];
        let b = match self.style {
            0 => BytesMut::from(&p[..]),
            _ => {
                let mut b = BytesMut::with_capacity(p.len() + 64);
                b.extend_from_slice(b"0123456789");
                b.extend_from_slice(p);
                b.split_off(10)
            }
        };
        self.at += 1;
        if self.at == self.packets.len() {
            self.at = 0;
            self.round += 1;
        }
        Poll::Ready(Some(b))
    }
}

/// Takes everything, keeps nothing but the sum
struct Void {
    bytes: Arc<Mutex<u64>>,
}

impl Sink<Bytes> for Void {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, b: Bytes) -> Result<(), ()> {
        *self.bytes.lock().unwrap() += b.len() as u64;
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
}

#[derive(Default)]
struct Tally {
    calls: u64,
    mails: u64,
    text: u64,
}

/// Decides by the address alone: a local part that starts with r is refused
struct Light {
    tally: Arc<Mutex<Tally>>,
    refuse_mails: bool,
    reply: Vec<u8>,
}

fn refusal() -> Decision {
    Decision::Reject(Refusal { code: ReplyCode::POLICY_REASON, msg: "refused".into() })
}

impl Light {
    fn by(&self, e: Option<&Email>) -> Decision {
        self.tally.lock().unwrap().calls += 1;
        match e {
            Some(e) if e.localpart().bytes().starts_with(b"r") => refusal(),
            _ => Decision::Accept,
        }
    }
}

impl Policy for Light {
    fn new_mail<'a>(&'a mut self) -> SBox<'a, ()> {
        Box::pin(ready(()))
    }
    fn filter_from<'a>(&'a mut self, from: &'a mut Option<Email>, _: &'a mut Conn) -> SBox<'a, Decision> {
        Box::pin(ready(self.by(from.as_ref())))
    }
    fn filter_to<'a>(&'a mut self, to: &'a mut Email, _: &'a mut MailMetadata, _: &'a mut Conn) -> SBox<'a, Decision> {
        Box::pin(ready(self.by(Some(to))))
    }
    fn filter_data<'a>(&'a mut self, _: &'a mut MailMetadata, _: &'a mut Conn) -> SBox<'a, Decision> {
        self.tally.lock().unwrap().calls += 1;
        Box::pin(ready(Decision::Accept))
    }
    fn handle_mail<'a>(&'a mut self, mut body: Box<dyn Body + 'a>, _: MailMetadata, _: &'a mut Conn) -> LBox<'a, Decision> {
        Box::pin(async move {
            loop {
                match futures::future::poll_fn(|cx: &mut Context<'_>| body.poll(cx)).await {
                    Some(b) => self.tally.lock().unwrap().text += b.len() as u64,
                    None => break,
                }
            }
            let ok = body.complete().is_ok();
            self.tally.lock().unwrap().mails += 1;
            if ok && !self.refuse_mails {
                Decision::Accept
            } else {
                refusal()
            }
        })
    }
    fn hostname(&self) -> Vec<u8> {
        b"h.example".to_vec()
    }
    fn reply(&self, _: Kind) -> (u16, Vec<u8>) {
        (250, self.reply.clone())
    }
}

struct Long {
    /// at the start of each round, and at the end: held, most held during the round before, allocated in it
    rounds: Vec<(i64, i64, i64)>,
    tally: Tally,
    out: u64,
}

fn long(packets: Vec<Vec<u8>>, rounds: usize, style: u8, custom: Option<Vec<u8>>, refuse_mails: bool) -> Result<Long, Fail> {
    let seen = Arc::new(Mutex::new(Vec::with_capacity(rounds + 2)));
    let out = Arc::new(Mutex::new(0));
    let tally = Arc::new(Mutex::new(Tally::default()));
    let r: BoxReader = Box::pin(Again { packets: Arc::new(packets), style, at: 0, round: 0, rounds, seen: seen.clone() });
    let w: BoxWriter = Box::pin(Void { bytes: out.clone() });
    let u = User { id: 1, trail: vec![] };
    let p = Box::new(Light { tally: tally.clone(), refuse_mails, reply: custom.clone().unwrap_or_default() });
    let mut f = match custom {
        Some(_) => session_custom(r, w, u, Custom(p)),
        None => session_plain(r, w, u, Plain(p)),
    };
    let waker = Waker::from(Arc::new(Nothing));
    let mut cx = Context::from_waker(&waker);
    // everything is always ready
    for _ in 0..3 {
        if let Poll::Ready(e) = f.as_mut().poll(&mut cx) {
            drop(f);
            if e.is_err() {
                return violation("a session failed although nothing it uses did");
            }
            let rounds = std::mem::take(&mut *seen.lock().unwrap());
            let tally = std::mem::take(&mut *tally.lock().unwrap());
            let out = *out.lock().unwrap();
            return Ok(Long { rounds, tally, out });
        }
    }
    violation("a session waits although everything it uses is ready")
}

fn an_addr(s: &mut Src) -> Vec<u8> {
    let n = 1 + s.below(12);
    let mut a = s.from_alphabet(n, b"rabcxyz");
    a.extend_from_slice(s.pick(&[&b"@example.org"[..], b"@h", b"", b"@[127.0.0.1]"]));
    a
}

fn a_mail(s: &mut Src, v: &mut Vec<u8>, sure: bool) {
    for _ in 0..if sure { 1 } else { s.below(3) } {
        v.extend_from_slice(b"MAIL FROM:<");
        if !sure {
            v.extend(an_addr(s));
        }
        v.extend_from_slice(b">\r\n");
    }
    for _ in 0..if s.chance(1, 8) { s.below(60) } else { s.below(4) } {
        v.extend_from_slice(b"RCPT TO:<");
        v.extend(an_addr(s));
        v.extend_from_slice(b">\r\n");
    }
    if sure {
        v.extend_from_slice(b"RCPT TO:<a@h>\r\n");
    }
    if sure || s.chance(3, 4) {
        // (an unsure one may be refused, and its text be taken for commands, which is fine here)
        v.extend_from_slice(b"DATA\r\n");
        let mut m = gen::message(s);
        m.truncate(1500);
        v.extend(refp::encode(&m));
    }
}

/// One round of a session, after which there is no mail open
fn a_round(s: &mut Src) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..s.below(6) {
        match s.below(4) {
            0 => v.extend(gen::valid_line(s)),
            1 => {
                let l = gen::junk_line(s);
                v.extend(l);
                v.extend_from_slice(b"\r\n");
            }
            _ => a_mail(s, &mut v, false),
        }
    }
    // whatever was begun is ended by this: a message, a line, a mail
    v.extend_from_slice(b"\r\n.\r\n");
    a_mail(s, &mut v, true);
    v
}

fn cut(s: &mut Src, v: &[u8]) -> Vec<Vec<u8>> {
    let most = match s.below(4) {
        0 => 1 + s.below(4),
        1 => v.len(),
        _ => 1 + s.below(200),
    };
    let mut r = vec![];
    let mut at = 0;
    while at < v.len() {
        let n = (1 + s.below(most)).min(v.len() - at);
        r.push(v[at..at + n].to_vec());
        at += n;
    }
    r
}

/// Fewer packets, and none that is long compared to what may be held
fn coarse(s: &mut Src, v: &[u8]) -> Vec<Vec<u8>> {
    let least = if s.chance(1, 8) { 1 } else { 30 };
    let most = least + s.below(400);
    let mut r = vec![];
    let mut at = 0;
    while at < v.len() {
        let n = (least + s.below(most - least + 1)).min(v.len() - at);
        r.push(v[at..at + n].to_vec());
        at += n;
    }
    r
}

// S15
pub fn s15(s: &mut Src, o: &mut Obs) -> R {
    let v = a_round(s);
    let packets = cut(s, &v);
    let longest = packets.iter().map(|p| p.len()).max().unwrap_or(0);
    let style = s.below(2) as u8;
    let rounds = match s.below(8) {
        0 if s.scale >= 2 => 400,
        0 => 120,
        _ => 40,
    };
    let custom = if s.chance(1, 2) { Some(gen::reply_text(s, 600)) } else { None };
    let refuse = s.chance(1, 3);
    if o.describe {
        o.desc = format!("{} rounds of {:?}, in packets of up to {} bytes (made in way {})", rounds, show(&v), longest, style);
    }
    o.sign(&v);
    o.sig = mix(o.sig, packets.len() as u64);
    let l = long(packets, rounds, style, custom, refuse)?;
    o.add("rounds", rounds as u64);
    o.add("mails_handled", l.tally.mails);
    o.add("policy_calls", l.tally.calls);
    o.add("reply_bytes", l.out);
    if l.rounds.len() != rounds + 1 {
        return violation(format!("the input was read {} times to its end instead of {}", l.rounds.len() as i64 - 1, rounds));
    }
    if l.tally.mails < rounds as u64 {
        return violation(format!("of {} rounds with a mail each, only {} were handled", rounds, l.tally.mails));
    }
    o.nontrivial = l.tally.mails > rounds as u64 || l.tally.calls > 4 * rounds as u64;
    let (a, b) = (4, rounds / 3);
    let held = |r: &[(i64, i64, i64)]| r.iter().map(|x| x.0).max().unwrap();
    let most = |r: &[(i64, i64, i64)]| r.iter().map(|x| x.1).max().unwrap();
    let work = |r: &[(i64, i64, i64)]| r.iter().map(|x| x.2).sum::<i64>() / r.len() as i64;
    let (early, late) = (&l.rounds[a..b], &l.rounds[b..]);
    o.max("bytes_held_between_rounds", (held(late) - l.rounds[0].0).max(0) as u64);
    if held(late) > held(early) + 256 {
        return violation(format!(
            "the session holds {} bytes more after {} equal rounds than after {}",
            held(late) - held(early),
            rounds,
            b
        ));
    }
    if most(late) > most(early) + 256 + longest as i64 {
        return violation(format!("the session needs {} bytes more in its later rounds than in its first {}, which were the same", most(late) - most(early), b));
    }
    if work(late) > work(early) * 3 / 2 + 1024 {
        return violation(format!("the session allocates {} bytes in each of its later rounds, {} in the first, which were the same", work(late), work(early)));
    }
    Ok(())
}

/// One message much longer than what may be held
fn big_message(s: &mut Src, o: &mut Obs) -> R {
    let line = match s.below(4) {
        0 => b"x".repeat(1 + s.below(3000)),
        1 => b"..line\r\n".to_vec(),
        2 => b"\r\n".to_vec(),
        _ => {
            let n = 1 + s.below(60);
            let mut l = s.from_alphabet(n, b"ab .\r\n");
            // no end of message in it
            l.insert(0, b'a');
            l.push(b'a');
            while let Some(k) = l.windows(5).position(|w| w == b"\r\n.\r\n") {
                l[k + 2] = b'a';
            }
            l
        }
    };
    let rounds = if s.scale >= 2 { 2000 } else { 150 };
    let each = 1 + 2000 / line.len();
    let round = line.repeat(each);
    let packets = coarse(s, &round);
    let longest = packets.iter().map(|p| p.len()).max().unwrap_or(0);
    let n = packets.len();
    let style = s.below(2) as u8;
    if o.describe {
        o.desc = format!("a message of {} times {:?}, in packets of up to {} bytes", rounds * each, show(&line), longest);
    }
    o.sign(&line);
    o.sig = mix(o.sig, n as u64);
    o.nontrivial = true;
    let mut head: Vec<Vec<u8>> = vec![b"MAIL FROM:<>\r\nRCPT TO:<a@h>\r\nDATA\r\n".to_vec()];
    // the first round opens the mail, all the others are inside of it
    let seen = Arc::new(Mutex::new(Vec::with_capacity(rounds + 2)));
    let tally = Arc::new(Mutex::new(Tally::default()));
    let out = Arc::new(Mutex::new(0));
    let again = Again { packets: Arc::new(packets), style, at: 0, round: 0, rounds, seen: seen.clone() };
    let r: BoxReader = Box::pin(Then { head: head.pop(), again });
    let w: BoxWriter = Box::pin(Void { bytes: out.clone() });
    let p = Box::new(Light { tally: tally.clone(), refuse_mails: false, reply: vec![] });
    let mut f = session_plain(r, w, User { id: 1, trail: vec![] }, Plain(p));
    let waker = Waker::from(Arc::new(Nothing));
    let mut cx = Context::from_waker(&waker);
    match f.as_mut().poll(&mut cx) {
        Poll::Ready(Ok(())) => (),
        e => return violation(format!("a session with a long message that never ends: {:?}", e)),
    }
    drop(f);
    let seen = seen.lock().unwrap();
    let got = tally.lock().unwrap().text;
    o.add("long_messages", 1);
    o.add("long_message_bytes", got);
    let base = seen[0].0;
    let most = seen[1..].iter().map(|x| x.1).max().unwrap() - base;
    o.max("most_bytes_held_in_a_long_message", most.max(0) as u64);
    let limit = 32_768 + 8 * longest as i64;
    if most > limit && (got as i64) > 4 * limit {
        return violation(format!("while a message of {} bytes in packets of up to {} passes through, up to {} bytes are held", rounds * round.len(), longest, most));
    }
    Ok(())
}

struct Then {
    head: Option<Vec<u8>>,
    again: Again,
}
impl Stream for Then {
    type Item = BytesMut;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<BytesMut>> {
        match self.head.take() {
            Some(h) => Poll::Ready(Some(BytesMut::from(h))),
            None => Pin::new(&mut self.again).poll_next(cx),
        }
    }
}

// M12

/// What came in so far and what came out
struct Watch {
    came: usize,
    out: Vec<u8>,
    wire: Vec<u8>,
    /// for each number of bytes that came in, how many bytes of the message are certain (none: it
    /// has ended)
    sure: Vec<usize>,
    wrong: Option<String>,
    polls: u64,
}

struct Watched {
    packets: std::vec::IntoIter<Vec<u8>>,
    /// of 4: not ready first
    pend: u32,
    n: u32,
    w: Arc<Mutex<Watch>>,
}

/// What may be held back: what could still turn out to be the end of the message
const SLACK: usize = 4;

/// For each prefix of the wire that has no end of message in it: how many bytes of text are certain
fn certain(wire: &[u8]) -> Vec<usize> {
    let mut v = vec![0];
    let (mut c, mut i, mut bol) = (0, 0, true);
    while i < wire.len() {
        if bol && wire[i] == b'.' {
            v.push(c);
            bol = false;
            if wire[i + 1..].starts_with(b"\r\n") {
                v.push(c);
                return v;
            }
            if wire.get(i + 1) == Some(&b'\r') {
                // one more byte will tell
                v.push(c);
                c += 1;
                i += 1;
            }
        } else {
            c += 1;
            v.push(c);
            bol = wire[i] == b'\n' && i > 0 && wire[i - 1] == b'\r';
        }
        i += 1;
    }
    v
}

fn held_back(w: &Watch) -> Option<String> {
    let sure = *w.sure.get(w.came)?;
    if w.out.len() + SLACK < sure {
        return Some(format!(
            "more input is asked for while {} bytes of the message are held back: of {:?} only {:?} was passed on",
            sure - w.out.len(),
            show(&w.wire[..w.came]),
            show(&w.out)
        ));
    }
    None
}

impl Stream for Watched {
    type Item = BytesMut;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<BytesMut>> {
        let bad = {
            let mut w = self.w.lock().unwrap();
            w.polls += 1;
            held_back(&w)
        };
        if let Some(b) = bad {
            self.w.lock().unwrap().wrong.get_or_insert(b);
        }
        self.n = self.n.wrapping_mul(1_103_515_245).wrapping_add(12345);
        if (self.n >> 16) % 4 < self.pend {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        match self.packets.next() {
            Some(p) => {
                self.w.lock().unwrap().came += p.len();
                Poll::Ready(Some(BytesMut::from(p)))
            }
            None => Poll::Ready(None),
        }
    }
}

fn stream_case(packets: Vec<Vec<u8>>, pend: u32, o: &mut Obs) -> R {
    let wire = packets.concat();
    let w = Arc::new(Mutex::new(Watch { came: 0, out: vec![], sure: certain(&wire), wire, wrong: None, polls: 0 }));
    let n = packets.len();
    let r: BoxReader = Box::pin(Watched { packets: packets.into_iter(), pend, n: n as u32, w: w.clone() });
    let mut pre = Pre::new(r);
    let mut d = pre.decoder();
    let waker = Waker::from(Arc::new(Nothing));
    let mut cx = Context::from_waker(&waker);
    let mut polls = 0u64;
    loop {
        polls += 1;
        if polls > 100_000 + 100 * n as u64 {
            return violation("the decoder never ends");
        }
        match d.poll(&mut cx) {
            Poll::Ready(Some(b)) => {
                let mut g = w.lock().unwrap();
                g.out.extend_from_slice(&b);
            }
            Poll::Ready(None) => break,
            Poll::Pending => (),
        }
    }
    let g = w.lock().unwrap();
    o.add("decoder_runs", 1);
    o.add("packets_asked_for", g.polls);
    match &g.wrong {
        Some(m) => violation(m.clone()),
        None => Ok(()),
    }
}

/// Counts what the encoder passed on
struct Passed {
    out: Arc<Mutex<Vec<u8>>>,
    keep: bool,
    n: Arc<Mutex<u64>>,
}
impl Sink<Bytes> for Passed {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, b: Bytes) -> Result<(), ()> {
        *self.n.lock().unwrap() += b.len() as u64;
        if self.keep {
            self.out.lock().unwrap().extend_from_slice(&b);
        }
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
}

fn now<T>(f: &mut LBox<'_, T>) -> Result<T, Fail> {
    let waker = Waker::from(Arc::new(Nothing));
    let mut cx = Context::from_waker(&waker);
    for _ in 0..3 {
        if let Poll::Ready(t) = f.as_mut().poll(&mut cx) {
            return Ok(t);
        }
    }
    violation("the encoder waits although the writer is ready")
}

/// Without its end, what the encoder would make of a text
fn encoded_sure(b: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(b.len() + 8);
    let mut bol = true;
    for i in 0..b.len() {
        if bol && b[i] == b'.' {
            out.push(b'.');
        }
        out.push(b[i]);
        bol = b[i] == b'\n' && i > 0 && b[i - 1] == b'\r';
    }
    out
}

fn encode_case(items: &[Vec<u8>], o: &mut Obs) -> R {
    let out = Arc::new(Mutex::new(vec![]));
    let n = Arc::new(Mutex::new(0));
    let mut e = Enc::new(Box::pin(Passed { out: out.clone(), keep: true, n: n.clone() }));
    let text = items.concat();
    // how long what is to be passed on is, by how much was given
    let mut want = vec![0];
    let mut bol = true;
    for (k, &c) in text.iter().enumerate() {
        want.push(want[k] + 1 + (bol && c == b'.') as usize);
        bol = c == b'\n' && k > 0 && text[k - 1] == b'\r';
    }
    let mut given = 0;
    for i in items {
        if now(&mut e.send(Bytes::from(&i[..])))?.is_err() {
            return violation("the encoder fails although the writer does not");
        }
        given += i.len();
        let have = out.lock().unwrap();
        if have.len() + SLACK < want[given] {
            return violation(format!("after {:?} was given to the encoder only {:?} was passed on", show(&text[..given]), show(&have)));
        }
        o.add("encoder_steps", 1);
    }
    if now(&mut e.end())?.is_err() {
        return violation("the encoder fails although the writer does not");
    }
    o.add("encoder_runs", 1);
    Ok(())
}

fn bounded(s: &mut Src, o: &mut Obs) -> R {
    let m = loop {
        let m = gen::message(s);
        let mut m = if m.is_empty() { b"x".to_vec() } else { m };
        m.truncate(500);
        // as text, without an end in it
        let mut e = encoded_sure(&m);
        e.push(b'x');
        let (t, end) = refp::decode(&e.repeat(2));
        if end.is_none() && !t.is_empty() {
            break e;
        }
    };
    let each = 1 + 1000 / m.len();
    let round = m.repeat(each);
    let packets = coarse(s, &round);
    let longest = packets.iter().map(|p| p.len()).max().unwrap_or(0);
    let rounds = if s.scale >= 2 { 2000 } else { 150 };
    let limit = 16_384 + 8 * longest as i64;
    o.sign(&round);
    o.nontrivial = true;
    o.add("long_messages", 1);
    if o.describe {
        o.desc = format!("a message of {} times {:?} in packets of up to {} bytes", rounds, show(&round), longest);
    }
    // decoder
    {
        let seen = Arc::new(Mutex::new(Vec::with_capacity(rounds + 2)));
        let r: BoxReader = Box::pin(Again { packets: Arc::new(packets.clone()), style: s.below(2) as u8, at: 0, round: 0, rounds, seen: seen.clone() });
        let mut pre = Pre::new(r);
        let mut d = pre.decoder();
        let waker = Waker::from(Arc::new(Nothing));
        let mut cx = Context::from_waker(&waker);
        let mut got = 0;
        loop {
            match d.poll(&mut cx) {
                Poll::Ready(Some(b)) => got += b.len() as i64,
                Poll::Ready(None) => break,
                Poll::Pending => return violation("the decoder waits although its source is ready"),
            }
        }
        let seen = seen.lock().unwrap();
        let most = seen[1..].iter().map(|x| x.1).max().unwrap() - seen[0].0;
        o.max("most_bytes_held_by_a_decoder", most.max(0) as u64);
        if most > limit && got > 4 * limit {
            return violation(format!("while {} bytes pass through the decoder in packets of up to {} bytes, up to {} bytes are held", got, longest, most));
        }
    }
    // encoder
    let n = Arc::new(Mutex::new(0));
    let mut e = Enc::new(Box::pin(Passed { out: Arc::new(Mutex::new(vec![])), keep: false, n: n.clone() }));
    let (base, _, _) = take();
    for _ in 0..rounds {
        for p in &packets {
            if now(&mut e.send(Bytes::from(&p[..])))?.is_err() {
                return violation("the encoder fails although the writer does not");
            }
        }
    }
    let (_, most, _) = take();
    let sent = *n.lock().unwrap() as i64;
    o.max("most_bytes_held_by_an_encoder", (most - base).max(0) as u64);
    let total = (rounds * round.len()) as i64;
    if most - base > limit && total > 4 * limit {
        return violation(format!("while {} bytes pass through the encoder in pieces of up to {} bytes, up to {} bytes are held", total, longest, most - base));
    }
    if sent + (SLACK as i64) < total {
        return violation(format!("of {} bytes given to the encoder {} were passed on", total, sent));
    }
    Ok(())
}

pub fn m12(s: &mut Src, o: &mut Obs) -> R {
    let mut v = vec![];
    for _ in 0..1 + s.below(4) {
        match s.below(4) {
            0 => v.extend_from_slice(s.pick(gen::FAKE_ENDS)),
            1 => {
                let n = s.below(9);
                v.extend(s.from_alphabet(n, b"\r\n.x"));
            }
            _ => v.extend(gen::message(s)),
        }
    }
    v.truncate(2000);
    let packets = cut(s, &v);
    o.sign(&v);
    o.sig = mix(o.sig, packets.len() as u64);
    o.nontrivial = packets.len() > 1;
    if o.describe {
        let p: Vec<String> = packets.iter().take(60).map(|p| show(p)).collect();
        o.desc = format!("{} bytes in {} packets: {:?}", v.len(), packets.len(), p);
    }
    encode_case(&packets, o)?;
    let pend = s.below(3) as u32;
    stream_case(packets, pend, o)
}

pub fn m12_total(deep: bool) -> u64 {
    if deep {
        3000
    } else {
        300
    }
}

/// Long messages, each made from its number
pub fn m12_long(i: u64, o: &mut Obs) -> R {
    let mut s = Src::random(mix(12, i));
    s.scale = if o.thorough { 2 } else { 1 };
    bounded(&mut s, o)
}

pub fn s15_total(deep: bool) -> u64 {
    if deep {
        3000
    } else {
        400
    }
}

pub fn s15_long(i: u64, o: &mut Obs) -> R {
    let mut s = Src::random(mix(15, i));
    s.scale = if o.thorough { 2 } else { 1 };
    big_message(&mut s, o)
}
