//! Mail on its way: a client writes it with this library's commands and message encoder, a session
//! receives it, the queue sends it on through a transport that is such a client again, to a next
//! session.  What arrives at the end is compared with what was written.
use crate::env::{Chunk, Repr};
use crate::gen;
use crate::refp::{self, Addr};
use crate::vtime::{drive, End};
use bytes::{Bytes, BytesMut};
use futures::{executor::block_on, Sink, Stream};
use smtp_message::{Command, DataCommand, Email, MailCommand, RcptCommand, ReplyCode, ReplyLine, SmtpString};
use smtp_queue::{FoundInflightMail, InflightMail, Mail, QueuedMail, Storage, Transport};
use std::{
    collections::VecDeque,
    pin::Pin,
    sync::{
        atomic::{AtomicU64, Ordering::SeqCst},
        Arc, Mutex,
    },
    task::{Context, Poll},
    time::{Duration, Instant},
};
use tokio::prelude::{future as future01, stream as stream01, Async, Future as Future01, Stream as Stream01};
use tokio_timer::Delay;
use yv_engine::run::{violation, Fail, Obs};
use yv_engine::src::Src;
use yv_engine::util::{mix, show};
use yv_glue::*;

type R = Result<(), Fail>;

fn wire(e: &Email) -> Vec<u8> {
    crate::model::wire(e)
}

fn copy(e: &Email) -> Email {
    Email::new(e.raw_localpart().clone(), e.hostname().clone())
}

fn buffer(c: &Chunk) -> BytesMut {
    let n = c.data.len();
    match c.repr {
        Repr::Plain => BytesMut::from(&c.data[..]),
        Repr::Roomy => {
            let mut b = BytesMut::with_capacity(n + 200);
            b.extend_from_slice(&c.data);
            b
        }
        Repr::Shared | Repr::Window => {
            let mut b = BytesMut::from(&b"\r\n.\r\nQUIT\r\n"[..]);
            b.extend_from_slice(&c.data);
            b.extend_from_slice(b".\r\nRSET\r\n");
            let mut m = b.split_off(11);
            m.split_off(n);
            m
        }
    }
}

// ---- the client

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Res {
    Accepted,
    Refused(u16),
    /// the connection was lost before the end of the message
    Lost,
    /// the connection was lost before the answer to the message came
    NoAnswer,
}

struct Letter {
    mail: Vec<u8>,
    rcpt: Vec<Vec<u8>>,
    /// the message as it is sent, and how much of it before the connection is lost
    body: Vec<u8>,
    cut: Option<usize>,
    no_answer: bool,
}

impl Letter {
    /// all up to the message
    fn commands(&self) -> Result<Vec<u8>, String> {
        let mut v = self.mail.clone();
        v.extend(self.rcpt.concat());
        Command::Data(DataCommand::new()).send_to(&mut v).map_err(|e| e.to_string())?;
        Ok(v)
    }
}

/// What a client wants to send, in the library's own words
fn letter(from: Option<Email>, to: Vec<Email>, pieces: &[Vec<u8>]) -> Result<Letter, String> {
    let params = || match Command::parse(Bytes::from_static(b"MAIL FROM:<>\r\n")) {
        Ok(Command::Mail(m)) => Ok(m.params),
        _ => Err("MAIL FROM:<> is not read as MAIL".to_string()),
    };
    let send = |c: Command| -> Result<Vec<u8>, String> {
        let mut v = vec![];
        c.send_to(&mut v).map_err(|e| format!("writing a command fails: {}", e))?;
        Ok(v)
    };
    let mail = send(Command::Mail(MailCommand::new(from, params()?)))?;
    let mut rcpt = vec![];
    for e in to {
        rcpt.push(send(Command::Rcpt(RcptCommand::new(e, params()?)))?);
    }
    let out = Arc::new(Mutex::new(Out::default()));
    let mut enc = Enc::new(Box::pin(Writer { out: out.clone(), pend: 0, n: 0 }));
    for p in pieces {
        block_on(enc.send(Bytes::from(&p[..]))).map_err(|_| "the encoder failed")?;
    }
    block_on(enc.end()).map_err(|_| "the encoder failed")?;
    let body = std::mem::take(&mut out.lock().unwrap().bytes);
    Ok(Letter { mail, rcpt, body, cut: None, no_answer: false })
}

#[derive(Default)]
struct Out {
    bytes: Vec<u8>,
    flushed: usize,
    /// read by the client
    seen: usize,
    res: Vec<Res>,
    wrong: Option<String>,
    finished: bool,
    replies: u64,
}

impl Out {
    /// the next complete reply the client has received
    fn reply(&mut self) -> Result<u16, String> {
        let mut code = None;
        loop {
            let l = &self.bytes[self.seen..self.flushed];
            let n = match l.windows(2).position(|w| w == b"\r\n") {
                Some(n) => n + 2,
                None => return Err(format!("the session asks for more input while a command was not answered; so far the client has got {:?}", show(&self.bytes[..self.flushed]))),
            };
            let line = &l[..n];
            if let Err(e) = ReplyLine::parse(Bytes::from(line)) {
                return Err(format!("the reply line {:?} cannot be read: {}", show(line), e));
            }
            let (c, last, _, _) = refp::reply_line(line).map_err(|_| format!("{:?} is no reply line", show(line)))?;
            if code.is_some() && code != Some(c) {
                return Err(format!("the lines of a reply have different codes, {:?} and {}", code, c));
            }
            code = Some(c);
            self.seen += n;
            if last {
                self.replies += 1;
                return Ok(c);
            }
        }
    }
}

struct Writer {
    out: Arc<Mutex<Out>>,
    pend: u8,
    n: u8,
}

impl Sink<Bytes> for Writer {
    type Error = ();
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        if self.n > 0 {
            self.n -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        self.n = self.pend;
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, b: Bytes) -> Result<(), ()> {
        self.out.lock().unwrap().bytes.extend_from_slice(&b);
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), ()>> {
        let mut o = self.out.lock().unwrap();
        o.flushed = o.bytes.len();
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        self.poll_flush(cx)
    }
}

#[derive(Clone, Copy, Debug)]
enum Phase {
    Greeting,
    Between,
    /// answers still to come for noise
    Noise(usize),
    Mail,
    Rcpt(usize),
    Data,
    /// answers to everything up to the data command
    Pipelined,
    /// the answer to the message; whether the next mail's commands are under way
    Body(bool),
    Quit,
    Over,
}

struct Client {
    out: Arc<Mutex<Out>>,
    s: Src,
    letters: VecDeque<Letter>,
    pipelined: bool,
    /// the commands of the next mail follow the end of a message at once
    ahead: bool,
    noise: bool,
    phase: Phase,
    packets: VecDeque<BytesMut>,
    /// the connection is lost after these packets
    hang_up: Option<Res>,
}

const NOISE: &[&[u8]] = &[b"NOOP\r\n", b"RSET\r\n", b"EHLO client.example\r\n", b"HELO [127.0.0.1]\r\n", b"HELP me\r\n", b"VRFY x\r\n", b"EXPN list\r\n"];

impl Client {
    fn put(&mut self, b: &[u8]) {
        for c in gen::chunking(&mut self.s, b, None) {
            self.packets.push_back(buffer(&c));
        }
    }
    fn conclude(&mut self, r: Res) {
        self.letters.pop_front();
        self.out.lock().unwrap().res.push(r);
    }
    fn next(&mut self) -> Result<Option<BytesMut>, String> {
        loop {
            if let Some(p) = self.packets.pop_front() {
                return Ok(Some(p));
            }
            if let Some(r) = self.hang_up.take() {
                self.conclude(r);
                self.phase = Phase::Over;
            }
            let mut answer = || self.out.lock().unwrap().reply();
            match self.phase {
                Phase::Greeting => {
                    let c = answer()?;
                    if c / 100 != 2 {
                        return Err(format!("the session greets with {}", c));
                    }
                    self.phase = Phase::Between;
                }
                Phase::Between => {
                    if self.noise && self.s.chance(1, 3) {
                        let n = 1 + self.s.below(3);
                        let mut v = vec![];
                        for _ in 0..n {
                            v.extend_from_slice(self.s.pick(NOISE));
                        }
                        self.put(&v);
                        self.phase = Phase::Noise(n);
                        continue;
                    }
                    match self.letters.front() {
                        None => {
                            self.put(b"QUIT\r\n");
                            self.phase = Phase::Quit;
                        }
                        Some(l) if self.pipelined => {
                            let v = l.commands()?;
                            self.put(&v);
                            self.phase = Phase::Pipelined;
                        }
                        Some(l) => {
                            let v = l.mail.clone();
                            self.put(&v);
                            self.phase = Phase::Mail;
                        }
                    }
                }
                Phase::Noise(n) => {
                    answer()?;
                    self.phase = if n > 1 { Phase::Noise(n - 1) } else { Phase::Between };
                }
                Phase::Mail => match answer()? {
                    200..=299 => {
                        let v = self.letters[0].rcpt[0].clone();
                        self.put(&v);
                        self.phase = Phase::Rcpt(0);
                    }
                    c => {
                        self.conclude(Res::Refused(c));
                        self.phase = Phase::Over;
                    }
                },
                Phase::Rcpt(k) => match answer()? {
                    200..=299 => {
                        if k + 1 < self.letters[0].rcpt.len() {
                            let v = self.letters[0].rcpt[k + 1].clone();
                            self.put(&v);
                            self.phase = Phase::Rcpt(k + 1);
                        } else {
                            let mut d = vec![];
                            Command::Data(DataCommand::new()).send_to(&mut d).map_err(|e| e.to_string())?;
                            self.put(&d);
                            self.phase = Phase::Data;
                        }
                    }
                    c => {
                        self.conclude(Res::Refused(c));
                        self.phase = Phase::Over;
                    }
                },
                Phase::Data | Phase::Pipelined => {
                    let mut bad = None;
                    if let Phase::Pipelined = self.phase {
                        for _ in 0..1 + self.letters[0].rcpt.len() {
                            let c = self.out.lock().unwrap().reply()?;
                            if c / 100 != 2 && bad.is_none() {
                                bad = Some(c);
                            }
                        }
                    }
                    let c = self.out.lock().unwrap().reply()?;
                    if c / 100 != 3 && bad.is_none() {
                        bad = Some(c);
                    }
                    if let Some(c) = bad {
                        // also if the message was asked for: not all its recipients were taken
                        self.conclude(Res::Refused(c));
                        self.phase = Phase::Over;
                        continue;
                    }
                    let l = &self.letters[0];
                    let (mut b, no_answer) = (l.body.clone(), l.no_answer);
                    match l.cut {
                        Some(n) => {
                            b.truncate(n);
                            self.hang_up = Some(Res::Lost);
                        }
                        None if no_answer => self.hang_up = Some(Res::NoAnswer),
                        None => (),
                    }
                    let mut sent = false;
                    if let (true, None, Some(l)) = (self.pipelined && self.ahead, &self.hang_up, self.letters.get(1)) {
                        b.extend(l.commands()?);
                        sent = true;
                    }
                    self.put(&b);
                    self.phase = Phase::Body(sent);
                }
                Phase::Body(ahead) => {
                    match answer()? {
                        200..=299 => self.conclude(Res::Accepted),
                        c => self.conclude(Res::Refused(c)),
                    }
                    self.phase = if ahead { Phase::Pipelined } else { Phase::Between };
                }
                Phase::Quit => {
                    answer()?;
                    self.phase = Phase::Over;
                }
                Phase::Over => {
                    self.out.lock().unwrap().finished = true;
                    return Ok(None);
                }
            }
        }
    }
}

impl Stream for Client {
    type Item = BytesMut;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<BytesMut>> {
        if self.pipelined && self.s.chance(1, 6) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        match self.next() {
            Ok(b) => Poll::Ready(b),
            Err(e) => {
                self.phase = Phase::Over;
                self.letters.clear();
                let mut o = self.out.lock().unwrap();
                o.wrong.get_or_insert(e);
                o.finished = true;
                Poll::Ready(None)
            }
        }
    }
}

// ---- the receiving side

/// What a session does with one mail
#[derive(Clone, Debug, Default)]
struct Hop {
    from_err: Option<u16>,
    to_err: Option<(usize, u16)>,
    data_err: Option<u16>,
    body_err: Option<u16>,
    /// recipients that get another address
    rewrite: Vec<Option<Vec<u8>>>,
}

struct Stored {
    from: Option<Email>,
    to: Vec<Email>,
    chunks: Vec<Vec<u8>>,
}

struct Receiver {
    hops: Vec<Hop>,
    none: Hop,
    at: usize,
    rcpt: usize,
    store: Arc<Mutex<Vec<Stored>>>,
    texts: Vec<Vec<u8>>,
}

impl Receiver {
    fn hop(&self) -> &Hop {
        self.hops.get(self.at).unwrap_or(&self.none)
    }
    fn refuse(&self, c: u16) -> Decision {
        let t = match self.texts.len() {
            0 => b"not now".to_vec(),
            n => self.texts[c as usize % n].clone(),
        };
        Decision::Reject(Refusal { code: ReplyCode::custom(c), msg: SmtpString::from(t) })
    }
}

impl Policy for Receiver {
    fn new_mail<'a>(&'a mut self) -> SBox<'a, ()> {
        Box::pin(futures::future::ready(()))
    }
    fn filter_from<'a>(&'a mut self, _: &'a mut Option<Email>, _: &'a mut Conn) -> SBox<'a, Decision> {
        self.rcpt = 0;
        let d = self.hop().from_err.map_or(Decision::Accept, |c| self.refuse(c));
        Box::pin(futures::future::ready(d))
    }
    fn filter_to<'a>(&'a mut self, to: &'a mut Email, _: &'a mut MailMetadata, _: &'a mut Conn) -> SBox<'a, Decision> {
        let k = self.rcpt;
        self.rcpt += 1;
        let h = self.hop();
        let d = match h.to_err {
            Some((i, c)) if i == k => self.refuse(c),
            _ => Decision::Accept,
        };
        if let Some(Some(w)) = h.rewrite.get(k) {
            *to = crate::model::email(w);
        }
        Box::pin(futures::future::ready(d))
    }
    fn filter_data<'a>(&'a mut self, _: &'a mut MailMetadata, _: &'a mut Conn) -> SBox<'a, Decision> {
        let d = self.hop().data_err.map_or(Decision::Accept, |c| self.refuse(c));
        Box::pin(futures::future::ready(d))
    }
    fn handle_mail<'a>(&'a mut self, mut body: Box<dyn Body + 'a>, m: MailMetadata, _: &'a mut Conn) -> LBox<'a, Decision> {
        Box::pin(async move {
            let body_err = self.hop().body_err;
            self.at += 1;
            let mut chunks = vec![];
            while let Some(b) = futures::future::poll_fn(|cx: &mut Context<'_>| body.poll(cx)).await {
                chunks.push(b.to_vec());
            }
            if body.complete().is_err() {
                return self.refuse(451);
            }
            if let Some(c) = body_err {
                return self.refuse(c);
            }
            self.store.lock().unwrap().push(Stored { from: m.from, to: m.to, chunks });
            Decision::Accept
        })
    }
    fn hostname(&self) -> Vec<u8> {
        b"mx.example.org".to_vec()
    }
    fn reply(&self, k: Kind) -> (u16, Vec<u8>) {
        (crate::model::plain_code(k), self.texts[k as usize % self.texts.len()].clone())
    }
}

/// One session; what became of each letter
fn session(letters: Vec<Letter>, hops: Vec<Hop>, custom: Option<Vec<Vec<u8>>>, store: &Arc<Mutex<Vec<Stored>>>, seed: u64) -> Result<(Vec<Res>, u64), String> {
    let mut s = Src::random(seed);
    let out = Arc::new(Mutex::new(Out::default()));
    let (pipelined, ahead, noise, pend) = (s.chance(1, 2), s.chance(1, 2), s.chance(1, 3), s.below(3) as u8);
    let n = letters.len();
    let client = Client { out: out.clone(), s, letters: letters.into(), pipelined, ahead, noise, phase: Phase::Greeting, packets: VecDeque::new(), hang_up: None };
    let user = User { id: 0, trail: vec![] };
    let (r, w): (BoxReader, BoxWriter) = (Box::pin(client), Box::pin(Writer { out: out.clone(), pend, n: 0 }));
    let rec = Receiver { hops, none: Hop::default(), at: 0, rcpt: 0, store: store.clone(), texts: custom.clone().unwrap_or_default() };
    let f = match custom {
        Some(_) => session_custom(r, w, user, Custom(Box::new(rec))),
        None => session_plain(r, w, user, Plain(Box::new(rec))),
    };
    let end = block_on(f);
    let o = out.lock().unwrap();
    if let Some(e) = &o.wrong {
        return Err(e.clone());
    }
    if end.is_err() {
        return Err("the session failed although its writer did not".into());
    }
    if !o.finished {
        return Err("the session ended before its client did".into());
    }
    if o.res.len() > n || o.res.len() < n && o.res.iter().all(|r| *r == Res::Accepted) {
        return Err(format!("{} mails were dealt with of {}", o.res.len(), n));
    }
    Ok((o.res.clone(), o.replies))
}

// ---- the queue

#[derive(Clone, Debug)]
enum Fault {
    Hop(Hop),
    /// per mille of the message that still gets through
    Cut(usize),
    NoAnswer,
}

struct Item {
    from: Option<Email>,
    to: Vec<Email>,
    chunks: Vec<Vec<u8>>,
    found: bool,
    faults: Vec<Fault>,
    waits: [u32; 4],
}

struct World {
    base: Instant,
    now: Arc<AtomicU64>,
    items: Vec<Item>,
    seed: u64,
    custom: Option<Vec<Vec<u8>>>,
    st: Mutex<St>,
}

#[derive(Default)]
struct St {
    attempts: Vec<usize>,
    done: Vec<usize>,
    /// what the last hop has got, with the mail it was sent for
    arrived: Vec<(usize, Stored)>,
    wrong: Option<String>,
    replies: u64,
}

struct Q(usize);
struct I(Arc<World>, usize);
struct F(usize);
impl QueuedMail<usize> for Q {}
impl FoundInflightMail<usize> for F {}

fn wait<T: Send + 'static>(w: &World, ms: u32, out: T) -> Box<dyn Future01<Item = T, Error = ()> + Send> {
    if ms == 0 {
        return Box::new(future01::ok(out));
    }
    Box::new(Delay::new(w.base + Duration::from_millis(w.now.load(SeqCst) + ms as u64)).map_err(|_| ()).map(move |()| out))
}

type Content = Box<dyn Stream01<Item = BytesMut, Error = ()>>;

impl InflightMail<usize> for I {
    fn get_mail(&self) -> Box<dyn Future01<Item = Mail<Content, usize>, Error = ()> + Send> {
        let (w, i) = (self.0.clone(), self.1);
        let ms = w.items[i].waits[0];
        Box::new(wait(&w.clone(), ms, ()).map(move |()| {
            let m = &w.items[i];
            let data: Content = Box::new(stream01::iter_ok(m.chunks.clone().into_iter().map(BytesMut::from)));
            Mail { from: m.from.as_ref().map(copy), to: m.to.iter().map(copy).collect(), data, metadata: i }
        }))
    }
}

struct Store(Arc<World>);
struct Trans(Arc<World>);

impl Storage<usize, Q, I, F> for Store {
    fn list_queue(&self) -> Box<dyn Stream01<Item = Q, Error = ()>> {
        let v: Vec<usize> = (0..self.0.items.len()).filter(|&i| !self.0.items[i].found).collect();
        Box::new(stream01::iter_ok(v.into_iter().map(Q)))
    }
    fn find_inflight(&self) -> Box<dyn Stream01<Item = F, Error = ()>> {
        let v: Vec<usize> = (0..self.0.items.len()).filter(|&i| self.0.items[i].found).collect();
        Box::new(stream01::iter_ok(v.into_iter().map(F)))
    }
    fn cancel_found_inflight(&self, m: F) -> Box<dyn Future01<Item = Q, Error = ()> + Send> {
        wait(&self.0, self.0.items[m.0].waits[1], Q(m.0))
    }
    fn enqueue<S: Stream01<Item = BytesMut, Error = ()>>(&self, _: Mail<S, usize>) -> Box<dyn Future01<Item = Q, Error = ()>> {
        Box::new(future01::err(()))
    }
    fn send_start(&self, m: Q) -> Box<dyn Future01<Item = I, Error = ()> + Send> {
        wait(&self.0, self.0.items[m.0].waits[2], I(self.0.clone(), m.0))
    }
    fn send_done(&self, m: I) -> Box<dyn Future01<Item = (), Error = ()> + Send> {
        self.0.st.lock().unwrap().done[m.1] += 1;
        wait(&self.0, 0, ())
    }
    fn send_cancel(&self, m: I) -> Box<dyn Future01<Item = Q, Error = ()> + Send> {
        wait(&self.0, self.0.items[m.1].waits[1], Q(m.1))
    }
}

impl Trans {
    fn attempt(&self, k: usize, i: usize, from: Option<Email>, to: Vec<Email>, chunks: Vec<Vec<u8>>) -> Result<Result<(), u16>, String> {
        let w = &self.0;
        let mut l = letter(from, to, &chunks)?;
        let mut hop = Hop::default();
        match w.items[i].faults.get(k) {
            Some(Fault::Hop(h)) => hop = h.clone(),
            Some(Fault::Cut(p)) => l.cut = Some((l.body.len() - 1) * p / 1000),
            Some(Fault::NoAnswer) => l.no_answer = true,
            None => (),
        }
        let store = Arc::new(Mutex::new(vec![]));
        let (res, replies) = session(vec![l], vec![hop], w.custom.clone(), &store, mix(w.seed, (i * 1000 + k) as u64))?;
        let mut st = w.st.lock().unwrap();
        st.replies += replies;
        st.arrived.extend(store.lock().unwrap().drain(..).map(|m| (i, m)));
        Ok(match res[0] {
            Res::Accepted => Ok(()),
            Res::Refused(c) => Err(c),
            Res::Lost | Res::NoAnswer => Err(421),
        })
    }
}

impl Transport<usize> for Trans {
    fn send<S: Stream01<Item = BytesMut, Error = ()>>(&self, mail: Mail<S, usize>) -> Box<dyn Future01<Item = (), Error = (ReplyCode, SmtpString)> + Send> {
        let Mail { from, to, mut data, metadata: i } = mail;
        let w = self.0.clone();
        let mut chunks = vec![];
        while let Ok(Async::Ready(Some(b))) = data.poll() {
            chunks.push(b.to_vec());
        }
        let k = {
            let mut st = w.st.lock().unwrap();
            st.attempts[i] += 1;
            st.attempts[i] - 1
        };
        let r = match self.attempt(k, i, from, to, chunks) {
            Ok(r) => r,
            Err(e) => {
                w.st.lock().unwrap().wrong.get_or_insert(format!("sending mail {} on, attempt {}: {}", i, k + 1, e));
                Ok(())
            }
        };
        Box::new(wait(&w, w.items[i].waits[3], ()).then(move |_| r.map_err(|c| (ReplyCode::custom(c), SmtpString::from(&b"refused"[..])))))
    }
}

// ---- R01

fn ms(s: &mut Src) -> u32 {
    match s.below(4) {
        0 | 1 => 0,
        2 => 1 + s.below(1000) as u32,
        _ => 1 + s.below(600_000) as u32,
    }
}

fn err(s: &mut Src) -> u16 {
    400 + s.below(200) as u16
}

fn pieces(s: &mut Src, t: &[u8]) -> Vec<Vec<u8>> {
    gen::chunking(s, t, None).into_iter().map(|c| c.data).collect()
}

struct Given {
    from: Option<Addr>,
    to: Vec<Addr>,
    text: Vec<u8>,
}

fn emails(g: &Given) -> (Option<Email>, Vec<Email>) {
    let e = |a: &Addr| crate::model::email(&a.wire());
    (g.from.as_ref().map(e), g.to.iter().map(e).collect())
}

fn compare(what: &str, g: &Given, rewrite: &[Option<Vec<u8>>], m: &Stored) -> R {
    let from = g.from.as_ref().map(|a| a.wire());
    let got = m.from.as_ref().map(wire);
    if got != from {
        return violation(format!("{}: the sender was {:?}, it is {:?}", what, from.map(|f| show(&f)), got.map(|f| show(&f))));
    }
    let to: Vec<Vec<u8>> = g.to.iter().enumerate().map(|(k, a)| rewrite.get(k).cloned().flatten().unwrap_or_else(|| a.wire())).collect();
    let got: Vec<Vec<u8>> = m.to.iter().map(wire).collect();
    if got != to {
        let f = |v: &[Vec<u8>]| v.iter().map(|x| show(x)).collect::<Vec<_>>();
        return violation(format!("{}: the recipients were {:?}, they are {:?}", what, f(&to), f(&got)));
    }
    let (want, _) = refp::decode(&refp::encode(&g.text));
    let got = m.chunks.concat();
    if got != want {
        return violation(format!("{}: the text was {:?}, it is {:?}", what, show(&want), show(&got)));
    }
    Ok(())
}

struct Job {
    given: Vec<Given>,
    /// replies of the sessions, where not the default ones
    texts: Option<Vec<Vec<u8>>>,
    rewrites: Vec<Vec<Option<Vec<u8>>>>,
    faults: Vec<Vec<Fault>>,
    found: Vec<bool>,
    waits: Vec<[u32; 4]>,
    seed: u64,
    limit: u32,
}

pub fn r01(s: &mut Src, o: &mut Obs) -> R {
    let n = 1 + s.below(if s.scale >= 2 { 6 } else { 3 });
    let mut given = vec![];
    for _ in 0..n {
        let from = if s.chance(1, 5) { None } else { Some(gen::addr(s)) };
        let k = 1 + match s.below(60) {
            0 => s.below(140),
            1..=20 => s.below(if s.scale >= 2 { 120 } else { 5 }),
            _ => 0,
        };
        let mut to: Vec<Addr> = vec![];
        for j in 0..k {
            let a = if j > 0 && s.chance(1, 6) { to[s.below(j)].clone() } else { gen::addr(s) };
            to.push(a);
        }
        given.push(Given { from, to, text: gen::message(s) });
    }
    let texts = if s.chance(1, 2) {
        let k = 1 + s.below(4);
        let mut v = vec![];
        for _ in 0..k {
            let max = if s.chance(1, 6) { 1300 } else { 40 };
            v.push(gen::reply_text(s, max));
        }
        Some(v)
    } else {
        None
    };
    let mut j = Job { texts, rewrites: vec![], faults: vec![], found: vec![], waits: vec![], seed: 0, limit: 100_000, given: vec![] };
    for g in &given {
        j.rewrites.push(g.to.iter().map(|_| if s.chance(1, 8) { Some(gen::addr(s).wire()) } else { None }).collect());
        let k = if s.chance(1, 2) { s.below(5) } else { 0 };
        let mut faults = vec![];
        for _ in 0..k {
            faults.push(match s.below(7) {
                0 => Fault::Hop(Hop { from_err: Some(err(s)), ..Hop::default() }),
                1 => Fault::Hop(Hop { to_err: Some((s.below(g.to.len()), err(s))), ..Hop::default() }),
                2 if j.texts.is_some() => Fault::Hop(Hop { data_err: Some(err(s)), ..Hop::default() }),
                2 | 3 => Fault::Hop(Hop { body_err: Some(err(s)), ..Hop::default() }),
                4 | 5 => Fault::Cut(if s.chance(1, 2) { 1000 } else { s.below(1001) }),
                _ => Fault::NoAnswer,
            });
        }
        j.faults.push(faults);
        j.found.push(s.chance(1, 6));
        j.waits.push([ms(s), ms(s), ms(s), ms(s)]);
    }
    j.given = given;
    j.seed = s.seed();
    relay(j, &|s, t| pieces(s, t), s, o)
}

fn relay(j: Job, pieces: &dyn Fn(&mut Src, &[u8]) -> Vec<Vec<u8>>, s: &mut Src, o: &mut Obs) -> R {
    let Job { given, texts, rewrites, faults, found, waits, seed, limit } = j;
    let n = given.len();
    // handed in
    let mut hops = vec![];
    let mut letters = vec![];
    for g in &given {
        let h = Hop { rewrite: rewrites[hops.len()].clone(), ..Hop::default() };
        let (from, to) = emails(g);
        let p = pieces(s, &g.text);
        letters.push(match letter(from, to, &p) {
            Ok(l) => l,
            Err(e) => return violation(e),
        });
        hops.push(h);
    }
    let store = Arc::new(Mutex::new(vec![]));
    let (res, r1) = match session(letters, hops.clone(), texts.clone(), &store, seed) {
        Ok(r) => r,
        Err(e) => return violation(format!("handing in {} mails: {}", n, e)),
    };
    let stored = std::mem::take(&mut *store.lock().unwrap());
    if res.iter().any(|r| *r != Res::Accepted) || stored.len() != n {
        return violation(format!("{} mails were handed in to a session that accepts all: {:?}, {} were received", n, res, stored.len()));
    }
    for (i, m) in stored.iter().enumerate() {
        compare(&format!("received mail {}", i), &given[i], &hops[i].rewrite, m)?;
    }
    // sent on
    let mut items = vec![];
    let faults_all: usize = faults.iter().map(|f| f.len()).sum();
    for (((m, faults), found), waits) in stored.into_iter().zip(faults).zip(found).zip(waits) {
        items.push(Item { from: m.from, to: m.to, chunks: m.chunks, found, faults, waits });
    }
    if o.describe {
        let mut t = vec![];
        for (i, g) in given.iter().enumerate() {
            t.push(format!(
                "mail {}: from {:?} to {:?} rewritten {:?} text {:?}{}; on the way: {:?}",
                i,
                g.from.as_ref().map(|a| show(&a.wire())),
                g.to.iter().map(|a| show(&a.wire())).collect::<Vec<_>>(),
                hops[i].rewrite.iter().map(|r| r.as_ref().map(|r| show(r))).collect::<Vec<_>>(),
                show(&g.text),
                if items[i].found { ", found in flight" } else { "" },
                items[i].faults
            ));
        }
        o.desc = t.join("\n");
    }
    let now = Arc::new(AtomicU64::new(0));
    let base = Instant::now();
    let w = Arc::new(World { base, now: now.clone(), items, seed, custom: texts, st: Mutex::new(St { attempts: vec![0; n], done: vec![0; n], ..St::default() }) });
    let mut run_res = None;
    let rr = Arc::new(Mutex::new(None));
    let rr2 = rr.clone();
    let end = drive(
        base,
        &now,
        u64::MAX / 4,
        limit,
        || {
            smtp_queue::run::<usize, Q, I, F, _, _>(Arc::new(Store(w.clone())), Arc::new(Trans(w.clone()))).then(move |r| {
                *rr2.lock().unwrap() = Some(r);
                Ok(())
            })
        },
        || run_res = *rr.lock().unwrap(),
    );
    let st = w.st.lock().unwrap();
    if let Some(e) = &st.wrong {
        return violation(e.clone());
    }
    if end != End::Quiet || run_res != Some(Ok(())) {
        return violation(format!("the queue does not come to rest: {:?}, start-up {:?}", end, run_res));
    }
    for i in 0..n {
        let f = &w.items[i].faults;
        if st.attempts[i] != f.len() + 1 || st.done[i] != 1 {
            return violation(format!("mail {} with {} failing attempts was tried {} times and completed {} times", i, f.len(), st.attempts[i], st.done[i]));
        }
        let unanswered = f.iter().filter(|f| matches!(f, Fault::NoAnswer)).count();
        let got: Vec<&Stored> = st.arrived.iter().filter(|m| m.0 == i).map(|m| &m.1).collect();
        if got.len() != 1 + unanswered {
            return violation(format!("mail {} arrived {} times, with {} answers lost", i, got.len(), unanswered));
        }
        for m in got {
            compare(&format!("mail {} at its destination", i), &given[i], &hops[i].rewrite, m)?;
        }
        o.sign(&given[i].text);
        o.sign(format!("{:?}{:?}", f, w.items[i].found).as_bytes());
        for a in &given[i].to {
            o.sign(&a.wire());
        }
    }
    o.add("mails", n as u64);
    o.add("attempts", st.attempts.iter().sum::<usize>() as u64);
    o.add("failed_attempts", faults_all as u64);
    o.add("replies_read", st.replies + r1);
    o.add("sessions", 1 + st.attempts.iter().sum::<usize>() as u64);
    o.max("text_bytes", given.iter().map(|g| g.text.len()).max().unwrap_or(0) as u64);
    o.max("recipients", given.iter().map(|g| g.to.len()).max().unwrap_or(0) as u64);
    o.nontrivial = faults_all > 0 || given.iter().any(|g| g.text.starts_with(b".") || g.text.windows(3).any(|w| w == b"\r\n."));
    Ok(())
}

// ---- large mails, and many

const COUNTS: &[usize] = &[255, 256, 257, 1000, 1025, 4096, 4097, 65_535, 65_536, 65_537, 70_000];
const SORTS: usize = 12;

fn plain(local: String) -> Addr {
    let w = [local.as_bytes(), b"@example.org"].concat();
    refp::mailbox(&w).expect("a plain address").0
}

/// a few pieces, also where a cut matters
fn few(s: &mut Src, t: &[u8]) -> Vec<Vec<u8>> {
    let size = *s.pick(&[1 << 20, 65_536, 65_535, 1000, 511, 77]);
    t.chunks(size).map(|c| c.to_vec()).collect()
}

pub fn large_total(thorough: bool) -> u64 {
    (COUNTS.len() * SORTS * if thorough { 6 } else { 2 }) as u64
}

pub fn large(i: u64, o: &mut Obs) -> R {
    let s = &mut Src::random(mix(i, 77));
    let i = i as usize % (COUNTS.len() * SORTS);
    let (n, sort) = (COUNTS[i / SORTS], i % SORTS);
    let small = n.min(4097);
    let mail = |k: usize| Given { from: Some(plain(format!("s{}", k))), to: vec![plain(format!("r{}", k))], text: format!("mail {}\r\n", k).into_bytes() };
    let mut given = vec![mail(0)];
    let mut faults = vec![];
    let mut texts = None;
    let mut rewrite = vec![];
    let what = match sort {
        0 => {
            given[0].text = vec![b'x'; n];
            "a line"
        }
        1 => {
            given[0].text = b"x\r\n".repeat(n);
            "lines"
        }
        2 => {
            given[0].text = b".x\r\n".repeat(n);
            "lines with a dot"
        }
        3 => {
            given[0].text = (0..n).map(|_| *s.pick(b"\r\n.x")).collect();
            "bytes of line ends and dots"
        }
        4 => {
            given[0].text = [&b"x".repeat(n - 1)[..], b"\r\n.\r\n..\n.\r\r\n.", &b"y".repeat(n)[..]].concat();
            "bytes around a line of one dot"
        }
        5 => {
            given[0].to = (0..n).map(|k| plain(format!("r{}", k))).collect();
            "recipients"
        }
        6 => {
            given[0].to = (0..n).map(|_| plain("same".into())).collect();
            rewrite = (0..n).map(|k| if k % 3 == 0 { Some(format!("r{}@example.net", k).into_bytes()) } else { None }).collect();
            "times the same recipient, some of them rewritten"
        }
        7 => {
            given = (0..small).map(mail).collect();
            "mails"
        }
        8 => {
            let from_err = Fault::Hop(Hop { from_err: Some(450), ..Hop::default() });
            let body_err = Fault::Hop(Hop { body_err: Some(552), ..Hop::default() });
            let to_err = Fault::Hop(Hop { to_err: Some((0, 550)), ..Hop::default() });
            let all = [from_err, body_err, to_err, Fault::Cut(500), Fault::Cut(1000), Fault::NoAnswer];
            faults = (0..small).map(|_| s.pick(&all).clone()).collect();
            "failed attempts"
        }
        9 => {
            given[0].from = Some(plain("s".repeat(n)));
            given[0].to = vec![plain("r".repeat(n)), plain("r".repeat(n - 1))];
            "bytes of a name"
        }
        10 => {
            texts = Some(vec![vec![b'x'; n], vec![b'y'; n - 1], b"z ".repeat(n / 2)]);
            faults = vec![Fault::Hop(Hop { data_err: Some(421), ..Hop::default() }), Fault::Hop(Hop { body_err: Some(452), ..Hop::default() })];
            "bytes of a reply"
        }
        _ => {
            // each mail has what it takes, on top of one another
            given = (0..small / 40 + 2).map(mail).collect();
            for (k, g) in given.iter_mut().enumerate() {
                g.text = (0..small / 2 + k).map(|_| *s.pick(b"\r\n.x")).collect();
                g.to = (0..1 + k % 7).map(|j| plain(format!("r{}.{}", k, j))).collect();
            }
            "fortieths of mails"
        }
    };
    let m = given.len();
    let mut all = vec![vec![]; m];
    if faults.is_empty() && s.chance(1, 2) {
        faults = vec![s.pick(&[Fault::Cut(999), Fault::NoAnswer, Fault::Hop(Hop { body_err: Some(451), ..Hop::default() })]).clone()];
    }
    all[m - 1] = faults;
    let mut rewrites = vec![vec![]; m];
    rewrites[m - 1] = rewrite;
    let j = Job { given, texts, rewrites, faults: all, found: (0..m).map(|k| k % 5 == 4).collect(), waits: vec![[0; 4]; m], seed: s.seed(), limit: 10_000_000 };
    let r = relay(j, &few, s, o);
    if o.describe {
        o.desc = format!("{} {}", n, what);
    }
    o.nontrivial = true;
    r.map_err(|e| match e {
        yv_engine::run::Fail::Violation(t) => yv_engine::run::Fail::Violation(format!("{} {}: {}", n, what, t.chars().take(2000).collect::<String>())),
        e => e,
    })
}
