//! A deterministic world for the queue: virtual time, a storage and a transport that follow a
//! plan (delays, failures, operations that never finish) and record everything asked of them.
use bytes::BytesMut;
use futures::{task, Async, Future, Poll, Stream};
use smtp_message::{Email, ReplyCode, SmtpString};
use smtp_queue::{FoundInflightMail, InflightMail, Mail, QueuedMail, Storage, Transport};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
    sync::{
        atomic::{AtomicU64, Ordering::SeqCst},
        Arc, Mutex, MutexGuard,
    },
    time::{Duration, Instant},
};
use tokio_executor::park::{Park, Unpark};
use tokio_timer::{clock::Clock, clock::Now, timer::Timer, Delay};

use crate::vtime::drive;
pub use crate::vtime::End;

pub const HOUR: u64 = 3_600_000;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Wait {
    /// not ready this many times
    Polls(u8),
    /// milliseconds of virtual time
    Ms(u32),
    /// never finishes
    Hang,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct OpPlan {
    pub wait: Wait,
    pub ok: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SendPlan {
    pub wait: Wait,
    /// Some(code): refused
    pub err: Option<u16>,
    /// what it says then
    pub text: Vec<u8>,
    /// how many chunks of the content to read (None: all)
    pub read: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct MailPlan {
    /// found in flight at start-up, instead of queued
    pub found: bool,
    pub from: Option<Vec<u8>>,
    pub to: Vec<Vec<u8>>,
    pub chunks: Vec<Vec<u8>>,
    /// the content cannot be read further than this many chunks
    pub data_err: Option<usize>,
    /// before it is listed
    pub list_wait: Wait,
    pub start: Vec<OpPlan>,
    pub get: Vec<OpPlan>,
    pub send: Vec<SendPlan>,
    pub done: OpPlan,
    pub cancel: Vec<OpPlan>,
    pub cancel_found: OpPlan,
    /// whether the listing of what is in flight also shows it if this run is sending it
    pub ghost: bool,
    /// the last send plan repeats and is a failure
    pub forever: bool,
}

impl MailPlan {
    pub fn send_at(&self, k: usize) -> &SendPlan {
        &self.send[k.min(self.send.len() - 1)]
    }
    /// No storage operation fails or hangs
    pub fn storage_fine(&self) -> bool {
        let f = |o: &OpPlan| o.ok && o.wait != Wait::Hang;
        self.start.iter().all(f) && self.get.iter().all(f) && self.cancel.iter().all(f) && f(&self.done) && f(&self.cancel_found)
    }
    pub fn transport_finite(&self) -> bool {
        !self.forever && self.send.iter().all(|s| s.wait != Wait::Hang)
    }
}

fn op_at(v: &[OpPlan], k: usize) -> OpPlan {
    v.get(k).cloned().unwrap_or(OpPlan { wait: Wait::Polls(0), ok: true })
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub mails: Vec<MailPlan>,
    /// the listing fails after its last mail
    pub list_err: bool,
    pub find_err: bool,
    pub list_end: Wait,
    pub find_end: Wait,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum What {
    Listed,
    Start,
    Get,
    Send,
    Done,
    Cancel,
    CancelFound,
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub t: u64,
    pub mail: usize,
    pub what: What,
    /// None: asked for; Some: how it ended
    pub res: Option<bool>,
    pub ghost: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Q,
    I,
    F,
}

#[derive(Default)]
pub struct St {
    pub now: u64,
    pub log: Vec<Ev>,
    /// what the monitors saw: (property, what is wrong)
    pub wrong: Vec<(&'static str, String)>,
    pub shutdown: bool,
    serial: u64,
    /// serial number of the in-flight handle a mail has now
    pub inflight: BTreeMap<usize, u64>,
    pub attempts: BTreeMap<usize, usize>,
    pub starts: BTreeMap<usize, usize>,
    pub cancels: BTreeMap<usize, usize>,
    pub sent_by: BTreeMap<u64, (usize, bool)>,
    /// mails the transport took
    pub taken: BTreeSet<usize>,
    pub run_result: Option<Result<(), ()>>,
    pub polls: u64,
    pub list_calls: u64,
    pub find_calls: u64,
    /// handles, waits and contents that exist now
    pub handles: i64,
    pub waits: i64,
    pub contents: i64,
    pub lists: i64,
}

pub struct Shared {
    pub st: Mutex<St>,
    pub plan: Plan,
    pub base: Instant,
    now: Arc<AtomicU64>,
}
pub type World = Arc<Shared>;

impl Shared {
    pub fn lock(&self) -> MutexGuard<'_, St> {
        self.st.lock().unwrap()
    }
    fn t(&self) -> u64 {
        self.now.load(SeqCst)
    }
    pub fn ev(&self, mail: usize, what: What, res: Option<bool>, ghost: bool) {
        let t = self.t();
        self.lock().log.push(Ev { t, mail, what, res, ghost });
    }
    pub fn wrong(&self, p: &'static str, m: String) {
        let mut s = self.lock();
        if s.wrong.len() < 50 {
            let t = self.t();
            s.wrong.push((p, format!("{} (at {} ms)", m, t)));
        }
    }
}

/// A handle the storage gave out
pub struct Tok {
    w: World,
    mail: usize,
    kind: Kind,
    serial: u64,
    ghost: bool,
    used: bool,
    /// dropping it is legitimate (its content could not be read)
    may_drop: Arc<AtomicU64>,
}

impl Tok {
    fn new(w: &World, mail: usize, kind: Kind) -> Tok {
        let serial = {
            let mut s = w.lock();
            s.serial += 1;
            s.handles += 1;
            s.serial
        };
        Tok { w: w.clone(), mail, kind, serial, ghost: false, used: false, may_drop: Arc::new(AtomicU64::new(0)) }
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        self.w.lock().handles -= 1;
        if !self.used && self.may_drop.load(SeqCst) == 0 && !std::thread::panicking() {
            let sh = self.w.lock().shutdown;
            if !sh {
                self.w.wrong("Q02", format!("the {} handle of mail {} was dropped", match self.kind {
                    Kind::Q => "queued",
                    Kind::I => "in-flight",
                    Kind::F => "found-in-flight",
                }, self.mail));
            }
        }
    }
}

pub struct QM(pub Tok);
pub struct IM(pub Tok);
pub struct FIM(pub Tok);
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Meta {
    pub mail: usize,
    pub serial: u64,
}

impl QueuedMail<Meta> for QM {}
impl FoundInflightMail<Meta> for FIM {}

/// A wait, then an action
struct Op<T, E> {
    w: World,
    wait: Wait,
    timer: Option<Delay>,
    act: Option<Box<dyn FnOnce() -> Result<T, E> + Send>>,
    name: String,
}

fn op<T: 'static, E: 'static>(w: &World, wait: Wait, name: String, act: impl FnOnce() -> Result<T, E> + Send + 'static) -> Box<dyn Future<Item = T, Error = E> + Send> {
    w.lock().waits += 1;
    Box::new(Op { w: w.clone(), wait, timer: None, act: Some(Box::new(act)), name })
}

fn wait(w: &mut Wait, timer: &mut Option<Delay>) -> Async<()> {
    match w {
        Wait::Polls(0) => Async::Ready(()),
        Wait::Polls(n) => {
            *n -= 1;
            task::current().notify();
            Async::NotReady
        }
        Wait::Hang => Async::NotReady,
        Wait::Ms(ms) => {
            let ms = *ms as u64;
            let t = timer.get_or_insert_with(|| Delay::new(tokio_timer::clock::now() + Duration::from_millis(ms)));
            match t.poll() {
                Ok(r) => r,
                Err(e) => panic!("harness: timer: {}", e),
            }
        }
    }
}

impl<T, E> Future for Op<T, E> {
    type Item = T;
    type Error = E;
    fn poll(&mut self) -> Poll<T, E> {
        self.w.lock().polls += 1;
        if self.act.is_none() {
            self.w.wrong("Q02", format!("{} was polled again after it finished", self.name));
            return Ok(Async::NotReady);
        }
        if let Async::NotReady = wait(&mut self.wait, &mut self.timer) {
            return Ok(Async::NotReady);
        }
        (self.act.take().unwrap())().map(Async::Ready)
    }
}

impl<T, E> Drop for Op<T, E> {
    fn drop(&mut self) {
        if let Ok(mut s) = self.w.st.lock() {
            s.waits -= 1;
        }
        if self.act.is_some() && !std::thread::panicking() && !self.w.lock().shutdown {
            self.w.wrong("Q02", format!("{} was given up before it finished", self.name));
        }
    }
}

/// A stream of handles with waits between them
struct List<T> {
    w: World,
    items: std::vec::IntoIter<(usize, Wait)>,
    cur: Option<(usize, Wait)>,
    end: Wait,
    err: bool,
    over: bool,
    timer: Option<Delay>,
    make: Box<dyn Fn(usize) -> T>,
}

impl<T> Drop for List<T> {
    fn drop(&mut self) {
        if let Ok(mut s) = self.w.st.lock() {
            s.lists -= 1;
        }
    }
}

impl<T> Stream for List<T> {
    type Item = T;
    type Error = ();
    fn poll(&mut self) -> Poll<Option<T>, ()> {
        self.w.lock().polls += 1;
        if self.over {
            self.w.wrong("Q06", "a listing was polled again after it ended".into());
            return Ok(Async::Ready(None));
        }
        if self.cur.is_none() {
            self.cur = self.items.next();
        }
        match &mut self.cur {
            Some((i, wt)) => {
                if let Async::NotReady = wait(wt, &mut self.timer) {
                    return Ok(Async::NotReady);
                }
                let i = *i;
                self.cur = None;
                self.timer = None;
                Ok(Async::Ready(Some((self.make)(i))))
            }
            None => {
                if let Async::NotReady = wait(&mut self.end, &mut self.timer) {
                    return Ok(Async::NotReady);
                }
                self.over = true;
                if self.err {
                    Err(())
                } else {
                    Ok(Async::Ready(None))
                }
            }
        }
    }
}

struct Data {
    w: World,
    chunks: std::vec::IntoIter<Vec<u8>>,
    err: Option<usize>,
    over: bool,
}
impl Drop for Data {
    fn drop(&mut self) {
        if let Ok(mut s) = self.w.st.lock() {
            s.contents -= 1;
        }
    }
}
impl Stream for Data {
    type Item = BytesMut;
    type Error = ();
    fn poll(&mut self) -> Poll<Option<BytesMut>, ()> {
        if self.over {
            self.w.wrong("Q05", "the content of a mail was polled again after its end".into());
        }
        match &mut self.err {
            Some(0) => {
                self.over = true;
                return Err(());
            }
            Some(n) => *n -= 1,
            None => (),
        }
        match self.chunks.next() {
            Some(c) => Ok(Async::Ready(Some(BytesMut::from(c)))),
            None => {
                self.over = true;
                Ok(Async::Ready(None))
            }
        }
    }
}

pub struct Store(pub World);

impl InflightMail<Meta> for IM {
    fn get_mail(&self) -> Box<dyn Future<Item = Mail<Box<dyn Stream<Item = BytesMut, Error = ()>>, Meta>, Error = ()> + Send> {
        let (w, mail, serial, may_drop) = (self.0.w.clone(), self.0.mail, self.0.serial, self.0.may_drop.clone());
        w.ev(mail, What::Get, None, false);
        let k = w.lock().starts[&mail] - 1;
        let p = op_at(&w.plan.mails[mail].get, k);
        let w2 = w.clone();
        op(&w, p.wait, format!("reading mail {}", mail), move || {
            w2.ev(mail, What::Get, Some(p.ok), false);
            if !p.ok {
                may_drop.store(1, SeqCst);
                return Err(());
            }
            let m = &w2.plan.mails[mail];
            w2.lock().contents += 1;
            let data: Box<dyn Stream<Item = BytesMut, Error = ()>> = Box::new(Data { w: w2.clone(), chunks: m.chunks.clone().into_iter(), err: m.data_err, over: false });
            Ok(Mail {
                from: m.from.as_ref().map(|a| Email::parse_slice(a).unwrap_or_else(|e| panic!("harness: address {:?}: {:?}", yv_engine::util::show(a), e))),
                to: m.to.iter().map(|a| Email::parse_slice(a).unwrap_or_else(|e| panic!("harness: address {:?}: {:?}", yv_engine::util::show(a), e))).collect(),
                data,
                metadata: Meta { mail, serial },
            })
        })
    }
}

impl Storage<Meta, QM, IM, FIM> for Store {
    fn list_queue(&self) -> Box<dyn Stream<Item = QM, Error = ()>> {
        let w = self.0.clone();
        w.lock().list_calls += 1;
        w.lock().lists += 1;
        let items: Vec<_> = w.plan.mails.iter().enumerate().filter(|(_, m)| !m.found).map(|(i, m)| (i, m.list_wait.clone())).collect();
        let w2 = w.clone();
        Box::new(List {
            end: w.plan.list_end.clone(),
            err: w.plan.list_err,
            w,
            items: items.into_iter(),
            cur: None,
            over: false,
            timer: None,
            make: Box::new(move |i| {
                w2.ev(i, What::Listed, Some(true), false);
                QM(Tok::new(&w2, i, Kind::Q))
            }),
        })
    }

    fn find_inflight(&self) -> Box<dyn Stream<Item = FIM, Error = ()>> {
        let w = self.0.clone();
        w.lock().find_calls += 1;
        w.lock().lists += 1;
        // what is left from before, and what this very run is sending at the moment
        let own = w.lock().inflight.clone();
        let items: Vec<_> = w
            .plan
            .mails
            .iter()
            .enumerate()
            .filter(|(i, m)| m.found || (m.ghost && own.contains_key(i)))
            .map(|(i, m)| (i, m.list_wait.clone()))
            .collect();
        let w2 = w.clone();
        Box::new(List {
            end: w.plan.find_end.clone(),
            err: w.plan.find_err,
            w,
            items: items.into_iter(),
            cur: None,
            over: false,
            timer: None,
            make: Box::new(move |i| {
                let ghost = !w2.plan.mails[i].found;
                w2.ev(i, What::Listed, Some(true), ghost);
                let mut t = Tok::new(&w2, i, Kind::F);
                if ghost {
                    t.ghost = true;
                    t.serial = own[&i];
                }
                FIM(t)
            }),
        })
    }

    fn cancel_found_inflight(&self, mut mail: FIM) -> Box<dyn Future<Item = QM, Error = ()> + Send> {
        let w = self.0.clone();
        let (i, ghost, serial) = (mail.0.mail, mail.0.ghost, mail.0.serial);
        mail.0.used = true;
        w.ev(i, What::CancelFound, None, ghost);
        let p = w.plan.mails[i].cancel_found.clone();
        let w2 = w.clone();
        let wt = p.wait.clone();
        op(&w, wt, format!("taking back mail {}", i), move || {
            if ghost {
                // that handle is history, unless an hour was not waited for
                let live = w2.lock().inflight.get(&i) == Some(&serial);
                w2.ev(i, What::CancelFound, Some(live), true);
                if !live {
                    return Err(());
                }
                w2.wrong("Q03", format!("mail {} was taken back while it was being sent", i));
                w2.lock().inflight.remove(&i);
                return Ok(QM(Tok::new(&w2, i, Kind::Q)));
            }
            w2.ev(i, What::CancelFound, Some(p.ok), false);
            if p.ok {
                Ok(QM(Tok::new(&w2, i, Kind::Q)))
            } else {
                Err(())
            }
        })
    }

    fn enqueue<S>(&self, _mail: Mail<S, Meta>) -> Box<dyn Future<Item = QM, Error = ()>>
    where
        S: Stream<Item = BytesMut, Error = ()>,
    {
        self.0.wrong("Q02", "a mail was enqueued".into());
        Box::new(futures::future::err(()))
    }

    fn send_start(&self, mut mail: QM) -> Box<dyn Future<Item = IM, Error = ()> + Send> {
        let w = self.0.clone();
        let i = mail.0.mail;
        mail.0.used = true;
        w.ev(i, What::Start, None, false);
        let k = {
            let mut s = w.lock();
            let k = s.starts.entry(i).or_insert(0);
            *k += 1;
            *k - 1
        };
        let p = op_at(&w.plan.mails[i].start, k);
        let w2 = w.clone();
        op(&w, p.wait, format!("starting mail {}", i), move || {
            w2.ev(i, What::Start, Some(p.ok), false);
            if p.ok {
                let t = Tok::new(&w2, i, Kind::I);
                w2.lock().inflight.insert(i, t.serial);
                Ok(IM(t))
            } else {
                Err(())
            }
        })
    }

    fn send_done(&self, mut mail: IM) -> Box<dyn Future<Item = (), Error = ()> + Send> {
        let w = self.0.clone();
        let i = mail.0.mail;
        mail.0.used = true;
        w.ev(i, What::Done, None, false);
        let sent = w.lock().sent_by.get(&mail.0.serial).cloned();
        match sent {
            Some((_, true)) => (),
            Some((_, false)) => w.wrong("Q02", format!("mail {} was marked as delivered although the transport refused it", i)),
            None => w.wrong("Q02", format!("mail {} was marked as delivered before the transport took it", i)),
        }
        let p = w.plan.mails[i].done.clone();
        let w2 = w.clone();
        op(&w, p.wait, format!("completing mail {}", i), move || {
            w2.ev(i, What::Done, Some(p.ok), false);
            w2.lock().inflight.remove(&i);
            if p.ok {
                Ok(())
            } else {
                Err(())
            }
        })
    }

    fn send_cancel(&self, mut mail: IM) -> Box<dyn Future<Item = QM, Error = ()> + Send> {
        let w = self.0.clone();
        let i = mail.0.mail;
        mail.0.used = true;
        w.ev(i, What::Cancel, None, false);
        let sent = w.lock().sent_by.get(&mail.0.serial).cloned();
        match sent {
            Some((_, true)) => w.wrong("Q02", format!("mail {} went back to the queue although the transport took it", i)),
            Some((_, false)) => (),
            None => {
                if mail.0.may_drop.load(SeqCst) == 0 {
                    w.wrong("Q02", format!("mail {} went back to the queue before the transport answered", i))
                }
            }
        }
        let k = {
            let mut s = w.lock();
            let k = s.cancels.entry(i).or_insert(0);
            *k += 1;
            *k - 1
        };
        let p = op_at(&w.plan.mails[i].cancel, k);
        let w2 = w.clone();
        op(&w, p.wait, format!("giving back mail {}", i), move || {
            w2.ev(i, What::Cancel, Some(p.ok), false);
            w2.lock().inflight.remove(&i);
            if p.ok {
                Ok(QM(Tok::new(&w2, i, Kind::Q)))
            } else {
                Err(())
            }
        })
    }
}

pub struct Trans(pub World);

pub fn addr(e: &Email) -> Vec<u8> {
    use smtp_message::Sendable;
    let mut v = vec![];
    e.send_to(&mut v).expect("harness: memory");
    v
}

fn show_addrs(a: &[Vec<u8>]) -> Vec<String> {
    a.iter().map(|a| yv_engine::util::show(a)).collect()
}

impl Transport<Meta> for Trans {
    fn send<S: Stream<Item = BytesMut, Error = ()>>(&self, mail: Mail<S, Meta>) -> Box<dyn Future<Item = (), Error = (ReplyCode, SmtpString)> + Send> {
        let w = self.0.clone();
        let Mail { from, to, mut data, metadata: Meta { mail: i, serial } } = mail;
        w.ev(i, What::Send, None, false);
        let k = {
            let mut s = w.lock();
            let k = s.attempts.entry(i).or_insert(0);
            *k += 1;
            *k - 1
        };
        let plan = w.clone();
        let m = &plan.plan.mails[i];
        if w.lock().inflight.get(&i) != Some(&serial) {
            w.wrong("Q02", format!("mail {} was sent without being in flight", i));
        }
        if w.lock().taken.contains(&i) {
            w.wrong("Q01", format!("mail {} was sent again after the transport took it", i));
        }
        let f = from.as_ref().map(addr);
        if f != m.from {
            w.wrong("Q05", format!("mail {} was sent from {:?}, stored from {:?}", i, f.map(|x| yv_engine::util::show(&x)), m.from.as_ref().map(|x| yv_engine::util::show(x))));
        }
        let t: Vec<Vec<u8>> = to.iter().map(addr).collect();
        if t != m.to {
            w.wrong("Q05", format!("mail {} was sent to {:?}, stored for {:?}", i, show_addrs(&t), show_addrs(&m.to)));
        }
        let p = m.send_at(k).clone();
        let want: Vec<&[u8]> = m.chunks.iter().map(|c| &c[..]).collect();
        let mut got: Vec<Vec<u8>> = vec![];
        let mut ended = false;
        for k in 0..p.read.unwrap_or(usize::MAX) {
            match data.poll() {
                Err(()) if m.data_err == Some(k) => break,
                Ok(Async::Ready(None)) if m.data_err.map_or(false, |n| n <= m.chunks.len()) => {
                    w.wrong("Q05", format!("the content of mail {}, which cannot be read to its end, was sent as if it could", i));
                    break;
                }
                Ok(Async::Ready(Some(b))) => got.push(b.to_vec()),
                Ok(Async::Ready(None)) => {
                    ended = true;
                    break;
                }
                Ok(Async::NotReady) | Err(()) => {
                    w.wrong("Q05", format!("the content of mail {} cannot be read", i));
                    break;
                }
            }
        }
        let (got, want): (Vec<u8>, Vec<u8>) = (got.concat(), want.concat());
        if ended && got != want || !want.starts_with(&got) {
            w.wrong("Q05", format!("mail {} was sent with the content {:?}, stored {:?}", i, yv_engine::util::show(&got), yv_engine::util::show(&want)));
        }
        let w2 = w.clone();
        op(&w, p.wait, format!("sending mail {}", i), move || {
            let ok = p.err.is_none();
            w2.ev(i, What::Send, Some(ok), false);
            if ok {
                w2.lock().taken.insert(i);
            }
            let twice = w2.lock().sent_by.insert(serial, (i, ok));
            if twice.is_some() {
                w2.wrong("Q02", format!("mail {} was sent twice for one start", i));
            }
            match p.err {
                None => Ok(()),
                Some(c) => Err((ReplyCode::custom(c), SmtpString::from(&p.text[..]))),
            }
        })
    }
}

pub struct Sim {
    pub w: World,
    pub end: End,
    /// when the run was over, before it was torn down: references to the storage and to the
    /// transport besides ours, handles, operations and contents
    pub left: Left,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub struct Left {
    pub storage: usize,
    pub transport: usize,
    pub handles: i64,
    pub waits: i64,
    pub contents: i64,
    /// listings
    pub lists: i64,
}

pub fn simulate(plan: &Plan, horizon_ms: u64) -> Sim {
    let now = Arc::new(AtomicU64::new(0));
    let base = Instant::now();
    let w: World = Arc::new(Shared { st: Mutex::new(St::default()), plan: plan.clone(), base, now: now.clone() });
    let (stor, trans) = (Arc::new(Store(w.clone())), Arc::new(Trans(w.clone())));
    let mut left = Left::default();
    let end = drive(
        base,
        &now,
        horizon_ms,
        100_000,
        || {
            let w3 = w.clone();
            smtp_queue::run::<Meta, QM, IM, FIM, _, _>(stor.clone(), trans.clone()).then(move |r| {
                w3.lock().run_result = Some(r);
                Ok(())
            })
        },
        || {
            let mut s = w.lock();
            left = Left { storage: Arc::strong_count(&stor) - 1, transport: Arc::strong_count(&trans) - 1, handles: s.handles, waits: s.waits, contents: s.contents, lists: s.lists };
            s.shutdown = true;
        },
    );
    w.lock().now = now.load(SeqCst);
    Sim { w, end, left }
}
