//! What lasts: mail that is refused thousands of times, on a storage and a transport that record
//! nothing.  The memory held and the stack used must not grow with the attempts.
use crate::vtime::{drive, End};
use bytes::BytesMut;
use futures::{stream, Async, Future, Poll, Stream};
use smtp_message::{Email, ReplyCode, SmtpString};
use smtp_queue::{FoundInflightMail, InflightMail, Mail, QueuedMail, Storage, Transport};
use std::{
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};
use tokio_timer::Delay;
use yv_engine::mem::take;
use yv_engine::run::{violation, Fail, Obs};
use yv_engine::src::Src;
use yv_engine::util::mix;

const HOUR: u64 = 3_600_000;
/// A stack that grows by this much is growing with the attempts
const STACK: usize = 96 * 1024;
/// What the held memory may vary by: buffers of the executor and of the timer
const SLACK: i64 = 24 * 1024;

#[derive(Clone, Copy, Debug)]
enum How {
    Now,
    Later(u8),
    Ms(u64),
}

struct World {
    base: Instant,
    now: Arc<AtomicU64>,
    queued: usize,
    found: usize,
    /// refusals per mail before all are taken
    refusals: u64,
    how: [How; 5],
    live: AtomicUsize,
    st: Mutex<St>,
}

struct St {
    taken: Vec<bool>,
    /// addresses of a local of the transport, for the first attempts
    stack: (usize, usize),
    deep: Option<(usize, usize)>,
    /// memory held at fixed counts of attempts
    marks: Vec<i64>,
    total: u64,
}

struct Handle(Arc<World>, usize);
impl Handle {
    fn new(w: &Arc<World>, i: usize) -> Handle {
        w.live.fetch_add(1, SeqCst);
        Handle(w.clone(), i)
    }
}
impl Drop for Handle {
    fn drop(&mut self) {
        self.0.live.fetch_sub(1, SeqCst);
    }
}
struct Q(Handle);
struct I(Handle);
struct F(Handle);

struct Wait<T> {
    left: u8,
    delay: Option<Delay>,
    out: Option<T>,
}
impl<T> Future for Wait<T> {
    type Item = T;
    type Error = ();
    fn poll(&mut self) -> Poll<T, ()> {
        if let Some(d) = &mut self.delay {
            if let Ok(Async::NotReady) = d.poll() {
                return Ok(Async::NotReady);
            }
        }
        if self.left > 0 {
            self.left -= 1;
            futures::task::current().notify();
            return Ok(Async::NotReady);
        }
        Ok(Async::Ready(self.out.take().expect("polled after it was done")))
    }
}
fn wait<T: Send + 'static>(w: &World, how: How, out: T) -> Box<dyn Future<Item = T, Error = ()> + Send> {
    let (left, ms) = match how {
        How::Now => return Box::new(futures::future::ok(out)),
        How::Later(n) => (n, None),
        How::Ms(m) => (0, Some(m)),
    };
    let delay = ms.map(|m| Delay::new(w.base + Duration::from_millis(w.now.load(SeqCst) + m)));
    Box::new(Wait { left, delay, out: Some(out) })
}

impl QueuedMail<()> for Q {}
impl FoundInflightMail<()> for F {}
impl InflightMail<()> for I {
    fn get_mail(&self) -> Box<dyn Future<Item = Mail<Box<dyn Stream<Item = BytesMut, Error = ()>>, ()>, Error = ()> + Send> {
        let w = self.0 .0.clone();
        let how = w.how[1];
        let f = wait(&w, how, ());
        Box::new(f.map(|()| {
            let data: Box<dyn Stream<Item = BytesMut, Error = ()>> = Box::new(stream::once(Ok(BytesMut::from(&b"content\r\n"[..]))));
            Mail { from: None, to: vec![Email::parse_slice(b"who@example.org").expect("harness: address")], data, metadata: () }
        }))
    }
}

struct Store(Arc<World>);
struct Trans(Arc<World>, Arc<AtomicUsize>);

impl Storage<(), Q, I, F> for Store {
    fn list_queue(&self) -> Box<dyn Stream<Item = Q, Error = ()>> {
        let w = self.0.clone();
        Box::new(stream::iter_ok((0..w.queued).map(move |i| Q(Handle::new(&w, i)))))
    }
    fn find_inflight(&self) -> Box<dyn Stream<Item = F, Error = ()>> {
        let w = self.0.clone();
        Box::new(stream::iter_ok((w.queued..w.queued + w.found).map(move |i| F(Handle::new(&w, i)))))
    }
    fn cancel_found_inflight(&self, m: F) -> Box<dyn Future<Item = Q, Error = ()> + Send> {
        wait(&self.0, self.0.how[3], Q(m.0))
    }
    fn enqueue<S: Stream<Item = BytesMut, Error = ()>>(&self, _: Mail<S, ()>) -> Box<dyn Future<Item = Q, Error = ()>> {
        Box::new(futures::future::err(()))
    }
    fn send_start(&self, m: Q) -> Box<dyn Future<Item = I, Error = ()> + Send> {
        wait(&self.0, self.0.how[0], I(m.0))
    }
    fn send_done(&self, m: I) -> Box<dyn Future<Item = (), Error = ()> + Send> {
        self.0.st.lock().unwrap().taken[m.0 .1] = true;
        wait(&self.0, self.0.how[4], ())
    }
    fn send_cancel(&self, m: I) -> Box<dyn Future<Item = Q, Error = ()> + Send> {
        wait(&self.0, self.0.how[3], Q(m.0))
    }
}

const CODES: [u16; 7] = [450, 421, 451, 550, 452, 554, 250];
const MARKS: u64 = 8;

impl Transport<()> for Trans {
    fn send<S: Stream<Item = BytesMut, Error = ()>>(&self, _: Mail<S, ()>) -> Box<dyn Future<Item = (), Error = (ReplyCode, SmtpString)> + Send> {
        let w = &self.0;
        let here = 0u8;
        let at = &here as *const u8 as usize;
        let n = self.1.fetch_add(1, SeqCst) as u64 + 1;
        let mut s = w.st.lock().unwrap();
        s.total = n;
        if n <= 16 {
            if n == 1 {
                s.stack = (at, at);
            }
            s.stack = (s.stack.0.min(at), s.stack.1.max(at));
        } else if at + STACK < s.stack.0 && s.deep.is_none() {
            s.deep = Some((n as usize, s.stack.0 - at));
        }
        let all = (w.refusals + 1) * (w.queued + w.found) as u64;
        if n % (all / MARKS).max(1) == 0 {
            let held = take().0;
            s.marks.push(held);
        }
        let refuse = s.deep.is_none() && n <= w.refusals * (w.queued + w.found) as u64;
        drop(s);
        Box::new(wait(w, w.how[2], ()).then(move |_| if refuse { Err((ReplyCode::custom(CODES[n as usize % CODES.len()]), SmtpString::from(&b"no"[..]))) } else { Ok(()) }))
    }
}

fn how(s: &mut Src) -> How {
    match s.below(6) {
        0..=2 => How::Now,
        3 => How::Later(1 + s.below(3) as u8),
        4 => How::Ms(1 + s.below(1000) as u64),
        _ => How::Ms(1 + s.below(1_000_000) as u64),
    }
}

pub fn q07_long(i: u64, o: &mut Obs) -> Result<(), Fail> {
    let mut s = Src::random(mix(707, i));
    let queued = s.below(4) as usize;
    let found = if queued == 0 { 1 + s.below(3) as usize } else { s.below(3) as usize };
    let mut hows = [How::Now; 5];
    if i % 8 != 0 {
        for h in &mut hows {
            *h = how(&mut s);
        }
    }
    let refusals = if o.thorough { 20_000 } else { 2_500 };
    let now = Arc::new(AtomicU64::new(0));
    let base = Instant::now();
    let w = Arc::new(World {
        base,
        now: now.clone(),
        queued,
        found,
        refusals,
        how: hows,
        live: AtomicUsize::new(0),
        st: Mutex::new(St { taken: vec![false; queued + found], stack: (0, 0), deep: None, marks: Vec::with_capacity(64), total: 0 }),
    });
    let count = Arc::new(AtomicUsize::new(0));
    let (stor, trans) = (Arc::new(Store(w.clone())), Arc::new(Trans(w.clone(), count.clone())));
    let mut left = (0, 0, 0);
    let end = drive(
        base,
        &now,
        u64::MAX / 4,
        3_000_000,
        || smtp_queue::run::<(), Q, I, F, _, _>(stor.clone(), trans.clone()).then(|_| Ok(())),
        || left = (Arc::strong_count(&stor) - 1, Arc::strong_count(&trans) - 1, w.live.load(SeqCst)),
    );
    let st = w.st.lock().unwrap();
    let what = format!("{} mails queued, {} found in flight, {} refusals each, waits {:?}", queued, found, refusals, hows);
    o.max("attempts_in_one_long_run", st.total);
    if o.describe {
        o.desc = what.clone();
    }
    o.nontrivial = true;
    o.sign(&mix(i, 7).to_le_bytes());
    if let Some((n, d)) = st.deep {
        return violation(format!("{}: at attempt {} the stack is {} bytes deeper than at the first", what, n, d));
    }
    if let (Some(a), Some(b)) = (st.marks.get(1), st.marks.iter().skip(2).max()) {
        o.max("memory_growth_over_a_long_run", (b - a).max(0) as u64);
        if b - a > SLACK {
            return violation(format!("{}: the memory held grows with the attempts, from {} bytes to {} ({:?} over {} attempts)", what, a, b, st.marks, st.total));
        }
    }
    if end == End::Quiet && st.taken.iter().all(|&t| t) && left != (0, 0, 0) {
        return violation(format!("{}: all is delivered, but {} references to the storage, {} to the transport and {} handles are still held", what, left.0, left.1, left.2));
    }
    o.add("long_runs_all_delivered", (end == End::Quiet && st.taken.iter().all(|&t| t)) as u64);
    Ok(())
}
pub fn q07_long_n(thorough: bool) -> u64 {
    if thorough {
        200
    } else {
        64
    }
}
