//! Workloads for the sanitizers: everything else the harness can do with verdicts ignored (they
//! are other properties' business), and what only matters for memory: pinned places staying where
//! they are, values dropped once, data shared and handed over between threads.
use crate::env::*;
use crate::gen::{self, Opts};
use crate::session;
use crate::{msg, model::*};
use bytes::{Bytes, BytesMut};
use futures::{Sink, Stream};
use smtp_message::{Command, Email, IsLastLine, Prependable, ReplyCode, ReplyLine, Sendable, SmtpString};
use std::{
    collections::VecDeque,
    marker::PhantomPinned,
    pin::Pin,
    sync::{
        atomic::{AtomicUsize, Ordering::SeqCst},
        Arc, Mutex,
    },
    task::{Context, Poll, Wake, Waker},
};
use yv_engine::run::{guarded, violation, CaseFn, Fail, Obs};
use yv_engine::src::Src;
use yv_engine::util::show;
use yv_glue::*;

pub type R = Result<(), Fail>;

const OTHERS: &[(&str, CaseFn)] = &[
    ("session", session::s01),
    ("session", session::s03),
    ("session", session::s05),
    ("session", session::s06),
    ("session", session::s08),
    ("session", session::s09),
    ("session", session::s10),
    ("session", session::s11),
    ("session", session::s12),
    ("session", session::s13),
    ("decoder", msg::m01),
    ("encoder", msg::m02),
    ("decoder", msg::m03),
    ("command", msg::m04),
    ("command", msg::m05),
    ("mailbox", msg::m06),
    ("reply", msg::m07),
    ("parsers", msg::m08),
    ("views", msg::m09),
    ("push_back", msg::m10),
    ("writers", msg::m11),
];

pub fn u01(s: &mut Src, o: &mut Obs) -> R {
    match s.below(5) {
        0 => pinned_writer(s, o),
        1 => pinned_source(s, o),
        2 => shared_buffers(s, o),
        _ => {
            let (n, f) = OTHERS[s.below(OTHERS.len())];
            // its verdict is not ours
            let _ = guarded(|| f(s, o));
            o.nontrivial = true;
            o.counts.clear();
            o.maxima.clear();
            o.add(n, 1);
            if o.describe {
                o.desc = format!("{} case\n{}", n, o.desc);
            }
            Ok(())
        }
    }
}

/// Notes when it is not where it was first used
struct Place {
    at: AtomicUsize,
    moved: Arc<AtomicUsize>,
    uses: Arc<AtomicUsize>,
    _p: PhantomPinned,
}
impl Place {
    fn new(moved: &Arc<AtomicUsize>, uses: &Arc<AtomicUsize>) -> Place {
        Place { at: AtomicUsize::new(0), moved: moved.clone(), uses: uses.clone(), _p: PhantomPinned }
    }
    fn here(&self) {
        let me = self as *const Place as usize;
        let was = self.at.swap(me, SeqCst);
        self.uses.fetch_add(1, SeqCst);
        if was != 0 && was != me {
            self.moved.fetch_add(1, SeqCst);
        }
    }
}
impl Drop for Place {
    fn drop(&mut self) {
        if self.at.load(SeqCst) != 0 {
            self.here();
        }
    }
}

struct StayingSink {
    inner: SinkW,
    place: Place,
}
impl StayingSink {
    fn parts(self: Pin<&mut Self>) -> Pin<&mut SinkW> {
        self.place.here();
        // SAFETY: SinkW is Unpin and only handed out by reference
        Pin::new(unsafe { &mut self.get_unchecked_mut().inner })
    }
}
impl Sink<Bytes> for StayingSink {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        self.parts().poll_ready(cx)
    }
    fn start_send(self: Pin<&mut Self>, i: Bytes) -> Result<(), ()> {
        self.parts().start_send(i)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        self.parts().poll_flush(cx)
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        self.parts().poll_close(cx)
    }
}

fn pinned_writer(s: &mut Src, o: &mut Obs) -> R {
    let opts = Opts { pieces: 10, repeat: false, plain: false, ..Opts::default() };
    let c = gen::conversation(s, &opts);
    let ch = gen::chunking(s, &c.wire, Some(&c.gates));
    let w = World::new(ch, c.eof_gate, gen::pend(s));
    let (moved, uses) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
    let sink = Box::pin(StayingSink { inner: w.sink(), place: Place::new(&moved, &uses) });
    let pol = Custom(Box::new(MonPolicy::new(w.clone(), c.plan.clone())));
    let seed = s.seed();
    let cancel = if s.chance(1, 3) { Some(s.below(30) as u64) } else { None };
    let r = guarded(|| drive(&w, session_pinned(Box::pin(w.reader()), sink, c.plan.user.clone(), pol), seed, cancel).1);
    o.sign(&c.wire);
    o.nontrivial = uses.load(SeqCst) > 1;
    o.add("pinned_sessions", 1);
    o.add("pinned_uses", uses.load(SeqCst) as u64);
    if o.describe {
        o.desc = format!("session on a writer that may not move, input {}, {:?}", show(&c.wire), r);
    }
    if moved.load(SeqCst) > 0 {
        return violation("the pinned writer was moved after it had been used");
    }
    Ok(())
}

struct StayingStream {
    place: Place,
    items: VecDeque<Option<Tracked>>,
}
/// Counts its drops
struct Tracked {
    id: u64,
    mark: Box<u64>,
    drops: Arc<Mutex<Vec<u64>>>,
}
impl Drop for Tracked {
    fn drop(&mut self) {
        self.drops.lock().unwrap().push(*self.mark);
    }
}
impl Stream for StayingStream {
    type Item = Tracked;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Tracked>> {
        self.place.here();
        // SAFETY: nothing is moved out of its pinned place
        let me = unsafe { self.get_unchecked_mut() };
        match me.items.pop_front() {
            None => Poll::Ready(None),
            Some(None) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Some(Some(t)) => Poll::Ready(Some(t)),
        }
    }
}

struct NoWake;
impl Wake for NoWake {
    fn wake(self: Arc<Self>) {}
}

fn pinned_source(s: &mut Src, o: &mut Obs) -> R {
    let drops = Arc::new(Mutex::new(vec![]));
    let (moved, uses) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
    let mut id = 0;
    let mut make = |drops: &Arc<Mutex<Vec<u64>>>| {
        id += 1;
        Tracked { id, mark: Box::new(id), drops: drops.clone() }
    };
    let n = s.below(6);
    let items: VecDeque<Option<Tracked>> = (0..n).map(|_| if s.chance(1, 4) { None } else { Some(make(&drops)) }).collect();
    let mut p = Prependable::new(StayingStream { place: Place::new(&moved, &uses), items });
    let k = s.below(3);
    let mut trace = vec![k as u8, n as u8];
    for _ in 0..k {
        let _ = p.prepend(make(&drops));
    }
    let mut p = Box::pin(p);
    let w = Waker::from(Arc::new(NoWake));
    let mut held = vec![];
    let m = s.below(9);
    for _ in 0..m {
        match p.as_mut().poll_next(&mut Context::from_waker(&w)) {
            Poll::Ready(Some(t)) => {
                trace.push(t.id as u8);
                if t.id != *t.mark {
                    return violation("an item changed in the push-back stream");
                }
                if s.chance(1, 2) {
                    held.push(t)
                }
            }
            Poll::Ready(None) => break,
            Poll::Pending => trace.push(255),
        }
    }
    if s.chance(1, 2) {
        drop(p);
        drop(held);
    } else {
        drop(held);
        drop(p);
    }
    let mut d = drops.lock().unwrap().clone();
    d.sort_unstable();
    o.sign(&trace);
    o.nontrivial = uses.load(SeqCst) > 1;
    o.add("pinned_streams", 1);
    o.add("tracked_items", id);
    if o.describe {
        o.desc = format!("push-back stream over a source that may not move: {:?}, dropped {:?}", trace, d);
    }
    if d != (1..=id).collect::<Vec<_>>() {
        return violation(format!("{} items were made, dropped were {:?}", id, d));
    }
    if moved.load(SeqCst) > 0 {
        return violation("the pinned source was moved after it had been used");
    }
    Ok(())
}

fn wire_of(x: &dyn Sendable) -> Vec<u8> {
    let mut v = vec![];
    let _ = x.send_to(&mut v);
    v
}

enum Parsed {
    C(Command),
    E(Email),
    R(ReplyLine),
    S(SmtpString),
}
impl Parsed {
    fn show(&self) -> Vec<u8> {
        match self {
            Parsed::C(c) => {
                let mut v = vec![];
                let _ = c.send_to(&mut v);
                v
            }
            Parsed::E(e) => {
                let mut v = wire_of(e);
                v.extend_from_slice(&e.localpart().bytes()[..]);
                v.extend_from_slice(&e.raw_localpart().bytes()[..]);
                if let Some(h) = e.hostname() {
                    v.extend(wire_of(h));
                }
                v
            }
            Parsed::R(r) => {
                let mut v = vec![];
                let _ = r.send_to(&mut v);
                v
            }
            Parsed::S(x) => {
                let mut v: Vec<u8> = x.byte_chunks(7).flat_map(|c| c.bytes().to_vec()).collect();
                v.extend_from_slice(&x.bytes()[..]);
                v
            }
        }
    }
}

fn parsed(s: &mut Src, buf: &mut BytesMut) -> Option<Parsed> {
    let k = s.below(4);
    let b = match k {
        0 => gen::valid_line(s),
        1 => gen::addr(s).wire(),
        2 => {
            let mut v = b"250-".to_vec();
            v.extend(gen::reply_text(s, 60));
            v.extend_from_slice(b"\r\n");
            v
        }
        _ => {
            let n = s.size(200);
            s.bytes(n)
        }
    };
    buf.extend_from_slice(&b);
    let b = buf.split_to(b.len()).freeze();
    match k {
        0 => Command::parse(b).ok().map(Parsed::C),
        1 => Email::parse_slice(&b).ok().map(Parsed::E),
        2 => ReplyLine::parse(b).ok().map(Parsed::R),
        _ => Some(Parsed::S(SmtpString::from(b))),
    }
}

/// Things parsed out of parts of one buffer outlive it and each other
fn shared_buffers(s: &mut Src, o: &mut Obs) -> R {
    let mut buf = BytesMut::with_capacity(s.below(4000));
    let n = 1 + s.below(8);
    let mut all: Vec<(Parsed, Vec<u8>)> = vec![];
    for _ in 0..n {
        if let Ok(Some(p)) = guarded(|| parsed(s, &mut buf)) {
            if let Ok(v) = guarded(|| p.show()) {
                o.sign(&v);
                all.push((p, v));
            }
        }
    }
    drop(buf);
    o.nontrivial = all.len() > 1;
    o.add("shared_buffer_cases", 1);
    while !all.is_empty() {
        let k = s.below(all.len());
        let (p, v) = all.swap_remove(k);
        drop(p);
        for (p, v) in &all {
            if let Ok(x) = guarded(|| p.show()) {
                if x != *v {
                    return violation(format!("a value changed when others were dropped: {} became {}", show(v), show(&x)));
                }
            }
        }
        drop(v);
    }
    Ok(())
}

// ---- several threads

struct Fed {
    q: VecDeque<BytesMut>,
    end: bool,
    waker: Option<Waker>,
}
struct FedReader(Arc<Mutex<Fed>>);
impl Stream for FedReader {
    type Item = BytesMut;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<BytesMut>> {
        let mut f = self.0.lock().unwrap();
        match f.q.pop_front() {
            Some(b) => Poll::Ready(Some(b)),
            None if f.end => Poll::Ready(None),
            None => {
                f.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

struct Unpark(std::thread::Thread);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark()
    }
}

/// A session fed by another thread that goes on writing into the rest of the same buffer, next to
/// other sessions and to threads that use the same parsed values
pub fn threads(s: &mut Src, o: &mut Obs) -> R {
    let n = 1 + s.below(3);
    let mut convs = vec![];
    for _ in 0..n {
        let opts = Opts { pieces: 8, repeat: false, plain: false, ..Opts::default() };
        let c = gen::conversation(s, &opts);
        let alone = guarded(|| session::run(&c.plan, gen::one_chunk(&c.wire), 0, vec![], 1, None, None));
        o.sign(&c.wire);
        convs.push((c, s.seed(), alone));
    }
    let mut buf = BytesMut::with_capacity(2000);
    let mut shared: Vec<(Parsed, Vec<u8>)> = vec![];
    for _ in 0..4 {
        if let Ok(Some(p)) = guarded(|| parsed(s, &mut buf)) {
            if let Ok(v) = guarded(|| p.show()) {
                shared.push((p, v));
            }
        }
    }
    let shared = Arc::new(shared);
    o.nontrivial = true;
    let bad: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for (c, seed, alone) in &convs {
            let fed = Arc::new(Mutex::new(Fed { q: VecDeque::new(), end: false, waker: None }));
            let f2 = fed.clone();
            let (wire, seed) = (c.wire.clone(), *seed);
            sc.spawn(move || {
                // one allocation: earlier parts are being read by the session while later ones are
                // still being written
                let mut rng = yv_engine::util::Rng::new(seed);
                let mut b = BytesMut::with_capacity(wire.len() + 64);
                let mut p = 0;
                while p < wire.len() {
                    let k = (1 + rng.below(24)).min(wire.len() - p);
                    b.extend_from_slice(&wire[p..p + k]);
                    p += k;
                    let part = b.split_to(k);
                    let w = {
                        let mut f = f2.lock().unwrap();
                        f.q.push_back(part);
                        f.waker.take()
                    };
                    if let Some(w) = w {
                        w.wake();
                    }
                    if rng.chance(1, 4) {
                        std::thread::yield_now();
                    }
                }
                let w = {
                    let mut f = f2.lock().unwrap();
                    f.end = true;
                    f.waker.take()
                };
                if let Some(w) = w {
                    w.wake();
                }
            });
            let (plan, bad) = (c.plan.clone(), &bad);
            sc.spawn(move || {
                let r = guarded(|| {
                    let w = World::new(vec![], 0, vec![]);
                    let pol = Box::new(MonPolicy::new(w.clone(), plan.clone()));
                    let mut f = session_custom(Box::pin(FedReader(fed)), Box::pin(w.sink()), plan.user.clone(), Custom(pol));
                    let wk = Waker::from(Arc::new(Unpark(std::thread::current())));
                    let mut polls = 0u64;
                    while f.as_mut().poll(&mut Context::from_waker(&wk)).is_pending() {
                        polls += 1;
                        std::thread::park_timeout(std::time::Duration::from_secs(if polls > 1_000_000 { 1 } else { 5 }));
                    }
                    let out = w.lock().out.clone();
                    out
                });
                if let (Ok(out), Ok(a)) = (&r, alone) {
                    if *out != a.world.lock().out {
                        let mut b = bad.lock().unwrap();
                        b.get_or_insert("a session fed by another thread answered differently".to_string());
                    }
                }
            });
        }
        for _ in 0..2 {
            let (sh, bad) = (shared.clone(), &bad);
            sc.spawn(move || {
                for _ in 0..3 {
                    for (p, v) in sh.iter() {
                        let copy = match p {
                            Parsed::S(x) => Some(Parsed::S(x.clone())),
                            _ => None,
                        };
                        for q in [Some(p), copy.as_ref()].into_iter().flatten() {
                            if let Ok(x) = guarded(|| q.show()) {
                                if x != *v {
                                    bad.lock().unwrap().get_or_insert(format!("a value used by two threads reads {} instead of {}", show(&x), show(v)));
                                }
                            }
                        }
                    }
                }
            });
        }
        drop(shared);
    });
    o.add("threaded_runs", 1);
    o.add("threads", 2 * n as u64 + 2);
    if o.describe {
        o.desc = format!("{} sessions fed by other threads, 2 threads using the same values", n);
    }
    let b = bad.lock().unwrap().take();
    match b {
        Some(m) => violation(m),
        None => Ok(()),
    }
}

#[allow(dead_code)]
fn unused(_: ReplyCode, _: IsLastLine) {}
