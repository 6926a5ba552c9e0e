//! The queue on several threads: its tasks run at the same time, waits end on other threads, and
//! the threads are held up at random.  Virtual time passes only when every task waits for a timer.
use crate::vtime::{VNow, VPark};
use bytes::BytesMut;
use futures::executor::{spawn, Notify, Spawn};
use futures::{future, stream, task, Async, Future, Poll, Stream};
use smtp_message::{Email, ReplyCode, SmtpString};
use smtp_queue::{FoundInflightMail, InflightMail, Mail, QueuedMail, Storage, Transport};
use std::{
    cell::{Cell, RefCell},
    collections::VecDeque,
    rc::Rc,
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicU8, AtomicUsize, Ordering::SeqCst},
        Arc, Condvar, Mutex, OnceLock, Weak,
    },
    time::{Duration, Instant},
};
use tokio_executor::{Executor, SpawnError};
use tokio_timer::{clock::Clock, timer::Timer, Delay};
use yv_engine::run::{violation, Fail, Obs};
use yv_engine::src::Src;
use yv_engine::util::mix;

type R = Result<(), Fail>;
type Fut = Box<dyn Future<Item = (), Error = ()> + Send>;

thread_local! {
    static RNG: Cell<u64> = const { Cell::new(1) };
}
fn rnd(n: u64) -> u64 {
    RNG.with(|r| {
        let x = mix(r.get(), 0x9e37);
        r.set(x);
        x % n
    })
}
/// Holds this thread up for a moment, at random
fn jitter(strength: u8) {
    match (strength, rnd(32)) {
        (0, _) => (),
        (_, 0) => std::thread::yield_now(),
        (_, 1..=4) => (0..rnd(400)).for_each(|_| std::hint::spin_loop()),
        (2, 5) => (0..rnd(20_000)).for_each(|_| std::hint::spin_loop()),
        (2, 6) if rnd(16) == 0 => std::thread::sleep(Duration::from_micros(rnd(200))),
        _ => (),
    }
}

// ---- a pool of threads

struct Job {
    me: OnceLock<Weak<Job>>,
    fut: Mutex<Option<Spawn<Fut>>>,
    state: AtomicU8,
    pool: Arc<Pool>,
}
const IDLE: u8 = 0;
const QUEUED: u8 = 1;
const RUNNING: u8 = 2;
const AGAIN: u8 = 3;

#[derive(Default)]
struct Inner {
    ready: VecDeque<Arc<Job>>,
    /// waits that the helper ends: what to set, whom to wake
    waits: Vec<(Arc<AtomicBool>, task::Task)>,
    stop: bool,
    panic: Option<String>,
}

struct Pool {
    q: Mutex<Inner>,
    work: Condvar,
    help: Condvar,
    rest: Condvar,
    /// jobs queued or running, and waits with the helper
    active: AtomicUsize,
    progress: AtomicU64,
    at_once: AtomicUsize,
    most: AtomicUsize,
    jitter: u8,
}

impl Pool {
    fn push(&self, j: Arc<Job>) {
        self.active.fetch_add(1, SeqCst);
        let mut q = self.q.lock().unwrap();
        let n = q.ready.len();
        // no order is promised
        if n > 0 && rnd(4) == 0 {
            let at = rnd(n as u64 + 1) as usize;
            q.ready.insert(at, j);
        } else {
            q.ready.push_back(j);
        }
        drop(q);
        self.work.notify_one();
    }
    fn less(&self) {
        self.progress.fetch_add(1, SeqCst);
        if self.active.fetch_sub(1, SeqCst) == 1 {
            let _q = self.q.lock().unwrap();
            self.rest.notify_all();
        }
    }
    fn work(self: &Arc<Pool>) {
        loop {
            let j = {
                let mut q = self.q.lock().unwrap();
                loop {
                    if q.stop {
                        return;
                    }
                    if let Some(j) = q.ready.pop_front() {
                        break j;
                    }
                    q = self.work.wait(q).unwrap();
                }
            };
            jitter(self.jitter);
            let n = self.at_once.fetch_add(1, SeqCst) + 1;
            self.most.fetch_max(n, SeqCst);
            j.run();
            self.at_once.fetch_sub(1, SeqCst);
            self.less();
        }
    }
    fn help(self: &Arc<Pool>) {
        loop {
            let (flag, t) = {
                let mut q = self.q.lock().unwrap();
                loop {
                    if q.stop {
                        return;
                    }
                    if !q.waits.is_empty() {
                        let i = rnd(q.waits.len() as u64) as usize;
                        break q.waits.swap_remove(i);
                    }
                    q = self.help.wait(q).unwrap();
                }
            };
            jitter(self.jitter);
            flag.store(true, SeqCst);
            t.notify();
            self.less();
        }
    }
}

impl Job {
    fn run(self: &Arc<Job>) {
        self.state.store(RUNNING, SeqCst);
        let mut f = self.fut.lock().unwrap();
        let mut over = true;
        if let Some(s) = f.as_mut() {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.poll_future_notify(self, 0))) {
                Ok(Ok(Async::NotReady)) => over = false,
                Ok(_) => (),
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    self.pool.q.lock().unwrap().panic.get_or_insert(m);
                }
            }
        }
        if over {
            *f = None;
            return;
        }
        drop(f);
        if self.state.compare_exchange(RUNNING, IDLE, SeqCst, SeqCst).is_err() {
            self.state.store(QUEUED, SeqCst);
            self.pool.push(self.clone());
        }
    }
}

impl Notify for Job {
    fn notify(&self, _: usize) {
        loop {
            match self.state.load(SeqCst) {
                IDLE => {
                    if self.state.compare_exchange(IDLE, QUEUED, SeqCst, SeqCst).is_ok() {
                        if let Some(me) = self.me.get().and_then(|w| w.upgrade()) {
                            self.pool.push(me);
                        }
                        return;
                    }
                }
                RUNNING => {
                    if self.state.compare_exchange(RUNNING, AGAIN, SeqCst, SeqCst).is_ok() {
                        return;
                    }
                }
                _ => return,
            }
        }
    }
}

struct Exec(Arc<Pool>);
impl Executor for Exec {
    fn spawn(&mut self, f: Fut) -> Result<(), SpawnError> {
        let j = Arc::new(Job { me: OnceLock::new(), fut: Mutex::new(Some(spawn(f))), state: AtomicU8::new(QUEUED), pool: self.0.clone() });
        let _ = j.me.set(Arc::downgrade(&j));
        self.0.push(j);
        jitter(self.0.jitter);
        Ok(())
    }
}

/// Wakes the main thread
struct Main(Arc<Pool>, AtomicBool);
impl Notify for Main {
    fn notify(&self, _: usize) {
        self.1.store(true, SeqCst);
        let _q = self.0.q.lock().unwrap();
        self.0.rest.notify_all();
    }
}

fn cpu_of_others() -> Duration {
    fn t(c: libc_clock) -> Duration {
        let mut s = [0i64; 2];
        // SAFETY: struct timespec is two 64-bit words here
        unsafe { clock_gettime(c, s.as_mut_ptr()) };
        Duration::new(s[0] as u64, s[1] as u32)
    }
    t(2).saturating_sub(t(3))
}
#[allow(non_camel_case_types)]
type libc_clock = i32;
extern "C" {
    fn clock_gettime(c: libc_clock, t: *mut i64) -> i32;
}
/// Whether some thread of this process wants to run
fn someone_runs() -> bool {
    let me = std::fs::read_link("/proc/thread-self").ok();
    let me = me.as_ref().and_then(|p| p.file_name());
    std::fs::read_dir("/proc/self/task").map_or(true, |d| {
        d.flatten().any(|e| {
            Some(e.file_name().as_os_str()) != me
                && std::fs::read_to_string(e.path().join("stat")).map_or(false, |s| s.rsplit(") ").next().map_or(false, |r| r.starts_with('R') || r.starts_with('D')))
        })
    })
}

#[derive(Debug, PartialEq)]
enum End {
    Quiet,
    /// some task blocks its thread for good, or runs on for ever
    Stuck(&'static str),
    Panic(String),
}

/// Runs what `make` makes on this thread and what it spawns on `n` others
fn drive<F: Future<Item = (), Error = ()>>(n: usize, seed: u64, strength: u8, base: Instant, now: &Arc<AtomicU64>, pool_out: &OnceLock<Arc<Pool>>, make: impl FnOnce() -> F) -> (End, Option<Result<(), ()>>) {
    let pool = Arc::new(Pool {
        q: Mutex::default(),
        work: Condvar::new(),
        help: Condvar::new(),
        rest: Condvar::new(),
        active: AtomicUsize::new(0),
        progress: AtomicU64::new(0),
        at_once: AtomicUsize::new(0),
        most: AtomicUsize::new(0),
        jitter: strength,
    });
    let _ = pool_out.set(pool.clone());
    let idle = Rc::new(RefCell::new(false));
    let clock = Clock::new_with_now(VNow { base, now: now.clone() });
    let mut timer = Timer::new_with_now(VPark { now: now.clone(), idle: idle.clone(), rest: 0 }, clock.clone());
    let th = timer.handle();
    let mut threads = vec![];
    for k in 0..n + 1 {
        let (pool, clock, th) = (pool.clone(), clock.clone(), th.clone());
        threads.push(std::thread::spawn(move || {
            RNG.with(|r| r.set(mix(seed, k as u64 + 1)));
            if k == n {
                return pool.help();
            }
            let mut enter = tokio_executor::enter().expect("harness: executor");
            tokio_timer::clock::with_default(&clock, &mut enter, |enter| {
                tokio_timer::timer::with_default(&th, enter, |enter| tokio_executor::with_default(&mut Exec(pool.clone()), enter, |_| pool.work()))
            })
        }));
    }
    RNG.with(|r| r.set(mix(seed, 0)));
    let mut enter = tokio_executor::enter().expect("harness: executor");
    let mut res = None;
    let end = tokio_timer::clock::with_default(&clock, &mut enter, |enter| {
        tokio_timer::timer::with_default(&th, enter, |enter| {
            tokio_executor::with_default(&mut Exec(pool.clone()), enter, |_| {
                let main = Arc::new(Main(pool.clone(), AtomicBool::new(true)));
                let mut f = Some(spawn(make()));
                let mut quiet = 0;
                loop {
                    if main.1.swap(false, SeqCst) {
                        if let Some(s) = f.as_mut() {
                            match s.poll_future_notify(&main, 0) {
                                Ok(Async::NotReady) => (),
                                Ok(Async::Ready(())) => res = Some(Ok(())),
                                Err(()) => res = Some(Err(())),
                            }
                            if res.is_some() {
                                f = None;
                            }
                        }
                        quiet = 0;
                    }
                    // until all wait
                    let mut q = pool.q.lock().unwrap();
                    let (mut since, mut last, mut cpu) = (Instant::now(), pool.progress.load(SeqCst), None);
                    while pool.active.load(SeqCst) > 0 && !main.1.load(SeqCst) {
                        q = pool.rest.wait_timeout(q, Duration::from_secs(1)).unwrap().0;
                        let p = pool.progress.load(SeqCst);
                        if p != last {
                            last = p;
                            since = Instant::now();
                            cpu = None;
                        } else if since.elapsed() > Duration::from_secs(10) {
                            let used = cpu_of_others();
                            let (u0, u1, t1) = *cpu.get_or_insert((used, used, Instant::now()));
                            if used - u0 > Duration::from_secs(40) {
                                return End::Stuck("runs on without end");
                            }
                            if t1.elapsed() > Duration::from_secs(8) {
                                // the engine's watchdog uses a little
                                if used - u1 < Duration::from_millis(200) && !someone_runs() {
                                    return End::Stuck("blocks its thread for good");
                                }
                                cpu = Some((u0, used, Instant::now()));
                            }
                        }
                    }
                    if let Some(m) = q.panic.take() {
                        return End::Panic(m);
                    }
                    drop(q);
                    if main.1.load(SeqCst) {
                        continue;
                    }
                    *idle.borrow_mut() = false;
                    timer.turn(None).expect("harness: timer");
                    // twice: the first turn only takes up new timers if it fired old ones
                    if *idle.borrow() && pool.active.load(SeqCst) == 0 && !main.1.load(SeqCst) {
                        quiet += 1;
                        if quiet > 1 {
                            return End::Quiet;
                        }
                    } else {
                        quiet = 0;
                    }
                }
            })
        })
    });
    pool.q.lock().unwrap().stop = true;
    pool.work.notify_all();
    pool.help.notify_all();
    if !matches!(end, End::Stuck(_)) {
        for t in threads {
            let _ = t.join();
        }
    }
    (end, res)
}

// ---- storage and transport

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Step {
    CancelFound,
    Start,
    Get,
    Send,
    Done,
    Cancel,
}

#[derive(Clone, Copy, Debug)]
enum How {
    Now,
    /// the task wakes itself
    Again,
    /// another thread ends the wait
    Other,
    Ms(u32),
}

struct Item {
    found: bool,
    refusals: usize,
    /// at which step of which attempt the storage fails
    fail: Option<(Step, usize)>,
    hows: [How; 6],
    /// with what the transport refuses it, in turn
    told: Vec<(u16, Vec<u8>)>,
    /// found mail: when the listing gives it
    to: usize,
    chunks: usize,
}

struct World {
    base: Instant,
    now: Arc<AtomicU64>,
    items: Vec<Item>,
    pool: OnceLock<Arc<Pool>>,
    logs: Vec<Mutex<Vec<(Step, u64)>>>,
    wrong: Mutex<Option<String>>,
    live: AtomicUsize,
    strength: u8,
}

impl World {
    fn t(&self) -> u64 {
        self.now.load(SeqCst)
    }
    fn log(&self, i: usize, s: Step) {
        jitter(self.strength);
        let t = self.t();
        self.logs[i].lock().unwrap().push((s, t));
    }
    /// of which attempt
    fn attempt(&self, i: usize) -> usize {
        self.logs[i].lock().unwrap().iter().filter(|l| l.0 == Step::Start).count()
    }
    fn fails(&self, i: usize, s: Step) -> bool {
        let k = self.attempt(i);
        self.items[i].fail.map_or(false, |(fs, at)| fs == s && (at == k || s == Step::CancelFound))
    }
    fn wrong(&self, m: String) {
        self.wrong.lock().unwrap().get_or_insert(m);
    }
}

struct Handle(Arc<World>, usize);
impl Handle {
    fn new(w: &Arc<World>, i: usize) -> Handle {
        w.live.fetch_add(1, SeqCst);
        Handle(w.clone(), i)
    }
}
impl Drop for Handle {
    fn drop(&mut self) {
        self.0.live.fetch_sub(1, SeqCst);
    }
}
struct Q(Handle);
struct I(Handle);
struct F(Handle);

struct Wait<T, E> {
    w: Arc<World>,
    how: How,
    step: Option<(Arc<AtomicBool>, Option<Delay>)>,
    out: Option<Result<T, E>>,
}
impl<T, E> Future for Wait<T, E> {
    type Item = T;
    type Error = E;
    fn poll(&mut self) -> Poll<T, E> {
        jitter(self.w.strength);
        if self.out.is_none() {
            self.w.wrong("an operation was polled again after its end".into());
            return Ok(Async::NotReady);
        }
        let first = self.step.is_none();
        let (flag, delay) = self.step.get_or_insert_with(Default::default);
        match self.how {
            How::Now => (),
            How::Again => {
                if first {
                    task::current().notify();
                    return Ok(Async::NotReady);
                }
            }
            How::Other => {
                if first {
                    let pool = self.w.pool.get().expect("harness: pool");
                    pool.active.fetch_add(1, SeqCst);
                    pool.q.lock().unwrap().waits.push((flag.clone(), task::current()));
                    pool.help.notify_one();
                    jitter(self.w.strength);
                }
                if !flag.load(SeqCst) {
                    return Ok(Async::NotReady);
                }
            }
            How::Ms(ms) => {
                let w = &self.w;
                let d = delay.get_or_insert_with(|| Delay::new(w.base + Duration::from_millis(w.now.load(SeqCst) + ms as u64)));
                if let Ok(Async::NotReady) = d.poll() {
                    return Ok(Async::NotReady);
                }
            }
        }
        self.out.take().unwrap().map(Async::Ready)
    }
}
fn wait<T: Send + 'static, E: Send + 'static>(w: &Arc<World>, how: How, out: Result<T, E>) -> Box<dyn Future<Item = T, Error = E> + Send> {
    Box::new(Wait { w: w.clone(), how, step: None, out: Some(out) })
}
fn op<T: Send + 'static>(w: &Arc<World>, i: usize, s: Step, out: T) -> Box<dyn Future<Item = T, Error = ()> + Send> {
    w.log(i, s);
    let bad = w.fails(i, s);
    wait(w, w.items[i].hows[s as usize], if bad { Err(()) } else { Ok(out) })
}

impl QueuedMail<usize> for Q {}
impl FoundInflightMail<usize> for F {}

fn address(i: usize, k: usize) -> String {
    format!("u{}.{}@example.org", i, k)
}
fn chunk(i: usize, k: usize) -> String {
    format!("chunk {} of mail {}\r\n", k, i)
}

type Content = Box<dyn Stream<Item = BytesMut, Error = ()>>;
impl InflightMail<usize> for I {
    fn get_mail(&self) -> Box<dyn Future<Item = Mail<Content, usize>, Error = ()> + Send> {
        let (w, i) = (self.0 .0.clone(), self.0 .1);
        Box::new(op(&w.clone(), i, Step::Get, ()).map(move |()| {
            let it = &w.items[i];
            let data: Content = Box::new(stream::iter_ok((0..it.chunks).map(move |k| BytesMut::from(chunk(i, k)))));
            let e = |a: String| Email::parse_slice(a.as_bytes()).expect("harness: address");
            Mail { from: if i % 3 == 0 { None } else { Some(e(address(i, 999))) }, to: (0..it.to).map(|k| e(address(i, k))).collect(), data, metadata: i }
        }))
    }
}

struct Store(Arc<World>);
struct Trans(Arc<World>);

impl Storage<usize, Q, I, F> for Store {
    fn list_queue(&self) -> Box<dyn Stream<Item = Q, Error = ()>> {
        let w = self.0.clone();
        Box::new(stream::iter_ok((0..w.items.len()).filter(|&i| !self.0.items[i].found).collect::<Vec<_>>()).map(move |i| {
            jitter(w.strength);
            Q(Handle::new(&w, i))
        }))
    }
    fn find_inflight(&self) -> Box<dyn Stream<Item = F, Error = ()>> {
        let w = self.0.clone();
        Box::new(stream::iter_ok((0..w.items.len()).filter(|&i| self.0.items[i].found).collect::<Vec<_>>()).map(move |i| {
            jitter(w.strength);
            F(Handle::new(&w, i))
        }))
    }
    fn cancel_found_inflight(&self, m: F) -> Box<dyn Future<Item = Q, Error = ()> + Send> {
        op(&self.0, m.0 .1, Step::CancelFound, Q(m.0))
    }
    fn enqueue<S: Stream<Item = BytesMut, Error = ()>>(&self, _: Mail<S, usize>) -> Box<dyn Future<Item = Q, Error = ()>> {
        Box::new(future::err(()))
    }
    fn send_start(&self, m: Q) -> Box<dyn Future<Item = I, Error = ()> + Send> {
        op(&self.0, m.0 .1, Step::Start, I(m.0))
    }
    fn send_done(&self, m: I) -> Box<dyn Future<Item = (), Error = ()> + Send> {
        op(&self.0, m.0 .1, Step::Done, ())
    }
    fn send_cancel(&self, m: I) -> Box<dyn Future<Item = Q, Error = ()> + Send> {
        op(&self.0, m.0 .1, Step::Cancel, Q(m.0))
    }
}

impl Transport<usize> for Trans {
    fn send<S: Stream<Item = BytesMut, Error = ()>>(&self, m: Mail<S, usize>) -> Box<dyn Future<Item = (), Error = (ReplyCode, SmtpString)> + Send> {
        let w = &self.0;
        let i = m.metadata;
        w.log(i, Step::Send);
        let it = &w.items[i];
        let show = |e: &Email| {
            let mut v = vec![];
            smtp_message::Sendable::send_to(e, &mut v).expect("harness: memory");
            String::from_utf8_lossy(&v).into_owned()
        };
        let from = m.from.as_ref().map(show);
        let to: Vec<String> = m.to.iter().map(show).collect();
        let mut data = m.data;
        let mut got = vec![];
        while let Ok(Async::Ready(Some(b))) = data.poll() {
            got.extend_from_slice(&b);
        }
        let want: String = (0..it.chunks).map(|k| chunk(i, k)).collect();
        if from != if i % 3 == 0 { None } else { Some(address(i, 999)) } || to != (0..it.to).map(|k| address(i, k)).collect::<Vec<_>>() || got != want.as_bytes() {
            w.wrong(format!("mail {} is not what is sent for it: from {:?} to {:?}", i, from, to));
        }
        let k = w.attempt(i);
        let r = if k <= it.refusals { {
            let (c, t) = &it.told[k % it.told.len()];
            Err((ReplyCode::custom(*c), SmtpString::from(&t[..])))
        } } else { Ok(()) };
        wait(w, it.hows[Step::Send as usize], r)
    }
}

// ---- Q08

/// The steps a mail must go through, with the time since the start
fn expected(it: &Item) -> Vec<(Step, u64)> {
    let mut v = vec![];
    let mut t = 0;
    let ms = |s: Step| match it.hows[s as usize] {
        How::Ms(m) => m as u64,
        _ => 0,
    };
    let fails = |s: Step, k: usize| it.fail.map_or(false, |(fs, at)| fs == s && (at == k || s == Step::CancelFound));
    if it.found {
        t += 3_600_000;
        v.push((Step::CancelFound, t));
        t += ms(Step::CancelFound);
        if fails(Step::CancelFound, 0) {
            return v;
        }
    }
    for k in 1.. {
        for s in [Step::Start, Step::Get, Step::Send] {
            v.push((s, t));
            t += ms(s);
            if s != Step::Send && fails(s, k) {
                return v;
            }
        }
        let s = if k <= it.refusals { Step::Cancel } else { Step::Done };
        v.push((s, t));
        t += ms(s);
        if s == Step::Done || fails(s, k) {
            return v;
        }
    }
    v
}

fn how(s: &mut Src) -> How {
    match s.below(8) {
        0..=2 => How::Now,
        3 => How::Again,
        4..=6 => How::Other,
        _ => How::Ms(1 + s.below(5000) as u32),
    }
}

pub fn q08(s: &mut Src, o: &mut Obs) -> R {
    let n = 1 + s.below(match s.scale {
        0 | 1 => 12,
        2 => 80,
        _ => 400,
    });
    let threads = 2 + s.below(5);
    let strength = s.below(3) as u8;
    let same = s.chance(1, 2);
    let mut items: Vec<Item> = vec![];
    let shared = [how(s), how(s), how(s), how(s), how(s), how(s)];
    for _ in 0..n {
        let found = s.chance(1, 4);
        let refusals = if s.chance(1, 2) { s.below(if s.scale >= 2 { 30 } else { 6 }) } else { 0 };
        let fail = if s.chance(1, 8) {
            let step = *s.pick(&[Step::CancelFound, Step::Start, Step::Get, Step::Done, Step::Cancel]);
            Some((step, 1 + s.below(refusals + 1)))
        } else {
            None
        };
        let hows = if same { shared } else { [how(s), how(s), how(s), how(s), how(s), how(s)] };
        let told = (0..1 + s.below(3)).map(|_| (crate::props::code(s), crate::props::refusal_text(s))).collect();
        items.push(Item { found, refusals, fail, hows, told, to: 1 + s.below(4), chunks: s.below(4) });
    }
    let now = Arc::new(AtomicU64::new(0));
    let base = Instant::now();
    let w = Arc::new(World {
        base,
        now: now.clone(),
        logs: (0..n).map(|_| Mutex::default()).collect(),
        items,
        pool: OnceLock::new(),
        wrong: Mutex::new(None),
        live: AtomicUsize::new(0),
        strength,
    });
    let (stor, trans) = (Arc::new(Store(w.clone())), Arc::new(Trans(w.clone())));
    let (end, res) = {
        let (stor, trans) = (stor.clone(), trans.clone());
        drive(threads, s.seed(), strength, base, &now, &w.pool, move || smtp_queue::run::<usize, Q, I, F, _, _>(stor, trans))
    };
    let pool = w.pool.get().expect("harness: pool");
    if o.describe {
        let mut d = vec![format!("{} mails on {} threads, hold-ups {}", n, threads, strength)];
        for (i, it) in w.items.iter().enumerate().take(12) {
            d.push(format!("mail {}: found {}, {} refusals, fails {:?}, waits {:?}; steps {:?}", i, it.found, it.refusals, it.fail, it.hows, w.logs[i].lock().unwrap().iter().take(40).collect::<Vec<_>>()));
        }
        o.desc = d.join("\n");
    }
    match end {
        End::Stuck(m) => return violation(format!("a task {}", m)),
        End::Panic(m) => return violation(format!("a task panicked: {}", m)),
        End::Quiet => (),
    }
    if let Some(m) = &*w.wrong.lock().unwrap() {
        return violation(m.clone());
    }
    if res != Some(Ok(())) {
        return violation(format!("start-up ended with {:?}", res));
    }
    let (mut tries, mut steps) = (0, 0);
    for (i, it) in w.items.iter().enumerate() {
        let want = expected(it);
        let got = w.logs[i].lock().unwrap();
        let f = |v: &[(Step, u64)]| v.iter().map(|x| x.0).collect::<Vec<_>>();
        if f(&want) != f(&got) {
            return violation(format!("mail {} of {} ({} refusals, storage fails at {:?}) should go through {:?}, it went through {:?}", i, n, it.refusals, it.fail, f(&want), f(&got)));
        }
        for (a, b) in want.iter().zip(got.iter()) {
            // timers have a resolution of a millisecond
            if b.1 < a.1 || b.1 > a.1 + 50 + 2 * want.len() as u64 {
                return violation(format!("mail {}: {:?} was due at {} ms and came at {} ms", i, a.0, a.1, b.1));
            }
        }
        tries += it.refusals;
        steps += got.len();
        o.sign(format!("{:?}{:?}", it.fail, f(&got)).as_bytes());
    }
    let left = (Arc::strong_count(&stor) - 1, Arc::strong_count(&trans) - 1, w.live.load(SeqCst));
    if left != (0, 0, 0) {
        return violation(format!("all mail is dealt with, but {} references to the storage, {} to the transport and {} handles are held", left.0, left.1, left.2));
    }
    let most = pool.most.load(SeqCst);
    o.add("mails", n as u64);
    o.add("steps", steps as u64);
    o.add("polls_of_tasks", pool.progress.load(SeqCst));
    o.add("runs_with_tasks_at_once", (most > 1) as u64);
    o.max("tasks_running_at_once", most as u64);
    o.nontrivial = most > 1 && tries > 0;
    o.sign(&pool.progress.load(SeqCst).to_le_bytes());
    Ok(())
}
