//! The world around a session: a scripted client, a monitored sink, deferred wake-ups, and an
//! executor that notices when nothing can go on any more. Decides on logical steps only.
use crate::refp::{Reply, ReplyReader};
use bytes::{Bytes, BytesMut};
use futures::{Sink, Stream};
use std::{
    collections::VecDeque,
    future::Future,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
        Arc, Mutex, MutexGuard,
    },
    task::{Context, Poll, Wake, Waker},
};
use yv_engine::util::Rng;

/// How a chunk's buffer is made
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Repr {
    Plain,
    Roomy,
    /// consecutive parts of one allocation
    Shared,
    /// a part of a bigger buffer full of other bytes
    Window,
}

#[derive(Clone, Debug)]
pub struct Chunk {
    pub data: Vec<u8>,
    pub repr: Repr,
    /// complete replies the client has to see before it sends this
    pub gate: usize,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Call {
    NewMail,
    From { addr: Option<Vec<u8>>, trail: Vec<u32> },
    To { addr: Vec<u8>, from: Option<Vec<u8>>, to: Vec<Vec<u8>>, trail: Vec<u32> },
    Data { from: Option<Vec<u8>>, to: Vec<Vec<u8>>, trail: Vec<u32> },
    Handle { from: Option<Vec<u8>>, to: Vec<Vec<u8>>, trail: Vec<u32> },
    Body { bytes: Vec<u8>, complete: bool },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Call(Call),
    /// the n-th reply (from 0) was completely handed to the sink
    Reply(usize),
    Write(usize),
    Flushed,
    Read(usize),
    Ended,
    Failed,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Reader = 0,
    Ready = 1,
    Flush = 2,
    Policy = 3,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FailOp {
    Ready,
    Send,
    Flush,
}

enum Gate {
    Idle,
    Waiting(Waker),
    Granted,
}

pub struct W {
    pub input: VecDeque<Chunk>,
    pub eof_gate: usize,
    pub ended: bool,
    pub polled_after_end: usize,
    shared: BytesMut,
    pend: Vec<u8>,
    pend_at: usize,
    gates: [Gate; 4],
    blocked_reader: Option<Waker>,
    pub log: Vec<Ev>,
    pub out: Vec<u8>,
    written: ReplyReader,
    visible: ReplyReader,
    flushed: usize,
    ready: bool,
    pub sink_ops: usize,
    pub fail_at: Option<usize>,
    /// the operations after the one that failed succeed again
    pub recovers: bool,
    pub failed: Option<FailOp>,
    pub after_fail: Vec<String>,
    pub protocol: Option<String>,
    pub malformed: Option<String>,
    pub pendings: u64,
    pub reads: u64,
    pub closed: bool,
}

#[derive(Clone)]
pub struct World(Arc<Mutex<W>>);

/// Decisions about when operations are not ready: 0 = ready at once, 1 = woken at once, 2 = woken
/// later, 3 = woken at once, twice in a row
pub type Pend = Vec<u8>;

impl World {
    pub fn new(input: Vec<Chunk>, eof_gate: usize, pend: Pend) -> World {
        let total: usize = input.iter().filter(|c| c.repr == Repr::Shared).map(|c| c.data.len()).sum();
        let mut shared = BytesMut::with_capacity(total);
        for c in input.iter().filter(|c| c.repr == Repr::Shared) {
            shared.extend_from_slice(&c.data);
        }
        World(Arc::new(Mutex::new(W {
            input: input.into(),
            eof_gate,
            ended: false,
            polled_after_end: 0,
            shared,
            pend,
            pend_at: 0,
            gates: [Gate::Idle, Gate::Idle, Gate::Idle, Gate::Idle],
            blocked_reader: None,
            log: vec![],
            out: vec![],
            written: ReplyReader::default(),
            visible: ReplyReader::default(),
            flushed: 0,
            ready: false,
            sink_ops: 0,
            fail_at: None,
            recovers: false,
            failed: None,
            after_fail: vec![],
            protocol: None,
            malformed: None,
            pendings: 0,
            reads: 0,
            closed: false,
        })))
    }
    pub fn lock(&self) -> MutexGuard<'_, W> {
        match self.0.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }
    pub fn reader(&self) -> Reader {
        Reader(self.clone())
    }
    pub fn sink(&self) -> SinkW {
        SinkW(self.clone())
    }
    pub fn call(&self, c: Call) {
        let mut w = self.lock();
        if w.failed.is_some() {
            let t = format!("policy consulted after the write failed: {:?}", c);
            w.after_fail.push(t);
        }
        w.log.push(Ev::Call(c));
    }
    /// A pause inside the policy
    pub fn pause(&self) -> Pause {
        Pause(self.clone())
    }
}

impl W {
    fn decide(&mut self) -> u8 {
        if self.pend.is_empty() {
            return 0;
        }
        let v = self.pend[self.pend_at % self.pend.len()];
        self.pend_at += 1;
        v
    }
    /// May operation `op` go on now? Otherwise its waker has been noted.
    fn may(&mut self, op: Op, cx: &mut Context<'_>) -> bool {
        let i = op as usize;
        match &mut self.gates[i] {
            Gate::Granted => {
                self.gates[i] = Gate::Idle;
                true
            }
            Gate::Waiting(w) => {
                *w = cx.waker().clone();
                false
            }
            Gate::Idle => match self.decide() {
                0 => true,
                k => {
                    self.pendings += 1;
                    if k == 2 {
                        self.gates[i] = Gate::Waiting(cx.waker().clone());
                    } else {
                        self.gates[i] = if k == 3 { Gate::Idle } else { Gate::Granted };
                        cx.waker().wake_by_ref();
                    }
                    false
                }
            },
        }
    }
    fn deferred(&self) -> bool {
        self.gates.iter().any(|g| matches!(g, Gate::Waiting(_)))
    }
    /// Fires one deferred wake-up, if there is one
    fn fire(&mut self, rng: &mut Rng) -> Option<Waker> {
        let w: Vec<usize> = (0..4).filter(|&i| matches!(self.gates[i], Gate::Waiting(_))).collect();
        if w.is_empty() {
            return None;
        }
        let i = w[rng.below(w.len())];
        match std::mem::replace(&mut self.gates[i], Gate::Granted) {
            Gate::Waiting(w) => Some(w),
            _ => None,
        }
    }
    fn note_failure(&mut self, op: FailOp) -> bool {
        let k = self.sink_ops;
        self.sink_ops += 1;
        if self.fail_at == Some(k) {
            self.failed = Some(op);
            self.log.push(Ev::Failed);
            true
        } else {
            false
        }
    }
    pub fn replies(&self) -> &[Reply] {
        &self.written.done
    }
    pub fn seen_replies(&self) -> usize {
        self.visible.done.len()
    }
    pub fn output_clean(&self) -> bool {
        self.written.clean()
    }
    pub fn unflushed(&self) -> usize {
        self.out.len() - self.flushed
    }
    /// What is written is a message, not replies
    pub fn no_replies(&mut self) {
        self.written.off = true;
        self.visible.off = true;
    }
    pub fn max_line(&self) -> usize {
        self.written.max_line
    }
    pub fn calls(&self) -> Vec<&Call> {
        self.log
            .iter()
            .filter_map(|e| match e {
                Ev::Call(c) => Some(c),
                _ => None,
            })
            .collect()
    }
}

pub struct Reader(World);

impl Stream for Reader {
    type Item = BytesMut;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<BytesMut>> {
        let mut w = self.0.lock();
        if w.failed.is_some() {
            w.after_fail.push("input read after the write failed".into());
        }
        if w.ended {
            w.polled_after_end += 1;
            return Poll::Ready(None);
        }
        let gate = w.input.front().map(|c| c.gate).unwrap_or(w.eof_gate);
        if gate > w.visible.done.len() {
            w.blocked_reader = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if !w.may(Op::Reader, cx) {
            return Poll::Pending;
        }
        match w.input.pop_front() {
            None => {
                w.ended = true;
                w.log.push(Ev::Ended);
                Poll::Ready(None)
            }
            Some(c) => {
                w.reads += 1;
                let n = c.data.len();
                w.log.push(Ev::Read(n));
                Poll::Ready(Some(make(&c, &mut w.shared)))
            }
        }
    }
}

fn make(c: &Chunk, shared: &mut BytesMut) -> BytesMut {
    match c.repr {
        Repr::Plain => BytesMut::from(&c.data[..]),
        Repr::Roomy => {
            let mut b = BytesMut::with_capacity(c.data.len() + 64);
            b.extend_from_slice(&c.data);
            b
        }
        Repr::Shared => shared.split_to(c.data.len()),
        Repr::Window => {
            let mut b = BytesMut::with_capacity(c.data.len() + 16);
            b.extend_from_slice(b"QUIT\r\n.\r\n");
            b.extend_from_slice(&c.data);
            b.extend_from_slice(b".\r\nNOOP");
            let mut b = b.split_off(9);
            b.truncate(c.data.len());
            b
        }
    }
}

pub struct SinkW(World);

impl Sink<Bytes> for SinkW {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        let mut w = self.0.lock();
        if w.failed.is_some() && !w.recovers {
            return Poll::Ready(Err(()));
        }
        if w.closed {
            w.protocol.get_or_insert("the sink was used after having been closed".into());
        }
        if !w.may(Op::Ready, cx) {
            return Poll::Pending;
        }
        if w.note_failure(FailOp::Ready) {
            return Poll::Ready(Err(()));
        }
        w.ready = true;
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, item: Bytes) -> Result<(), ()> {
        let mut w = self.0.lock();
        if w.failed.is_some() {
            let t = format!("{} bytes written after the write failed", item.len());
            w.after_fail.push(t);
            return if w.recovers { Ok(()) } else { Err(()) };
        }
        if !w.ready {
            w.protocol.get_or_insert("start_send without a successful poll_ready before it".into());
        }
        w.ready = false;
        if w.note_failure(FailOp::Send) {
            return Err(());
        }
        w.out.extend_from_slice(&item);
        w.log.push(Ev::Write(item.len()));
        let before = w.written.done.len();
        if let Err(e) = w.written.push(&item) {
            w.malformed.get_or_insert(e);
        }
        for k in before..w.written.done.len() {
            w.log.push(Ev::Reply(k));
        }
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        let mut w = self.0.lock();
        if w.failed.is_some() && !w.recovers {
            return Poll::Ready(Err(()));
        }
        if !w.may(Op::Flush, cx) {
            return Poll::Pending;
        }
        if w.note_failure(FailOp::Flush) {
            return Poll::Ready(Err(()));
        }
        flush(&mut w);
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        let mut w = self.0.lock();
        if w.failed.is_some() && !w.recovers {
            return Poll::Ready(Err(()));
        }
        if !w.may(Op::Flush, cx) {
            return Poll::Pending;
        }
        flush(&mut w);
        w.closed = true;
        Poll::Ready(Ok(()))
    }
}

fn flush(w: &mut W) {
    if w.flushed < w.out.len() {
        let n = w.out[w.flushed..].to_vec();
        w.flushed = w.out.len();
        let _ = w.visible.push(&n);
        w.log.push(Ev::Flushed);
    }
    let gate = w.input.front().map(|c| c.gate).unwrap_or(w.eof_gate);
    if gate <= w.visible.done.len() {
        if let Some(b) = w.blocked_reader.take() {
            b.wake();
        }
    }
}

pub struct Pause(World);

impl Future for Pause {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut w = self.0.lock();
        if w.may(Op::Policy, cx) {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}

/// One waker per poll: only the newest counts
struct Fresh {
    task: Arc<TaskState>,
    gen: u64,
}

#[derive(Default)]
pub struct TaskState {
    gen: AtomicU64,
    woken: AtomicBool,
    pub wakes: AtomicU64,
    pub stale: AtomicU64,
}

impl Wake for Fresh {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if self.task.gen.load(SeqCst) == self.gen {
            self.task.woken.store(true, SeqCst);
            self.task.wakes.fetch_add(1, SeqCst);
        } else {
            self.task.stale.fetch_add(1, SeqCst);
        }
    }
}

pub struct Task<'a, T> {
    pub fut: Option<Pin<Box<dyn Future<Output = T> + 'a>>>,
    pub state: Arc<TaskState>,
    pub world: World,
    pub polls: u64,
    pub result: Option<T>,
}

impl<'a, T> Task<'a, T> {
    pub fn new(world: &World, fut: Pin<Box<dyn Future<Output = T> + 'a>>) -> Task<'a, T> {
        let state = Arc::new(TaskState::default());
        state.woken.store(true, SeqCst);
        Task { fut: Some(fut), state, world: world.clone(), polls: 0, result: None }
    }
    pub fn finished(&self) -> bool {
        self.fut.is_none()
    }
    fn poll(&mut self) {
        let Some(f) = &mut self.fut else { return };
        self.polls += 1;
        let gen = self.state.gen.fetch_add(1, SeqCst) + 1;
        let w = Waker::from(Arc::new(Fresh { task: self.state.clone(), gen }));
        let mut cx = Context::from_waker(&w);
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            self.result = Some(r);
            self.fut = None;
        }
    }
    /// One step: a poll when woken, else one deferred wake-up (or a spurious poll before it).
    /// False: nothing can happen.
    pub fn step(&mut self, rng: &mut Rng) -> bool {
        if self.fut.is_none() {
            return false;
        }
        if self.state.woken.swap(false, SeqCst) {
            self.poll();
            return true;
        }
        if self.world.lock().deferred() && rng.chance(1, 6) {
            self.poll();
            return true;
        }
        let w = self.world.lock().fire(rng);
        match w {
            Some(w) => {
                w.wake();
                true
            }
            None => false,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End<T> {
    Done(T),
    /// nothing left that could wake the task
    Stuck(String),
    /// far more polls than there is work
    Spinning(u64),
    Cancelled,
}

/// Runs one task to its end (or cancels it after `cancel` steps)
pub fn drive<T>(world: &World, fut: Pin<Box<dyn Future<Output = T> + '_>>, seed: u64, cancel: Option<u64>) -> (End<T>, u64) {
    // this many polls in a row without taking input or putting out a byte: far more than any
    // sequence of waits the world can impose
    let budget = 20_000;
    let progress = || {
        let w = world.lock();
        (w.input.len(), w.out.len())
    };
    let mut seen = progress();
    let mut since = 0;
    let mut t = Task::new(world, fut);
    let mut rng = Rng::new(seed);
    let mut steps = 0u64;
    loop {
        if t.finished() {
            return (End::Done(t.result.take().unwrap()), t.polls);
        }
        if cancel == Some(steps) {
            return (End::Cancelled, t.polls);
        }
        if !t.step(&mut rng) {
            let w = world.lock();
            let why = stuck_reason(&w);
            return (End::Stuck(why), t.polls);
        }
        steps += 1;
        let now = progress();
        if now != seen {
            seen = now;
            since = t.polls;
        } else if t.polls - since > budget {
            return (End::Spinning(t.polls), t.polls);
        }
    }
}

pub fn stuck_reason(w: &W) -> String {
    let gate = w.input.front().map(|c| c.gate).unwrap_or(w.eof_gate);
    if w.blocked_reader.is_some() && gate > w.visible.done.len() {
        format!(
            "the session waits for more input while the client still waits for reply {} (it has seen {}, {} written bytes are not flushed)",
            gate,
            w.visible.done.len(),
            w.unflushed()
        )
    } else {
        "nothing will ever wake the session again (a wake-up was lost)".to_string()
    }
}
