//! Virtual time for tokio 0.1: time only passes when nothing else is left to do.
use std::{
    cell::RefCell,
    rc::Rc,
    sync::{
        atomic::{AtomicU64, Ordering::SeqCst},
        Arc,
    },
    time::{Duration, Instant},
};
use tokio::prelude::Future;
use tokio_executor::park::{Park, Unpark};
use tokio_timer::{clock::Clock, clock::Now, timer::Timer};

pub struct VNow {
    pub base: Instant,
    pub now: Arc<AtomicU64>,
}
impl Now for VNow {
    fn now(&self) -> Instant {
        self.base + Duration::from_millis(self.now.load(SeqCst))
    }
}

pub struct VPark {
    pub now: Arc<AtomicU64>,
    pub idle: Rc<RefCell<bool>>,
    /// fractions of a millisecond
    pub rest: u64,
}
pub struct VUnpark;
impl Unpark for VUnpark {
    fn unpark(&self) {}
}
impl Park for VPark {
    type Unpark = VUnpark;
    type Error = ();
    fn unpark(&self) -> VUnpark {
        VUnpark
    }
    fn park(&mut self) -> Result<(), ()> {
        *self.idle.borrow_mut() = true;
        Ok(())
    }
    fn park_timeout(&mut self, d: Duration) -> Result<(), ()> {
        let ns = d.as_nanos() as u64 + self.rest;
        // never short of what was asked for
        let ms = (ns + 999_999) / 1_000_000;
        self.now.fetch_add(ms, SeqCst);
        Ok(())
    }
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum End {
    /// nothing is left that could ever run
    Quiet,
    /// the horizon was reached
    Horizon,
    /// too many steps without virtual time passing
    Busy,
}

/// Runs what `make` makes, on virtual time, until nothing is left to run or the horizon is reached;
/// `at_end` sees things before they are torn down
pub fn drive<F: Future<Item = (), Error = ()> + 'static>(base: Instant, now: &Arc<AtomicU64>, horizon_ms: u64, max_busy: u32, make: impl FnOnce() -> F, at_end: impl FnOnce()) -> End {
    let idle = Rc::new(RefCell::new(false));
    let clock = Clock::new_with_now(VNow { base, now: now.clone() });
    let timer = Timer::new_with_now(VPark { now: now.clone(), idle: idle.clone(), rest: 0 }, clock.clone());
    let th = timer.handle();
    let mut ct = tokio_current_thread::CurrentThread::new_with_park(timer);
    let mut end = End::Horizon;
    let mut enter = tokio_executor::enter().expect("harness: executor");
    tokio_timer::clock::with_default(&clock, &mut enter, |enter| {
        tokio_timer::timer::with_default(&th, enter, |enter| {
            let mut de = tokio_current_thread::TaskExecutor::current();
            tokio_executor::with_default(&mut de, enter, |enter| {
                let f = make();
                {
                    let mut e = ct.enter(enter);
                    e.spawn(f);
                    let (mut stuck, mut last) = (0u32, 0);
                    loop {
                        *idle.borrow_mut() = false;
                        let t = e.turn(None).expect("harness: turn");
                        let n = now.load(SeqCst);
                        if *idle.borrow() && !t.has_polled() {
                            end = End::Quiet;
                            break;
                        }
                        if n > horizon_ms {
                            break;
                        }
                        if n == last {
                            stuck += 1;
                            if stuck > max_busy {
                                end = End::Busy;
                                break;
                            }
                        } else {
                            stuck = 0;
                            last = n;
                        }
                    }
                }
                at_end();
                drop(ct);
            })
        })
    });
    end
}
