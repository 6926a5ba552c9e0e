use crate::{cov, dict, src::Src, util::*};
use std::{
    collections::{BTreeMap, HashSet},
    io::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, Ordering::SeqCst},
        Mutex,
    },
    time::{Duration, Instant},
};

/// Outcome of a case other than "held"
#[derive(Debug, Clone)]
pub enum Fail {
    /// The code under test broke the property
    Violation(String),
    /// The harness could not decide
    Harness(String),
}

pub fn violation<T>(s: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Violation(s.into()))
}

/// What a case observed
#[derive(Default)]
pub struct Obs {
    pub thorough: bool,
    pub sig: u64,
    pub nontrivial: bool,
    pub counts: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub describe: bool,
    pub desc: String,
}

impl Obs {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxima.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn sign(&mut self, b: &[u8]) {
        self.sig = mix(self.sig, hash_bytes(b));
    }
}

pub type CaseFn = fn(&mut Src, &mut Obs) -> Result<(), Fail>;
pub type EnumFn = fn(u64, &mut Obs) -> Result<(), Fail>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub case: CaseFn,
    /// enumerated small scope: (number of cases for thorough?) and the case
    pub enum_total: fn(bool) -> u64,
    pub enum_case: EnumFn,
    /// default numbers of random and coverage-guided cases, quick
    pub random: u64,
    pub guided: u64,
    /// multiplier for thorough
    pub deep: u64,
}

pub fn no_enum(_: bool) -> u64 {
    0
}
pub fn no_enum_case(_: u64, _: &mut Obs) -> Result<(), Fail> {
    Ok(())
}

#[derive(Clone, Debug)]
enum Case {
    Enum(u64),
    Seed(u64, u32),
    Tape(Vec<u32>, u32),
}

static CURRENT: Mutex<Option<Case>> = Mutex::new(None);
static CASE_NO: AtomicU64 = AtomicU64::new(0);
static LAST_PANIC: Mutex<Option<(String, bool)>> = Mutex::new(None);

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let harness = loc.0.starts_with("src/") || loc.0.starts_with("/verif/") || loc.0.contains("/yv-");
        if let Ok(mut l) = LAST_PANIC.lock() {
            let harness = harness && !msg.starts_with("code under test");
            *l = Some((format!("panic at {}:{}: {}", loc.0, loc.1, msg), harness));
        }
    }));
}

/// Runs `f`, turning a panic into its message (and whether it came from the harness itself)
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, (String, bool)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC.lock().unwrap().take().unwrap_or(("panic (no message)".into(), false))),
    }
}

fn to_fail(p: (String, bool)) -> Fail {
    if p.1 {
        Fail::Harness(p.0)
    } else {
        Fail::Violation(format!("code under test panicked: {}", p.0))
    }
}

struct Ctx<'a> {
    prop: &'a Prop,
    thorough: bool,
    describe: bool,
}

impl<'a> Ctx<'a> {
    /// Returns (result, tape used)
    fn exec(&self, c: Case, obs: &mut Obs) -> (Result<(), Fail>, Vec<u32>) {
        *CURRENT.lock().unwrap() = Some(c.clone());
        CASE_NO.fetch_add(1, SeqCst);
        obs.thorough = self.thorough;
        obs.describe = self.describe;
        let mut tape = vec![];
        let r = match c {
            Case::Enum(i) => guarded(|| (self.prop.enum_case)(i, obs)),
            Case::Seed(s, scale) => {
                let mut src = Src::random(s);
                src.scale = scale;
                let r = guarded(|| (self.prop.case)(&mut src, obs));
                tape = src.tape;
                r
            }
            Case::Tape(t, scale) => {
                let mut src = Src::replay(t);
                src.scale = scale;
                let r = guarded(|| (self.prop.case)(&mut src, obs));
                tape = src.tape;
                r
            }
        };
        CASE_NO.fetch_add(1, SeqCst);
        let r = match r {
            Ok(r) => r,
            Err(p) => Err(to_fail(p)),
        };
        (r, tape)
    }

    fn is_violation(&self, t: &[u32], scale: u32) -> Option<String> {
        let mut o = Obs::default();
        match self.exec(Case::Tape(t.to_vec(), scale), &mut o).0 {
            Err(Fail::Violation(m)) => Some(m),
            _ => None,
        }
    }

    fn shrink(&self, tape: Vec<u32>, scale: u32, msg: String) -> (Vec<u32>, String) {
        let start = Instant::now();
        let mut best = tape;
        let mut bmsg = msg;
        let mut budget = 3000;
        let over = |b: &mut i32| {
            *b -= 1;
            *b < 0 || start.elapsed() > Duration::from_secs(8)
        };
        loop {
            let before = best.clone();
            // truncate
            let mut n = best.len() / 2;
            while n > 0 {
                if over(&mut budget) {
                    return (best, bmsg);
                }
                let t = best[..best.len() - n].to_vec();
                if let Some(m) = self.is_violation(&t, scale) {
                    best = t;
                    bmsg = m;
                    n = n.min(best.len() / 2);
                } else {
                    n /= 2;
                }
            }
            // delete and zero blocks
            for bs in [64usize, 16, 8, 4, 2, 1] {
                let mut i = 0;
                while i < best.len() {
                    if over(&mut budget) {
                        return (best, bmsg);
                    }
                    let e = (i + bs).min(best.len());
                    let mut t = best.clone();
                    t.drain(i..e);
                    if let Some(m) = self.is_violation(&t, scale) {
                        best = t;
                        bmsg = m;
                        continue;
                    }
                    if best[i..e].iter().any(|&x| x != 0) {
                        let mut t = best.clone();
                        t[i..e].iter_mut().for_each(|x| *x = 0);
                        if let Some(m) = self.is_violation(&t, scale) {
                            best = t;
                            bmsg = m;
                        }
                    }
                    i = e;
                }
            }
            if best == before {
                return (best, bmsg);
            }
        }
    }
}

fn mutate(rng: &mut Rng, base: &[u32], other: &[u32]) -> Vec<u32> {
    let mut t = base.to_vec();
    let n = 1 + rng.below(4);
    for _ in 0..n {
        if t.is_empty() {
            t.push(rng.u32());
            continue;
        }
        let i = rng.below(t.len());
        match rng.below(11) {
            0 | 1 => t[i] = rng.u32(),
            2 => t[i] = rng.below(8) as u32,
            3 => t[i] = t[i].wrapping_add(1),
            4 => t[i] = t[i].wrapping_sub(1),
            5 => {
                let k = (1 + rng.below(16)).min(t.len() - i);
                t.drain(i..i + k);
            }
            6 => {
                let k = 1 + rng.below(16);
                let ins: Vec<u32> = (0..k).map(|_| rng.u32()).collect();
                t.splice(i..i, ins);
            }
            7 => {
                // duplicate a block
                let k = (1 + rng.below(32)).min(t.len() - i);
                let blk = t[i..i + k].to_vec();
                let j = rng.below(t.len() + 1);
                t.splice(j..j, blk);
            }
            8 => {
                let k = rng.u64() as usize;
                t[i] = dict::with(|d| d.ints[k % d.ints.len()]);
            }
            9 => {
                let k = rng.u64() as usize;
                let v = dict::with(|d| if d.strs.is_empty() { vec![] } else { d.strs[k % d.strs.len()].clone() });
                t.splice(i..i, v.into_iter().map(|x| x as u32));
            }
            _ => {
                if !other.is_empty() {
                    let j = rng.below(other.len());
                    let k = (1 + rng.below(64)).min(other.len() - j);
                    t.splice(i..i, other[j..j + k].iter().cloned());
                }
            }
        }
        if t.len() > 60_000 {
            t.truncate(60_000);
        }
    }
    t
}

fn arg<'a>(a: &'a [String], k: &str) -> Option<&'a str> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|x| x.as_str())
}
fn num(a: &[String], k: &str, d: u64) -> u64 {
    arg(a, k).and_then(|x| x.parse().ok()).unwrap_or(d)
}

fn write_replay(path: &str, prop: &str, thorough: bool, c: &Case, msg: &str, desc: &str) {
    let mut s = format!("property {}\n", prop);
    match c {
        Case::Enum(i) => s.push_str(&format!("enum {} {}\n", i, thorough as u8)),
        Case::Seed(i, sc) => s.push_str(&format!("seed {} {}\n", i, sc)),
        Case::Tape(t, sc) => {
            s.push_str(&format!("tape {}", sc));
            for x in t {
                s.push_str(&format!(" {}", x));
            }
            s.push('\n');
        }
    }
    s.push_str("--- what failed\n");
    s.push_str(msg);
    s.push_str("\n--- case\n");
    s.push_str(desc);
    s.push('\n');
    let _ = std::fs::write(path, s);
}

fn thread_cpu(tid: &str) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let r = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = r.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

pub fn main_with(props: &'static [Prop]) {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).cloned().unwrap_or_default();
    if cmd == "list" {
        for p in props {
            println!("{}", p.id);
        }
        return;
    }
    let id = if cmd == "replay" {
        let t = std::fs::read_to_string(&args[2]).expect("replay file");
        t.lines().next().unwrap_or("").trim_start_matches("property ").to_string()
    } else {
        args.get(2).cloned().unwrap_or_default()
    };
    let Some(prop) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {:?}", id);
        std::process::exit(2);
    };
    install_hook();
    if let Some(d) = arg(&args, "--dict") {
        dict::load(d);
    }
    let cpu_limit = num(&args, "--cpu-limit", 60);
    let replay_out = arg(&args, "--replay-out").unwrap_or("/dev/null").to_string();
    let out = arg(&args, "--out").map(|x| x.to_string());
    let (tx, rx) = std::sync::mpsc::channel::<String>();
    let a2 = args.clone();
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let tid = std::fs::read_link("/proc/thread-self")
                .ok()
                .and_then(|p| p.file_name().map(|x| x.to_string_lossy().into_owned()))
                .unwrap_or_default();
            let _ = tx.send(tid);
            if cmd == "replay" {
                replay(prop, &a2)
            } else {
                worker(prop, &a2)
            }
        })
        .unwrap();
    let tid = rx.recv().unwrap_or_default();
    let (mut last, mut cpu0, mut wall0) = (0, 0, Instant::now());
    while !h.is_finished() {
        std::thread::sleep(Duration::from_millis(20));
        let n = CASE_NO.load(SeqCst);
        let cpu = thread_cpu(&tid).unwrap_or(0);
        if n != last {
            last = n;
            cpu0 = cpu;
            wall0 = Instant::now();
        } else if n % 2 == 1 {
            if cpu.saturating_sub(cpu0) > cpu_limit * 100 {
                let c = CURRENT.lock().unwrap().clone().unwrap();
                let m = format!("no result after {} s of CPU time on one case (normal: milliseconds): the code under test does not terminate", cpu_limit);
                write_replay(&replay_out, prop.id, num(&args, "--thorough", 0) == 1, &c, &m, "(did not finish)");
                if let Some(o) = &out {
                    let _ = std::fs::write(o, format!("{{\"status\":\"violation\",\"message\":{}}}", json_str(&m)));
                }
                println!("HANG {}", m);
                std::process::exit(1);
            }
            if wall0.elapsed() > Duration::from_secs(600) {
                println!("INCONCLUSIVE wall-clock watchdog");
                std::process::exit(3);
            }
        }
    }
    match h.join() {
        Ok(code) => std::process::exit(code),
        Err(_) => {
            println!("INCONCLUSIVE harness thread panicked: {:?}", LAST_PANIC.lock().unwrap());
            std::process::exit(3)
        }
    }
}

fn replay(prop: &Prop, args: &[String]) -> i32 {
    let t = std::fs::read_to_string(&args[2]).expect("replay file");
    let l = t.lines().nth(1).unwrap_or("");
    let mut f = l.split(' ');
    let mut thorough = true;
    let c = match f.next() {
        Some("enum") => {
            let i = f.next().unwrap().parse().unwrap();
            thorough = f.next() != Some("0");
            Case::Enum(i)
        }
        Some("seed") => Case::Seed(f.next().unwrap().parse().unwrap(), f.next().unwrap().parse().unwrap()),
        Some("tape") => {
            let sc = f.next().unwrap().parse().unwrap();
            Case::Tape(f.map(|x| x.parse().unwrap()).collect(), sc)
        }
        _ => {
            println!("cannot replay {:?}", l);
            return 2;
        }
    };
    let ctx = Ctx { prop, thorough, describe: true };
    let mut o = Obs::default();
    let r = ctx.exec(c, &mut o).0;
    println!("{}", o.desc);
    match r {
        Ok(()) => {
            println!("HELD property={}", prop.id);
            0
        }
        Err(Fail::Violation(m)) => {
            println!("VIOLATION property={} replay={}\n{}", prop.id, args[2], m);
            1
        }
        Err(Fail::Harness(m)) => {
            println!("INCONCLUSIVE {}", m);
            3
        }
    }
}

fn worker(prop: &'static Prop, args: &[String]) -> i32 {
    let seed = num(args, "--seed", 1);
    let shard = num(args, "--shard", 0);
    let nshards = num(args, "--nshards", 1).max(1);
    let thorough = num(args, "--thorough", 0) == 1;
    let mult = if thorough { prop.deep } else { 1 };
    let div = num(args, "--div", 1).max(1);
    let random = num(args, "--random", prop.random * mult / nshards) / div;
    let guided = num(args, "--guided", prop.guided * mult / nshards) / div;
    let time = num(args, "--time", 3600);
    let only_scale = arg(args, "--scale").and_then(|x| x.parse::<u32>().ok());
    let do_enum = num(args, "--enum", 1) == 1;
    let start = Instant::now();
    let deadline = start + Duration::from_secs(time);
    let ctx = Ctx { prop, thorough, describe: false };
    let mut map = cov::Map::new();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut maxima: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let (mut n_enum, mut n_rand, mut n_guided, mut nontrivial) = (0u64, 0u64, 0u64, 0u64);
    let mut capped = false;
    let mut corpus: Vec<(Vec<u32>, u32)> = vec![];
    let mut failure: Option<(Case, String)> = None;
    let mut harness_err: Option<String> = None;
    let base = mix(seed, hash_bytes(prop.id.as_bytes()));

    let mut absorb = |o: Obs, sigs: &mut HashSet<u64>| {
        if o.nontrivial {
            nontrivial += 1;
            sigs.insert(o.sig);
        }
        for (k, v) in o.counts {
            *counts.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxima {
            let e = maxima.entry(k).or_insert(0);
            *e = (*e).max(v);
        }
    };

    let total = if do_enum { (prop.enum_total)(thorough) } else { 0 };
    cov::reset();
    'all: {
        let mut i = shard;
        while i < total {
            let mut o = Obs::default();
            let (r, _) = ctx.exec(Case::Enum(i), &mut o);
            n_enum += 1;
            absorb(o, &mut sigs);
            match r {
                Ok(()) => (),
                Err(Fail::Violation(m)) => {
                    failure = Some((Case::Enum(i), m));
                    break 'all;
                }
                Err(Fail::Harness(m)) => {
                    harness_err = Some(m);
                    break 'all;
                }
            }
            i += nshards;
            if n_enum % 1024 == 0 && Instant::now() > deadline {
                capped = true;
                break;
            }
        }
        map.merge();
        for k in 0..random {
            if k % 16 == 0 && Instant::now() > deadline {
                capped = true;
                break;
            }
            let s = mix(base, shard + k * nshards);
            // a few big cases, mostly small ones
            let scale = match k % 32 {
                0 => 3,
                1..=4 => 2,
                5..=14 => 0,
                _ => 1,
            };
            let scale = only_scale.unwrap_or(scale);
            cov::reset();
            let mut o = Obs::default();
            let (r, tape) = ctx.exec(Case::Seed(s, scale), &mut o);
            n_rand += 1;
            let interesting = o.nontrivial && samples.len() < 3 && k > 20;
            absorb(o, &mut sigs);
            match r {
                Ok(()) => (),
                Err(Fail::Violation(m)) => {
                    failure = Some((Case::Tape(tape, scale), m));
                    break 'all;
                }
                Err(Fail::Harness(m)) => {
                    harness_err = Some(m);
                    break 'all;
                }
            }
            if interesting {
                let c2 = Ctx { prop, thorough, describe: true };
                let mut o2 = Obs::default();
                let _ = c2.exec(Case::Seed(s, scale), &mut o2);
                if !o2.desc.is_empty() {
                    samples.push(o2.desc.chars().take(1500).collect());
                }
            }
            if map.merge() > 0 && tape.len() < 60_000 && guided > 0 {
                corpus.push((tape, scale));
            }
        }
        if guided > 0 && cov::total_edges() > 0 {
            cov::VALUE_PROFILE.store(true, SeqCst);
            let mut rng = Rng::new(mix(base ^ 0x6177, shard));
            if corpus.is_empty() {
                corpus.push((vec![], 1));
            }
            for k in 0..guided {
                if k % 16 == 0 && Instant::now() > deadline {
                    capped = true;
                    break;
                }
                // favour recent finds
                let n = corpus.len();
                let pick = if rng.chance(1, 2) { n - 1 - rng.below(n.min(32)) } else { rng.below(n) };
                let oth = rng.below(n);
                let scale = corpus[pick].1;
                let t = mutate(&mut rng, &corpus[pick].0, &corpus[oth].0);
                cov::reset();
                let mut o = Obs::default();
                let (r, tape) = ctx.exec(Case::Tape(t, scale), &mut o);
                n_guided += 1;
                absorb(o, &mut sigs);
                match r {
                    Ok(()) => (),
                    Err(Fail::Violation(m)) => {
                        failure = Some((Case::Tape(tape, scale), m));
                        break 'all;
                    }
                    Err(Fail::Harness(m)) => {
                        harness_err = Some(m);
                        break 'all;
                    }
                }
                if map.merge() > 0 {
                    corpus.push((tape, scale));
                }
                for c in cov::take_consts() {
                    for x in [c.saturating_sub(1), c, c + 1] {
                        dict::add_int(x);
                    }
                }
            }
            cov::VALUE_PROFILE.store(false, SeqCst);
        }
    }

    let mut status = "held";
    let mut message = String::new();
    let mut code = 0;
    if let Some((c, m)) = failure {
        cov::VALUE_PROFILE.store(false, SeqCst);
        let (c, m) = match c {
            Case::Tape(t, sc) => {
                // re-run first: the dictionary may have grown, shrinking needs a reproducer
                match ctx.is_violation(&t, sc) {
                    Some(m2) => {
                        let (t, m) = ctx.shrink(t, sc, m2);
                        (Case::Tape(t, sc), m)
                    }
                    None => (Case::Tape(t, sc), m),
                }
            }
            c => (c, m),
        };
        let c2 = Ctx { prop, thorough, describe: true };
        let mut o = Obs::default();
        let _ = c2.exec(c.clone(), &mut o);
        let rp = arg(args, "--replay-out").unwrap_or("/dev/null");
        write_replay(rp, prop.id, thorough, &c, &m, &o.desc);
        status = "violation";
        message = m;
        code = 1;
    } else if let Some(m) = harness_err {
        status = "inconclusive";
        message = m;
        code = 3;
    }

    if let Some(p) = arg(args, "--hashes") {
        let mut v = Vec::with_capacity(sigs.len() * 8);
        for s in &sigs {
            v.extend_from_slice(&s.to_le_bytes());
        }
        let _ = std::fs::write(p, v);
    }
    let mut j = String::new();
    j.push_str(&format!(
        "{{\"status\":\"{}\",\"message\":{},\"rule\":{},\"enumerated\":{},\"enum_total\":{},\"random\":{},\"guided\":{},\"nontrivial\":{},\"edges\":{},\"edges_total\":{},\"features\":{},\"corpus\":{},\"time_capped\":{},\"wall_s\":{:.3}",
        status, json_str(&message), json_str(prop.rule), n_enum, total, n_rand, n_guided, nontrivial, map.edges, cov::total_edges(), map.features, corpus.len(), capped, start.elapsed().as_secs_f64()
    ));
    j.push_str(",\"edge_bitmap\":\"");
    for b in map.edge_bitmap() {
        j.push(if b != 0 { '1' } else { '0' });
    }
    j.push_str("\",\"counts\":{");
    j.push_str(&counts.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","));
    j.push_str("},\"maxima\":{");
    j.push_str(&maxima.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(","));
    j.push_str("},\"samples\":[");
    j.push_str(&samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
    j.push_str("]}");
    match arg(args, "--out") {
        Some(p) => {
            let mut f = std::fs::File::create(p).unwrap();
            f.write_all(j.as_bytes()).unwrap();
        }
        None => {
            println!("{}", j.chars().take(3000).collect::<String>());
        }
    }
    if code != 0 {
        println!("{}: {}", status, message);
    }
    code
}
