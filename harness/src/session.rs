//! Session properties.
use crate::env::*;
use crate::gen::{self, Conv, Opts};
use crate::model::*;
use std::sync::Arc;
use yv_engine::run::{guarded, violation, Fail, Obs};
use yv_engine::src::Src;
use yv_engine::util::show;
use yv_glue::*;

pub type R = Result<(), Fail>;

pub struct Run {
    pub end: End<Result<(), ()>>,
    pub polls: u64,
    pub world: World,
}

pub fn session(world: &World, plan: &Arc<Plan>) -> Session {
    let pol = Box::new(MonPolicy::new(world.clone(), plan.clone()));
    let r: BoxReader = Box::pin(world.reader());
    let w: BoxWriter = Box::pin(world.sink());
    if plan.part.is_some() {
        session_part(r, w, plan.user.clone(), Part::new(pol))
    } else if plan.plain {
        session_plain(r, w, plan.user.clone(), Plain(pol))
    } else {
        session_custom(r, w, plan.user.clone(), Custom(pol))
    }
}

pub fn run(plan: &Arc<Plan>, chunks: Vec<Chunk>, eof_gate: usize, pend: Pend, seed: u64, fail_at: Option<usize>, cancel: Option<u64>) -> Run {
    let world = World::new(chunks, eof_gate, pend);
    world.lock().fail_at = fail_at;
    // the writer may fail once and then go on
    world.lock().recovers = fail_at.map_or(false, |k| (k as u64 * 7 + seed) % 3 == 0);
    let s = session(&world, plan);
    let (end, polls) = drive(&world, s, seed, cancel);
    Run { end, polls, world }
}

pub fn ended_well(r: &Run) -> R {
    match &r.end {
        End::Done(Ok(())) => Ok(()),
        End::Done(Err(())) => violation("the session reports a write error although every write succeeded"),
        End::Stuck(w) => violation(format!("the session never ends: {}", w)),
        End::Spinning(n) => violation(format!("the session never ends: {} polls without getting anywhere", n)),
        End::Cancelled => Err(Fail::Harness("cancelled".into())),
    }
}

pub fn show_reply(r: &crate::refp::Reply) -> String {
    format!("{} {:?} ({} lines)", r.code, show(&r.text), r.lines)
}

fn matches(e: &Expected, g: &crate::refp::Reply) -> bool {
    match e.why {
        Why::Either => true,
        _ => e.code == g.code && e.text.as_ref().map_or(true, |t| *t == g.text),
    }
}

/// The greeting names the host, unless it is overridden
fn greets(host: &[u8], w: &W) -> R {
    match w.replies().first() {
        Some(g) if !(g.text.starts_with(host) && matches!(g.text.get(host.len()), None | Some(b' '))) => {
            violation(format!("the greeting does not start with the host's name {:?}: {}", show(host), show_reply(g)))
        }
        _ => Ok(()),
    }
}

/// The replies are the expected ones, in order
pub fn replies_match(exp: &[Expected], w: &W) -> R {
    if let Some(m) = &w.malformed {
        return violation(format!("output is not a sequence of well-formed replies: {}", m));
    }
    let got = w.replies();
    for (i, e) in exp.iter().enumerate() {
        match got.get(i) {
            None => return violation(format!("reply {} is missing: expected {:?}, the session sent {} replies", i, e, got.len())),
            Some(g) if !matches(e, g) => return violation(format!("reply {} is {}, expected {:?}", i, show_reply(g), e)),
            _ => (),
        }
    }
    if got.len() > exp.len() {
        return violation(format!("reply {} was never due: {}", exp.len(), show_reply(&got[exp.len()])));
    }
    if !w.output_clean() {
        return violation("the output ends in the middle of a reply");
    }
    Ok(())
}

/// Only an empty text makes an empty line
pub fn no_empty_lines(w: &W) -> R {
    for (i, r) in w.replies().iter().enumerate() {
        if r.empty > 0 && r.lines > 1 {
            return violation(format!("reply {} with a text of {} bytes has {} lines, {} of them empty", i, r.text.len(), r.lines, r.empty));
        }
    }
    Ok(())
}

fn cut_ok(m: &Model, got: &[u8]) -> bool {
    match &m.cut_range {
        Some((lo, hi)) => got.starts_with(lo) && hi.starts_with(got) || got == &lo[..],
        None => false,
    }
}

pub fn call_eq(m: &Model, exp: &Call, got: &Call) -> bool {
    match (exp, got) {
        (Call::Body { complete: false, .. }, Call::Body { complete: false, bytes }) => cut_ok(m, bytes),
        _ => exp == got,
    }
}

pub fn calls_match(m: &Model, w: &W, keep: fn(&Call) -> bool) -> R {
    let got: Vec<&Call> = w.calls().into_iter().filter(|c| keep(c)).collect();
    let exp: Vec<&Call> = m.calls.iter().filter(|c| keep(c)).collect();
    for (i, e) in exp.iter().enumerate() {
        match got.get(i) {
            None => return violation(format!("policy call {} never happened: {}", i, show_call(e))),
            Some(g) if !call_eq(m, e, g) => return violation(format!("policy call {} is {}, expected {}", i, show_call(g), show_call(e))),
            _ => (),
        }
    }
    if got.len() > exp.len() {
        return violation(format!("policy call {} was never due: {}", exp.len(), show_call(got[exp.len()])));
    }
    Ok(())
}

/// Every reply comes after the decisions it rests on
pub fn causal(m: &Model, w: &W) -> R {
    let mut calls = 0;
    for e in &w.log {
        match e {
            Ev::Call(_) => calls += 1,
            Ev::Reply(k) => {
                if let Some(x) = m.replies.get(*k) {
                    if calls < x.calls_before {
                        return violation(format!("reply {} ({:?}) was sent after {} policy calls, before the one that decides it (call {})", k, x, calls, x.calls_before));
                    }
                }
            }
            _ => (),
        }
    }
    Ok(())
}

pub fn show_addr(a: &Option<Vec<u8>>) -> String {
    match a {
        None => "<>".into(),
        Some(a) => format!("<{}>", show(a)),
    }
}
pub fn show_addrs(a: &[Vec<u8>]) -> String {
    let mut r: String = a.iter().take(6).map(|a| format!("<{}>", show(a))).collect::<Vec<_>>().join(",");
    if a.len() > 6 {
        r.push_str(&format!(",… ({} in all)", a.len()));
    }
    r
}
pub fn show_trail(t: &[u32]) -> String {
    if t.len() > 8 {
        format!("{} user-data entries ending in {:?}", t.len(), &t[t.len() - 4..])
    } else {
        format!("{:?}", t)
    }
}
pub fn show_call(c: &Call) -> String {
    match c {
        Call::NewMail => "new_mail".into(),
        Call::From { addr, trail } => format!("filter_from({}; user data {})", show_addr(addr), show_trail(trail)),
        Call::To { addr, from, to, trail } => {
            format!("filter_to(<{}>; from {} to [{}]; user data {})", show(addr), show_addr(from), show_addrs(to), show_trail(trail))
        }
        Call::Data { from, to, trail } => format!("filter_data(from {} to [{}]; user data {})", show_addr(from), show_addrs(to), show_trail(trail)),
        Call::Handle { from, to, trail } => format!("handle_mail(from {} to [{}]; user data {})", show_addr(from), show_addrs(to), show_trail(trail)),
        Call::Body { bytes, complete } => format!("message of {} bytes ({}): {}", bytes.len(), if *complete { "complete" } else { "cut short" }, show(bytes)),
    }
}

pub fn count(c: &Conv, r: &Run, o: &mut Obs) {
    let w = r.world.lock();
    o.add("sessions", 1);
    o.add("polls", r.polls);
    o.add("pendings", w.pendings);
    o.add("chunks", w.reads);
    o.add("command_lines", c.model.lines as u64);
    o.add("replies", w.replies().len() as u64);
    o.add("policy_calls", w.calls().len() as u64);
    o.add("messages", c.model.mails as u64);
    o.add("refused_lines", c.model.rejected_lines as u64);
    o.add("out_of_sequence", c.model.out_of_sequence as u64);
    o.add("policy_refusals", c.model.refusals as u64);
    o.add("cut_messages", c.model.cut as u64);
    o.max("wire_bytes", c.wire.len() as u64);
    o.max("reply_line_bytes", w.max_line() as u64);
    if let Some(n) = c
        .model
        .calls
        .iter()
        .map(|c| match c {
            Call::Handle { to, .. } => to.len(),
            _ => 0,
        })
        .max()
    {
        o.max("recipients", n as u64);
    }
}

pub fn describe(c: &Conv, r: &Run, o: &mut Obs) {
    if !o.describe {
        return;
    }
    let w = r.world.lock();
    let mut d = String::new();
    d.push_str(&format!("client sends ({} bytes): {}\n", c.wire.len(), show(&c.wire)));
    d.push_str(&format!("lock-step points (offset, replies awaited): {:?}, end after {} replies\n", &c.gates[..c.gates.len().min(20)], c.eof_gate));
    d.push_str(&format!("session ended: {:?} after {} polls\n", r.end, r.polls));
    d.push_str("observed:\n");
    for e in w.log.iter().take(120) {
        match e {
            Ev::Call(k) => d.push_str(&format!("  {}\n", show_call(k))),
            Ev::Reply(k) => d.push_str(&format!("  reply {}: {}\n", k, show_reply(&w.replies()[*k]))),
            Ev::Ended => d.push_str("  end of input\n"),
            Ev::Failed => d.push_str("  WRITE FAILS\n"),
            _ => (),
        }
    }
    o.desc = d;
}

pub fn sign(c: &Conv, chunks: usize, o: &mut Obs) {
    o.sign(&c.wire);
    o.sign(format!("{:?}{}", c.model.calls.len(), chunks).as_bytes());
    for r in &c.model.replies {
        o.sign(&r.code.to_le_bytes());
    }
}

/// Runs a conversation in one go, with some segmentation and readiness pattern
fn play(s: &mut Src, opts: &Opts, o: &mut Obs) -> Option<(Conv, Run)> {
    let c = gen::conversation(s, opts);
    if c.model.ambiguous {
        o.add("skipped_unspecified", 1);
        return None;
    }
    let chunks = gen::chunking(s, &c.wire, Some(&c.gates));
    let nchunks = chunks.len();
    let pend = gen::pend(s);
    let seed = s.raw() as u64;
    let r = run(&c.plan, chunks, c.eof_gate, pend, seed, None, None);
    count(&c, &r, o);
    describe(&c, &r, o);
    sign(&c, nchunks, o);
    Some((c, r))
}

// S01
pub fn s01(s: &mut Src, o: &mut Obs) -> R {
    let opts = Opts { plain: s.chance(1, 3), junk: 3, disorder: 3, ..Opts::default() };
    let Some((c, r)) = play(s, &opts, o) else { return Ok(()) };
    o.nontrivial = c.model.lines >= 2;
    c01(&c, &r)
}

pub fn c01(c: &Conv, r: &Run) -> R {
    let w = r.world.lock();
    replies_match(&c.model.replies, &w)?;
    if c.plan.plain {
        greets(&c.plan.host, &w)?;
    }
    ended_well(r)?;
    causal(&c.model, &w)
}

// S16
pub fn s16(s: &mut Src, o: &mut Obs) -> R {
    let opts = Opts { part: true, junk: 2, disorder: *s.pick(&[0, 2, 8]), refuse: *s.pick(&[0, 2]), pieces: 12, ..Opts::default() };
    let Some((c, r)) = play(s, &opts, o) else { return Ok(()) };
    let sets = c.plan.part.unwrap();
    o.nontrivial = sets != 0 && c.model.lines >= 2;
    o.sign(&sets.to_le_bytes());
    // replies due that come from a general setting, from one of their own, and from neither
    for e in &c.model.replies {
        if let Why::Of(k) = e.why {
            let own = c.plan.has(1 << KINDS.iter().position(|x| *x == k).unwrap());
            o.add(if own { "own_replies" } else if e.text.is_some() { "general_replies" } else { "default_replies" }, 1);
        }
    }
    let w = r.world.lock();
    replies_match(&c.model.replies, &w)?;
    if !c.plan.has(1) {
        greets(&c.plan.host, &w)?;
    }
    calls_match(&c.model, &w, |c| !matches!(c, Call::Body { .. }))?;
    ended_well(&r)
}

// S02
pub fn s02(s: &mut Src, o: &mut Obs) -> R {
    let opts = Opts { plain: s.chance(1, 4), junk: 1, disorder: 10, refuse: 2, ..Opts::default() };
    let Some((c, r)) = play(s, &opts, o) else { return Ok(()) };
    o.nontrivial = c.model.out_of_sequence > 0 && c.model.lines > c.model.out_of_sequence;
    c02(&c, &r)
}

pub fn c02(c: &Conv, r: &Run) -> R {
    let w = r.world.lock();
    // what an out-of-sequence command must not do shows in the calls and in all that follows
    calls_match(&c.model, &w, |c| !matches!(c, Call::Body { .. }))?;
    replies_match(&c.model.replies, &w)
}

// S03
pub fn s03(s: &mut Src, o: &mut Obs) -> R {
    let opts = Opts { plain: s.chance(1, 4), junk: 1, disorder: 2, refuse: *s.pick(&[0, 1, 3]), texts: 4, edits: s.chance(1, 2), ..Opts::default() };
    let Some((c, r)) = play(s, &opts, o) else { return Ok(()) };
    let n = c.model.calls.iter().filter(|c| matches!(c, Call::Handle { .. })).count();
    o.nontrivial = n > 0;
    o.add("envelopes", n as u64);
    c03(&c, &r)
}

pub fn c03(c: &Conv, r: &Run) -> R {
    let w = r.world.lock();
    calls_match(&c.model, &w, |c| matches!(c, Call::Handle { .. })).or_else(|e| {
        // user data is another property's business
        let got: Vec<Call> = w.calls().into_iter().filter(|c| matches!(c, Call::Handle { .. })).map(no_trail).collect();
        let exp: Vec<Call> = c.model.calls.iter().filter(|c| matches!(c, Call::Handle { .. })).map(no_trail).collect();
        if got == exp {
            Ok(())
        } else {
            Err(e)
        }
    })
}

fn no_trail(c: &Call) -> Call {
    let mut c = c.clone();
    match &mut c {
        Call::From { trail, .. } | Call::To { trail, .. } | Call::Data { trail, .. } | Call::Handle { trail, .. } => trail.clear(),
        _ => (),
    }
    c
}

// S04
pub fn s04(s: &mut Src, o: &mut Obs) -> R {
    let opts = Opts { plain: s.chance(1, 4), junk: 1, disorder: 2, refuse: *s.pick(&[1, 3, 5]), texts: 60, ..Opts::default() };
    let Some((c, r)) = play(s, &opts, o) else { return Ok(()) };
    o.nontrivial = c.model.refusals > 0 || c.model.calls.len() > 3;
    c04(&c, &r)
}

pub fn c04(c: &Conv, r: &Run) -> R {
    let w = r.world.lock();
    if let Some(p) = &w.protocol {
        if p.contains("user data") {
            return violation(p.clone());
        }
    }
    calls_match(&c.model, &w, |c| !matches!(c, Call::Body { .. }))?;
    // each decision is what the client gets to hear
    replies_match(&c.model.replies, &w)
}

// S05
pub fn s05(s: &mut Src, o: &mut Obs) -> R {
    let opts = Opts { plain: s.chance(1, 4), junk: 0, disorder: 0, refuse: s.below(2) as u32, texts: 4, edits: false, raw_bodies: s.chance(1, 3), cut: 1, ..Opts::default() };
    let Some((c, r)) = play(s, &opts, o) else { return Ok(()) };
    let n = c.model.calls.iter().filter(|c| matches!(c, Call::Body { complete: true, .. })).count();
    o.nontrivial = n > 0;
    o.add("bodies", n as u64);
    c05(&c, &r)
}

pub fn c05(c: &Conv, r: &Run) -> R {
    let w = r.world.lock();
    if let Some(p) = &w.protocol {
        if p.contains("message") {
            return violation(p.clone());
        }
    }
    calls_match(&c.model, &w, |c| matches!(c, Call::Body { .. }))?;
    ended_well(r)?;
    replies_match(&c.model.replies, &w)
}

/// What can be seen from outside
fn transcript(r: &Run) -> (Vec<u8>, Vec<Call>, End<Result<(), ()>>) {
    let w = r.world.lock();
    (w.out.clone(), w.calls().into_iter().cloned().collect(), r.end.clone())
}

fn first_diff(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))
}

fn near(s: &[u8], at: usize) -> String {
    let a = at.saturating_sub(30);
    let e = (at + 60).min(s.len());
    show(&s[a.min(s.len())..e])
}

pub fn same(a: &Run, b: &Run, what: &str) -> R {
    let (ao, ac, ae) = transcript(a);
    let (bo, bc, be) = transcript(b);
    if ao != bo {
        let d = first_diff(&ao, &bo);
        return violation(format!("the output depends on {}: they differ at byte {}: {:?} against {:?}", what, d, near(&ao, d), near(&bo, d)));
    }
    for i in 0..ac.len().max(bc.len()) {
        let eq = match (ac.get(i), bc.get(i)) {
            (Some(Call::Body { bytes: x, complete: false }), Some(Call::Body { bytes: y, complete: false })) => {
                // the undecided end of a cut message may or may not have been handed over
                let (l, h) = if x.len() < y.len() { (x, y) } else { (y, x) };
                h.starts_with(l) && h.len() - l.len() <= 2
            }
            (x, y) => x == y,
        };
        if !eq {
            return violation(format!(
                "what the policy sees depends on {}: call {} is {} against {}",
                what,
                i,
                ac.get(i).map(show_call).unwrap_or("absent".into()),
                bc.get(i).map(show_call).unwrap_or("absent".into())
            ));
        }
    }
    if ae != be {
        return violation(format!("how the session ends depends on {}: {:?} against {:?}", what, ae, be));
    }
    Ok(())
}

// S06
pub fn s06(s: &mut Src, o: &mut Obs) -> R {
    let opts = Opts { plain: s.chance(1, 4), junk: 2, disorder: 2, tricks: s.below(4) as u32, raw_bodies: s.chance(1, 2), cut: 3, texts: 8, ..Opts::default() };
    let c = gen::conversation(s, &opts);
    let base = run(&c.plan, gen::one_chunk(&c.wire), 0, vec![], 1, None, None);
    count(&c, &base, o);
    describe(&c, &base, o);
    o.nontrivial = c.model.lines >= 2;
    let k = 2 + s.below(2);
    for i in 0..k {
        let ch = if i == 0 && c.wire.len() < 3000 {
            c.wire.iter().map(|b| Chunk { data: vec![*b], repr: Repr::Plain, gate: 0 }).collect()
        } else {
            gen::chunking(s, &c.wire, None)
        };
        let n = ch.len();
        let d: Vec<usize> = ch.iter().map(|c| c.data.len()).collect();
        let r = run(&c.plan, ch, 0, vec![], 1, None, None);
        count(&c, &r, o);
        sign(&c, n, o);
        for x in &d {
            o.sig = yv_engine::util::mix(o.sig, *x as u64);
        }
        o.add("segmentations", 1);
        same(&base, &r, &format!("how the input is cut into packets (one packet against sizes {:?})", &d[..d.len().min(30)]))?;
    }
    // one at a time, waiting for each reply, against all at once
    if !c.model.ambiguous {
        let ch = gen::chunking(s, &c.wire, Some(&c.gates));
        let r = run(&c.plan, ch, c.eof_gate, vec![], 1, None, None);
        if let End::Done(_) = r.end {
            o.add("lock_step_runs", 1);
            same(&base, &r, "whether the client waits for the replies or pipelines")?;
        }
    }
    Ok(())
}

// S07
pub fn s07(s: &mut Src, o: &mut Obs) -> R {
    let opts = Opts { plain: s.chance(1, 4), junk: 1, disorder: 1, tricks: 7, raw_bodies: true, cut: 4, refuse: 0, edits: false, texts: 4, gates: false, ..Opts::default() };
    let Some((c, r)) = play(s, &opts, o) else { return Ok(()) };
    // bare line ends, or an unfinished last line
    let bare = c.wire.iter().enumerate().any(|(i, &b)| (b == b'\n' && (i == 0 || c.wire[i - 1] != b'\r')) || (b == b'\r' && c.wire.get(i + 1) != Some(&b'\n')));
    o.add("with_bare_line_ends", bare as u64);
    o.add("unfinished_last_line", (!c.model.partial().is_empty()) as u64);
    o.nontrivial = bare || !c.model.partial().is_empty();
    c07(&c, &r)
}

pub fn c07(c: &Conv, r: &Run) -> R {
    let w = r.world.lock();
    // one reply per CRLF-ended line or message, commands and messages as delimited by CRLF alone
    let exp = c.model.replies.len();
    if w.replies().len() != exp {
        return violation(format!("{} replies for input that holds {} commands and messages", w.replies().len(), exp));
    }
    let kinds = |c: &Call| matches!(c, Call::From { .. } | Call::To { .. } | Call::Handle { .. } | Call::Body { .. });
    let got: Vec<Call> = w.calls().into_iter().filter(|c| kinds(c)).map(no_trail).collect();
    let want: Vec<Call> = c.model.calls.iter().filter(|c| kinds(c)).map(no_trail).collect();
    for i in 0..got.len().max(want.len()) {
        match (want.get(i), got.get(i)) {
            (Some(e), Some(g)) if call_eq(&c.model, e, g) => (),
            (e, g) => {
                return violation(format!(
                    "the input's commands and messages were delimited differently: {} instead of {}",
                    g.map(show_call).unwrap_or("nothing".into()),
                    e.map(show_call).unwrap_or("nothing".into())
                ))
            }
        }
    }
    for (i, (e, g)) in c.model.replies.iter().zip(w.replies()).enumerate() {
        if e.why == Why::Of(Kind::Unrecognized) && c.plan.plain && g.code != 500 {
            return violation(format!("a line that is no command got reply {}: {}", i, show_reply(g)));
        }
    }
    Ok(())
}

// S08
pub fn s08(s: &mut Src, o: &mut Obs) -> R {
    let opts = Opts { plain: s.chance(1, 4), junk: 0, disorder: 0, refuse: 0, texts: 4, edits: false, raw_bodies: s.chance(1, 2), cut: 4, cut_body: 9, pieces: 12, ..Opts::default() };
    let Some((c, r)) = play(s, &opts, o) else { return Ok(()) };
    o.nontrivial = c.model.cut || c.model.mails > 0;
    c08(&c, &r)
}

pub fn c08(c: &Conv, r: &Run) -> R {
    let w = r.world.lock();
    if w.polled_after_end > 0 {
        return violation(format!("the input was polled {} more times after it had ended", w.polled_after_end));
    }
    let got: Vec<&Call> = w.calls().into_iter().filter(|c| matches!(c, Call::Body { .. })).collect();
    let want: Vec<&Call> = c.model.calls.iter().filter(|c| matches!(c, Call::Body { .. })).collect();
    for (i, g) in got.iter().enumerate() {
        let Call::Body { complete, .. } = g else { continue };
        match want.get(i) {
            Some(Call::Body { complete: e, .. }) if e == complete => {
                if !call_eq(&c.model, want[i], g) {
                    return violation(format!("message {}: {}, expected {}", i, show_call(g), show_call(want[i])));
                }
            }
            e => return violation(format!("message {} was reported as {}, expected {}", i, show_call(g), e.map(|c| show_call(c)).unwrap_or("none".into()))),
        }
    }
    if got.len() < want.len() {
        return violation(format!("{} messages were begun, the handler saw the end of {}", want.len(), got.len()));
    }
    ended_well(r)?;
    if c.model.cut {
        // nothing after a message that never ended is taken for a command
        if w.replies().len() > c.model.replies.len() {
            return violation("more replies than commands after a message was cut short".to_string());
        }
    }
    Ok(())
}

// S09
pub fn s09(s: &mut Src, o: &mut Obs) -> R {
    let opts = Opts { plain: s.chance(1, 4), junk: 2, disorder: 2, raw_bodies: false, cut: 2, texts: *s.pick(&[8, 8, 8, 1200]), ..Opts::default() };
    let c = gen::conversation(s, &opts);
    if c.model.ambiguous {
        return Ok(());
    }
    // reference: always ready, one packet
    let base = run(&c.plan, gen::one_chunk(&c.wire), 0, vec![], 1, None, None);
    let End::Done(_) = base.end else {
        return ended_well(&base);
    };
    if base.world.lock().replies().len() != c.model.replies.len() {
        // the lock-step points rest on the number of replies; another property's business
        return Ok(());
    }
    let k = 2 + s.below(3);
    for i in 0..k {
        let ch = gen::chunking(s, &c.wire, Some(&c.gates));
        let mut pend = gen::pend(s);
        if i == 0 && pend.is_empty() {
            pend = vec![2];
        }
        let seed = s.seed();
        let r = run(&c.plan, ch, c.eof_gate, pend.clone(), seed, None, None);
        count(&c, &r, o);
        describe(&c, &r, o);
        sign(&c, r.polls as usize, o);
        o.add("readiness_patterns", 1);
        o.nontrivial |= r.world.lock().pendings > 0 && c.model.lines > 0;
        let w = r.world.lock();
        if let Some(p) = &w.protocol {
            return violation(p.clone());
        }
        ended_well(&r)?;
        if w.unflushed() > 0 {
            return violation(format!("the session ended with {} written bytes never flushed", w.unflushed()));
        }
        drop(w);
        same(&base, &r, &format!("when reader, writer and policy are ready (pattern {:?})", pend))?;
    }
    Ok(())
}

// S10
pub fn s10(s: &mut Src, o: &mut Obs) -> R {
    let opts = Opts { plain: s.chance(1, 4), junk: 1, disorder: 1, cut: 1, pieces: 10, repeat: false, gates: s.chance(1, 2), texts: *s.pick(&[8, 8, 1200]), ..Opts::default() };
    let c = gen::conversation(s, &opts);
    if c.model.ambiguous {
        return Ok(());
    }
    let ch = gen::chunking(s, &c.wire, Some(&c.gates));
    let pend = gen::pend(s);
    let seed = s.raw() as u64;
    let base = run(&c.plan, ch.clone(), c.eof_gate, pend.clone(), seed, None, None);
    let End::Done(Ok(())) = base.end else {
        return Ok(()); // another property's business
    };
    describe(&c, &base, o);
    sign(&c, ch.len(), o);
    let ops = base.world.lock().sink_ops;
    let (bo, bc, _) = transcript(&base);
    let step = 1 + ops / 60;
    let first = if step > 1 { s.below(step) } else { 0 };
    let mut k = first;
    while k < ops {
        let r = run(&c.plan, ch.clone(), c.eof_gate, pend.clone(), seed, Some(k), None);
        o.add("failed_writes", 1);
        o.add("sessions", 1);
        o.nontrivial = true;
        let w = r.world.lock();
        let Some(op) = w.failed else {
            return violation(format!("the run is not repeatable: sink operation {} of {} never came", k, ops));
        };
        match op {
            FailOp::Ready => o.add("failed_poll_ready", 1),
            FailOp::Send => o.add("failed_start_send", 1),
            FailOp::Flush => o.add("failed_poll_flush", 1),
        }
        let at = format!("sink operation {} ({:?}) of {} fails", k, op, ops);
        if let Some(x) = w.after_fail.first() {
            return violation(format!("{}: {}", at, x));
        }
        match &r.end {
            End::Done(Err(())) => (),
            e => return violation(format!("{}: the session should end with the error, but: {:?}", at, e)),
        }
        if !bo.starts_with(&w.out) {
            return violation(format!("{}: what had been written before differs from a run without the failure", at));
        }
        let calls: Vec<Call> = w.calls().into_iter().cloned().collect();
        if calls.len() > bc.len() || calls[..] != bc[..calls.len()] {
            return violation(format!("{}: the policy calls before differ from a run without the failure", at));
        }
        k += step;
    }
    Ok(())
}

// S11
pub fn s11(s: &mut Src, o: &mut Obs) -> R {
    let max = match s.scale {
        0 => 600,
        1 => 1100,
        2 => 6000,
        _ => 40_000,
    };
    let mut opts = Opts { junk: 3, disorder: 4, cut: 0, pieces: 8, repeat: false, refuse: 4, texts: 8, edits: false, ..Opts::default() };
    opts.plain = s.chance(1, 6);
    let mut c = gen::conversation(s, &opts);
    // other texts for everything: any length, from nothing on
    let mut p = (*c.plan).clone();
    let empty = s.chance(1, 6);
    let t = |s: &mut Src| {
        if empty && s.chance(1, 2) {
            return vec![];
        }
        let n = match s.below(6) {
            0 => s.below(3),
            1 => (506 * (1 + s.below(4)) + s.below(5)).saturating_sub(2),
            2 => 500 + s.below(20),
            _ => s.size(max),
        };
        let style = s.below(4);
        match style {
            0 => s.from_alphabet(n.min(max), b" \t"),
            1 => s.from_alphabet(n.min(max), b"-0 "),
            _ => gen::reply_text(s, max),
        }
    };
    for r in p.replies.iter_mut() {
        r.1 = t(s);
    }
    for x in p.from.iter_mut().chain(p.to.iter_mut()).chain(p.data.iter_mut()) {
        x.text = t(s);
    }
    for x in p.handle.iter_mut() {
        x.text = t(s);
    }
    let p = Arc::new(p);
    let mut m = Model::new(p.clone());
    m.push(&c.wire);
    m.finish();
    c.plan = p;
    c.model = m;
    if c.model.ambiguous {
        return Ok(());
    }
    let ch = gen::chunking(s, &c.wire, Some(&c.gates));
    let pend = gen::pend(s);
    let r = run(&c.plan, ch, c.eof_gate, pend, 1, None, None);
    count(&c, &r, o);
    describe(&c, &r, o);
    sign(&c, 0, o);
    let w = r.world.lock();
    for e in &c.model.replies {
        if let Some(t) = &e.text {
            o.sig = yv_engine::util::mix(o.sig, t.len() as u64);
            o.max("reply_text_bytes", t.len() as u64);
            o.add("empty_texts", t.is_empty() as u64);
            o.add("multi_line_texts", (t.len() > 506) as u64);
            o.nontrivial |= t.len() > 506 || t.is_empty();
        }
    }
    replies_match(&c.model.replies, &w)?;
    no_empty_lines(&w)?;
    ended_well(&r)
}

// S12
pub fn s12(s: &mut Src, o: &mut Obs) -> R {
    let opts = Opts { plain: s.chance(1, 2), junk: 8, disorder: 4, tricks: 3, raw_bodies: true, cut: 4, gates: false, texts: 4, ..Opts::default() };
    let mut c = gen::conversation(s, &opts);
    // and some corruption on top
    if s.chance(1, 2) {
        let k = 1 + s.below(4);
        for _ in 0..k {
            let n = c.wire.len();
            if n < 20_000 {
                gen::mutate(s, &mut c.wire);
            } else if n > 0 {
                let i = s.below(n);
                c.wire[i] = s.byte();
            }
        }
    } else if s.chance(1, 6) {
        let n = s.size(gen::cap(s) * 4);
        c.wire = s.bytes(n);
    }
    let ch = gen::chunking(s, &c.wire, None);
    let pend = gen::pend(s);
    let seed = s.seed();
    let cancel = if s.chance(1, 5) { Some(s.below(60) as u64) } else { None };
    let r = run(&c.plan, ch, 0, pend, seed, None, cancel);
    count(&c, &r, o);
    describe(&c, &r, o);
    sign(&c, 0, o);
    o.nontrivial = r.world.lock().replies().len() > 1;
    match r.end {
        End::Cancelled => o.add("dropped_midway", 1),
        End::Done(_) => (),
        _ => return ended_well(&r),
    }
    Ok(())
}

// S13
pub fn s13(s: &mut Src, o: &mut Obs) -> R {
    let n = match s.below(8) {
        0 => 2 + s.size(if s.scale >= 2 { 150 } else { 30 }),
        1 | 2 => 5 + s.below(5),
        _ => 2 + s.below(3),
    };
    // sessions that all get far, rather than any
    let straight = s.chance(1, 2);
    let mut cs = vec![];
    for _ in 0..n {
        let mut opts = Opts { plain: s.chance(1, 4), junk: 2, disorder: 2, cut: 2, pieces: 10, texts: 8, ..Opts::default() };
        if straight {
            opts = Opts { junk: 0, disorder: 0, cut: 0, refuse: 0, pieces: 6, ..opts };
        }
        if n > 10 {
            opts.repeat = false;
        }
        let c = gen::conversation(s, &opts);
        let ch = gen::chunking(s, &c.wire, Some(&c.gates));
        let pend = match gen::pend(s) {
            p if p.is_empty() => vec![2],
            p => p,
        };
        let seed = s.seed();
        cs.push((c, ch, pend, seed));
    }
    let alone: Vec<Run> = cs.iter().map(|(c, ch, p, sd)| run(&c.plan, ch.clone(), c.eof_gate, p.clone(), *sd, None, None)).collect();
    // the same ones side by side, taking turns at random
    let worlds: Vec<World> = cs.iter().map(|(c, ch, p, _)| World::new(ch.clone(), c.eof_gate, p.clone())).collect();
    let mut tasks: Vec<Task<Result<(), ()>>> = cs.iter().zip(&worlds).map(|((c, ..), w)| Task::new(w, session(w, &c.plan))).collect();
    let mut rngs: Vec<yv_engine::util::Rng> = cs.iter().map(|c| yv_engine::util::Rng::new(c.3)).collect();
    let mut sched = yv_engine::util::Rng::new(s.seed());
    let mut stuck = vec![false; n];
    let (mut switches, mut last, mut steps) = (0u64, usize::MAX, 0u64);
    let drop_one = if s.chance(1, 4) { Some((s.below(n), s.below(40) as u64)) } else { None };
    let mut dropped = vec![false; n];
    // how turns are taken: at random; or each session is held at some point until all the others
    // are held as well or have ended, again and again
    let hold = s.chance(1, 2);
    let span = 1 + s.size(60) as u64;
    let mut left: Vec<u64> = (0..n).map(|_| 1 + sched.below(span as usize) as u64).collect();
    loop {
        let mut live: Vec<usize> = (0..n).filter(|&i| !tasks[i].finished() && !stuck[i]).collect();
        if live.is_empty() {
            break;
        }
        if hold {
            if live.iter().all(|&i| left[i] == 0) {
                for &i in &live {
                    left[i] = 1 + sched.below(span as usize) as u64;
                }
            }
            live.retain(|&i| left[i] > 0);
        }
        let i = live[sched.below(live.len())];
        left[i] = left[i].saturating_sub(1);
        if let Some((d, at)) = drop_one {
            if at == steps && !tasks[d].finished() {
                tasks[d].fut = None;
                dropped[d] = true;
                steps += 1;
                continue;
            }
        }
        if i != last {
            switches += 1;
            last = i;
        }
        o.sig = yv_engine::util::mix(o.sig, i as u64);
        steps += 1;
        if !tasks[i].step(&mut rngs[i]) {
            stuck[i] = true;
        }
        if steps > 5_000_000 {
            return violation("the sessions never end side by side");
        }
    }
    o.add("switches", switches);
    o.add("sessions", 2 * n as u64);
    o.nontrivial = switches > 2;
    for i in 0..n {
        if dropped[i] {
            continue;
        }
        let end = match tasks[i].result.take() {
            Some(r) => End::Done(r),
            None => End::Stuck(stuck_reason(&worlds[i].lock())),
        };
        let b = Run { end, polls: tasks[i].polls, world: worlds[i].clone() };
        describe(&cs[i].0, &b, o);
        count(&cs[i].0, &b, o);
        sign(&cs[i].0, 0, o);
        same(&alone[i], &b, "what other sessions do at the same time")?;
        let p = b.world.lock().protocol.clone();
        if let Some(p) = p {
            if p.contains("user data") {
                return violation(p);
            }
        }
    }
    Ok(())
}

pub fn s13_total(thorough: bool) -> u64 {
    if thorough {
        20_000
    } else {
        1200
    }
}

/// Sessions on threads of their own, really at the same time
pub fn s13_threads(i: u64, o: &mut Obs) -> R {
    let s = &mut Src::random(yv_engine::util::mix(i, 1313));
    let nt = 2 + s.below(5);
    let rounds = 4 + s.below(12);
    // the same conversations on all threads, so that they are often at the same place
    let alike = s.chance(1, 2);
    let nc = if alike { 1 + s.below(3) } else { nt + s.below(nt) };
    let mut cs = vec![];
    while cs.len() < nc {
        let opts = Opts { plain: s.chance(1, 4), junk: s.below(3) as u32, disorder: s.below(3) as u32, cut: s.below(2) as u32, refuse: s.below(3) as u32, pieces: 10, texts: *s.pick(&[8, 8, 1200]), repeat: false, ..Opts::default() };
        let c = gen::conversation(s, &opts);
        let ch = gen::chunking(s, &c.wire, Some(&c.gates));
        let pend = gen::pend(s);
        cs.push((c, ch, pend, s.seed()));
    }
    let go = |c: &(Conv, Vec<Chunk>, Pend, u64)| run(&c.0.plan, c.1.clone(), c.0.eof_gate, c.2.clone(), c.3, None, None);
    let alone: Vec<Run> = cs.iter().map(go).collect();
    let start = std::sync::Barrier::new(nt);
    let res: Vec<Result<R, (String, bool)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..nt)
            .map(|t| {
                let (cs, alone, start, go) = (&cs, &alone, &start, &go);
                sc.spawn(move || {
                    start.wait();
                    guarded(|| {
                        for r in 0..rounds {
                            for k in 0..cs.len() {
                                if alike || k % nt == t {
                                    let b = go(&cs[k]);
                                    same(&alone[k], &b, &format!("what {} other threads do at the same time (round {})", nt - 1, r))?;
                                    let p = b.world.lock().protocol.clone();
                                    if let Some(p) = p {
                                        if p.contains("user data") {
                                            return violation(p);
                                        }
                                    }
                                }
                            }
                        }
                        Ok(())
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Err(("a thread ended with a panic".into(), true)))).collect()
    });
    o.add("threads", nt as u64);
    o.add("threaded_sessions", (rounds * if alike { nt * nc } else { nc }) as u64);
    o.nontrivial = true;
    if o.describe {
        o.desc = format!("{} threads, {} rounds of {} conversations, {}", nt, rounds, nc, if alike { "the same on all" } else { "each on one" });
    }
    for r in res {
        match r {
            Ok(r) => r?,
            Err((m, true)) => return Err(Fail::Harness(m)),
            Err((m, _)) => return violation(format!("with {} sessions at a time on threads of their own: {}", nt, m)),
        }
    }
    Ok(())
}

// S14
pub fn s14(s: &mut Src, o: &mut Obs) -> R {
    let opts = Opts { plain: s.chance(1, 4), junk: 1, disorder: 1, cut: 3, repeat: true, gates: false, refuse: 1, ..Opts::default() };
    let mut c = gen::conversation(s, &opts);
    if c.model.ambiguous || c.model.bodies.is_empty() {
        return Ok(());
    }
    let mut p = (*c.plan).clone();
    let k = s.below(p.handle.len());
    for (i, h) in p.handle.iter_mut().enumerate() {
        if i == k || s.chance(1, 3) {
            h.style = 1 + s.below(5) as u8;
        }
    }
    c.plan = Arc::new(p);
    let ch = gen::chunking(s, &c.wire, None);
    let pend = gen::pend(s);
    let seed = s.seed();
    let world = World::new(ch, 0, pend);
    let r = match guarded(|| {
        let f = session(&world, &c.plan);
        drive(&world, f, seed, None)
    }) {
        Ok((end, polls)) => Run { end, polls, world },
        // giving up loudly is one way to keep to it
        Err(_) => {
            o.add("gave_up_by_panic", 1);
            Run { end: End::Cancelled, polls: 0, world }
        }
    };
    count(&c, &r, o);
    describe(&c, &r, o);
    sign(&c, r.polls as usize, o);
    let w = r.world.lock();
    let careless = |i: usize| c.plan.handle[i].style > 0;
    o.nontrivial = c.model.bodies.iter().any(|b| careless(b.1));
    o.add("careless_handlers", o.nontrivial as u64);
    if let Some(m) = &w.malformed {
        return violation(format!("output is not a sequence of well-formed replies: {}", m));
    }
    match r.end {
        End::Stuck(_) | End::Spinning(_) => return ended_well(&r),
        _ => (),
    }
    for (i, g) in w.replies().iter().enumerate() {
        let Some(e) = c.model.replies.get(i) else {
            return violation(format!("reply {} was never due: {}", i, show_reply(g)));
        };
        if let Some((_, h, complete)) = c.model.bodies.iter().find(|b| b.0 == i && careless(b.1)) {
            let h = &c.plan.handle[*h];
            if *complete && matches(e, g) || g.code >= 400 || !h.accept && g.code == h.code && g.text == h.text {
                continue;
            }
            return violation(format!("reply {}, to a message the handler did not read to its end and check, is {}", i, show_reply(g)));
        }
        if !matches(e, g) {
            return violation(format!("reply {} is {}, expected {:?}, after a handler that left its message unread", i, show_reply(g), e));
        }
    }
    let keep = |c: &&Call| !matches!(c, Call::Body { .. });
    let exp: Vec<&Call> = c.model.calls.iter().filter(keep).collect();
    for (i, g) in w.calls().into_iter().filter(keep).enumerate() {
        match exp.get(i) {
            Some(e) if *e == g => (),
            e => return violation(format!("policy call {} is {}, expected {}, after a handler that left its message unread", i, show_call(g), e.map(|c| show_call(c)).unwrap_or("none".into()))),
        }
    }
    Ok(())
}
