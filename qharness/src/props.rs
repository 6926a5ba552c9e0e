//! Properties of the queue.
use crate::sim::*;
use yv_engine::run::{violation, Fail, Obs};
use yv_engine::src::Src;

pub type R = Result<(), Fail>;

pub struct Opts {
    pub max_mails: usize,
    /// of 16: found in flight rather than queued
    pub found: u32,
    /// of 16: a storage operation fails
    pub sfault: u32,
    /// of 16: an attempt is refused
    pub tfault: u32,
    /// of 64: an operation never ends
    pub hang: u32,
    /// of 16: the transport refuses for ever
    pub forever: u32,
    /// of 16: a listing fails
    pub lfault: u32,
    pub big: bool,
    /// long waits in the listings
    pub slow_lists: bool,
    pub ghosts: bool,
}

impl Default for Opts {
    fn default() -> Opts {
        Opts { max_mails: 6, found: 4, sfault: 1, tfault: 6, hang: 1, forever: 1, lfault: 1, big: false, slow_lists: false, ghosts: true }
    }
}

fn wait(s: &mut Src) -> Wait {
    match s.below(6) {
        0 | 1 => Wait::Polls(0),
        2 | 3 => Wait::Polls(1 + s.below(4) as u8),
        4 => Wait::Ms(s.below(50) as u32),
        _ => Wait::Ms(s.below(600_000) as u32),
    }
}

fn oplan(s: &mut Src, o: &Opts) -> OpPlan {
    let ok = !s.chance(o.sfault, 16);
    let w = if o.hang > 0 && s.chance(o.hang, 64) { Wait::Hang } else { wait(s) };
    OpPlan { wait: w, ok }
}

fn ops(s: &mut Src, o: &Opts) -> Vec<OpPlan> {
    let n = s.below(5);
    (0..n).map(|_| oplan(s, o)).collect()
}

pub fn code(s: &mut Src) -> u16 {
    match s.below(4) {
        0 => *s.pick(&[421, 450, 451, 452, 550, 551, 552, 553, 554, 500, 250]),
        1 => s.below(1000) as u16,
        2 => 500 + s.below(100) as u16,
        _ => 400 + s.below(100) as u16,
    }
}

pub fn refusal_text(s: &mut Src) -> Vec<u8> {
    match s.below(6) {
        0 => vec![],
        1 => s.pick(&[&b"5.1.1 no such user"[..], b"4.7.0 greylisted, try again later", b"QUIT", b"spam", b"too many connections", b"OK", b"\xc3\xa9\r\n250 ok"]).to_vec(),
        2 => s.dict_str(),
        3 => {
            let n = s.size(700);
            s.bytes(n)
        }
        _ => b"refused".to_vec(),
    }
}

fn an_addr(s: &mut Src) -> Vec<u8> {
    match s.below(12) {
        0 => return s.pick(&[&b"postmaster@example.org"[..], b"Postmaster@EXAMPLE.org", b"\"m r\"@example.org", b"\"\\m\\r\"@h", b"\"\"@h", b"m+tag@example.org", b"m@[IPv6:::1]", b"mailer-daemon@h", b"root@localhost"]).to_vec(),
        1 => {
            // a local part out of the sources
            let mut a: Vec<u8> = s.dict_str().into_iter().filter(|c| c.is_ascii_alphanumeric()).collect();
            a.push(b'm');
            a.extend_from_slice(b"@example.org");
            return a;
        }
        _ => (),
    }
    let l = 1 + s.below(6);
    let mut a = s.from_alphabet(l, b"abcxyz0.");
    a.insert(0, b'm');
    a.push(b'r');
    while let Some(k) = a.windows(2).position(|w| w == b"..") {
        a[k] = b'd';
    }
    a.push(b'@');
    a.extend_from_slice(s.pick(&[&b"example.org"[..], b"example.net", b"h", b"[127.0.0.1]", b"a.b.c.example"]));
    a
}

fn mail(s: &mut Src, o: &Opts) -> MailPlan {
    let found = s.chance(o.found, 16);
    let nt = match s.below(6) {
        0 if o.big => s.below(150),
        1 => s.below(3),
        _ => 1 + s.below(4),
    };
    let nc = match s.below(6) {
        0 if o.big => s.below(60),
        _ => s.below(5),
    };
    let chunks = (0..nc)
        .map(|_| {
            let n = if o.big { s.size(9000) } else { s.size(40) };
            s.bytes(n)
        })
        .collect();
    let forever = s.chance(o.forever, 16);
    let n = match s.below(8) {
        0 if s.scale >= 2 => s.below(40),
        _ => s.below(4),
    };
    let mut send: Vec<SendPlan> = vec![];
    for _ in 0..n {
        let refuse = s.chance(o.tfault, 16);
        if refuse {
            let c = code(s);
            let read = if s.chance(1, 3) { Some(s.below(4)) } else { None };
            let text = refusal_text(s);
            send.push(SendPlan { wait: wait(s), err: Some(c), read, text });
        }
    }
    let hang = o.hang > 0 && s.chance(o.hang, 64);
    send.push(SendPlan { wait: if hang { Wait::Hang } else { wait(s) }, err: None, read: None, text: vec![] });
    if forever {
        let c = code(s);
        let l = send.last_mut().unwrap();
        l.err = Some(c);
        l.text = refusal_text(s);
        l.wait = Wait::Ms(60_000 + s.below(600_000) as u32);
    }
    let slow = o.slow_lists && s.chance(1, 4);
    let ghost = o.ghosts && s.chance(1, 2);
    let mut to: Vec<Vec<u8>> = (0..nt).map(|_| an_addr(s)).collect();
    if s.chance(1, 4) {
        // the same recipient more than once, next to each other or not
        for _ in 0..1 + s.below(3) {
            if let Some(mut a) = to.get(s.below(nt.max(1))).cloned() {
                match s.below(4) {
                    // the same but for capitals, or for quotes
                    0 if !a.contains(&b'[') => a.make_ascii_uppercase(),
                    1 if a[0] != b'"' => {
                        let at = a.iter().position(|&c| c == b'@').unwrap();
                        a.insert(at, b'"');
                        a.insert(0, b'"');
                    }
                    _ => (),
                }
                let k = s.below(to.len() + 1);
                to.insert(k, a);
            }
        }
    }
    let mut m = MailPlan {
        found,
        from: if s.chance(1, 6) { None } else { Some(an_addr(s)) },
        to,
        data_err: if s.chance(1, 16) { Some(s.below(nc + 2)) } else { None },
        chunks,
        list_wait: if slow { Wait::Ms(s.below(6_000_000) as u32) } else { wait(s) },
        start: ops(s, o),
        get: ops(s, o),
        send,
        done: oplan(s, o),
        cancel: ops(s, o),
        cancel_found: oplan(s, o),
        ghost,
        forever,
    };
    if !m.storage_fine() || !m.transport_finite() {
        // what is stuck in flight for more than the hour is not ours to protect
        m.ghost = false;
    }
    m
}

pub fn plan(s: &mut Src, o: &Opts) -> Plan {
    let n = 1 + s.below(o.max_mails);
    let mails: Vec<MailPlan> = (0..n).map(|_| mail(s, o)).collect();
    let list_err = s.chance(o.lfault, 16);
    let find_err = s.chance(o.lfault, 16);
    let end = |s: &mut Src| match s.below(8) {
        0 if o.slow_lists => Wait::Ms(s.below(6_000_000) as u32),
        1 if o.hang > 0 && s.chance(1, 4) => Wait::Hang,
        _ => wait(s),
    };
    let list_end = end(s);
    let find_end = end(s);
    Plan { mails, list_err, find_err, list_end, find_end }
}

/// What should be asked of the storage and the transport for one mail, in order, each with how it
/// ends (None: it never does).  The flag tells that the last refusal repeats for ever.
pub fn expected(m: &MailPlan) -> (Vec<(What, Option<bool>)>, bool) {
    let mut v = vec![];
    let mut put = |w: What, o: &OpPlan| -> bool {
        if o.wait == Wait::Hang {
            v.push((w, None));
            return false;
        }
        v.push((w, Some(o.ok)));
        o.ok
    };
    let at = |p: &[OpPlan], k: usize| p.get(k).cloned().unwrap_or(OpPlan { wait: Wait::Polls(0), ok: true });
    if m.found && !put(What::CancelFound, &m.cancel_found) {
        return (v, false);
    }
    for k in 0.. {
        if !put(What::Start, &at(&m.start, k)) || !put(What::Get, &at(&m.get, k)) {
            break;
        }
        let s = m.send_at(k);
        let so = OpPlan { wait: s.wait.clone(), ok: s.err.is_none() };
        if put(What::Send, &so) {
            put(What::Done, &m.done);
            break;
        }
        if s.wait == Wait::Hang || !put(What::Cancel, &at(&m.cancel, k)) {
            break;
        }
        if k >= m.send.len() + 4 {
            return (v, m.forever);
        }
    }
    (v, false)
}

/// An upper bound on the virtual time a mail takes from being listed, unless it is refused for ever
fn need(m: &MailPlan) -> u64 {
    let ms = |w: &Wait| match w {
        Wait::Ms(m) => *m as u64 + 2,
        _ => 0,
    };
    let sum = |v: &[OpPlan]| v.iter().map(|o| ms(&o.wait)).sum::<u64>();
    sum(&m.start) + sum(&m.get) + sum(&m.cancel) + ms(&m.done.wait) + m.send.iter().map(|s| ms(&s.wait)).sum::<u64>() + if m.found { HOUR + ms(&m.cancel_found.wait) } else { 0 } + 1000
}

/// Whether all of a mail's doings fit between its listing and the end of the run
fn fits(st: &St, i: usize, m: &MailPlan) -> bool {
    st.log.iter().any(|e| e.mail == i && e.what == What::Listed && !e.ghost && e.t + need(m) < HORIZON)
}

/// What was asked for one mail
fn observed(st: &St, i: usize) -> Vec<(What, Option<bool>)> {
    let mut v: Vec<(What, Option<bool>)> = vec![];
    for e in st.log.iter().filter(|e| e.mail == i && !e.ghost && e.what != What::Listed) {
        match e.res {
            None => v.push((e.what, None)),
            Some(r) => match v.iter_mut().rev().find(|x| x.0 == e.what && x.1.is_none()) {
                Some(x) => x.1 = Some(r),
                None => v.push((e.what, Some(r))),
            },
        }
    }
    v
}

pub fn show(v: &[(What, Option<bool>)]) -> String {
    v.iter()
        .map(|(w, r)| {
            format!(
                "{:?} {}",
                w,
                match r {
                    None => "…",
                    Some(true) => "ok",
                    Some(false) => "fails",
                }
            )
        })
        .collect::<Vec<_>>()
        .join(", ")
}

fn listed(st: &St, i: usize) -> bool {
    st.log.iter().any(|e| e.mail == i && e.what == What::Listed && !e.ghost)
}

fn wrong(st: &St, props: &[&str]) -> R {
    for (p, m) in &st.wrong {
        if props.contains(p) {
            return violation(m.clone());
        }
    }
    Ok(())
}

fn run(s: &mut Src, o: &mut Obs, opts: &Opts) -> (Plan, Sim) {
    let p = plan(s, opts);
    let r = play(&p, o);
    (p, r)
}

pub const HORIZON: u64 = 4 * HOUR;

fn play(p: &Plan, o: &mut Obs) -> Sim {
    let r = simulate(p, HORIZON);
    let st = r.w.lock();
    o.add("runs", 1);
    o.add("mails", p.mails.len() as u64);
    o.add("polls", st.polls);
    let n = |w: What, res: Option<bool>| st.log.iter().filter(|e| e.what == w && e.res == res).count() as u64;
    o.add("attempts", n(What::Send, None));
    o.add("refused_attempts", n(What::Send, Some(false)));
    o.add("delivered", n(What::Send, Some(true)));
    o.add("completed", n(What::Done, Some(true)));
    o.add("taken_back_after_the_hour", st.log.iter().filter(|e| e.what == What::CancelFound && e.res == Some(true)).count() as u64);
    o.add("failed_storage_operations", st.log.iter().filter(|e| e.what != What::Send && e.res == Some(false)).count() as u64);
    o.add("stale_in_flight_entries", st.log.iter().filter(|e| e.what == What::Listed && e.ghost).count() as u64);
    o.max("virtual_ms", st.now);
    for e in &st.log {
        o.sig = yv_engine::util::mix(o.sig, (e.t << 20) ^ (e.mail as u64) << 6 ^ (e.what as u64) << 2 ^ e.res.map_or(2, |x| x as u64));
    }
    if o.describe {
        let mut d = String::new();
        for (i, m) in p.mails.iter().enumerate().take(20) {
            d.push_str(&format!(
                "mail {} ({}): start {:?} get {:?} send {:?} done {:?} cancel {:?}{}\n",
                i,
                if m.found { "found in flight" } else { "queued" },
                m.start,
                m.get,
                m.send,
                m.done,
                m.cancel,
                if m.found { format!(" take back {:?}", m.cancel_found) } else { String::new() }
            ));
        }
        d.push_str(&format!("observed ({:?}; start-up {:?}):\n", r.end, st.run_result));
        for e in st.log.iter().take(150) {
            d.push_str(&format!("  {:>9} ms mail {} {:?} {}\n", e.t, e.mail, e.what, match e.res {
                None => "asked",
                Some(true) => "ok",
                Some(false) => "failed",
            }));
        }
        o.desc = d;
    }
    drop(st);
    r
}

fn not_busy(r: &Sim) -> R {
    if r.end == End::Busy {
        return violation("the queue works without end while no time passes and nothing fails");
    }
    Ok(())
}

// Q01
pub fn q01(s: &mut Src, o: &mut Obs) -> R {
    let opts = Opts { max_mails: if s.scale >= 2 { 30 } else { 6 }, sfault: s.below(2) as u32, hang: s.below(2) as u32, tfault: 8, ..Opts::default() };
    let (p, r) = run(s, o, &opts);
    not_busy(&r)?;
    let st = r.w.lock();
    wrong(&st, &["Q01"])?;
    for (i, m) in p.mails.iter().enumerate() {
        let sent = st.log.iter().filter(|e| e.mail == i && e.what == What::Send && e.res == Some(true)).count();
        let tried = st.log.iter().filter(|e| e.mail == i && e.what == What::Send && e.res.is_none()).count();
        let done = st.log.iter().filter(|e| e.mail == i && e.what == What::Done && e.res == Some(true)).count();
        if sent > 1 {
            return violation(format!("mail {} was delivered {} times", i, sent));
        }
        if !listed(&st, i) || !m.storage_fine() || !fits(&st, i, m) {
            continue;
        }
        let fails = m.send.iter().filter(|s| s.err.is_some()).count();
        if m.transport_finite() {
            o.nontrivial |= fails > 0;
            if sent != 1 || done != 1 {
                return violation(format!(
                    "mail {} ({} refusals, then accepted) was delivered {} times and completed {} times after {} attempts: {}",
                    i,
                    fails,
                    sent,
                    done,
                    tried,
                    show(&observed(&st, i))
                ));
            }
            if tried != fails + 1 {
                return violation(format!("mail {} was tried {} times with {} refusals", i, tried, fails));
            }
        } else if m.forever && m.send.iter().all(|s| s.wait != Wait::Hang) {
            let last = st.log.iter().filter(|e| e.mail == i).map(|e| e.t).max().unwrap_or(0);
            if tried < m.send.len() || r.end == End::Quiet || st.now - last > 2 * HOUR {
                return violation(format!("mail {} was given up after {} refused attempts: {}", i, tried, show(&observed(&st, i))));
            }
        }
    }
    Ok(())
}

// Q02
pub fn q02(s: &mut Src, o: &mut Obs) -> R {
    let opts = Opts { max_mails: if s.scale >= 2 { 20 } else { 5 }, sfault: 2 + s.below(3) as u32, hang: s.below(4) as u32, tfault: 8, ..Opts::default() };
    let (p, r) = run(s, o, &opts);
    let st = r.w.lock();
    wrong(&st, &["Q02"])?;
    for (i, m) in p.mails.iter().enumerate() {
        if !listed(&st, i) {
            if !observed(&st, i).is_empty() {
                return violation(format!("mail {} was worked on before it was listed", i));
            }
            continue;
        }
        let (want, repeats) = expected(m);
        let got = observed(&st, i);
        o.nontrivial |= want.iter().any(|x| x.1 != Some(true));
        if repeats || !fits(&st, i, m) {
            // as far as the horizon allowed
            let n = want.len().min(got.len());
            let n = if got.len() == n && n > 0 { n - 1 } else { n };
            if got[..n] != want[..n] {
                return violation(format!("mail {}: {} — expected {}", i, show(&got), show(&want)));
            }
            continue;
        }
        if got != want {
            // giving back what could not be read is as good as leaving it in flight
            let unread = want.last() == Some(&(What::Get, Some(false)));
            if unread && got.len() > want.len() && got[..want.len()] == want[..] && got[want.len()].0 == What::Cancel {
                continue;
            }
            return violation(format!("mail {}: {} — expected {}", i, show(&got), show(&want)));
        }
    }
    Ok(())
}

// Q03
pub fn q03(s: &mut Src, o: &mut Obs) -> R {
    let opts = Opts { max_mails: if s.scale >= 2 { 20 } else { 5 }, found: 9, slow_lists: s.chance(1, 2), sfault: s.below(2) as u32, lfault: 1, forever: s.below(3) as u32, hang: s.below(3) as u32, ..Opts::default() };
    let (p, r) = run(s, o, &opts);
    not_busy(&r)?;
    let st = r.w.lock();
    wrong(&st, &["Q03"])?;
    for (i, m) in p.mails.iter().enumerate() {
        for e in st.log.iter().filter(|e| e.mail == i && e.what == What::CancelFound && e.res.is_none()) {
            // the latest listing of it in flight
            let l = st.log.iter().filter(|x| x.mail == i && x.what == What::Listed && x.ghost == e.ghost && x.t <= e.t).map(|x| x.t).max();
            if l.map_or(true, |l| e.t < l + HOUR) {
                return violation(format!("mail {} was found in flight at {:?} ms and taken back at {} ms, before an hour had passed", i, l, e.t));
            }
        }
        if !m.found {
            continue;
        }
        let Some(l) = st.log.iter().find(|e| e.mail == i && e.what == What::Listed) else { continue };
        o.nontrivial = true;
        o.add("found_in_flight", 1);
        let taken: Vec<&Ev> = st.log.iter().filter(|e| e.mail == i && e.what == What::CancelFound && e.res.is_none()).collect();
        if l.t + HOUR + 1000 > HORIZON {
            continue;
        }
        if taken.len() != 1 {
            return violation(format!("mail {}, found in flight, was taken back {} times", i, taken.len()));
        }
        let due = l.t + HOUR + 50;
        if taken[0].t > due {
            return violation(format!("mail {}, found in flight at {} ms, was only taken back at {} ms", i, l.t, taken[0].t));
        }
        let first = st.log.iter().find(|e| e.mail == i && !matches!(e.what, What::Listed | What::CancelFound));
        let back = st.log.iter().find(|e| e.mail == i && e.what == What::CancelFound && e.res == Some(true));
        match (first, back) {
            (Some(f), Some(b)) if f.t >= b.t => (),
            (Some(_), _) => return violation(format!("mail {}, found in flight, was worked on before it was taken back: {}", i, show(&observed(&st, i)))),
            (None, Some(_)) => return violation(format!("mail {} was taken back and then forgotten", i)),
            (None, None) => (),
        }
        if back.is_some() && m.storage_fine() && m.transport_finite() && fits(&st, i, m) {
            let done = st.log.iter().filter(|e| e.mail == i && e.what == What::Done && e.res == Some(true)).count();
            if done != 1 {
                return violation(format!("mail {}, found in flight, was completed {} times: {}", i, done, show(&observed(&st, i))));
            }
        }
    }
    Ok(())
}

// Q04
pub fn q04(s: &mut Src, o: &mut Obs) -> R {
    let n = match s.scale {
        0 => 3,
        1 => 8,
        2 => 40,
        _ => 300,
    };
    let opts = Opts { max_mails: n, found: 3, forever: 4, hang: 12, sfault: 2, tfault: 4, lfault: 1, slow_lists: s.chance(1, 3), ghosts: false, ..Opts::default() };
    let (p, r) = run(s, o, &opts);
    let st = r.w.lock();
    let troubled = p.mails.iter().filter(|m| !m.storage_fine() || !m.transport_finite()).count();
    o.add("stuck_or_failing_mails", troubled as u64);
    let mut checked = 0;
    let span = |st: &St, i: usize, m: &MailPlan| -> Option<(u64, Option<u64>)> {
        let what = if m.found { What::CancelFound } else { What::Listed };
        let from = st.log.iter().find(|e| e.mail == i && e.what == what)?.t;
        Some((from, st.log.iter().find(|e| e.mail == i && e.what == What::Done && e.res == Some(true)).map(|e| e.t)))
    };
    for (i, m) in p.mails.iter().enumerate() {
        if !m.storage_fine() || !m.transport_finite() || checked >= 12 {
            continue;
        }
        let Some((from, end)) = span(&st, i, m) else { continue };
        // alone
        let mut one = m.clone();
        one.list_wait = Wait::Polls(0);
        let alone = simulate(
            &Plan { mails: vec![one], list_err: false, find_err: false, list_end: Wait::Polls(0), find_end: Wait::Polls(0) },
            HORIZON,
        );
        let a = alone.w.lock();
        let Some((af, Some(ae))) = span(&a, 0, m) else {
            continue; // another property's business
        };
        let need = ae - af;
        if from + need + 1000 > HORIZON {
            continue;
        }
        checked += 1;
        match end {
            None => return violation(format!("mail {} takes {} ms alone, but was never completed next to {} stuck or failing ones: {}", i, need, troubled, show(&observed(&st, i)))),
            Some(e) if e - from > need + 50 => {
                return violation(format!("mail {} takes {} ms alone, but took {} ms next to {} others ({} stuck or failing)", i, need, e - from, p.mails.len() - 1, troubled))
            }
            _ => (),
        }
    }
    o.add("mails_timed", checked);
    o.nontrivial = checked > 0 && troubled > 0;
    Ok(())
}

// Q05
pub fn q05(s: &mut Src, o: &mut Obs) -> R {
    let opts = Opts { max_mails: if s.scale >= 2 { 8 } else { 3 }, big: true, tfault: 7, hang: 0, ..Opts::default() };
    let (p, r) = run(s, o, &opts);
    let st = r.w.lock();
    for m in &p.mails {
        for c in &m.chunks {
            o.sign(c);
            o.add("content_bytes", c.len() as u64);
        }
        o.max("recipients", m.to.len() as u64);
    }
    o.nontrivial = st.log.iter().any(|e| e.what == What::Send);
    wrong(&st, &["Q05"])
}

// Q06
pub fn q06(s: &mut Src, o: &mut Obs) -> R {
    let opts = Opts { max_mails: if s.scale >= 2 { 20 } else { 5 }, lfault: 6, slow_lists: true, hang: 3, sfault: 1, ..Opts::default() };
    let (p, r) = run(s, o, &opts);
    not_busy(&r)?;
    let st = r.w.lock();
    wrong(&st, &["Q06"])?;
    o.nontrivial = p.list_err || p.find_err;
    o.add("failed_listings", (p.list_err || p.find_err) as u64);
    if st.list_calls != 1 || st.find_calls > 1 {
        return violation(format!("the queue was listed {} times, what is in flight {} times", st.list_calls, st.find_calls));
    }
    // until when the listings take
    let ms = |w: &Wait| match w {
        Wait::Hang => None,
        Wait::Ms(m) => Some(*m as u64),
        Wait::Polls(_) => Some(0),
    };
    let lists = |found: bool, end: &Wait| -> Option<u64> { p.mails.iter().filter(|m| m.found == found).map(|m| ms(&m.list_wait)).sum::<Option<u64>>().and_then(|x| ms(end).map(|y| x + y)) };
    let ghosts: u64 = p.mails.iter().filter(|m| !m.found).filter_map(|m| ms(&m.list_wait)).sum();
    let (l, f) = (lists(false, &p.list_end), lists(true, &p.find_end));
    let want = match (l, p.list_err, f, p.find_err) {
        (None, ..) => None,
        (Some(t), true, ..) => Some((Err(()), t)),
        (Some(_), false, None, _) => None,
        (Some(t), false, Some(u), e) => Some((if e { Err(()) } else { Ok(()) }, t + u + ghosts)),
    };
    if let Some((w, t)) = want {
        if t + 1000 < HORIZON && r.end == End::Quiet || t + HOUR / 2 < HORIZON {
            if st.run_result != Some(w) {
                return violation(format!("start-up reported {:?}, expected {:?} (listing fails: {}, listing what is in flight fails: {})", st.run_result, w, p.list_err, p.find_err));
            }
            for (i, m) in p.mails.iter().enumerate() {
                let due = !m.found || !p.list_err;
                if due && !listed(&st, i) {
                    return violation(format!("mail {} was never listed", i));
                }
            }
        }
    } else if st.run_result.is_some() {
        return violation(format!("start-up reported {:?} before the listings ended", st.run_result));
    }
    // what was listed is handled, whatever became of the listing
    for (i, m) in p.mails.iter().enumerate() {
        if let Some(e) = st.log.iter().find(|e| e.mail == i && e.what == What::Listed && !e.ghost) {
            let first = if m.found { What::CancelFound } else { What::Start };
            let at = st.log.iter().find(|x| x.mail == i && x.what == first && !x.ghost).map(|x| x.t);
            let due = if m.found { e.t + HOUR } else { e.t } + 50;
            if due < HORIZON && at.map_or(true, |t| t > due) {
                return violation(format!("mail {} was listed at {} ms, but {:?} came at {:?}", i, e.t, first, at));
            }
        }
    }
    Ok(())
}

/// What may still be held for one mail: what it waits for and what that needs
const PER_MAIL: usize = 8;

// Q07
pub fn q07(s: &mut Src, o: &mut Obs) -> R {
    let opts = Opts {
        max_mails: if s.scale >= 2 { 20 } else { 5 },
        sfault: s.below(4) as u32,
        hang: s.below(3) as u32,
        tfault: 10,
        forever: s.below(4) as u32,
        slow_lists: s.chance(1, 4),
        lfault: s.below(3) as u32,
        ..Opts::default()
    };
    let (p, r) = run(s, o, &opts);
    not_busy(&r)?;
    let st = r.w.lock();
    let l = r.left;
    // mails that are not over and done with: waiting for their hour, stuck, refused for ever, or cut off by the horizon
    let open = (0..p.mails.len())
        .filter(|&i| listed(&st, i))
        .filter(|&i| {
            let (want, repeats) = expected(&p.mails[i]);
            repeats || want.iter().any(|w| w.1.is_none()) || observed(&st, i) != want
        })
        .count();
    // entries found in flight that were this run's own: done with once their return was refused
    let ghosts = |w: What, res: Option<bool>| st.log.iter().filter(|e| e.ghost && e.what == w && (res.is_none() || e.res == res)).count();
    let ghosts_open = ghosts(What::Listed, None).saturating_sub(ghosts(What::CancelFound, Some(false)));
    let open = open + ghosts_open;
    let attempts = st.log.iter().filter(|e| e.what == What::Send && e.res.is_none()).count();
    o.max("attempts_in_one_run", attempts as u64);
    o.add("runs_that_came_to_rest", (r.end == End::Quiet) as u64);
    o.add("mails_still_open_at_the_end", open as u64);
    o.max("references_at_the_end", (l.storage + l.transport) as u64);
    let over = st.run_result.is_some();
    o.nontrivial = over && attempts > p.mails.len();
    if !over {
        // the listings go on, with what they need
        let n = open + 1;
        if l.storage > PER_MAIL * n + 2 || l.transport > PER_MAIL * n + 2 {
            return violation(format!("while {} mails are open and the listings go on, {} references to the storage and {} to the transport are held", open, l.storage, l.transport));
        }
        return Ok(());
    }
    if l.lists != 0 {
        return violation(format!("start-up is over, but {} listings are still held", l.lists));
    }
    if open == 0 {
        if l != Left::default() {
            return violation(format!("all mail is dealt with, but still held are: {:?}", l));
        }
        o.add("runs_that_left_nothing", 1);
        return Ok(());
    }
    if l.storage > PER_MAIL * open || l.transport > PER_MAIL * open || l.handles > open as i64 || l.waits > open as i64 || l.contents > open as i64 {
        return violation(format!("{} mails are still open after {} attempts, but held are: {:?}", open, attempts, l));
    }
    Ok(())
}
