//! Large queues, and queues over days of virtual time: up to 70,000 mails listed or found in flight, thousands of refusals, recipients and
//! pieces of content, judged in time proportional to what happened.
use crate::props::{expected, show, HORIZON, R};
use crate::sim::*;
use yv_engine::run::{violation, Obs};
use yv_engine::util::mix;

const COUNTS: &[usize] = &[255, 256, 257, 1025, 4095, 4096, 4097, 65_535, 65_536, 65_537, 70_000];
/// sorts of queues with many mails
const MANY: usize = 7;
/// sorts of queues with one large mail
const LARGE: usize = 4;
/// sorts of queues that take days
const LATE: usize = 5;
const SORTS: usize = MANY + LARGE + LATE;
const DAYS: &[usize] = &[1, 2, 3, 4, 5, 6, 7, 14, 31, 60, 400];

fn now() -> OpPlan {
    OpPlan { wait: Wait::Polls(0), ok: true }
}

fn sent(wait: Wait, err: Option<u16>) -> SendPlan {
    SendPlan { wait, err, read: None, text: vec![] }
}

fn simple(k: usize) -> MailPlan {
    MailPlan {
        found: false,
        from: Some(format!("s{}@example.org", k).into_bytes()),
        to: vec![format!("r{}@example.net", k).into_bytes()],
        chunks: vec![k.to_string().into_bytes()],
        data_err: None,
        list_wait: Wait::Polls(0),
        start: vec![],
        get: vec![],
        send: vec![sent(Wait::Polls(0), None)],
        done: now(),
        cancel: vec![],
        cancel_found: now(),
        ghost: false,
        forever: false,
    }
}

fn plan_of(sort: usize, n: usize) -> (&'static str, Plan) {
    let mut p = Plan { mails: vec![], list_err: false, find_err: false, list_end: Wait::Polls(0), find_end: Wait::Polls(0) };
    let name = match sort {
        0 => {
            p.mails = (0..n).map(simple).collect();
            "queued mails"
        }
        1 => {
            p.mails = (0..n).map(|k| MailPlan { found: true, ..simple(k) }).collect();
            "mails found in flight"
        }
        2 => {
            // as many of both, refused up to twice
            p.mails = (0..2 * n)
                .map(|k| {
                    let mut m = MailPlan { found: k % 2 == 1, ..simple(k) };
                    for _ in 0..(k / 2) % 3 {
                        m.send.insert(0, sent(Wait::Ms(3), Some(450)));
                    }
                    m
                })
                .collect();
            "mails queued and as many found in flight, refused up to twice"
        }
        3 => {
            // stuck ones, and few that are not
            p.mails = (0..n)
                .map(|k| {
                    let mut m = simple(k);
                    m.found = k % 4 == 3;
                    if k >= 3 && k + 3 < n && k % 256 > 1 {
                        match k % 3 {
                            0 => m.send[0].wait = Wait::Hang,
                            1 => m.start = vec![OpPlan { wait: Wait::Hang, ok: true }],
                            _ => m.get = vec![OpPlan { wait: Wait::Polls(1), ok: false }],
                        }
                    }
                    m
                })
                .collect();
            "mails, most of them stuck or unreadable"
        }
        4 => {
            // listed over a time
            p.mails = (0..n).map(|k| MailPlan { found: k % 2 == 1, list_wait: Wait::Ms(5), ..simple(k) }).collect();
            p.list_end = Wait::Ms(7);
            "mails listed one every 5 ms"
        }
        5 => {
            p.mails = (0..n).map(|k| simple(k)).collect();
            p.mails.push(MailPlan { found: true, ..simple(n) });
            p.list_err = true;
            "queued mails in a listing that fails"
        }
        6 => {
            p.mails = (0..n).map(|k| MailPlan { found: true, ..simple(k) }).collect();
            p.mails.push(simple(n));
            p.find_err = true;
            "mails found in flight in a listing that fails"
        }
        7 => {
            let mut m = simple(0);
            m.send = vec![sent(Wait::Ms(1), Some(451)); n];
            m.send.push(sent(Wait::Polls(0), None));
            let mut f = m.clone();
            f.found = true;
            p.mails = vec![m, simple(1), f];
            "refusals of one mail"
        }
        8 => {
            let mut m = simple(0);
            m.to = (0..n).map(|k| format!("r{}@h{}.example.net", k, k % 7).into_bytes()).collect();
            m.send.insert(0, SendPlan { wait: Wait::Polls(0), err: Some(550), read: None, text: vec![b'x'; n] });
            p.mails = vec![m];
            "recipients of one mail"
        }
        9 => {
            let mut m = simple(0);
            m.chunks = (0..n).map(|k| k.to_string().into_bytes()).collect();
            m.send.insert(0, SendPlan { wait: Wait::Polls(0), err: Some(550), read: Some(n / 2), text: vec![] });
            p.mails = vec![m];
            "pieces of content of one mail"
        }
        10 => {
            let mut m = simple(0);
            m.chunks = vec![(0..n).map(|k| (k * 7 + k / 251) as u8).collect(), vec![], b"end".to_vec()];
            m.from = Some([&b"a".repeat(n)[..], b"@example.org"].concat());
            m.to = vec![[&b"b".repeat(n)[..], b"@example.org"].concat(), b"c@d".to_vec()];
            p.mails = vec![m];
            "bytes in a piece of content and in the addresses"
        }
        11 => {
            // each of the attempts takes hours
            for h in [1, 5, 24] {
                let mut m = simple(p.mails.len());
                m.send = (0..n * 24 / h).map(|k| sent(Wait::Ms(h as u32 * HOUR as u32), Some([421, 450, 550, 554][k % 4]))).collect();
                m.send.push(sent(Wait::Ms(10), None));
                p.mails.push(MailPlan { found: true, ..m.clone() });
                p.mails.push(m);
            }
            "days of refusals"
        }
        12 => {
            // one every eight hours
            p.mails = (0..3 * n).map(|k| MailPlan { found: k % 2 == 1, list_wait: Wait::Ms(8 * HOUR as u32 + k as u32), ..simple(k) }).collect();
            "days of listing"
        }
        13 => {
            let days = Wait::Ms((n.min(49) * 24) as u32 * HOUR as u32);
            for k in 0..7 {
                let mut m = simple(k);
                m.send.insert(0, sent(Wait::Polls(0), Some(450)));
                let op = OpPlan { wait: days.clone(), ok: true };
                match k {
                    0 => m.start = vec![op],
                    1 => m.start = vec![now(), op],
                    2 => m.get = vec![op],
                    3 => m.cancel = vec![op],
                    4 => m.done = op,
                    5 => m.send[1].wait = days.clone(),
                    _ => {
                        m.found = true;
                        m.cancel_found = op;
                    }
                }
                p.mails.push(m);
            }
            p.mails.push(simple(7));
            "days (49 at most) for one operation"
        }
        14 => {
            // the listing of what is in flight comes late
            p.mails = (0..6).map(|k| MailPlan { found: k % 2 == 1, ..simple(k) }).collect();
            for k in 0..n {
                p.mails.push(MailPlan { list_wait: Wait::Ms(24 * HOUR as u32), ..simple(k + 6) });
            }
            "days before what is in flight is listed"
        }
        _ => {
            // the listing of what is in flight does not end
            p.mails = (0..6).map(|k| MailPlan { found: k % 2 == 1, ..simple(k) }).collect();
            for k in 0..n {
                p.mails.push(MailPlan { found: true, list_wait: Wait::Ms(24 * HOUR as u32), ..simple(k + 6) });
            }
            "days of listing what is in flight"
        }
    };
    (name, p)
}

pub fn total(_: bool) -> u64 {
    (COUNTS.len() * SORTS) as u64
}

#[derive(Default, Clone)]
struct Seen {
    listed: Vec<u64>,
    first: Option<u64>,
    taken: Vec<u64>,
    back: Option<u64>,
    done: Option<u64>,
    dones: usize,
    tried: usize,
    sent: usize,
    steps: Vec<(What, Option<bool>)>,
}

/// One pass over what happened
fn sort_out(st: &St, n: usize) -> Vec<Seen> {
    let mut v = vec![Seen::default(); n];
    for e in &st.log {
        let s = &mut v[e.mail];
        if e.what == What::Listed {
            s.listed.push(e.t);
            continue;
        }
        match (e.what, e.res) {
            (What::CancelFound, None) => s.taken.push(e.t),
            (What::CancelFound, Some(true)) => s.back = Some(e.t),
            (What::Send, None) => s.tried += 1,
            (What::Send, Some(true)) => s.sent += 1,
            (What::Done, Some(true)) => {
                s.dones += 1;
                s.done = Some(e.t);
            }
            _ => (),
        }
        if e.what != What::CancelFound && s.first.is_none() {
            s.first = Some(e.t);
        }
        match (e.res, s.steps.last_mut()) {
            (Some(r), Some(x)) if x.0 == e.what && x.1.is_none() => x.1 = Some(r),
            (r, _) => s.steps.push((e.what, r)),
        }
    }
    v
}

fn span(m: &MailPlan) -> u64 {
    let ms = |w: &Wait| if let Wait::Ms(x) = w { *x as u64 } else { 0 };
    let ops: u64 = m.start.iter().chain(&m.get).chain(&m.cancel).chain([&m.done, &m.cancel_found]).map(|o| ms(&o.wait)).sum();
    ops + m.send.iter().map(|s| ms(&s.wait)).sum::<u64>()
}

fn short(v: &[(What, Option<bool>)]) -> String {
    if v.len() > 12 {
        format!("{} ... ({} steps)", show(&v[..12]), v.len())
    } else {
        show(v)
    }
}

fn case(i: u64, o: &mut Obs, prop: &'static str) -> R {
    let (sort, n) = (i as usize % SORTS, i as usize / SORTS);
    let late = sort >= MANY + LARGE;
    let n = if late { DAYS[n] } else { COUNTS[n] };
    let (name, p) = plan_of(sort, n);
    o.nontrivial = true;
    o.sig = mix(mix(o.sig, sort as u64), n as u64);
    let r = simulate(&p, if late { (n as u64 + 3) * 30 * HOUR } else { HORIZON });
    let st = r.w.lock();
    o.add("large_queues", 1);
    o.add("mails", p.mails.len() as u64);
    o.max("mails_in_one_queue", p.mails.len() as u64);
    o.add("events", st.log.len() as u64);
    if o.describe {
        o.desc = format!("{} {}: {} events, ends {:?} at {} ms", n, name, st.log.len(), r.end, st.now);
    }
    let bad = |m: String| violation(format!("{} {}: {}", n, name, m));
    if let Some((_, m)) = st.wrong.iter().find(|w| w.0 == prop) {
        return bad(m.chars().take(500).collect());
    }
    if r.end == End::Busy && prop != "Q02" && prop != "Q05" && prop != "Q04" {
        return bad("the queue works without end while no time passes".into());
    }
    let seen = sort_out(&st, p.mails.len());
    let stuck = |m: &MailPlan| !m.storage_fine() || !m.transport_finite();
    let never = |m: &MailPlan| p.list_err && m.found;
    for (k, (m, s)) in p.mails.iter().zip(&seen).enumerate() {
        let fine = !stuck(m) && !never(m);
        let (want, _) = expected(m);
        match prop {
            "Q01" => {
                let refused = m.send.iter().filter(|x| x.err.is_some()).count();
                if fine && (s.sent != 1 || s.dones != 1 || s.tried != refused + 1) {
                    return bad(format!("mail {} ({} refusals, then accepted) was delivered {} times and completed {} times after {} attempts: {}", k, refused, s.sent, s.dones, s.tried, short(&s.steps)));
                }
            }
            "Q02" => {
                // expected() stops looking after the last refusal planned
                if !never(m) && s.steps != want && !(want.last() == Some(&(What::Get, Some(false))) && s.steps.starts_with(&want)) || never(m) && !s.steps.is_empty() {
                    return bad(format!("mail {}: {} — expected {}", k, short(&s.steps), short(&want)));
                }
            }
            "Q03" => {
                if m.found && !never(m) {
                    let Some(&l) = s.listed.first() else { continue };
                    match s.taken.as_slice() {
                        [t] if *t < l + HOUR => return bad(format!("mail {} was found in flight at {} ms and taken back at {} ms, before an hour had passed", k, l, t)),
                        [t] if *t > l + HOUR + 50 => return bad(format!("mail {}, found in flight at {} ms, was only taken back at {} ms", k, l, t)),
                        [_] => (),
                        t => return bad(format!("mail {}, found in flight, was taken back {} times", k, t.len())),
                    }
                    if s.first.is_some() && s.first < s.back || s.back.is_some() && s.first.is_none() {
                        return bad(format!("mail {}, found in flight, was taken back at {:?} and worked on at {:?}", k, s.back, s.first));
                    }
                    if fine && s.dones != 1 {
                        return bad(format!("mail {}, found in flight, was completed {} times: {}", k, s.dones, short(&s.steps)));
                    }
                }
            }
            "Q04" => {
                if fine {
                    let from = if m.found { s.taken.first() } else { s.listed.first() };
                    let need = span(m);
                    match (from, s.done) {
                        (None, _) => (),
                        (Some(_), None) => return bad(format!("mail {} takes {} ms alone, but was never completed next to the others: {}", k, need, short(&s.steps))),
                        (Some(f), Some(d)) if d - f > need + 50 => return bad(format!("mail {} takes {} ms alone, but took {} ms next to the others", k, need, d - f)),
                        _ => (),
                    }
                }
            }
            "Q06" => {
                if s.listed.len() != !never(m) as usize {
                    return bad(format!("mail {} was listed {} times", k, s.listed.len()));
                }
                let first = if m.found { s.taken.first().copied() } else { s.first };
                let due = |l: u64| l + if m.found { HOUR } else { 0 } + 50;
                if !never(m) && first.map_or(true, |t| t > due(s.listed[0])) {
                    return bad(format!("mail {} was listed at {} ms, but was first worked on at {:?}", k, s.listed[0], first));
                }
            }
            _ => (),
        }
    }
    if prop == "Q06" {
        let want = if p.list_err || p.find_err { Err(()) } else { Ok(()) };
        if st.run_result != Some(want) || st.list_calls != 1 || st.find_calls != !p.list_err as u64 {
            return bad(format!("start-up reported {:?}, expected {:?}; listings made: {} and {}", st.run_result, want, st.list_calls, st.find_calls));
        }
    }
    if prop == "Q05" && seen.iter().all(|s| s.tried == 0) {
        o.nontrivial = false;
    }
    if prop == "Q07" && st.run_result.is_some() {
        let open = p.mails.iter().zip(&seen).filter(|(m, s)| !s.listed.is_empty() && (stuck(m) && s.steps.last().map_or(true, |x| x.1.is_none()) || !stuck(m) && s.dones == 0)).count();
        let l = r.left;
        let most = 8 * open;
        if l.storage > most || l.transport > most || l.handles > open as i64 || l.waits > open as i64 || l.contents > open as i64 || l.lists != 0 {
            return bad(format!("{} mails are still open, but held are: {:?}", open, l));
        }
    }
    Ok(())
}

pub fn q01(i: u64, o: &mut Obs) -> R {
    case(i, o, "Q01")
}
pub fn q02(i: u64, o: &mut Obs) -> R {
    case(i, o, "Q02")
}
pub fn q03(i: u64, o: &mut Obs) -> R {
    case(i, o, "Q03")
}
pub fn q04(i: u64, o: &mut Obs) -> R {
    case(i, o, "Q04")
}
pub fn q05(i: u64, o: &mut Obs) -> R {
    case(i, o, "Q05")
}
pub fn q06(i: u64, o: &mut Obs) -> R {
    case(i, o, "Q06")
}
pub fn q07(i: u64, o: &mut Obs) -> R {
    case(i, o, "Q07")
}
