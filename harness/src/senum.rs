//! Small scopes of the session properties, enumerated completely.
use crate::gen::{self, Conv};
use crate::env::*;
use crate::model::*;
use crate::scale;
use crate::session::*;
use std::sync::Arc;
use yv_engine::run::Obs;
use yv_engine::util::show;
use yv_glue::*;

fn kind_text(k: Kind) -> Vec<u8> {
    format!("{:?} text", k).into_bytes()
}

/// A plain plan; bit k of `refuse[i]` makes the k-th decision of that sort a refusal
fn plan(refuse: [u32; 4], plain: bool, extra: usize) -> Plan {
    let steps = |m: u32, tag: &str, code: u16| -> Vec<Step> {
        (0..4)
            .map(|i| Step { accept: m >> i & 1 == 0, code: code + i as u16, text: format!("{} {} refused", tag, i).into_bytes(), edit: Edit::None })
            .collect()
    };
    Plan {
        plain,
        part: None,
        live: false,
        general: vec![],
        from: steps(refuse[0], "from", 540),
        to: steps(refuse[1], "to", 550),
        data: steps(refuse[2], "data", 450),
        handle: (0..4)
            .map(|i| HandleStep {
                accept: refuse[3] >> i & 1 == 0,
                accept_cut: false,
                code: 560 + i as u16,
                text: format!("message {} refused", i).into_bytes(),
                extra,
                pauses: false,
                style: 0,
            })
            .collect(),
        replies: KINDS.iter().map(|k| (plain_code(*k), kind_text(*k))).collect(),
        host: b"mx.example".to_vec(),
        user: User { id: 7, trail: vec![] },
    }
}

fn conv(p: Plan, wire: Vec<u8>) -> Conv {
    let plan = Arc::new(p);
    let mut model = Model::new(plan.clone());
    model.push(&wire);
    model.finish();
    Conv { plan, wire, gates: vec![], eof_gate: 0, model }
}

fn play(c: &Conv, ch: Vec<Chunk>, pend: Pend, o: &mut Obs) -> Run {
    let n = ch.len();
    let r = run(&c.plan, ch, 0, pend, 1, None, None);
    count(c, &r, o);
    describe(c, &r, o);
    sign(c, n, o);
    r
}

fn bytewise(w: &[u8]) -> Vec<Chunk> {
    w.iter().map(|b| Chunk { data: vec![*b], repr: Repr::Plain, gate: 0 }).collect()
}

fn cut_at(w: &[u8], cuts: &[usize]) -> Vec<Chunk> {
    let mut v = vec![];
    let mut a = 0;
    for &c in cuts.iter().chain([w.len()].iter()) {
        let c = c.min(w.len());
        if c > a {
            v.push(Chunk { data: w[a..c].to_vec(), repr: Repr::Plain, gate: 0 });
            a = c;
        }
    }
    v
}

// ---- sequences of commands under patterns of decisions

const CMDS: &[&[u8]] = &[
    b"MAIL FROM:<a@b.example>\r\n",
    b"RCPT TO:<c@d.example>\r\n",
    b"DATA\r\n..x\r\n.\r\n",
    b"RSET\r\n",
    b"NOOP\r\n",
    b"MAIL FROM:<>\r\n",
    b"EHLO e.example\r\n",
    b"BAD line\r\n",
    b"QUIT\r\n",
    b"RCPT TO:<f@[127.0.0.1]>\r\n",
];

const REFUSALS: &[[u32; 4]] = &[
    [0, 0, 0, 0],
    [1, 0, 0, 0],
    [0, 1, 0, 0],
    [0, 0, 1, 0],
    [0, 0, 0, 1],
    [2, 2, 0, 0],
    [0, 2, 1, 1],
    [0, 5, 2, 2],
];

fn seqs(len: u32) -> u64 {
    (0..=len).map(|n| (CMDS.len() as u64).pow(n)).sum()
}

fn seq_total(deep: bool) -> u64 {
    seqs(if deep { 7 } else { 5 }) * REFUSALS.len() as u64
}

fn seq_conv(i: u64) -> Conv {
    let r = REFUSALS[(i % REFUSALS.len() as u64) as usize];
    let mut i = i / REFUSALS.len() as u64;
    let mut n = 0;
    let k = CMDS.len() as u64;
    while i >= k.pow(n) {
        i -= k.pow(n);
        n += 1;
    }
    let mut p = plan(r, i % 2 == 1, 0);
    p.user.id = i;
    // the body of a message is only a body once DATA was accepted: let the model choose
    let plan = Arc::new(p);
    let mut m = Model::new(plan.clone());
    let mut wire = vec![];
    let mut put = |m: &mut Model, b: &[u8]| {
        m.push(b);
        wire.extend_from_slice(b);
    };
    for _ in 0..n {
        let c = CMDS[(i % k) as usize];
        i /= k;
        if c.starts_with(b"DATA") {
            put(&mut m, b"DATA\r\n");
            if m.in_data() {
                put(&mut m, &c[6..]);
            }
        } else {
            put(&mut m, c);
        }
    }
    m.finish();
    Conv { plan, wire, gates: vec![], eof_gate: 0, model: m }
}

pub fn seq_totals(deep: bool) -> u64 {
    seq_total(deep) + scale::total(deep)
}

fn seq_case(i: u64, o: &mut Obs, f: fn(&Conv, &Run) -> R) -> R {
    let c = seq_conv(i);
    o.add("enumerated_sequences", 1);
    if c.model.ambiguous {
        return Ok(());
    }
    o.nontrivial = c.model.lines > 0;
    let r = play(&c, gen::one_chunk(&c.wire), vec![], o);
    f(&c, &r)
}

pub fn s01(i: u64, o: &mut Obs) -> R {
    let n = seq_total(o.thorough);
    if i >= n {
        return scale::case(i - n, o, scale::REPLIES | scale::ENDS);
    }
    seq_case(i, o, c01)
}
pub fn s02(i: u64, o: &mut Obs) -> R {
    let n = seq_total(o.thorough);
    if i >= n {
        return scale::case(i - n, o, scale::REPLIES | scale::CALLS);
    }
    seq_case(i, o, c02)
}
pub fn s03(i: u64, o: &mut Obs) -> R {
    let n = seq_total(o.thorough);
    if i >= n {
        return scale::case(i - n, o, scale::ENVELOPES);
    }
    seq_case(i, o, c03)
}
pub fn s04(i: u64, o: &mut Obs) -> R {
    let n = seq_total(o.thorough);
    if i >= n {
        return scale::case(i - n, o, scale::CALLS | scale::REPLIES);
    }
    seq_case(i, o, c04)
}

// ---- message texts over CR, LF, dot, x, with and without a proper end

const PRE: &[u8] = b"MAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nDATA\r\n";
const ENDS: &[&[u8]] = &[b"", b"\r\n.\r\nMAIL FROM:<e@f>\r\nNOOP\r\n", b"\n.\nNOOP\r\n"];

fn text_of(mut i: u64) -> Vec<u8> {
    let mut n = 0;
    while i >= 4u64.pow(n) {
        i -= 4u64.pow(n);
        n += 1;
    }
    (0..n)
        .map(|_| {
            let c = b"\r\n.x"[(i % 4) as usize];
            i /= 4;
            c
        })
        .collect()
}

fn text_only(deep: bool) -> u64 {
    (0..=if deep { 9u32 } else { 7 }).map(|n| 4u64.pow(n)).sum::<u64>() * ENDS.len() as u64
}

pub fn text_total(deep: bool) -> u64 {
    text_only(deep) + scale::total(deep)
}

pub fn cut_text_total(deep: bool) -> u64 {
    text_only(deep) + scale::cut_total(deep)
}

fn text_case(i: u64, o: &mut Obs, f: fn(&Conv, &Run) -> R) -> R {
    let end = ENDS[(i % ENDS.len() as u64) as usize];
    let t = text_of(i / ENDS.len() as u64);
    let mut wire = PRE.to_vec();
    wire.extend_from_slice(&t);
    wire.extend_from_slice(end);
    let c = conv(plan([0; 4], i % 2 == 0, 1), wire);
    o.add("enumerated_texts", 1);
    o.nontrivial = true;
    let mut ways = vec![gen::one_chunk(&c.wire), bytewise(&c.wire)];
    for k in PRE.len() - 1..=(PRE.len() + t.len() + end.len().min(5)).min(c.wire.len()) {
        ways.push(cut_at(&c.wire, &[k]));
        ways.push(cut_at(&c.wire, &[PRE.len(), k]));
    }
    for w in ways {
        let sizes: Vec<usize> = w.iter().map(|c| c.data.len()).collect();
        let r = play(&c, w, vec![], o);
        f(&c, &r).map_err(|e| match e {
            yv_engine::run::Fail::Violation(m) => yv_engine::run::Fail::Violation(format!("{} — input {} in packets of {:?} bytes", m, show(&c.wire), sizes)),
            e => e,
        })?;
    }
    Ok(())
}

pub fn s05(i: u64, o: &mut Obs) -> R {
    let n = text_only(o.thorough);
    if i >= n {
        return scale::case(i - n, o, scale::TEXT | scale::ENDS);
    }
    text_case(i, o, c05)
}
pub fn s07(i: u64, o: &mut Obs) -> R {
    let n = text_only(o.thorough);
    if i >= n {
        return scale::case(i - n, o, scale::TEXT | scale::CALLS);
    }
    text_case(i, o, c07)
}
pub fn s08(i: u64, o: &mut Obs) -> R {
    let n = text_only(o.thorough);
    if i >= n {
        return scale::cut_case(i - n, o);
    }
    text_case(i, o, c08)
}

// ---- every way to cut some conversations in up to four packets; every readiness pattern

const TALKS: &[&[u8]] = &[
    b"MAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nDATA\r\nx\r\n.\r\nNOOP\r\n",
    b"HELO h\r\r\nNOOP\n\r\nMAIL FROM:<>\r\nDATA\r\n",
    b"MAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nDATA\r\n..\r\n\r\n.\r\n\r\nQU",
    b"MAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nDATA\r\n.\r\nDATA\r\n",
    b"MAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nDATA\r\nx\n.\r\n\r\n.",
];

fn cuts_only(deep: bool) -> u64 {
    TALKS
        .iter()
        .map(|t| {
            let n = t.len() as u64;
            n * n * n * if deep { n } else { 1 }
        })
        .sum()
}

pub fn cuts_total(deep: bool) -> u64 {
    cuts_only(deep) + scale::total(deep)
}

pub fn s06(mut i: u64, o: &mut Obs) -> R {
    let n = cuts_only(o.thorough);
    if i >= n {
        return scale::same(i - n, o);
    }
    for t in TALKS {
        let n = t.len() as u64;
        let tot = n * n * n * if o.thorough { n } else { 1 };
        if i >= tot {
            i -= tot;
            continue;
        }
        let mut cuts = vec![(i % n) as usize, (i / n % n) as usize, (i / n / n % n) as usize];
        if o.thorough {
            cuts.push((i / n / n / n) as usize);
        }
        cuts.sort_unstable();
        let c = conv(plan([0; 4], false, 1), t.to_vec());
        let a = run(&c.plan, gen::one_chunk(t), 0, vec![], 1, None, None);
        let ch = cut_at(t, &cuts);
        o.nontrivial = ch.len() > 1;
        o.sign(&i.to_le_bytes());
        o.add("enumerated_segmentations", 1);
        let b = play(&c, ch, vec![], o);
        return same(&a, &b, &format!("how the input is cut into packets (one packet against cuts at {:?})", cuts));
    }
    Ok(())
}

pub fn pend_total(deep: bool) -> u64 {
    (1..=if deep { 8u32 } else { 6 }).map(|n| 4u64.pow(n)).sum::<u64>() * TALKS.len() as u64
}

pub fn s09(i: u64, o: &mut Obs) -> R {
    let t = TALKS[(i % TALKS.len() as u64) as usize];
    let mut j = i / TALKS.len() as u64;
    let mut n = 1;
    while j >= 4u64.pow(n) {
        j -= 4u64.pow(n);
        n += 1;
    }
    let mut p: Pend = (0..n)
        .map(|_| {
            let x = (j % 4) as u8;
            j /= 4;
            x
        })
        .collect();
    if p.iter().all(|&x| x != 0) {
        p.push(0);
    }
    let c = conv(plan([0; 4], i % 2 == 1, 1), t.to_vec());
    let a = run(&c.plan, gen::one_chunk(t), 0, vec![], 1, None, None);
    let b = play(&c, cut_at(t, &[16, 33, 39]), p.clone(), o);
    o.nontrivial = true;
    o.sign(&i.to_le_bytes());
    o.add("enumerated_readiness_patterns", 1);
    if let Some(p) = &b.world.lock().protocol {
        return yv_engine::run::violation(p.clone());
    }
    ended_well(&b)?;
    if b.world.lock().unflushed() > 0 {
        return yv_engine::run::violation("the session ended with written bytes never flushed");
    }
    same(&a, &b, &format!("when reader, writer and policy are ready (pattern {:?})", p))
}

// ---- every length of reply text

/// Lengths above those in order
const LONG: &[usize] = &[
    16_256, 32_512, 32_767, 32_768, 65_023, 65_024, 65_025, 65_530, 65_531, 65_532, 65_533, 65_534, 65_535, 65_536, 65_537, 65_538, 65_539, 65_540, 65_541, 66_040, 66_044,
    70_000, 130_048, 131_070, 131_071, 131_072, 131_073, 196_608, 262_144, 262_145, 524_289,
];

fn in_order(deep: bool) -> u64 {
    if deep {
        40_000
    } else {
        6_000
    }
}

pub fn len_total(deep: bool) -> u64 {
    in_order(deep) + 4 * LONG.len() as u64
}

pub fn s11(i: u64, o: &mut Obs) -> R {
    let kinds = 4u64;
    let n = match i.checked_sub(in_order(o.thorough)) {
        Some(k) => LONG[(k / kinds) as usize],
        None => (i / kinds) as usize,
    };
    let mut t: Vec<u8> = (0..n).map(|k| b"abcdefghijklmnopqrstuvwxyz0123456789"[(k * 7 + k / 36) % 36]).collect();
    if n > 508 && i % 8 < 4 {
        t[506] = b' ';
        t[505] = b'-';
    }
    let mut p = plan([2, 2, 2, 2], false, 0);
    let wire: &[u8] = match i % kinds {
        0 => {
            p.replies.iter_mut().for_each(|r| r.1 = t.clone());
            b"NOOP\r\nMAIL FROM:<a@b>\r\n"
        }
        1 => {
            p.from.iter_mut().for_each(|r| {
                r.text = t.clone();
                r.accept = false
            });
            b"MAIL FROM:<a@b>\r\nNOOP\r\n"
        }
        2 => {
            p.to.iter_mut().for_each(|r| {
                r.text = t.clone();
                r.accept = false
            });
            p.plain = true;
            b"MAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nNOOP\r\n"
        }
        _ => {
            p.handle.iter_mut().for_each(|r| {
                r.text = t.clone();
                r.accept = false
            });
            p.data.iter_mut().for_each(|r| r.accept = true);
            b"MAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nDATA\r\n.\r\nNOOP\r\n"
        }
    };
    let c = conv(p, wire.to_vec());
    let r = play(&c, gen::one_chunk(wire), vec![], o);
    o.nontrivial = true;
    o.sign(&i.to_le_bytes());
    o.add("enumerated_text_lengths", 1);
    o.max("reply_text_bytes", n as u64);
    let w = r.world.lock();
    replies_match(&c.model.replies, &w)?;
    no_empty_lines(&w)?;
    ended_well(&r)
}

// ---- every byte at every place

pub fn byte_total(deep: bool) -> u64 {
    byte_only(deep) + scale::total(deep)
}

fn byte_only(deep: bool) -> u64 {
    256 * 2 * TALKS.iter().map(|t| t.len() as u64).sum::<u64>() + if deep { 1 << 24 } else { 1 << 16 }
}

pub fn s12(mut i: u64, o: &mut Obs) -> R {
    let n = byte_only(o.thorough);
    if i >= n {
        return scale::case(i - n, o, scale::ENDS);
    }
    let short = if o.thorough { 1 << 24 } else { 1 << 16 };
    let wire = if i < short {
        let mut w = i.to_le_bytes()[..if o.thorough { 3 } else { 2 }].to_vec();
        w.extend_from_slice(b"\r\n");
        w
    } else {
        i -= short;
        let b = (i % 256) as u8;
        let ins = i / 256 % 2 == 0;
        let mut k = (i / 512) as usize;
        let mut t = vec![];
        for x in TALKS {
            if k < x.len() {
                t = x.to_vec();
                break;
            }
            k -= x.len();
        }
        if ins {
            t.insert(k, b);
        } else {
            t[k] = b;
        }
        t
    };
    let c = conv(plan([0; 4], i % 3 == 0, 1), wire);
    let r = play(&c, gen::one_chunk(&c.wire), vec![], o);
    o.nontrivial = true;
    o.add("enumerated_inputs", 1);
    ended_well(&r)
}
