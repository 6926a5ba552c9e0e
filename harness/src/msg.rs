//! Message-level properties: transparency encoding, push-back streams, commands, mailboxes,
//! replies, byte views.
use crate::env::*;
use crate::gen;
use crate::refp::{self, Addr, Cmd, Verdict};
use bytes::{Bytes, BytesMut};
use smtp_message::{ParseError,
    ByteSlice, Command, DataCommand, EhloCommand, ExpnCommand, HeloCommand, HelpCommand, IsLastLine, MailCommand, NoopCommand, QuitCommand,
    RcptCommand, ReplyLine, RsetCommand, VrfyCommand,
};
use std::task::{Context, Poll};
use yv_engine::run::{guarded, violation, Fail, Obs};
use yv_engine::src::Src;
use yv_engine::util::{mix, show};
use yv_glue::*;

pub type R = Result<(), Fail>;

// ---------------------------------------------------------------- decoding

pub struct Decoded {
    pub text: Vec<u8>,
    pub complete: bool,
    pub pieces: usize,
    pub more_after_end: usize,
}

/// Reads one message through a decoder, by hand
fn read_message(pre: &mut Pre, w: &World, seed: u64, extra: usize) -> Result<Decoded, Fail> {
    let fut = Box::pin(async move {
        let mut d = pre.decoder();
        let mut text = vec![];
        let mut pieces = 0;
        let mut more = 0;
        let early = d.was_completed();
        loop {
            match futures::future::poll_fn(|cx: &mut Context<'_>| -> Poll<Option<BytesMut>> { d.poll(cx) }).await {
                Some(b) => {
                    pieces += 1;
                    text.extend_from_slice(&b);
                }
                None => break,
            }
        }
        for _ in 0..extra {
            if futures::future::poll_fn(|cx: &mut Context<'_>| -> Poll<Option<BytesMut>> { d.poll(cx) }).await.is_some() {
                more += 1;
            }
        }
        let before = d.was_completed();
        let complete = d.complete().is_ok();
        let after = d.was_completed();
        for _ in 0..extra {
            if futures::future::poll_fn(|cx: &mut Context<'_>| -> Poll<Option<BytesMut>> { d.poll(cx) }).await.is_some() {
                more += 1;
            }
        }
        (Decoded { text, complete, pieces, more_after_end: more }, early, before, after)
    });
    match drive(w, fut, seed, None).0 {
        End::Done((d, early, before, after)) => {
            if early || before {
                return violation("the decoder says it was completed before it was");
            }
            if !after {
                return violation("the decoder does not say it was completed after it was");
            }
            Ok(d)
        }
        End::Stuck(e) => violation(format!("the decoder hangs although the terminator was there: {}", e)),
        End::Spinning(n) => violation(format!("the decoder never ends ({} polls)", n)),
        End::Cancelled => Err(Fail::Harness("cancelled".into())),
    }
}

/// What is left to read
fn drain(pre: &mut Pre, w: &World, seed: u64) -> Result<Vec<u8>, Fail> {
    let fut = Box::pin(async move {
        let mut v = vec![];
        while let Some(b) = futures::future::poll_fn(|cx: &mut Context<'_>| -> Poll<Option<BytesMut>> { pre.poll(cx) }).await {
            v.extend_from_slice(&b);
        }
        v
    });
    match drive(w, fut, seed, None).0 {
        End::Done(v) => Ok(v),
        e => violation(format!("reading the rest of the stream: {:?}", e)),
    }
}

fn check_text(wire: &[u8], d: &Decoded) -> R {
    let (text, used) = refp::decode(wire);
    match used {
        Some(_) => {
            if d.text != text {
                let k = d.text.iter().zip(&text).position(|(a, b)| a != b).unwrap_or(d.text.len().min(text.len()));
                return violation(format!("decoded {:?}, expected {:?} (they differ at byte {})", show(&d.text), show(&text), k));
            }
        }
        None => {
            let sure = refp::decode_certain(wire);
            if !d.text.starts_with(&sure) || d.text.len() > sure.len() + 2 {
                return violation(format!("of a message that is cut short, decoded {:?}, expected {:?}", show(&d.text), show(&sure)));
            }
        }
    }
    Ok(())
}

fn pre_for(w: &World) -> Pre {
    let r: BoxReader = Box::pin(w.reader());
    Pre::new(r)
}

const ALPHA: &[u8] = b"\r\n.x";

fn enum_len(mut i: u64) -> (usize, u64) {
    let mut n = 0;
    let mut c = 1;
    while i >= c {
        i -= c;
        n += 1;
        c *= 4;
    }
    (n, i)
}
fn enum_str(i: u64) -> Vec<u8> {
    let (n, mut k) = enum_len(i);
    (0..n)
        .map(|_| {
            let c = ALPHA[(k % 4) as usize];
            k /= 4;
            c
        })
        .collect()
}
fn enum_count(max: u32) -> u64 {
    (0..=max).map(|n| 4u64.pow(n)).sum()
}

pub fn m01_total(deep: bool) -> u64 {
    enum_count(if deep { 10 } else { 8 }) + crate::scale::msg_total(deep)
}

fn cuts(wire: &[u8], mask: u64) -> Vec<Chunk> {
    let mut v: Vec<Chunk> = vec![];
    let mut cur = vec![];
    for (i, b) in wire.iter().enumerate() {
        cur.push(*b);
        if i + 1 == wire.len() || mask >> i & 1 == 1 {
            v.push(Chunk { data: std::mem::take(&mut cur), repr: Repr::Plain, gate: 0 });
        }
    }
    v
}

/// Every string over CR, LF, dot, x up to a length, cut into packets in every way
pub fn m01_check(wire: &[u8], ch: Vec<Chunk>) -> R {
    let w = World::new(ch, 0, vec![]);
    let mut pre = pre_for(&w);
    let d = read_message(&mut pre, &w, 1, 0)?;
    check_text(wire, &d)
}

pub fn m01_enum(i: u64, o: &mut Obs) -> R {
    if i >= enum_count(if o.thorough { 10 } else { 8 }) {
        return crate::scale::m01(i - enum_count(if o.thorough { 10 } else { 8 }), o);
    }
    let wire = enum_str(i);
    let n = wire.len().max(1) - 1;
    for mask in 0..1u64 << n {
        o.add("decoder_runs", 1);
        m01_check(&wire, cuts(&wire, mask)).map_err(|e| with_cuts(e, &wire, mask))?;
    }
    o.nontrivial = true;
    o.sign(&wire);
    o.add("enumerated_strings", 1);
    if o.describe {
        o.desc = format!("input {:?}, all {} ways to cut it", show(&wire), 1u64 << n);
    }
    Ok(())
}

fn with_cuts(e: Fail, wire: &[u8], mask: u64) -> Fail {
    match e {
        Fail::Violation(m) => {
            let p: Vec<String> = cuts(wire, mask).iter().map(|c| show(&c.data)).collect();
            Fail::Violation(format!("{} — packets {:?}", m, p))
        }
        e => e,
    }
}

/// Raw input for a decoder: mostly with a terminator somewhere
fn raw_input(s: &mut Src) -> Vec<u8> {
    let mut w = vec![];
    if s.chance(1, 3) {
        let m = gen::message(s);
        w = refp::encode(&m);
    } else {
        for _ in 0..1 + s.below(4) {
            match s.below(4) {
                0 => w.extend_from_slice(s.pick(gen::FAKE_ENDS)),
                1 => {
                    let n = s.below(9);
                    w.extend(s.from_alphabet(n, ALPHA));
                }
                _ => w.extend(gen::message(s)),
            }
        }
        if !s.chance(1, 4) {
            w.extend_from_slice(b"\r\n.\r\n");
        }
    }
    if s.chance(1, 4) {
        let k = s.below(w.len() + 1);
        w.truncate(k);
    }
    w
}

fn describe_input(o: &mut Obs, wire: &[u8], ch: &[Chunk]) {
    if o.describe {
        let p: Vec<String> = ch.iter().take(40).map(|c| format!("{:?}({:?})", show(&c.data), c.repr)).collect();
        o.desc = format!("input ({} bytes) {:?}\nin {} packets: {}", wire.len(), show(wire), ch.len(), p.join(" "));
    }
}

fn sign_chunks(o: &mut Obs, wire: &[u8], ch: &[Chunk]) {
    o.sign(wire);
    for c in ch {
        o.sig = mix(o.sig, c.data.len() as u64);
    }
    o.add("packets", ch.len() as u64);
    o.max("input_bytes", wire.len() as u64);
}

// M01
pub fn m01(s: &mut Src, o: &mut Obs) -> R {
    let wire = raw_input(s);
    let ch = gen::chunking(s, &wire, None);
    let pend = gen::pend(s);
    describe_input(o, &wire, &ch);
    sign_chunks(o, &wire, &ch);
    let w = World::new(ch, 0, pend);
    let mut pre = pre_for(&w);
    let seed = s.raw() as u64;
    let d = read_message(&mut pre, &w, seed, 0)?;
    o.add("decoder_runs", 1);
    o.add("pieces_out", d.pieces as u64);
    o.nontrivial = wire.len() > 3;
    check_text(&wire, &d)
}

// M03
pub fn m03_total(deep: bool) -> u64 {
    enum_count(if deep { 9 } else { 7 }) + crate::scale::msg_total(deep)
}

pub fn m03_check(wire: &[u8], ch: Vec<Chunk>, pend: Pend, seed: u64, extra: usize, o: &mut Obs) -> R {
    // how much has to have come in before the terminator is there
    let mut ends = vec![];
    let mut at = 0;
    for c in &ch {
        at += c.data.len();
        ends.push(at);
    }
    let w = World::new(ch, 0, pend);
    let mut pre = pre_for(&w);
    let mut pos = 0;
    let mut k = 0;
    loop {
        let (_, used) = refp::decode(&wire[pos..]);
        let d = read_message(&mut pre, &w, seed, extra)?;
        o.add("messages", 1);
        if d.more_after_end > 0 {
            return violation(format!("message {}: the decoder yields more after its end", k));
        }
        if d.complete != used.is_some() {
            return violation(format!(
                "message {} is reported {} but its terminator {} there",
                k,
                if d.complete { "complete" } else { "cut short" },
                if used.is_some() { "is" } else { "is not" }
            ));
        }
        {
            let g = w.lock();
            if g.polled_after_end > 0 {
                return violation("the source was polled again after it had ended");
            }
            if let Some(u) = used {
                // no packet is taken beyond the one the terminator ends in
                let need = ends.iter().position(|&e| e >= pos + u).unwrap() + 1;
                let got = g.reads as usize;
                if got > need && ends[got - 1] > pos + u && ends[need - 1] >= pos + u {
                    return violation(format!("message {} ended in packet {} but {} packets were taken", k, need, got));
                }
                if g.ended {
                    return violation(format!("message {} ended before the end of the input, which was read though", k));
                }
            }
        }
        match used {
            Some(u) => pos += u,
            None => {
                o.add("cut_messages", 1);
                break;
            }
        }
        k += 1;
        if pos == wire.len() || k > 4 {
            let rest = drain(&mut pre, &w, seed)?;
            if rest != wire[pos..] {
                return violation(format!("after message {} the stream goes on with {:?}, expected {:?}", k, show(&rest), show(&wire[pos..])));
            }
            o.add("remainders_compared", 1);
            break;
        }
        if k == 1 && wire.len() % 2 == 0 {
            // what comes next is exactly what follows the terminator
            let rest = drain(&mut pre, &w, seed)?;
            if rest != wire[pos..] {
                return violation(format!("after message {} the stream goes on with {:?}, expected {:?}", k, show(&rest), show(&wire[pos..])));
            }
            o.add("remainders_compared", 1);
            break;
        }
    }
    Ok(())
}

pub fn m03_enum(i: u64, o: &mut Obs) -> R {
    let n = enum_count(if o.thorough { 9 } else { 7 });
    if i >= n {
        return crate::scale::m03(i - n, o);
    }
    let wire = enum_str(i);
    let n = wire.len().max(1) - 1;
    for mask in 0..1u64 << n {
        m03_check(&wire, cuts(&wire, mask), vec![], 1, 1, o).map_err(|e| with_cuts(e, &wire, mask))?;
    }
    o.nontrivial = refp::decode(&wire).1.is_some();
    o.sign(&wire);
    o.add("enumerated_strings", 1);
    if o.describe {
        o.desc = format!("input {:?}, all {} ways to cut it", show(&wire), 1u64 << n);
    }
    Ok(())
}

/// Asks a decoder that was polled only `polls` times whether it is complete
fn m03_early(wire: &[u8], ch: Vec<Chunk>, pend: Pend, seed: u64, polls: usize, o: &mut Obs) -> R {
    let mut ends = vec![0];
    for c in &ch {
        ends.push(ends.last().unwrap() + c.data.len());
    }
    let w = World::new(ch, 0, pend);
    let mut pre = pre_for(&w);
    let (want, used) = refp::decode(wire);
    let asked = guarded(|| {
        let fut = Box::pin(async {
            let mut d = pre.decoder();
            let mut text = vec![];
            for _ in 0..polls {
                match futures::future::poll_fn(|cx: &mut Context<'_>| -> Poll<Option<BytesMut>> { d.poll(cx) }).await {
                    Some(b) => text.extend_from_slice(&b),
                    None => break,
                }
            }
            (d.complete().is_ok(), text)
        });
        drive(&w, fut, seed, None).0
    });
    o.add("asked_early", 1);
    match asked {
        // refused, one way or another
        Err(_) | Ok(End::Done((false, _))) => Ok(()),
        Ok(End::Done((true, text))) => {
            let got = ends[(w.lock().reads as usize).min(ends.len() - 1)];
            let u = match used {
                Some(u) if u <= got && text == want => u,
                _ => {
                    return violation(format!(
                        "after {} polls, with {:?} of the message passed on, the decoder reports a complete message",
                        polls,
                        show(&text)
                    ))
                }
            };
            let rest = drain(&mut pre, &w, seed)?;
            if rest != wire[u..] {
                return violation(format!("after the message the stream goes on with {:?}, expected {:?}", show(&rest), show(&wire[u..])));
            }
            o.add("complete_when_asked_early", 1);
            Ok(())
        }
        Ok(e) => violation(format!("reading a message: {:?}", e)),
    }
}

pub fn m03(s: &mut Src, o: &mut Obs) -> R {
    let mut wire = vec![];
    for _ in 0..1 + s.below(3) {
        wire.extend(raw_input(s));
    }
    let ch = gen::chunking(s, &wire, None);
    let pend = gen::pend(s);
    let seed = s.raw() as u64;
    let extra = s.below(3);
    describe_input(o, &wire, &ch);
    sign_chunks(o, &wire, &ch);
    o.nontrivial = refp::decode(&wire).1.is_some();
    if seed % 6 == 0 {
        return m03_early(&wire, ch, pend, seed, extra + (seed / 6 % 4) as usize, o);
    }
    m03_check(&wire, ch, pend, seed, extra, o)
}

// ---------------------------------------------------------------- encoding

fn encode_real(items: &[Vec<u8>], w: &World, seed: u64, style: u8) -> (End<Result<(), ()>>, u64) {
    w.lock().no_replies();
    let items: Vec<Vec<u8>> = items.to_vec();
    let sink: BoxWriter = Box::pin(w.sink());
    let fut = Box::pin(async move {
        let mut e = Enc::new(sink);
        for i in items {
            let b = match style {
                0 => Bytes::from(i),
                1 => Bytes::from(&i[..]),
                _ => {
                    let mut v = b"..".to_vec();
                    v.extend_from_slice(&i);
                    v.extend_from_slice(b"\r\n.\r\n");
                    Bytes::from(v).slice(2, 2 + i.len())
                }
            };
            e.send(b).await?;
        }
        e.end().await.map(|_| ())
    });
    drive(w, fut, seed, None)
}

pub fn m02_check(items: &[Vec<u8>], pend: Pend, seed: u64, style: u8, o: &mut Obs) -> R {
    let msg: Vec<u8> = items.concat();
    let w = World::new(vec![], 0, pend);
    let (end, _) = encode_real(items, &w, seed, style);
    o.add("encoder_runs", 1);
    let g = w.lock();
    if let Some(p) = &g.protocol {
        return violation(p.clone());
    }
    match end {
        End::Done(Ok(())) => (),
        e => return violation(format!("encoding does not end: {:?}", e)),
    }
    if g.unflushed() > 0 {
        return violation(format!("the encoder finished with {} bytes not flushed", g.unflushed()));
    }
    let out = g.out.clone();
    drop(g);
    let (text, used) = refp::decode(&out);
    match used {
        Some(u) if u == out.len() => (),
        Some(u) => return violation(format!("a receiver sees the end of the message {} bytes too early in {:?}", out.len() - u, show(&out))),
        None => return violation(format!("a receiver never sees the end of the message in {:?}", show(&out))),
    }
    let mut want = msg.clone();
    if !msg.is_empty() && !msg.ends_with(b"\r\n") {
        want.extend_from_slice(b"\r\n");
    }
    let mut alt = msg.clone();
    if msg.ends_with(b"\r") {
        alt.push(b'\n');
    }
    if text != want && text != alt {
        return violation(format!("sent {:?}, a receiver gets {:?}", show(&msg), show(&text)));
    }
    // and through the project's own decoder
    let w2 = World::new(vec![Chunk { data: out.clone(), repr: Repr::Plain, gate: 0 }], 0, vec![]);
    let mut pre = pre_for(&w2);
    let d = read_message(&mut pre, &w2, 1, 0)?;
    if d.text != text || !d.complete {
        return violation(format!("sent {:?}, the project's own decoder gets {:?}", show(&msg), show(&d.text)));
    }
    o.max("output_bytes", out.len() as u64);
    Ok(())
}

pub fn m02_total(deep: bool) -> u64 {
    enum_count(if deep { 9 } else { 7 }) + crate::scale::msg_total(deep)
}

pub fn m02_enum(i: u64, o: &mut Obs) -> R {
    let n = enum_count(if o.thorough { 9 } else { 7 });
    if i >= n {
        return crate::scale::m02(i - n, o);
    }
    let m = enum_str(i);
    let n = m.len().max(1) - 1;
    for mask in 0..1u64 << n {
        let items: Vec<Vec<u8>> = cuts(&m, mask).into_iter().map(|c| c.data).collect();
        m02_check(&items, vec![], 1, 0, o).map_err(|e| with_cuts(e, &m, mask))?;
    }
    o.nontrivial = true;
    o.sign(&m);
    o.add("enumerated_strings", 1);
    if o.describe {
        o.desc = format!("message {:?}, all {} ways to hand it over", show(&m), 1u64 << n);
    }
    Ok(())
}

pub fn m02(s: &mut Src, o: &mut Obs) -> R {
    let m = if s.chance(1, 3) {
        let mut m = vec![];
        for _ in 0..1 + s.below(3) {
            m.extend_from_slice(s.pick(gen::FAKE_ENDS));
            m.extend(gen::message(s));
        }
        m
    } else {
        gen::message(s)
    };
    let ch = gen::chunking(s, &m, None);
    let pend = gen::pend(s);
    let seed = s.raw() as u64;
    let style = s.below(3) as u8;
    describe_input(o, &m, &ch);
    sign_chunks(o, &m, &ch);
    o.nontrivial = m.contains(&b'.') || m.contains(&b'\r');
    let items: Vec<Vec<u8>> = ch.into_iter().map(|c| c.data).collect();
    m02_check(&items, pend.clone(), seed, style, o)?;
    // a failing sink ends it
    if s.chance(1, 6) && items.len() < 200 {
        let w = World::new(vec![], 0, pend.clone());
        encode_real(&items, &w, seed, style);
        let ops = w.lock().sink_ops;
        let full = w.lock().out.clone();
        let k = s.below(ops.max(1));
        let w = World::new(vec![], 0, pend);
        w.lock().fail_at = Some(k);
        w.lock().recovers = seed % 2 == 1;
        let (end, _) = encode_real(&items, &w, seed, style);
        let g = w.lock();
        if g.failed.is_some() {
            o.add("failed_writes", 1);
            if end != End::Done(Err(())) {
                return violation(format!("sink operation {} failed but encoding ended with {:?}", k, end));
            }
            if !g.after_fail.is_empty() {
                return violation(g.after_fail[0].clone());
            }
            if !full.starts_with(&g.out) {
                return violation("what was written before the failure differs from a run without it");
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- push-back stream

// M10
pub fn m10(s: &mut Src, o: &mut Obs) -> R {
    let m = gen::message(s);
    let ch = gen::chunking(s, &m, None);
    let pend = gen::pend(s);
    let items: Vec<Vec<u8>> = ch.iter().map(|c| c.data.clone()).collect();
    let w = World::new(ch, 0, pend);
    let mut pre = pre_for(&w);
    let mut next = 0;
    let mut slot: Option<Vec<u8>> = None;
    let mut trace = vec![];
    let ops = 1 + s.below(40);
    let mut t: Vec<String> = vec![];
    let mut ended = false;
    for k in 0..ops {
        // the source is not asked again once it has ended, but what is pushed back still comes out
        if s.chance(1, 3) || ended && slot.is_none() {
            let v = match s.below(4) {
                0 => vec![],
                1 => {
                    let n = s.size(60);
                    s.bytes(n)
                }
                _ => format!("pushed{}", k).into_bytes(),
            };
            trace.push(1u8);
            let r = pre.prepend(BytesMut::from(&v[..]));
            if o.describe {
                t.push(format!("prepend {:?} -> {:?}", show(&v), r));
            }
            o.add("prepends", 1);
            match (r, slot.is_some()) {
                (Ok(()), false) => slot = Some(v),
                (Err(()), true) => o.add("refused_prepends", 1),
                (Ok(()), true) => return violation("a second item was accepted while one was still pushed back"),
                (Err(()), false) => return violation("an item was refused although none was pushed back"),
            }
        } else {
            trace.push(0);
            let reads = w.lock().reads;
            let fut = Box::pin(async { futures::future::poll_fn(|cx: &mut Context<'_>| -> Poll<Option<BytesMut>> { pre.poll(cx) }).await });
            let got = match drive(&w, fut, k as u64, None).0 {
                End::Done(g) => g.map(|b| b.to_vec()),
                e => return violation(format!("reading never ends: {:?}", e)),
            };
            o.add("reads", 1);
            let want = match slot.take() {
                Some(v) => {
                    if w.lock().reads != reads {
                        return violation("the source was read although an item was pushed back");
                    }
                    Some(v)
                }
                None => {
                    let v = items.get(next).cloned();
                    next += 1;
                    v
                }
            };
            if o.describe {
                t.push(format!("read -> {:?}", got.as_ref().map(|g| show(g))));
            }
            if got != want {
                return violation(format!("read {:?}, expected {:?}", got.map(|g| show(&g)), want.map(|g| show(&g))));
            }
            o.add("pushed_back_after_the_end", (ended && want.is_some()) as u64);
            ended |= want.is_none();
        }
    }
    o.desc = t.join("\n");
    o.sign(&trace);
    o.sign(&m);
    o.nontrivial = trace.contains(&1);
    Ok(())
}

/// Many items pushed back and read, one after the other
pub fn m10_long(i: u64, o: &mut Obs) -> R {
    let rounds = [300, 4100, 65_540, 140_000][i as usize / 3];
    let n = [1, 40, 70_000][i as usize % 3];
    let rounds = if n > 40 { rounds / 20 } else { rounds };
    let ch: Vec<Chunk> = (0..rounds).map(|k: usize| Chunk { data: k.to_string().into_bytes(), repr: Repr::Plain, gate: 0 }).collect();
    let w = World::new(ch, 0, vec![]);
    let mut pre = pre_for(&w);
    let mut v = vec![b'p'; n];
    let mut get = |pre: &mut Pre| match drive(&w, Box::pin(futures::future::poll_fn(|cx: &mut Context<'_>| -> Poll<Option<BytesMut>> { pre.poll(cx) })), 1, None).0 {
        End::Done(g) => Ok(g.map(|b| b.to_vec())),
        e => violation(format!("reading never ends: {:?}", e)),
    };
    o.nontrivial = true;
    o.sign(&i.to_le_bytes());
    o.add("long_runs", 1);
    if o.describe {
        o.desc = format!("{} rounds of reading an item, pushing back one of {} bytes, being refused a second one, and reading it", rounds, n);
    }
    for k in 0..rounds {
        let g = get(&mut pre)?;
        if g != Some(k.to_string().into_bytes()) {
            return violation(format!("item {} of {} read is {:?}", k, rounds, g.map(|g| show(&g))));
        }
        v[0] = k as u8;
        if pre.prepend(BytesMut::from(&v[..])).is_err() {
            return violation(format!("an item is refused although none was pushed back, in round {}", k));
        }
        if k % 3 == 0 && pre.prepend(BytesMut::from(&b"second"[..])).is_ok() {
            return violation(format!("a second item was accepted while one was still pushed back, in round {}", k));
        }
        o.add("prepends", 1);
        if get(&mut pre)? != Some(v.clone()) {
            return violation(format!("what was pushed back in round {} does not come", k));
        }
    }
    match get(&mut pre)? {
        None => Ok(()),
        Some(g) => violation(format!("after all {} items there is {:?}", rounds, show(&g))),
    }
}

pub fn m10_long_total(_: bool) -> u64 {
    12
}

// ---------------------------------------------------------------- commands

fn addr_of(e: &Email) -> Result<Addr, String> {
    let raw = e.raw_localpart().bytes().to_vec();
    let wire = crate::model::wire(e);
    let host = match e.hostname() {
        None => {
            if wire != raw {
                return Err(format!("an address without host is written {:?}", show(&wire)));
            }
            None
        }
        Some(_) => {
            let h = wire.get(raw.len() + 1..).unwrap_or(b"");
            let mut f = raw.clone();
            f.push(b'@');
            if !wire.starts_with(&f) {
                return Err(format!("address {:?} has local part {:?}", show(&wire), show(&raw)));
            }
            let mut x = b"x@".to_vec();
            x.extend_from_slice(h);
            match refp::mailbox(&x) {
                Ok((a, _)) => a.host,
                Err(()) => return Err(format!("the host of an address is written {:?}", show(h))),
            }
        }
    };
    Ok(Addr { local: raw, host })
}

macro_rules! dom_of {
    ($d:expr) => {{
        let mut x = b"x@".to_vec();
        x.extend_from_slice(SmtpString::from_sendable($d).expect("writing a host name into memory").bytes());
        match refp::mailbox(&x) {
            Ok((a, _)) => Ok(a.host.unwrap()),
            Err(()) => Err(format!("the host of a command is written {:?}", show(&x[2..]))),
        }
    }};
}

fn params_of(p: &std::collections::HashMap<SmtpString, Option<SmtpString>>) -> refp::Params {
    p.iter().map(|(k, v)| (k.bytes().to_vec(), v.as_ref().map(|v| v.bytes().to_vec()))).collect()
}

fn cmd_of(c: &Command) -> Result<Cmd, String> {
    Ok(match c {
        Command::Data(_) => Cmd::Data,
        Command::Ehlo(e) => Cmd::Ehlo(dom_of!(e.domain())?),
        Command::Expn(e) => Cmd::Expn(e.name().bytes().to_vec()),
        Command::Helo(e) => Cmd::Helo(dom_of!(e.domain())?),
        Command::Help(e) => Cmd::Help(e.subject().bytes().to_vec()),
        Command::Mail(e) => Cmd::Mail(
            match &e.from {
                None => None,
                Some(a) => Some(addr_of(a)?),
            },
            params_of(&e.params.0),
        ),
        Command::Noop(e) => Cmd::Noop(e.string().bytes().to_vec()),
        Command::Quit(_) => Cmd::Quit,
        Command::Rcpt(e) => Cmd::Rcpt(addr_of(&e.to)?, params_of(&e.params.0)),
        Command::Rset(_) => Cmd::Rset,
        Command::Vrfy(e) => Cmd::Vrfy(e.name().bytes().to_vec()),
    })
}

fn show_cmd(c: &Cmd) -> String {
    let p = |p: &refp::Params| {
        p.iter()
            .map(|(k, v)| format!(" {}{}", show(k), v.as_ref().map(|v| format!("={}", show(v))).unwrap_or_default()))
            .collect::<String>()
    };
    match c {
        Cmd::Data => "DATA".into(),
        Cmd::Ehlo(d) => format!("EHLO of {}", show(&d.wire())),
        Cmd::Helo(d) => format!("HELO of {}", show(&d.wire())),
        Cmd::Expn(t) => format!("EXPN of {:?}", show(t)),
        Cmd::Help(t) => format!("HELP of {:?}", show(t)),
        Cmd::Noop(t) => format!("NOOP of {:?}", show(t)),
        Cmd::Vrfy(t) => format!("VRFY of {:?}", show(t)),
        Cmd::Mail(None, q) => format!("MAIL from nobody, parameters [{}]", p(q)),
        Cmd::Mail(Some(a), q) => format!("MAIL from <{}>, parameters [{}]", show(&a.wire()), p(q)),
        Cmd::Rcpt(a, q) => format!("RCPT to <{}>, parameters [{}]", show(&a.wire()), p(q)),
        Cmd::Quit => "QUIT".into(),
        Cmd::Rset => "RSET".into(),
    }
}

/// One buffer for a line: alone, or a window of something bigger
fn buffer(s: &mut Src, l: &[u8]) -> Bytes {
    match s.below(3) {
        0 => Bytes::from(l),
        1 => Bytes::from(l.to_vec()),
        _ => {
            let mut v = b"DATA\r\n<x".to_vec();
            v.extend_from_slice(l);
            v.extend_from_slice(b"@example.org>\r\n");
            Bytes::from(v).slice(8, 8 + l.len())
        }
    }
}

/// Same reading up to which duplicate of a parameter is kept
fn soft_eq(a: &Cmd, b: &Cmd) -> bool {
    let keys = |p: &refp::Params| p.keys().cloned().collect::<Vec<_>>();
    match (a, b) {
        (Cmd::Mail(x, p), Cmd::Mail(y, q)) => x == y && keys(p) == keys(q),
        (Cmd::Rcpt(x, p), Cmd::Rcpt(y, q)) => x == y && keys(p) == keys(q),
        _ => a == b,
    }
}

pub fn m04_check(line: &[u8], buf: Bytes, o: &mut Obs) -> R {
    let verdict = refp::command(line);
    let got = Command::parse(buf);
    if let Err(e) = &got {
        // reporting it works too
        let t = format!("{} {:?}", e, e);
        o.add("error_text_bytes", (!t.is_empty()) as u64);
    }
    let got = match &got {
        Ok(c) => Some(match cmd_of(c) {
            Ok(c) => c,
            Err(e) => return violation(format!("{:?}: {}", show(line), e)),
        }),
        Err(_) => None,
    };
    match (&verdict, &got) {
        (Verdict::Accept(c), Some(g)) => {
            o.add("accepted", 1);
            if c != g {
                return violation(format!("{:?} was read as {}, it says {}", show(line), show_cmd(g), show_cmd(c)));
            }
        }
        (Verdict::Accept(c), None) => return violation(format!("{:?} was refused, it says {}", show(line), show_cmd(c))),
        (Verdict::Reject, Some(g)) => return violation(format!("{:?} is no command but was read as {}", show(line), show_cmd(g))),
        (Verdict::Reject, None) => o.add("refused", 1),
        (Verdict::Either(c), Some(g)) => {
            o.add("unspecified", 1);
            // trailing hyphens and the like may be refused; what is read must still be right
            if !soft_eq(c, g) {
                return violation(format!("{:?} was read as {}, if anything it says {}", show(line), show_cmd(g), show_cmd(c)));
            }
        }
        (Verdict::Either(_), None) => o.add("unspecified", 1),
    }
    Ok(())
}

// M04
pub fn m04(s: &mut Src, o: &mut Obs) -> R {
    let line = match s.below(8) {
        0..=3 => gen::valid_line(s),
        4 | 5 => {
            let mut l = gen::valid_line(s);
            gen::mutate(s, &mut l);
            l
        }
        6 => {
            let mut l = gen::valid_line(s);
            let e = l.len() - 2;
            let mut b = l[..e].to_vec();
            gen::mutate(s, &mut b);
            b.extend_from_slice(b"\r\n");
            l = b;
            l
        }
        _ => gen::junk_line(s),
    };
    if o.describe {
        o.desc = format!("line {:?}: by the grammar {:?}", show(&line), refp::command(&line));
    }
    o.sign(&line);
    o.nontrivial = !matches!(refp::command(&line), Verdict::Reject) || line.len() > 6;
    o.max("line_bytes", line.len() as u64);
    let b = buffer(s, &line);
    m04_check(&line, b, o)
}

const FRAMES: &[(&[u8], &[u8], &[u8])] = &[
    (b"MAIL FROM:", b"<>@a.:, =[", b"\r\n"),
    (b"RCPT TO:", b"<>@a\"\\.- ", b"\r\n"),
    (b"MAIL FROM:<a@", b"a1.-[]>:", b">\r\n"),
    (b"RCPT TO:<a@b>", b" \ta=-<1", b"\r\n"),
    (b"EHLO", b" \ta.-[]1", b"\r\n"),
    (b"HELO ", b" \ta.-[]1", b"\r\n"),
    (b"DATA", b" \t\r\nA.", b"\r\n"),
    (b"QUIT", b" \t\r\nA.", b"\r\n"),
    (b"RSET", b" \t\r\nA.", b"\r\n"),
    (b"NOOP", b" \t\r\nA.", b"\r\n"),
    (b"HELP", b" \t\r\nA.", b"\r\n"),
    (b"EXPN", b" \t\r\nA.", b"\r\n"),
    (b"VRFY", b" \t\r\nA.", b"\r\n"),
    (b"NOOP", b" \r\nA", b""),
    (b"MAIL FROM:<\"", b"\"\\a @>", b"@b>\r\n"),
    (b"RCPT TO:<", b"@,:ab.", b"c@d>\r\n"),
];

fn frame_len(deep: bool, a: usize) -> usize {
    if deep {
        if a > 7 {
            7
        } else {
            8
        }
    } else if a > 7 {
        5
    } else {
        6
    }
}

fn frame_count(deep: bool, f: usize) -> u64 {
    let a = FRAMES[f].1.len() as u64;
    (0..=frame_len(deep, a as usize) as u32).map(|n| a.pow(n)).sum()
}

pub fn m04_total(deep: bool) -> u64 {
    crate::scale::line_total() + (0..FRAMES.len()).map(|f| frame_count(deep, f)).sum::<u64>()
}

pub fn m04_enum(mut i: u64, o: &mut Obs) -> R {
    if i < crate::scale::line_total() {
        return crate::scale::m04(i, o);
    }
    i -= crate::scale::line_total();
    let mut f = 0;
    while i >= frame_count(o.thorough, f) {
        i -= frame_count(o.thorough, f);
        f += 1;
    }
    let (pre, alpha, suf) = FRAMES[f];
    let a = alpha.len() as u64;
    let mut n = 0;
    let mut c = 1;
    while i >= c {
        i -= c;
        n += 1;
        c *= a;
    }
    let mut line = pre.to_vec();
    for _ in 0..n {
        line.push(alpha[(i % a) as usize]);
        i /= a;
    }
    line.extend_from_slice(suf);
    o.add("enumerated_lines", 1);
    o.nontrivial = true;
    o.sign(&line);
    if o.describe {
        o.desc = format!("line {:?}", show(&line));
    }
    m04_check(&line, Bytes::from(&line[..]), o)
}

// M05
fn email_of(a: &Addr) -> Result<Email, Fail> {
    let host = match &a.host {
        None => None,
        Some(d) => {
            let mut x = b"x@".to_vec();
            x.extend(d.wire());
            match Email::parse_slice(&x) {
                Ok(e) => e.hostname().clone(),
                Err(e) => return violation(format!("the host {:?} is refused: {:?}", show(&d.wire()), e)),
            }
        }
    };
    Ok(Email::new(SmtpString::from(&a.local[..]), host))
}

fn send(c: &Command) -> Result<Vec<u8>, Fail> {
    let mut v = vec![];
    match c.send_to(&mut v) {
        Ok(()) => Ok(v),
        Err(e) => violation(format!("writing a command into memory fails: {}", e)),
    }
}

fn add_params(s: &mut Src, p: &mut std::collections::HashMap<SmtpString, Option<SmtpString>>) -> refp::Params {
    let t = gen::params(s);
    let mut m = refp::Params::new();
    for w in t.split(|&c| c == b' ' || c == b'\t').filter(|w| !w.is_empty()) {
        let (k, v) = match w.iter().position(|&c| c == b'=') {
            Some(i) => (&w[..i], Some(&w[i + 1..])),
            None => (w, None),
        };
        m.insert(k.to_vec(), v.map(|v| v.to_vec()));
        p.insert(SmtpString::from(k), v.map(SmtpString::from));
    }
    m
}

pub fn m05(s: &mut Src, o: &mut Obs) -> R {
    let (cmd, want) = if s.chance(1, 3) {
        // one that was read
        let l = gen::valid_line(s);
        let Ok(c) = Command::parse(Bytes::from(&l[..])) else {
            return Ok(()); // another property's business
        };
        match cmd_of(&c) {
            Ok(k) => (c, k),
            Err(e) => return violation(format!("{:?}: {}", show(&l), e)),
        }
    } else {
        // one that was made
        let none = match Command::parse(Bytes::from_static(b"MAIL FROM:<>\r\n")) {
            Ok(Command::Mail(m)) => m.params,
            _ => return violation("MAIL FROM:<> is not read as MAIL"),
        };
        match s.below(11) {
            0 => (Command::Data(DataCommand::new()), Cmd::Data),
            1 => (Command::Quit(QuitCommand::new()), Cmd::Quit),
            2 => (Command::Rset(RsetCommand::new()), Cmd::Rset),
            3 | 4 => {
                let d = gen::dom(s);
                let e = email_of(&Addr { local: b"x".to_vec(), host: Some(d.clone()) })?;
                let h = e.hostname().clone().unwrap();
                if s.chance(1, 2) {
                    (Command::Ehlo(EhloCommand::new(h)), Cmd::Ehlo(d))
                } else {
                    (Command::Helo(HeloCommand::new(h)), Cmd::Helo(d))
                }
            }
            5 => {
                let t = gen::text(s, 0);
                if s.chance(1, 2) {
                    (Command::Help(HelpCommand::new(SmtpString::from(&t[..]))), Cmd::Help(t))
                } else {
                    (Command::Noop(NoopCommand::new(SmtpString::from(&t[..]))), Cmd::Noop(t))
                }
            }
            6 => {
                let t = gen::text(s, 1);
                if s.chance(1, 2) {
                    (Command::Expn(ExpnCommand::new(SmtpString::from(&t[..]))), Cmd::Expn(t))
                } else {
                    (Command::Vrfy(VrfyCommand::new(SmtpString::from(&t[..]))), Cmd::Vrfy(t))
                }
            }
            7 | 8 => {
                let a = if s.chance(1, 6) { None } else { Some(gen::addr(s)) };
                let e = match &a {
                    Some(a) => Some(email_of(a)?),
                    None => None,
                };
                let mut p = none;
                let q = add_params(s, &mut p.0);
                (Command::Mail(MailCommand::new(e, p)), Cmd::Mail(a, q))
            }
            _ => {
                let a = gen::addr(s);
                let e = email_of(&a)?;
                let mut p = none;
                let q = add_params(s, &mut p.0);
                (Command::Rcpt(RcptCommand::new(e, p)), Cmd::Rcpt(a, q))
            }
        }
    };
    m05_check(&cmd, &want, o)
}

fn m05_check(cmd: &Command, want: &Cmd, o: &mut Obs) -> R {
    let out = send(cmd)?;
    o.sign(&out);
    o.nontrivial = out.len() > 6;
    o.add("commands", 1);
    o.max("line_bytes", out.len() as u64);
    if o.describe {
        o.desc = format!("{}\nwritten as {:?}", show_cmd(want), show(&out));
    }
    match refp::command(&out) {
        Verdict::Accept(c) | Verdict::Either(c) if c == *want => (),
        v => return violation(format!("{} is written as {:?}, which by the grammar is {:?}", show_cmd(want), show(&out), v)),
    }
    // a path and its parameters are written with nothing around them
    let exact = |path: usize, p: &refp::Params| path + p.iter().map(|(k, v)| 1 + k.len() + v.as_ref().map_or(0, |v| 1 + v.len())).sum::<usize>() + 2;
    let (least, name) = match want {
        Cmd::Mail(a, p) => (exact(12 + a.as_ref().map_or(0, |a| a.wire().len()), p), "MAIL"),
        Cmd::Rcpt(a, p) => (exact(10 + a.wire().len(), p), "RCPT"),
        _ => (out.len(), ""),
    };
    if out.len() != least {
        return violation(format!("a {} command that takes {} bytes is written as {:?}", name, least, show(&out)));
    }
    match Command::parse(Bytes::from(&out[..])) {
        Ok(c) => match cmd_of(&c) {
            Ok(k) if k == *want => {
                let again = send(&c)?;
                // parameters may come out in another order
                match refp::command(&again) {
                    Verdict::Accept(k) | Verdict::Either(k) if k == *want => (),
                    _ => return violation(format!("written a second time it becomes {:?}", show(&again))),
                }
            }
            Ok(k) => return violation(format!("{} is written as {:?} and read back as {}", show_cmd(want), show(&out), show_cmd(&k))),
            Err(e) => return violation(e),
        },
        Err(e) => return violation(format!("{} is written as {:?} and refused when read back: {}", show_cmd(want), show(&out), e)),
    }
    Ok(())
}

/// A line read, written and read again
pub fn m05_line(line: &[u8], o: &mut Obs) -> R {
    let Ok(c) = Command::parse(Bytes::from(line)) else { return Ok(()) };
    match cmd_of(&c) {
        Ok(k) => m05_check(&c, &k, o),
        Err(e) => violation(format!("{:?}: {}", show(line), e)),
    }
}

// ---------------------------------------------------------------- mailboxes

pub fn m06_check(b: &[u8], o: &mut Obs) -> R {
    let got = Email::parse_slice(b);
    match (refp::mailbox(b), &got) {
        (Ok((a, soft)), Ok(e)) => {
            o.add("accepted", 1);
            let _ = soft;
            let g = match addr_of(e) {
                Ok(g) => g,
                Err(m) => return violation(format!("{:?}: {}", show(b), m)),
            };
            if g != a {
                return violation(format!("{:?} is read as {:?}", show(b), show(&g.wire())));
            }
            if e.raw_localpart().bytes()[..] != a.local[..] {
                return violation(format!("{:?} has raw local part {:?}", show(b), show(e.raw_localpart().bytes())));
            }
            let c = e.localpart();
            if c.bytes()[..] != a.canonical()[..] {
                return violation(format!("{:?} has local part {:?}, expected {:?}", show(b), show(c.bytes()), show(&a.canonical())));
            }
            // written and read again it is the same address
            let w = crate::model::wire(e);
            match Email::parse_slice(&w) {
                Ok(e2) if e2 == *e => (),
                r => return violation(format!("{:?} written as {:?} and read back is {:?}", show(b), show(&w), r)),
            }
        }
        (Err(()), Err(_)) => o.add("refused", 1),
        (Ok((_, true)), Err(_)) => o.add("unspecified", 1),
        (Ok((_, false)), Err(e)) => return violation(format!("the mailbox {:?} is refused: {}", show(b), e)),
        (Err(()), Ok(e)) => return violation(format!("{:?} is no mailbox but is read as {:?}", show(b), show(&crate::model::wire(e)))),
    }
    Ok(())
}

pub fn m06(s: &mut Src, o: &mut Obs) -> R {
    let mut b = gen::addr(s).wire();
    if s.chance(1, 3) {
        gen::mutate(s, &mut b);
    }
    if o.describe {
        o.desc = format!("{:?}: by the grammar {:?}", show(&b), refp::mailbox(&b));
    }
    o.sign(&b);
    o.nontrivial = b.len() > 3;
    o.max("mailbox_bytes", b.len() as u64);
    m06_check(&b, o)?;
    // quoting does not change who is meant
    if s.chance(1, 2) {
        let n = 1 + s.size(40);
        let plain = s.from_alphabet(n, b"ab.c\"\\ @<>");
        let mut q1 = vec![b'"'];
        let mut q2 = vec![b'"'];
        for &c in &plain {
            if c == b'"' || c == b'\\' {
                q1.push(b'\\');
            }
            q1.push(c);
            if c == b'"' || c == b'\\' || s.chance(1, 2) {
                q2.push(b'\\');
            }
            q2.push(c);
        }
        for q in [&mut q1, &mut q2] {
            q.extend_from_slice(b"\"@example.org");
            match Email::parse_slice(q) {
                Ok(e) => {
                    if e.localpart().bytes()[..] != plain[..] {
                        return violation(format!("{:?} has local part {:?}, expected {:?}", show(q), show(e.localpart().bytes()), show(&plain)));
                    }
                }
                Err(e) => return violation(format!("the mailbox {:?} is refused: {}", show(q), e)),
            }
        }
        o.add("quotings_compared", 1);
    }
    Ok(())
}

const MB: &[u8] = b"a.@\"\\ -[";

pub fn m06_total(deep: bool) -> u64 {
    crate::scale::address_total() + short_total(deep)
}

fn short_total(deep: bool) -> u64 {
    (0..=if deep { 9u32 } else { 7 }).map(|n| 8u64.pow(n)).sum::<u64>() + 2 * ip_total(deep)
}

fn ip_total(deep: bool) -> u64 {
    (0..=if deep { 8u32 } else { 6 }).map(|n| 8u64.pow(n)).sum()
}

pub fn m06_enum(mut i: u64, o: &mut Obs) -> R {
    if i < crate::scale::address_total() {
        return crate::scale::m06(i, o);
    }
    i -= crate::scale::address_total();
    let main = short_total(o.thorough) - 2 * ip_total(o.thorough);
    let (pre, alpha, suf, mut i): (&[u8], &[u8], &[u8], u64) = if i < main {
        (b"", MB, b"", i)
    } else if (i - main) % 2 == 0 {
        (b"x@[1.2.", b"0129.]a[", b"3]", (i - main) / 2)
    } else {
        (b"x@[IPv6:", b":1f.]0g[", b"]", (i - main) / 2)
    };
    let mut n = 0;
    let mut c = 1;
    while i >= c {
        i -= c;
        n += 1;
        c *= 8;
    }
    let mut b = pre.to_vec();
    for _ in 0..n {
        b.push(alpha[(i % 8) as usize]);
        i /= 8;
    }
    b.extend_from_slice(suf);
    o.add("enumerated_strings", 1);
    o.nontrivial = true;
    o.sign(&b);
    if o.describe {
        o.desc = format!("{:?}", show(&b));
    }
    m06_check(&b, o)
}

// ---------------------------------------------------------------- replies

const CODES: &[(ReplyCode, u16)] = &[
    (ReplyCode::SYSTEM_STATUS, 211),
    (ReplyCode::HELP_MESSAGE, 214),
    (ReplyCode::SERVICE_READY, 220),
    (ReplyCode::CLOSING_CHANNEL, 221),
    (ReplyCode::OKAY, 250),
    (ReplyCode::USER_NOT_LOCAL_WILL_FORWARD, 251),
    (ReplyCode::CANNOT_VRFY_BUT_PLEASE_TRY, 252),
    (ReplyCode::START_MAIL_INPUT, 354),
    (ReplyCode::SERVICE_NOT_AVAILABLE, 421),
    (ReplyCode::MAILBOX_TEMPORARILY_UNAVAILABLE, 450),
    (ReplyCode::LOCAL_ERROR, 451),
    (ReplyCode::INSUFFICIENT_STORAGE, 452),
    (ReplyCode::UNABLE_TO_ACCEPT_PARAMETERS, 455),
    (ReplyCode::COMMAND_UNRECOGNIZED, 500),
    (ReplyCode::SYNTAX_ERROR, 501),
    (ReplyCode::COMMAND_UNIMPLEMENTED, 502),
    (ReplyCode::BAD_SEQUENCE, 503),
    (ReplyCode::PARAMETER_UNIMPLEMENTED, 504),
    (ReplyCode::MAILBOX_UNAVAILABLE, 550),
    (ReplyCode::POLICY_REASON, 550),
    (ReplyCode::USER_NOT_LOCAL, 551),
    (ReplyCode::EXCEEDED_STORAGE, 552),
    (ReplyCode::MAILBOX_NAME_INCORRECT, 553),
    (ReplyCode::TRANSACTION_FAILED, 554),
    (ReplyCode::MAIL_OR_RCPT_PARAMETER_UNIMPLEMENTED, 555),
];

fn send_reply_line(r: &ReplyLine) -> Result<Vec<u8>, Fail> {
    let mut v = vec![];
    match r.send_to(&mut v) {
        Ok(()) => Ok(v),
        Err(e) => violation(format!("writing a reply line into memory fails: {}", e)),
    }
}

fn m07_build(code: u16, rc: ReplyCode, last: bool, text: &[u8], o: &mut Obs) -> R {
    let il = if last { IsLastLine::Yes } else { IsLastLine::No };
    let ok = text.len() <= 506 && text.iter().all(|&c| c == 9 || (32..=126).contains(&c));
    match ReplyLine::build(rc, il, SmtpString::from(text)) {
        Ok(r) => {
            o.add("built", 1);
            if !ok {
                return violation(format!("a reply line was made of a text that does not fit ({} bytes): {:?}", text.len(), show(text)));
            }
            let w = send_reply_line(&r)?;
            let mut want = format!("{:03}{}", code, if last { ' ' } else { '-' }).into_bytes();
            want.extend_from_slice(text);
            want.extend_from_slice(b"\r\n");
            if w != want {
                return violation(format!("reply line written as {:?}, expected {:?}", show(&w), show(&want)));
            }
            if r.byte_len() != w.len() {
                return violation(format!("a reply line of {} bytes claims {}", w.len(), r.byte_len()));
            }
            match ReplyLine::parse(Bytes::from(&w[..])) {
                Ok(r2) => {
                    let w2 = send_reply_line(&r2)?;
                    if w2 != w || r2.byte_len() != w2.len() {
                        return violation(format!("{:?} read and written again is {:?}", show(&w), show(&w2)));
                    }
                }
                Err(e) => return violation(format!("the reply line {:?} is refused when read back: {}", show(&w), e)),
            }
        }
        Err(e) => {
            o.add("not_built", 1);
            let _ = format!("{} {:?}", e, e);
            if ok {
                return violation(format!("a reply line with an allowed text of {} bytes is refused: {} ({:?})", text.len(), e, show(text)));
            }
        }
    }
    Ok(())
}

pub fn m07_total(_: bool) -> u64 {
    1000 + 256 + 600 + M07_OTHER.len() as u64
}

/// Numbers that are no reply codes
const M07_OTHER: &[u16] = &[1000, 1001, 1002, 1009, 1010, 1099, 1100, 1200, 1220, 1250, 1354, 1999, 2000, 2200, 2250, 2500, 4210, 5000, 5500, 9999, 10000, 10250, 20000, 25000, 32767, 32768, 50000, 55000, 60000, 65000, 65286, 65534, 65535];

pub fn m07_enum(i: u64, o: &mut Obs) -> R {
    o.add("enumerated", 1);
    o.nontrivial = true;
    o.sign(&i.to_le_bytes());
    if i < 1000 {
        let rc = ReplyCode::custom(i as u16);
        if rc.code() != i as u16 {
            return violation(format!("reply code {} became {}", i, rc.code()));
        }
        for (c, n) in CODES {
            if c.code() != *n {
                return violation(format!("the named reply code {} is {}", n, c.code()));
            }
        }
        m07_build(i as u16, rc, i % 2 == 0, b"text", o)?;
        m07_build(i as u16, rc, i % 2 == 1, b"", o)
    } else if i < 1256 {
        let b = (i - 1000) as u8;
        for (pre, suf) in [(&b""[..], &b""[..]), (b"ab", b""), (b"", b"ab"), (b"a", b"b")] {
            let mut t = pre.to_vec();
            t.push(b);
            t.extend_from_slice(suf);
            m07_build(250, ReplyCode::OKAY, true, &t, o)?;
        }
        // each byte at each place of a line to read
        for k in 0..8 {
            for base in [&b"250 ok\r\n"[..], b"550-no\r\n"] {
                let mut l = base.to_vec();
                l[k] = b;
                m07_parse(&l, o)?;
            }
        }
        Ok(())
    } else if i >= 1856 {
        let n = M07_OTHER[(i - 1856) as usize];
        o.add("numbers_beyond_three_digits", 1);
        // refused at once, or when a line is made of it
        if let Ok(c) = guarded(|| ReplyCode::custom(n)) {
            if let Ok(Ok(r)) = guarded(|| ReplyLine::build(c, IsLastLine::Yes, SmtpString::from(&b"text"[..]))) {
                return violation(format!("a reply line can be made with the code {}: it is written {:?}", n, guarded(|| send_reply_line(&r)).ok().and_then(|r| r.ok()).map(|w| show(&w))));
            }
        }
        Ok(())
    } else {
        let n = (i - 1256) as usize;
        m07_build(250, ReplyCode::OKAY, n % 2 == 0, &vec![b'x'; n], o)
    }
}

fn m07_parse(l: &[u8], o: &mut Obs) -> R {
    match (refp::reply_line(l), ReplyLine::parse(Bytes::from(l))) {
        (Ok(_), Ok(r)) => {
            o.add("read", 1);
            let w = send_reply_line(&r)?;
            if w != l {
                return violation(format!("the reply line {:?} is read and written as {:?}", show(l), show(&w)));
            }
            if r.byte_len() != l.len() {
                return violation(format!("a reply line of {} bytes claims {}", l.len(), r.byte_len()));
            }
        }
        (Ok((_, _, _, soft)), Err(e)) => {
            if !soft {
                return violation(format!("the reply line {:?} is refused: {}", show(l), e));
            }
        }
        (Err(()), Err(_)) => o.add("refused", 1),
        (Err(()), Ok(r)) => return violation(format!("{:?} is no reply line but is read as {:?}", show(l), show(&send_reply_line(&r)?))),
    }
    Ok(())
}

pub fn m07(s: &mut Src, o: &mut Obs) -> R {
    let code = s.below(1000) as u16;
    let last = s.chance(1, 2);
    let max = if s.scale >= 2 { 3000 } else { 520 };
    let mut t = match s.below(4) {
        0 => {
            let n = 490 + s.below(30);
            s.from_alphabet(n, b"abc \t-~")
        }
        _ => gen::reply_text(s, max),
    };
    if s.chance(1, 3) {
        gen::mutate(s, &mut t);
    }
    o.sign(&t);
    o.sign(&code.to_le_bytes());
    o.nontrivial = !t.is_empty();
    o.max("text_bytes", t.len() as u64);
    m07_build(code, ReplyCode::custom(code), last, &t, o)?;
    let mut l = format!("{:03}{}", code, if last { ' ' } else { '-' }).into_bytes();
    l.extend_from_slice(&t);
    l.extend_from_slice(b"\r\n");
    if s.chance(1, 2) {
        gen::mutate(s, &mut l);
    }
    if s.chance(1, 8) {
        let mut k = l.clone();
        k.extend_from_slice(&l);
        l = k;
    }
    o.sign(&l);
    if o.describe {
        o.desc = format!("code {} text ({} bytes) {:?}; line read: {:?}", code, t.len(), show(&t), show(&l));
    }
    m07_parse(&l, o)
}

// ---------------------------------------------------------------- totality

// M08
/// Every parser returns
pub fn m08_check(buf: &Bytes, b: &[u8], o: &mut Obs) {
    let mut oks = 0;
    match Command::parse(buf.clone()) {
        Ok(c) => {
            oks += 1;
            let mut v = vec![];
            let _ = c.send_to(&mut v);
            let _ = format!("{:?}", c);
            if let Command::Mail(m) = &c {
                if let Some(f) = &m.from {
                    let _ = f.localpart();
                }
            }
            if let Command::Rcpt(r) = &c {
                let _ = r.to.localpart();
            }
        }
        Err(e) => {
            let _ = format!("{} {:?}", e, e);
        }
    }
    match Email::parse_slice(b) {
        Ok(e) => {
            oks += 1;
            let _ = e.localpart();
            let _ = SmtpString::from_sendable(&e);
        }
        Err(e) => {
            let _ = format!("{} {:?}", e, e);
        }
    }
    match Email::parse(ByteSlice::from(buf)) {
        Ok(e) => {
            let _ = e.localpart();
        }
        Err(_) => (),
    }
    match ReplyLine::parse(buf.clone()) {
        Ok(r) => {
            oks += 1;
            let mut v = vec![];
            let _ = r.send_to(&mut v);
        }
        Err(e) => {
            let _ = format!("{} {:?}", e, e);
        }
    }
    match ReplyLine::build(ReplyCode::OKAY, IsLastLine::Yes, SmtpString::from(buf.clone())) {
        Ok(_) => oks += 1,
        Err(e) => {
            let _ = format!("{} {:?}", e, e);
        }
    }
    o.add("inputs", 1);
    o.add("accepted_by_a_parser", (oks > 0) as u64);
}

pub fn m08(s: &mut Src, o: &mut Obs) -> R {
    let big = match s.scale {
        0 => 64,
        1 => 400,
        2 => 20_000,
        _ => 200_000,
    };
    let b = match s.below(10) {
        0 => {
            let n = s.size(big);
            s.bytes(n)
        }
        1 => {
            // long runs of one thing inside a command
            let mut l = match s.below(5) {
                0 => b"MAIL FROM:<".to_vec(),
                1 => b"RCPT TO:<\"".to_vec(),
                2 => b"EHLO ".to_vec(),
                3 => b"MAIL FROM:<a@b> ".to_vec(),
                _ => vec![],
            };
            let unit: &[u8] = s.pick(&[&b"a"[..], b".", b"a.", b"\\", b"\"", b"@a,", b"[", b" ", b" a", b" a=b", b"[IPv6:", b":", b"\\\"", b"\r", b"\n", b"-", b"\xc3\xa9", b"\0"]);
            let n = s.size(big) / unit.len();
            for _ in 0..n {
                l.extend_from_slice(unit);
            }
            if s.chance(3, 4) {
                l.extend_from_slice(b"\r\n");
            }
            l
        }
        2 | 3 => {
            let mut l = gen::valid_line(s);
            gen::mutate(s, &mut l);
            l
        }
        4 => {
            let l = gen::valid_line(s);
            let k = s.below(l.len() + 1);
            l[..k].to_vec()
        }
        5 => {
            let mut l = gen::addr(s).wire();
            gen::mutate(s, &mut l);
            l
        }
        6 => {
            let mut l = b"a@[IPv6:".to_vec();
            let n = s.below(40);
            l.extend(s.from_alphabet(n, b":0123456789abcdefg.]%\xff"));
            if s.chance(1, 2) {
                l.push(b']');
            }
            l
        }
        7 => {
            let mut l = b"250 ".to_vec();
            let n = s.size(big);
            l.extend(s.bytes(n));
            l.extend_from_slice(b"\r\n");
            gen::mutate(s, &mut l);
            l
        }
        8 => gen::junk_line(s),
        _ => {
            let mut l = s.dict_str();
            l.extend(s.dict_str());
            let n = s.below(6);
            l.extend(s.bytes(n));
            l
        }
    };
    o.sign(&b);
    o.nontrivial = b.len() > 2;
    o.max("input_bytes", b.len() as u64);
    if o.describe {
        o.desc = format!("input ({} bytes) {:?}", b.len(), show(&b));
    }
    m08_check(&buffer(s, &b), &b, o);
    // a stream of it through the decoder and the encoder
    if s.chance(1, 4) {
        let ch = gen::chunking(s, &b, None);
        let w = World::new(ch, 0, vec![]);
        let mut pre = pre_for(&w);
        let _ = read_message(&mut pre, &w, 1, 1)?;
        let w = World::new(vec![], 0, vec![]);
        let (e, _) = encode_real(&[b], &w, 1, 0);
        if e != End::Done(Ok(())) {
            return violation(format!("encoding does not end: {:?}", e));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- reasons

// M13
/// Every number in a text, in order
fn numbers(t: &str) -> Vec<u64> {
    t.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect()
}

/// The number after `what` in a text
fn number_after(t: &str, what: &str) -> Option<u64> {
    let r = &t[t.find(what)? + what.len()..];
    let r: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
    r.parse().ok()
}

/// Why a text cannot be a reply line
fn m13_text(t: &[u8], o: &mut Obs) -> R {
    let first = t.iter().position(|&c| !(c == 9 || (32..=126).contains(&c)));
    let e = match ReplyLine::build(ReplyCode::OKAY, IsLastLine::Yes, SmtpString::from(t)) {
        Ok(_) => return Ok(()),
        Err(e) => e,
    };
    o.add("texts_refused", 1);
    let (say, dbg) = (format!("{}", e), format!("{:?}", e));
    let n = numbers(&say);
    let has = |x: usize| n.contains(&(x as u64));
    let fits = |what: &str, x: usize| number_after(&dbg, what).map_or(true, |v| v == x as u64);
    let long = t.len() > 506 && has(t.len()) && has(506) && fits("length: ", t.len()) && fits("limit: ", 506);
    let byte = first.map_or(false, |p| has(p) && has(t[p] as usize) && number_after(&say, "position ").map_or(true, |v| v == p as u64) && fits(" pos: ", p) && fits(" b: ", t[p] as usize));
    if !long && !byte {
        return violation(format!("a text of {} bytes (first byte not allowed: {:?}) is refused as {:?} ({})", t.len(), first.map(|p| (p, t[p])), say, dbg));
    }
    Ok(())
}

/// What is said to be left over is, and the rest can be read
fn m13_left<T>(what: &str, b: &[u8], parse: impl Fn(&[u8]) -> Result<T, ParseError>, o: &mut Obs) -> R {
    match parse(b) {
        Ok(_) => o.add("read", 1),
        Err(e) => {
            let (say, dbg) = (format!("{}", e), format!("{:?}", e));
            if say.is_empty() || dbg.is_empty() {
                return violation(format!("the error for the {} {:?} says nothing", what, show(b)));
            }
            if let ParseError::DidNotConsumeEverything(n) = e {
                o.add("left_over", 1);
                if n == 0 || n > b.len() {
                    return violation(format!("of the {} {:?} ({} bytes) {} bytes are said to be left over", what, show(b), b.len(), n));
                }
                if !numbers(&say).contains(&(n as u64)) {
                    return violation(format!("{} bytes of {:?} are left over but the error says {:?}", n, show(b), say));
                }
                let head = &b[..b.len() - n];
                if let Err(e) = parse(head) {
                    return violation(format!("of the {} {:?} the last {} bytes are said to be left over, but what is before them is not read either: {}", what, show(b), n, e));
                }
            }
        }
    }
    Ok(())
}

/// A line that can be read, with more after it
fn m13_more<T>(what: &str, l: &[u8], more: &[u8], parse: impl Fn(&[u8]) -> Result<T, ParseError>, o: &mut Obs) -> R {
    if more.is_empty() || parse(l).is_err() {
        return Ok(());
    }
    o.add("continued_lines", 1);
    let b = [l, more].concat();
    match parse(&b) {
        Err(ParseError::DidNotConsumeEverything(n)) if n == more.len() => Ok(()),
        Err(e) => violation(format!("the {} {:?} can be read; with {:?} after it the error is {} ({:?})", what, show(l), show(more), e, e)),
        Ok(_) => violation(format!("the {} {:?} is read in spite of what follows its end", what, show(&b))),
    }
}

fn m13_all(b: &[u8], buf: &Bytes, o: &mut Obs) -> R {
    let b2 = b.to_vec();
    // the buffer's own representation for the whole, slices of it for parts
    let sub = |x: &[u8]| if x.len() <= b2.len() && b2[..x.len()] == *x { buf.slice(0, x.len()) } else { Bytes::from(x) };
    m13_left("command", b, |x| Command::parse(sub(x)), o)?;
    m13_left("reply line", b, |x| ReplyLine::parse(sub(x)), o)?;
    m13_left("mailbox", b, |x| Email::parse(ByteSlice::from(&sub(x))).map(|_| ()), o)?;
    m13_left("mailbox", b, Email::parse_slice, o)?;
    m13_text(b, o)
}

pub fn m13(s: &mut Src, o: &mut Obs) -> R {
    let mut l = match s.below(6) {
        0 | 1 => gen::valid_line(s),
        2 => {
            let mut l = format!("{:03}{}", s.below(1000), s.pick(&[" ", "-"])).into_bytes();
            l.extend(gen::reply_text(s, 520));
            l.extend_from_slice(b"\r\n");
            l
        }
        3 => gen::addr(s).wire(),
        4 => gen::junk_line(s),
        _ => {
            let n = s.size(900);
            s.from_alphabet(n, b"abc \t-~z")
        }
    };
    let more = match s.below(6) {
        0 => vec![],
        1 => gen::valid_line(s),
        2 => gen::junk_line(s),
        3 => b"\r\n".to_vec(),
        _ => {
            let n = 1 + s.size(300);
            s.from_alphabet(n, b" \t,.@>x]\r\n\"\\\0\xff")
        }
    };
    if !l.is_empty() && l.ends_with(b"\r\n") {
        m13_more("command", &l, &more, |x| Command::parse(Bytes::from(x)), o)?;
        m13_more("reply line", &l, &more, |x| ReplyLine::parse(Bytes::from(x)), o)?;
    } else {
        // nothing that could go on the address
        let k = more.iter().position(|&c| b" \t>\r\n\0\xff,".contains(&c));
        if let Some(k) = k {
            m13_more("mailbox", &l, &more[k..], Email::parse_slice, o)?;
        }
    }
    if s.chance(1, 3) {
        gen::mutate(s, &mut l);
    }
    if s.chance(1, 2) {
        l.extend_from_slice(&more);
    }
    if s.chance(1, 6) {
        let k = s.below(l.len() + 1);
        l.truncate(k);
    }
    o.sign(&l);
    o.sign(&more);
    o.nontrivial = l.len() > 2;
    o.max("input_bytes", l.len() as u64);
    if o.describe {
        o.desc = format!("input {:?}, and with {:?} after it", show(&l), show(&more));
    }
    m13_all(&l, &buffer(s, &l), o)
}

const M13_LENS: &[usize] = &[1, 2, 100, 255, 256, 257, 505, 506, 507, 508, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 65537, 131_073, 262_145];

pub fn m13_total(_: bool) -> u64 {
    256 + 506 + 3 * M13_LENS.len() as u64
}

/// Each byte, each place, and lengths around the powers of two
pub fn m13_enum(i: u64, o: &mut Obs) -> R {
    o.add("enumerated", 1);
    o.nontrivial = true;
    o.sign(&i.to_le_bytes());
    let i = i as usize;
    if i < 256 {
        for (pre, suf) in [(0, 0), (1, 0), (0, 1), (3, 4), (300, 100), (505, 0)] {
            let mut t = vec![b'a'; pre];
            t.push(i as u8);
            t.extend(vec![b'b'; suf]);
            m13_text(&t, o)?;
            t.push(200);
            m13_text(&t, o)?;
        }
        for base in [&b"250 ok\r\n"[..], b"MAIL FROM:<a@b.c> x=y\r\n", b"RCPT TO:<\"a b\"@[1.2.3.4]>\r\n", b"EHLO a.b\r\n", b"NOOP x\r\n", b"HELP\r\n", b"DATA\r\n", b"a.b@c.d", b"\"a\"@[IPv6:::1]"] {
            for k in 0..=base.len() {
                let mut l = base.to_vec();
                l.insert(k, i as u8);
                m13_all(&l, &Bytes::from(&l[..]), o)?;
                if k < base.len() {
                    l.remove(k + 1);
                    m13_all(&l, &Bytes::from(&l[..]), o)?;
                }
            }
        }
        Ok(())
    } else if i < 256 + 506 {
        let p = i - 256;
        for b in [0u8, 8, 10, 13, 31, 127, 128, 255] {
            let mut t = vec![b'x'; 506];
            t[p] = b;
            m13_text(&t, o)?;
            t.truncate(p + 1);
            m13_text(&t, o)?;
        }
        Ok(())
    } else {
        let (n, k) = ((i - 762) / 3, (i - 762) % 3);
        let n = M13_LENS[n];
        let mut t = vec![b'x'; n];
        match k {
            0 => m13_text(&t, o),
            1 => {
                t[n - 1] = 7;
                m13_text(&t, o)?;
                t[0] = 200;
                m13_text(&t, o)
            }
            _ => {
                for l in [&b"250 ok\r\n"[..], b"MAIL FROM:<a@b.c> x=y\r\n", b"EHLO a.b\r\n", b"NOOP x\r\n", b"DATA\r\n", b"EXPN x\r\n"] {
                    m13_more("command", l, &t, |x| Command::parse(Bytes::from(x)), o)?;
                    m13_more("reply line", l, &t, |x| ReplyLine::parse(Bytes::from(x)), o)?;
                }
                t.insert(0, b'>');
                m13_more("mailbox", b"a.b@c.d", &t, Email::parse_slice, o)
            }
        }
    }
}

// ---------------------------------------------------------------- byte views and strings

// M09
pub fn m09(s: &mut Src, o: &mut Obs) -> R {
    views(s, o)?;
    strings(s, o)
}

fn views(s: &mut Src, o: &mut Obs) -> R {
    use nom::{Compare, CompareResult, FindSubstring, InputIter, InputLength, Slice};
    let n = s.size(300);
    let data = s.from_alphabet(n, b"abcABC \r\n.\xc3\xa9");
    let mut around = b"secret-".to_vec();
    around.extend_from_slice(&data);
    around.extend_from_slice(b"-secret");
    let buf = match s.below(3) {
        0 => Bytes::from(&data[..]),
        1 => Bytes::from(data.clone()),
        _ => Bytes::from(around).slice(7, 7 + n),
    };
    let mut v = ByteSlice::from(&buf);
    let mut m: &[u8] = &data;
    let k = s.below(8);
    for _ in 0..k {
        let a = s.below(m.len() + 2);
        let b = s.below(m.len() + 3);
        let (what, model, real): (String, Option<&[u8]>, Result<ByteSlice, _>) = match s.below(4) {
            0 => (format!("{}..{}", a, b), if a <= b { m.get(a..b) } else { None }, guarded(|| v.slice(a..b))),
            1 => (format!("..{}", b), m.get(..b), guarded(|| v.slice(..b))),
            2 => (format!("{}..", a), m.get(a..), guarded(|| v.slice(a..))),
            _ => ("..".into(), Some(m), guarded(|| v.slice(..))),
        };
        o.add("sub_slices", 1);
        match (model, real) {
            (Some(x), Ok(r)) => {
                if r.demote() != x {
                    return violation(format!("[{}] of a view of {:?} shows {:?}, expected {:?}", what, show(m), show(r.demote()), show(x)));
                }
                m = x;
                v = r;
            }
            (Some(x), Err(e)) => return violation(format!("[{}] of a view of {:?} (expected {:?}): {}", what, show(m), show(x), e.0)),
            (None, Ok(r)) => {
                let shown = guarded(|| r.demote().to_vec());
                return violation(format!("[{}] reaches out of a view of {} bytes and shows {:?}", what, m.len(), shown.map(|x| show(&x))));
            }
            (None, Err(_)) => o.add("refused_sub_slices", 1),
        }
    }
    o.sign(m);
    o.nontrivial = !m.is_empty();
    if o.describe {
        o.desc = format!("view {:?} of {:?}", show(m), show(&data));
    }
    let fail = |w: &str| violation(format!("{} of a view of {:?} is wrong", w, show(m)));
    if v.len() != m.len() || v.input_len() != m.len() {
        return fail("length");
    }
    if &v.promote()[..] != m || &v[..] != m || v.demote() != m {
        return fail("content");
    }
    if v.into_utf8().ok() != std::str::from_utf8(m).ok() {
        return fail("text");
    }
    if v.iter_elements().collect::<Vec<u8>>() != m || v.iter_indices().map(|(i, c)| (i, c)).collect::<Vec<_>>() != m.iter().cloned().enumerate().collect::<Vec<_>>() {
        return fail("iteration");
    }
    let c = *s.pick(b"abc.\r\n\xa9");
    if InputIter::position(&v, |x| x == c) != m.iter().position(|&x| x == c) {
        return fail("position");
    }
    let q = s.below(m.len() + 3);
    if v.slice_index(q) != if q <= m.len() { Some(q) } else { None } {
        return fail("slice_index");
    }
    let pat: Vec<u8> = if s.chance(1, 2) && !m.is_empty() {
        let i = s.below(m.len());
        let l = 1 + s.below((m.len() - i).min(4));
        m[i..i + l].to_vec()
    } else {
        let l = 1 + s.below(3);
        s.from_alphabet(l, b"abcABC\r\n.")
    };
    // (nom 3's own search for a pattern longer than the text is not defined)
    if pat.len() <= m.len() && FindSubstring::<&[u8]>::find_substring(&v, &pat[..]) != m.windows(pat.len()).position(|w| w == &pat[..]) {
        return fail(&format!("search for {:?}", show(&pat)));
    }
    let l = pat.len().min(m.len());
    let want = |eq: bool| {
        if !eq {
            CompareResult::Error
        } else if m.len() < pat.len() {
            CompareResult::Incomplete
        } else {
            CompareResult::Ok
        }
    };
    if Compare::<&[u8]>::compare(&v, &pat[..]) != want(m[..l] == pat[..l]) {
        return fail(&format!("comparison with {:?}", show(&pat)));
    }
    if pat.is_ascii() && m.is_ascii() && Compare::<&[u8]>::compare_no_case(&v, &pat[..]) != want(m[..l].eq_ignore_ascii_case(&pat[..l])) {
        return fail(&format!("case-blind comparison with {:?}", show(&pat)));
    }
    // a view equals itself, and never one that shows something else
    let twin: ByteSlice = v.slice(..);
    if v != twin || v != v.slice(..m.len()) || v != v.slice(0..) {
        return fail("equality with itself");
    }
    let (a, b) = (s.below(m.len() + 1), s.below(m.len() + 1));
    let part = v.slice(a.min(b)..a.max(b));
    if v == ByteSlice::from(&buf) && m != &data[..] || v == part && m != part.demote() {
        return fail("equality with another view of the buffer");
    }
    let mut other = data.clone();
    other.reverse();
    let obuf = Bytes::from(other);
    if ByteSlice::from(&buf) == ByteSlice::from(&obuf) && buf != obuf {
        return fail("equality with a view of another buffer");
    }
    let (a, b) = (s.below(m.len() + 1), s.below(m.len() + 1));
    let (p, q) = (v.slice(a..), v.slice(b..));
    if p == q && p.demote() != q.demote() {
        return fail("equality of two ends");
    }
    let (p, q) = (v.slice(..a), v.slice(..b));
    if p == q && p.demote() != q.demote() {
        return fail("equality of two beginnings");
    }
    Ok(())
}

fn strings(s: &mut Src, o: &mut Obs) -> R {
    use std::collections::hash_map::DefaultHasher;
    use std::hash::{Hash, Hasher};
    let max = if s.scale >= 2 { 3000 } else { 100 };
    let make = |s: &mut Src| -> (Vec<u8>, SmtpString) {
        let n = s.size(max);
        let d = s.bytes(n);
        let t = match s.below(4) {
            0 => SmtpString::from(&d[..]),
            1 => SmtpString::from(d.clone()),
            2 => SmtpString::from(Bytes::from(&d[..])),
            _ => {
                let mut x = b"<<".to_vec();
                x.extend_from_slice(&d);
                x.extend_from_slice(b">>");
                SmtpString::from(Bytes::from(x).slice(2, 2 + d.len()))
            }
        };
        (d, t)
    };
    let (mut d, mut t) = make(s);
    for _ in 0..s.below(4) {
        let keep = t.clone();
        let (d2, t2) = make(s);
        let t2c = t2.clone();
        t = t + t2;
        if keep.bytes()[..] != d[..] || t2c.bytes()[..] != d2[..] {
            return violation("joining strings changed a copy of one");
        }
        d.extend_from_slice(&d2);
        o.add("joins", 1);
    }
    o.sign(&d);
    let fail = |w: &str| violation(format!("{} of the string {:?} is wrong", w, show(&d)));
    if t.bytes()[..] != d[..] || t.byte_len() != d.len() || t.iter_bytes().cloned().collect::<Vec<u8>>() != d {
        return fail("content");
    }
    if !d.is_empty() {
        let i = s.below(d.len());
        if t.byte(i) != d[i] {
            return fail("a byte");
        }
    }
    if SmtpString::from_sendable(&t).ok().map(|x| x.bytes().to_vec()) != Some(d.clone()) {
        return fail("writing");
    }
    let c = match s.below(5) {
        0 => usize::max_value(),
        1 => usize::max_value() - s.below(1000),
        2 => d.len().max(1),
        3 => 1 + s.below(d.len() + 2),
        _ => 1 + s.size(600),
    };
    let chunks: Vec<Vec<u8>> = t.byte_chunks(c).map(|x| x.bytes().to_vec()).collect();
    o.add("chunkings", 1);
    if chunks.concat() != d || chunks.iter().any(|x| x.is_empty() || x.len() > c) || (chunks.len() > 1 && chunks[..chunks.len() - 1].iter().any(|x| x.len() != c)) {
        return violation(format!("{} bytes cut into pieces of {}: sizes {:?}, content kept: {}", d.len(), c, chunks.iter().map(|x| x.len()).collect::<Vec<_>>(), chunks.concat() == d));
    }
    let u = SmtpString::from(&d[..]);
    let h = |x: &SmtpString| {
        let mut h = DefaultHasher::new();
        x.hash(&mut h);
        h.finish()
    };
    if u != t || h(&u) != h(&t) {
        return fail("equality or hash");
    }
    if !d.is_empty() {
        let mut e = d.clone();
        let i = s.below(e.len());
        e[i] ^= 1 << s.below(8);
        if SmtpString::from(&e[..]) == t {
            return fail("inequality");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- writers

struct Short<'a> {
    out: Vec<u8>,
    limits: &'a [usize],
    n: usize,
    fail_after: Option<usize>,
    kind: std::io::ErrorKind,
    failed: bool,
    after: usize,
}

impl<'a> std::io::Write for Short<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.failed {
            self.after += b.len();
        }
        let l = self.limits[self.n % self.limits.len()];
        self.n += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if l == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let mut k = l.min(b.len());
        if let Some(f) = self.fail_after {
            if self.out.len() >= f {
                self.failed = true;
                return if self.kind == std::io::ErrorKind::WriteZero { Ok(0) } else { Err(self.kind.into()) };
            }
            k = k.min(f - self.out.len());
        }
        self.out.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

// M11
pub fn m11(s: &mut Src, o: &mut Obs) -> R {
    enum What {
        C(Command),
        R(ReplyLine),
        E(Email),
        S(SmtpString),
    }
    use smtp_message::Sendable;
    let what = match s.below(6) {
        0 => {
            let t = gen::reply_text(s, 506);
            match ReplyLine::build(ReplyCode::custom(s.below(1000) as u16), IsLastLine::Yes, SmtpString::from(t)) {
                Ok(r) => What::R(r),
                Err(_) => return Ok(()),
            }
        }
        1 => match Email::parse_slice(&gen::addr(s).wire()) {
            Ok(e) => What::E(e),
            Err(_) => return Ok(()),
        },
        2 => {
            let n = s.size(300);
            What::S(SmtpString::from(s.bytes(n)))
        }
        _ => match Command::parse(Bytes::from(gen::valid_line(s))) {
            Ok(c) => What::C(c),
            Err(_) => return Ok(()),
        },
    };
    let write = |w: &mut dyn std::io::Write| match &what {
        What::C(c) => c.send_to(w),
        What::R(c) => c.send_to(w),
        What::E(c) => c.send_to(w),
        What::S(c) => c.send_to(w),
    };
    let mut whole = vec![];
    if let Err(e) = write(&mut whole) {
        return violation(format!("writing into memory fails: {}", e));
    }
    let whole_len = whole.len();
    let n = 1 + s.below(4);
    let mut limits: Vec<usize> = (0..n).map(|_| s.below(5)).collect();
    limits.push(1 + s.below(7));
    let fail_after = if s.chance(1, 2) { Some(s.below(whole_len + 1)) } else { None };
    let kind = *s.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::BrokenPipe, std::io::ErrorKind::WouldBlock, std::io::ErrorKind::WriteZero]);
    m11_check(&write, &whole, &limits, fail_after, kind, o)
}

/// Written to a writer that takes as many bytes at a time, and fails after so many
pub fn m11_check(write: &dyn Fn(&mut dyn std::io::Write) -> std::io::Result<()>, whole: &[u8], limits: &[usize], fail_after: Option<usize>, kind: std::io::ErrorKind, o: &mut Obs) -> R {
    let mut w = Short { out: vec![], limits, n: 0, fail_after, kind, failed: false, after: 0 };
    let r = write(&mut w);
    o.sign(whole);
    o.sign(format!("{:?}{:?}{:?}", limits, fail_after, kind).as_bytes());
    o.nontrivial = whole.len() > 1;
    o.add("writes", w.n as u64);
    o.add("failed_writers", w.failed as u64);
    if o.describe {
        o.desc = format!("{:?} to a writer taking {:?} bytes at a time (0: interrupted), failing after {:?} with {:?}: {:?}", show(whole), limits, fail_after, kind, r);
    }
    match r {
        Ok(()) => {
            if w.failed {
                return violation(format!("the writer failed ({:?}) after {} of {} bytes, writing {:?} still reports success", kind, w.out.len(), whole.len(), show(whole)));
            }
            if w.out != whole {
                return violation(format!("{:?} was reported written, the writer got {:?}", show(whole), show(&w.out)));
            }
        }
        Err(e) => {
            if !w.failed {
                return violation(format!("writing {:?} fails although the writer took everything: {}", show(whole), e));
            }
            if e.kind() != kind {
                return violation(format!("the writer failed with {:?}, reported is {:?}", kind, e.kind()));
            }
            if !whole.starts_with(&w.out) {
                return violation(format!("before the failure the writer got {:?} of {:?}", show(&w.out), show(whole)));
            }
            if w.after > 0 {
                return violation("writing went on after the writer had failed");
            }
        }
    }
    Ok(())
}
