//! The session as it should be: a sequential model over the bytes of the conversation, and the
//! monitored policy that plays the same plan.
use crate::env::{Call, World};
use crate::refp::{self, Addr, Cmd, Verdict};
use std::sync::Arc;
use std::task::{Context, Poll};
use yv_glue::*;

/// What the policy does to what it is shown
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Edit {
    None,
    /// replace the address at hand (for filter_data: the sender)
    Replace(Option<Vec<u8>>),
    /// change the envelope's sender
    SetFrom(Option<Vec<u8>>),
    AddRcpt(Vec<u8>),
    DropRcpt(usize),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Step {
    pub accept: bool,
    pub code: u16,
    pub text: Vec<u8>,
    pub edit: Edit,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct HandleStep {
    pub accept: bool,
    /// what to answer when the message was cut short
    pub accept_cut: bool,
    pub code: u16,
    pub text: Vec<u8>,
    /// extra reads after the end of the message
    pub extra: usize,
    pub pauses: bool,
    /// 0: as a handler must; 1: read nothing, 2: read some, 3: read all, and in each case do not
    /// check that the message was complete
    pub style: u8,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub plain: bool,
    /// which methods of the configuration are set, where not all or none
    pub part: Option<u32>,
    /// the general replies: banner, okay, bad sequence
    pub general: Vec<(u16, Vec<u8>)>,
    /// the configuration's replies tell how often the policy has been consulted
    pub live: bool,
    pub from: Vec<Step>,
    pub to: Vec<Step>,
    pub data: Vec<Step>,
    pub handle: Vec<HandleStep>,
    /// in the order of KINDS
    pub replies: Vec<(u16, Vec<u8>)>,
    pub host: Vec<u8>,
    pub user: User,
}

impl Plan {
    pub fn has(&self, k: u32) -> bool {
        match self.part {
            Some(p) => p & k != 0,
            None => !self.plain,
        }
    }
    fn told(&self, mut r: (u16, Vec<u8>), ncall: u32) -> (u16, Vec<u8>) {
        if self.live {
            r.1.extend(format!(" after {}", ncall).into_bytes());
        }
        r
    }
    /// The configuration's own reply for `k`
    pub fn own(&self, k: Kind, ncall: u32) -> (u16, Vec<u8>) {
        let i = KINDS.iter().position(|x| *x == k).unwrap();
        self.told(self.replies[i].clone(), ncall)
    }
    /// The reply due for `k`; no text means any
    pub fn due(&self, k: Kind, ncall: u32) -> (u16, Option<Vec<u8>>) {
        let i = KINDS.iter().position(|x| *x == k).unwrap();
        if self.has(1 << i) {
            let (c, t) = self.own(k, ncall);
            return (c, Some(t));
        }
        let general = match k {
            Kind::Welcome => BANNER,
            Kind::MailOkay | Kind::RcptOkay | Kind::MailAccepted => OKAY,
            Kind::AlreadyInMail | Kind::RcptBeforeMail | Kind::DataBeforeRcpt | Kind::DataBeforeMail => BAD_SEQUENCE,
            _ => 0,
        };
        if self.part.is_none() || !self.has(general) {
            return (plain_code(k), None);
        }
        let (c, t) = self.general(general, ncall);
        if k == Kind::Welcome {
            return (plain_code(k), Some([&self.host[..], b" ", &t[..]].concat()));
        }
        (c, Some(t))
    }
    pub fn general(&self, k: u32, ncall: u32) -> (u16, Vec<u8>) {
        let g = [BANNER, OKAY, BAD_SEQUENCE].iter().position(|x| *x == k).unwrap();
        self.told(self.general[g].clone(), ncall)
    }
}

pub fn plain_code(k: Kind) -> u16 {
    match k {
        Kind::Welcome => 220,
        Kind::MailOkay | Kind::RcptOkay | Kind::MailAccepted => 250,
        Kind::DataOkay => 354,
        Kind::AlreadyInMail | Kind::RcptBeforeMail | Kind::DataBeforeRcpt | Kind::DataBeforeMail => 503,
        Kind::Unimplemented => 502,
        Kind::Unrecognized => 500,
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Why {
    Of(Kind),
    Refusal,
    /// a line that may be refused (500) or read (502)
    Either,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Expected {
    pub why: Why,
    pub code: u16,
    /// None: any text
    pub text: Option<Vec<u8>>,
    /// the number of expected calls before it
    pub calls_before: usize,
}

#[derive(Clone)]
pub struct Model {
    plan: Arc<Plan>,
    meta: Option<(Option<Vec<u8>>, Vec<Vec<u8>>)>,
    trail: Vec<u32>,
    n: [usize; 4],
    ncall: u32,
    buf: Vec<u8>,
    in_data: bool,
    pub replies: Vec<Expected>,
    pub calls: Vec<Call>,
    pub ambiguous: bool,
    pub lines: usize,
    pub mails: usize,
    pub rejected_lines: usize,
    pub out_of_sequence: usize,
    pub refusals: usize,
    pub cut: bool,
    /// largest prefix of the cut message's text that has to be delivered, and the longest that may
    pub cut_range: Option<(Vec<u8>, Vec<u8>)>,
    /// of each message: its reply, its handler step, whether it was complete
    pub bodies: Vec<(usize, usize, bool)>,
}

impl Model {
    pub fn new(plan: Arc<Plan>) -> Model {
        let trail = plan.user.trail.clone();
        let mut m = Model {
            plan,
            meta: None,
            trail,
            n: [0; 4],
            ncall: 0,
            buf: vec![],
            in_data: false,
            replies: vec![],
            calls: vec![],
            ambiguous: false,
            lines: 0,
            mails: 0,
            rejected_lines: 0,
            out_of_sequence: 0,
            refusals: 0,
            cut: false,
            cut_range: None,
            bodies: vec![],
        };
        m.say(Kind::Welcome);
        m
    }
    pub fn in_data(&self) -> bool {
        self.in_data
    }
    pub fn transaction(&self) -> Option<usize> {
        self.meta.as_ref().map(|m| m.1.len())
    }
    pub fn partial(&self) -> &[u8] {
        &self.buf
    }
    fn say(&mut self, k: Kind) {
        let calls_before = self.calls.len();
        let (code, text) = self.plan.due(k, self.ncall);
        self.replies.push(Expected { why: Why::Of(k), code, text, calls_before });
    }
    fn refuse(&mut self, code: u16, text: Vec<u8>) {
        self.refusals += 1;
        self.replies.push(Expected { why: Why::Refusal, code, text: Some(text), calls_before: self.calls.len() });
    }
    fn token(&mut self) -> Vec<u32> {
        let t = self.trail.clone();
        self.trail.push(self.ncall);
        self.ncall += 1;
        t
    }
    pub fn push(&mut self, b: &[u8]) {
        self.buf.extend_from_slice(b);
        let mut buf = std::mem::take(&mut self.buf);
        let mut pos = 0;
        loop {
            if self.in_data {
                match refp::decode(&buf[pos..]) {
                    (text, Some(used)) => {
                        pos += used;
                        self.body(text, true);
                    }
                    _ => break,
                }
            } else {
                match buf[pos..].windows(2).position(|w| w == b"\r\n") {
                    Some(k) => {
                        let line = buf[pos..pos + k + 2].to_vec();
                        pos += k + 2;
                        self.line(&line);
                    }
                    None => break,
                }
            }
        }
        buf.drain(..pos);
        self.buf = buf;
    }
    pub fn finish(&mut self) {
        if self.in_data {
            let buf = std::mem::take(&mut self.buf);
            let sure = refp::decode_certain(&buf);
            let most = {
                // an undecided tail could be handed over as it is
                let mut m = refp::decode(&buf).0;
                if buf.ends_with(b".") && sure.len() == m.len() {
                    m.extend_from_slice(b".");
                } else if buf.ends_with(b".\r") && sure.len() + 1 == m.len() {
                    m = sure.clone();
                    m.extend_from_slice(b".\r");
                }
                m
            };
            self.cut = true;
            self.cut_range = Some((sure.clone(), most));
            self.body(sure, false);
        }
    }
    fn body(&mut self, bytes: Vec<u8>, complete: bool) {
        self.in_data = false;
        self.mails += 1;
        let n = self.n[3];
        self.n[3] += 1;
        let h = self.plan.handle[n % self.plan.handle.len()].clone();
        self.bodies.push((self.replies.len(), n % self.plan.handle.len(), complete));
        self.calls.push(Call::Body { bytes, complete });
        let acc = if complete { h.accept } else { h.accept_cut };
        if acc {
            self.say(Kind::MailAccepted);
        } else {
            self.refuse(h.code, h.text);
        }
    }
    fn line(&mut self, l: &[u8]) {
        self.lines += 1;
        let cmd = match refp::command(l) {
            Verdict::Accept(c) => c,
            Verdict::Reject => {
                self.rejected_lines += 1;
                self.say(Kind::Unrecognized);
                return;
            }
            Verdict::Either(Cmd::Mail(..)) | Verdict::Either(Cmd::Rcpt(..)) => {
                self.ambiguous = true;
                self.say(Kind::Unrecognized);
                return;
            }
            Verdict::Either(_) => {
                self.replies.push(Expected { why: Why::Either, code: 0, text: None, calls_before: self.calls.len() });
                return;
            }
        };
        match cmd {
            Cmd::Mail(from, params) => {
                if params.len() > 0 && false {
                    unreachable!();
                }
                if self.meta.is_some() {
                    self.out_of_sequence += 1;
                    self.say(Kind::AlreadyInMail);
                    return;
                }
                if self.plan.has(NEW_MAIL) {
                    self.calls.push(Call::NewMail);
                }
                let mut addr = from.as_ref().map(Addr::wire);
                let trail = self.token();
                self.calls.push(Call::From { addr: addr.clone(), trail });
                let n = self.n[0];
                self.n[0] += 1;
                let s = self.plan.from[n % self.plan.from.len()].clone();
                if let Edit::Replace(a) = &s.edit {
                    addr = a.clone();
                }
                if s.accept {
                    self.say(Kind::MailOkay);
                    self.meta = Some((addr, vec![]));
                } else {
                    self.refuse(s.code, s.text);
                }
            }
            Cmd::Rcpt(to, _) => {
                let Some((mut from, mut tos)) = self.meta.take() else {
                    self.out_of_sequence += 1;
                    self.say(Kind::RcptBeforeMail);
                    return;
                };
                let mut addr = to.wire();
                let trail = self.token();
                self.calls.push(Call::To { addr: addr.clone(), from: from.clone(), to: tos.clone(), trail });
                let n = self.n[1];
                self.n[1] += 1;
                let s = self.plan.to[n % self.plan.to.len()].clone();
                match &s.edit {
                    Edit::Replace(Some(a)) => addr = a.clone(),
                    e => edit_meta(e, &mut from, &mut tos),
                }
                if s.accept {
                    tos.push(addr);
                    self.say(Kind::RcptOkay);
                } else {
                    self.refuse(s.code, s.text);
                }
                self.meta = Some((from, tos));
            }
            Cmd::Data => {
                let Some((mut from, mut tos)) = self.meta.take() else {
                    self.out_of_sequence += 1;
                    self.say(Kind::DataBeforeMail);
                    return;
                };
                if tos.is_empty() {
                    self.out_of_sequence += 1;
                    self.say(Kind::DataBeforeRcpt);
                    self.meta = Some((from, tos));
                    return;
                }
                if self.plan.has(FILTER_DATA) {
                    let trail = self.token();
                    self.calls.push(Call::Data { from: from.clone(), to: tos.clone(), trail });
                    let n = self.n[2];
                    self.n[2] += 1;
                    let s = self.plan.data[n % self.plan.data.len()].clone();
                    match &s.edit {
                        Edit::Replace(a) => from = a.clone(),
                        e => edit_meta(e, &mut from, &mut tos),
                    }
                    if !s.accept {
                        self.refuse(s.code, s.text);
                        self.meta = Some((from, tos));
                        return;
                    }
                }
                self.say(Kind::DataOkay);
                let trail = self.token();
                self.calls.push(Call::Handle { from, to: tos, trail });
                self.in_data = true;
            }
            _ => self.say(Kind::Unimplemented),
        }
    }
}

fn edit_meta(e: &Edit, from: &mut Option<Vec<u8>>, to: &mut Vec<Vec<u8>>) {
    match e {
        Edit::SetFrom(a) => *from = a.clone(),
        Edit::AddRcpt(a) => to.push(a.clone()),
        Edit::DropRcpt(i) => {
            if !to.is_empty() {
                let k = i % to.len();
                to.remove(k);
            }
        }
        _ => (),
    }
}

pub fn wire(e: &Email) -> Vec<u8> {
    SmtpString::from_sendable(e).expect("serialising an address into memory").bytes().to_vec()
}
pub fn email(b: &[u8]) -> Email {
    match Email::parse_slice(b) {
        Ok(e) => e,
        Err(e) => panic!("code under test refuses the address {:?}: {:?}", yv_engine::util::show(b), e),
    }
}

/// Plays the plan, records what it is shown
pub struct MonPolicy {
    pub world: World,
    pub plan: Arc<Plan>,
    n: [usize; 4],
    ncall: u32,
}

impl MonPolicy {
    pub fn new(world: World, plan: Arc<Plan>) -> MonPolicy {
        MonPolicy { world, plan, n: [0; 4], ncall: 0 }
    }
    fn token(&mut self, c: &mut Conn) -> Vec<u32> {
        let t = c.user.trail.clone();
        c.user.trail.push(self.ncall);
        self.ncall += 1;
        if c.user.id != self.plan.user.id {
            self.world.lock().protocol.get_or_insert(format!("the connection's user data changed: id {} became {}", self.plan.user.id, c.user.id));
        }
        t
    }
}

fn metas(m: &MailMetadata) -> (Option<Vec<u8>>, Vec<Vec<u8>>) {
    (m.from.as_ref().map(wire), m.to.iter().map(wire).collect())
}

fn edit_real(e: &Edit, m: &mut MailMetadata) {
    match e {
        Edit::SetFrom(a) => m.from = a.as_ref().map(|a| email(a)),
        Edit::AddRcpt(a) => m.to.push(email(a)),
        Edit::DropRcpt(i) => {
            if !m.to.is_empty() {
                let k = i % m.to.len();
                m.to.remove(k);
            }
        }
        _ => (),
    }
}

fn decision(accept: bool, code: u16, text: &[u8]) -> Decision {
    if accept {
        Decision::Accept
    } else {
        Decision::Reject(Refusal { code: ReplyCode::custom(code), msg: SmtpString::from(text) })
    }
}

impl Policy for MonPolicy {
    fn new_mail<'a>(&'a mut self) -> SBox<'a, ()> {
        let w = self.world.clone();
        Box::pin(async move {
            w.call(Call::NewMail);
            w.pause().await;
        })
    }
    fn filter_from<'a>(&'a mut self, from: &'a mut Option<Email>, c: &'a mut Conn) -> SBox<'a, Decision> {
        Box::pin(async move {
            let trail = self.token(c);
            self.world.call(Call::From { addr: from.as_ref().map(wire), trail });
            let s = self.plan.from[self.n[0] % self.plan.from.len()].clone();
            self.n[0] += 1;
            self.world.pause().await;
            if let Edit::Replace(a) = &s.edit {
                *from = a.as_ref().map(|a| email(a));
            }
            decision(s.accept, s.code, &s.text)
        })
    }
    fn filter_to<'a>(&'a mut self, to: &'a mut Email, m: &'a mut MailMetadata, c: &'a mut Conn) -> SBox<'a, Decision> {
        Box::pin(async move {
            let trail = self.token(c);
            let (f, t) = metas(m);
            self.world.call(Call::To { addr: wire(to), from: f, to: t, trail });
            let s = self.plan.to[self.n[1] % self.plan.to.len()].clone();
            self.n[1] += 1;
            self.world.pause().await;
            match &s.edit {
                Edit::Replace(Some(a)) => *to = email(a),
                e => edit_real(e, m),
            }
            decision(s.accept, s.code, &s.text)
        })
    }
    fn filter_data<'a>(&'a mut self, m: &'a mut MailMetadata, c: &'a mut Conn) -> SBox<'a, Decision> {
        Box::pin(async move {
            let trail = self.token(c);
            let (from, to) = metas(m);
            self.world.call(Call::Data { from, to, trail });
            let s = self.plan.data[self.n[2] % self.plan.data.len()].clone();
            self.n[2] += 1;
            self.world.pause().await;
            match &s.edit {
                Edit::Replace(a) => m.from = a.as_ref().map(|a| email(a)),
                e => edit_real(e, m),
            }
            decision(s.accept, s.code, &s.text)
        })
    }
    fn handle_mail<'a>(&'a mut self, mut body: Box<dyn Body + 'a>, m: MailMetadata, c: &'a mut Conn) -> LBox<'a, Decision> {
        Box::pin(async move {
            let trail = self.token(c);
            let (from, to) = metas(&m);
            self.world.call(Call::Handle { from, to, trail });
            let h = self.plan.handle[self.n[3] % self.plan.handle.len()].clone();
            self.n[3] += 1;
            self.world.pause().await;
            let mut bytes = vec![];
            if h.style > 0 {
                let mut k = match h.style {
                    1 | 4 => 0,
                    2 | 5 => h.extra + 1,
                    _ => usize::MAX,
                };
                while k > 0 {
                    k -= 1;
                    if futures::future::poll_fn(|cx: &mut Context<'_>| -> Poll<Option<bytes::BytesMut>> { body.poll(cx) }).await.is_none() {
                        break;
                    }
                }
                self.world.pause().await;
                // 4, 5: asks whether it is complete although it may not have read it all
                if h.style >= 4 && body.complete().is_err() {
                    return decision(false, 451, b"not complete");
                }
                return decision(h.accept, h.code, &h.text);
            }
            loop {
                let r = futures::future::poll_fn(|cx: &mut Context<'_>| -> Poll<Option<bytes::BytesMut>> { body.poll(cx) }).await;
                match r {
                    Some(b) => bytes.extend_from_slice(&b),
                    None => break,
                }
                if h.pauses {
                    self.world.pause().await;
                }
            }
            for _ in 0..h.extra {
                let r = futures::future::poll_fn(|cx: &mut Context<'_>| -> Poll<Option<bytes::BytesMut>> { body.poll(cx) }).await;
                if let Some(b) = r {
                    bytes.extend_from_slice(&b);
                    self.world.lock().protocol.get_or_insert("the message went on after its end".into());
                }
            }
            let complete = body.complete().is_ok();
            self.world.call(Call::Body { bytes, complete });
            self.world.pause().await;
            decision(if complete { h.accept } else { h.accept_cut }, h.code, &h.text)
        })
    }
    fn hostname(&self) -> Vec<u8> {
        self.plan.host.clone()
    }
    fn reply(&self, k: Kind) -> (u16, Vec<u8>) {
        self.plan.own(k, self.ncall)
    }
    fn sets(&self) -> u32 {
        self.plan.part.unwrap_or(0)
    }
    fn general(&self, k: u32) -> (u16, Vec<u8>) {
        self.plan.general(k, self.ncall)
    }
}
