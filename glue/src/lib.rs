//! Concrete (non-generic) entry points to the generic code under test, in a crate of their own so
//! that the coverage instrumentation sees the monomorphised code and not the harness.
//! Only the public API of smtp-message and smtp-server is used.
use std::{
    future::Future,
    pin::Pin,
    task::{Context, Poll},
};

use bytes::{Bytes, BytesMut};
use futures::{Sink, Stream};
pub use smtp_message::{self, DataSink, DataStream, Email, Prependable, ReplyCode, SmtpString};
pub use smtp_server::{self, Config, ConnectionMetadata, Decision, MailMetadata, Refusal};

pub type SBox<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;
pub type LBox<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
pub type BoxReader = Pin<Box<dyn Stream<Item = BytesMut> + Send>>;
pub type BoxWriter = Pin<Box<dyn Sink<Bytes, Error = ()>>>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct User {
    pub id: u64,
    pub trail: Vec<u32>,
}

pub type Conn = ConnectionMetadata<User>;

/// What a mail handler can do with the message
pub trait Body {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Option<BytesMut>>;
    fn complete(&mut self) -> Result<(), ()>;
    fn was_completed(&self) -> bool;
}

struct BodyOf<'a, 'b, S: Unpin + Stream<Item = BytesMut>>(&'a mut DataStream<'b, S>);

impl<'a, 'b, S: Unpin + Stream<Item = BytesMut>> Body for BodyOf<'a, 'b, S> {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Option<BytesMut>> {
        Pin::new(&mut *self.0).poll_next(cx)
    }
    fn complete(&mut self) -> Result<(), ()> {
        self.0.complete()
    }
    fn was_completed(&self) -> bool {
        self.0.was_completed()
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Welcome,
    MailOkay,
    RcptOkay,
    DataOkay,
    MailAccepted,
    AlreadyInMail,
    RcptBeforeMail,
    DataBeforeRcpt,
    DataBeforeMail,
    Unimplemented,
    Unrecognized,
}

pub const KINDS: [Kind; 11] = [
    Kind::Welcome,
    Kind::MailOkay,
    Kind::RcptOkay,
    Kind::DataOkay,
    Kind::MailAccepted,
    Kind::AlreadyInMail,
    Kind::RcptBeforeMail,
    Kind::DataBeforeRcpt,
    Kind::DataBeforeMail,
    Kind::Unimplemented,
    Kind::Unrecognized,
];

pub trait Policy {
    fn new_mail<'a>(&'a mut self) -> SBox<'a, ()>;
    fn filter_from<'a>(&'a mut self, from: &'a mut Option<Email>, c: &'a mut Conn) -> SBox<'a, Decision>;
    fn filter_to<'a>(&'a mut self, to: &'a mut Email, m: &'a mut MailMetadata, c: &'a mut Conn) -> SBox<'a, Decision>;
    fn filter_data<'a>(&'a mut self, m: &'a mut MailMetadata, c: &'a mut Conn) -> SBox<'a, Decision>;
    fn handle_mail<'a>(&'a mut self, body: Box<dyn Body + 'a>, m: MailMetadata, c: &'a mut Conn) -> LBox<'a, Decision>;
    fn hostname(&self) -> Vec<u8>;
    fn reply(&self, k: Kind) -> (u16, Vec<u8>);
    /// Which methods `Part` sets: the kinds in the order of KINDS, then BANNER and so on
    fn sets(&self) -> u32 {
        0
    }
    /// The replies Config's `banner`, `okay` and `bad_sequence` give where set
    fn general(&self, _: u32) -> (u16, Vec<u8>) {
        (0, vec![])
    }
}

pub const BANNER: u32 = 1 << 11;
pub const OKAY: u32 = 1 << 12;
pub const BAD_SEQUENCE: u32 = 1 << 13;
pub const NEW_MAIL: u32 = 1 << 14;
pub const FILTER_DATA: u32 = 1 << 15;

/// Every reply text overridden
pub struct Custom(pub Box<dyn Policy>);
/// Only what Config requires, plus recording; default replies
pub struct Plain(pub Box<dyn Policy>);

impl Custom {
    fn r(&self, k: Kind) -> (ReplyCode, SmtpString) {
        let (c, t) = self.0.reply(k);
        (ReplyCode::custom(c), SmtpString::from(t))
    }
}

macro_rules! common {
    () => {
        fn filter_from<'a>(&'a mut self, from: &'a mut Option<Email>, c: &'a mut Conn) -> SBox<'a, Decision> {
            self.p_mut().filter_from(from, c)
        }
        fn filter_to<'a>(&'a mut self, to: &'a mut Email, m: &'a mut MailMetadata, c: &'a mut Conn) -> SBox<'a, Decision> {
            self.p_mut().filter_to(to, m, c)
        }
        fn handle_mail<'a, S>(&'a mut self, stream: &'a mut DataStream<S>, m: MailMetadata, c: &'a mut Conn) -> LBox<'a, Decision>
        where
            S: 'a + Unpin + Stream<Item = BytesMut>,
        {
            self.p_mut().handle_mail(Box::new(BodyOf(stream)), m, c)
        }
        fn hostname(&self) -> SmtpString {
            SmtpString::from(self.p().hostname())
        }
    };
}

impl Config<User> for Plain {
    common!();
}

/// Only the general replies that `sets` names are set
struct General(Plain);
/// Only the methods that `sets` names are set
pub struct Part(General);

impl Part {
    pub fn new(p: Box<dyn Policy>) -> Part {
        Part(General(Plain(p)))
    }
    fn has(&self, k: u32) -> bool {
        self.p().sets() & k != 0
    }
    fn own(&self, k: Kind) -> Option<(ReplyCode, SmtpString)> {
        let i = KINDS.iter().position(|x| *x == k).unwrap();
        if !self.has(1 << i) {
            return None;
        }
        let (c, t) = self.p().reply(k);
        Some((ReplyCode::custom(c), SmtpString::from(t)))
    }
}

impl General {
    fn own(&self, k: u32) -> Option<(ReplyCode, SmtpString)> {
        if self.p().sets() & k == 0 {
            return None;
        }
        let (c, t) = self.p().general(k);
        Some((ReplyCode::custom(c), SmtpString::from(t)))
    }
}

macro_rules! policy {
    ($t:ty, $($f:tt).*) => {
        impl $t {
            fn p(&self) -> &dyn Policy {
                &*self.$($f).*
            }
            fn p_mut(&mut self) -> &mut dyn Policy {
                &mut *self.$($f).*
            }
        }
    };
}
policy!(Plain, 0);
policy!(Custom, 0);
policy!(General, 0 . 0);
policy!(Part, 0 . 0 . 0);

impl Config<User> for General {
    common!();
    fn banner(&self) -> SmtpString {
        self.own(BANNER).map_or_else(|| self.0.banner(), |r| r.1)
    }
    fn okay(&self) -> (ReplyCode, SmtpString) {
        self.own(OKAY).unwrap_or_else(|| self.0.okay())
    }
    fn bad_sequence(&self) -> (ReplyCode, SmtpString) {
        self.own(BAD_SEQUENCE).unwrap_or_else(|| self.0.bad_sequence())
    }
}

impl Config<User> for Part {
    common!();
    fn new_mail<'a>(&'a mut self) -> SBox<'a, ()> {
        if self.has(NEW_MAIL) {
            self.p_mut().new_mail()
        } else {
            self.0.new_mail()
        }
    }
    fn filter_data<'a>(&'a mut self, m: &'a mut MailMetadata, c: &'a mut Conn) -> SBox<'a, Decision> {
        if self.has(FILTER_DATA) {
            self.p_mut().filter_data(m, c)
        } else {
            self.0.filter_data(m, c)
        }
    }
    fn welcome_banner(&self) -> (ReplyCode, SmtpString) {
        self.own(Kind::Welcome).unwrap_or_else(|| self.0.welcome_banner())
    }
    fn mail_okay(&self) -> (ReplyCode, SmtpString) {
        self.own(Kind::MailOkay).unwrap_or_else(|| self.0.mail_okay())
    }
    fn rcpt_okay(&self) -> (ReplyCode, SmtpString) {
        self.own(Kind::RcptOkay).unwrap_or_else(|| self.0.rcpt_okay())
    }
    fn data_okay(&self) -> (ReplyCode, SmtpString) {
        self.own(Kind::DataOkay).unwrap_or_else(|| self.0.data_okay())
    }
    fn mail_accepted(&self) -> (ReplyCode, SmtpString) {
        self.own(Kind::MailAccepted).unwrap_or_else(|| self.0.mail_accepted())
    }
    fn already_in_mail(&self) -> (ReplyCode, SmtpString) {
        self.own(Kind::AlreadyInMail).unwrap_or_else(|| self.0.already_in_mail())
    }
    fn rcpt_before_mail(&self) -> (ReplyCode, SmtpString) {
        self.own(Kind::RcptBeforeMail).unwrap_or_else(|| self.0.rcpt_before_mail())
    }
    fn data_before_rcpt(&self) -> (ReplyCode, SmtpString) {
        self.own(Kind::DataBeforeRcpt).unwrap_or_else(|| self.0.data_before_rcpt())
    }
    fn data_before_mail(&self) -> (ReplyCode, SmtpString) {
        self.own(Kind::DataBeforeMail).unwrap_or_else(|| self.0.data_before_mail())
    }
    fn command_unimplemented(&self) -> (ReplyCode, SmtpString) {
        self.own(Kind::Unimplemented).unwrap_or_else(|| self.0.command_unimplemented())
    }
    fn command_unrecognized(&self) -> (ReplyCode, SmtpString) {
        self.own(Kind::Unrecognized).unwrap_or_else(|| self.0.command_unrecognized())
    }
}

impl Config<User> for Custom {
    common!();
    fn new_mail<'a>(&'a mut self) -> SBox<'a, ()> {
        self.0.new_mail()
    }
    fn filter_data<'a>(&'a mut self, m: &'a mut MailMetadata, c: &'a mut Conn) -> SBox<'a, Decision> {
        self.0.filter_data(m, c)
    }
    fn welcome_banner(&self) -> (ReplyCode, SmtpString) {
        self.r(Kind::Welcome)
    }
    fn mail_okay(&self) -> (ReplyCode, SmtpString) {
        self.r(Kind::MailOkay)
    }
    fn rcpt_okay(&self) -> (ReplyCode, SmtpString) {
        self.r(Kind::RcptOkay)
    }
    fn data_okay(&self) -> (ReplyCode, SmtpString) {
        self.r(Kind::DataOkay)
    }
    fn mail_accepted(&self) -> (ReplyCode, SmtpString) {
        self.r(Kind::MailAccepted)
    }
    fn already_in_mail(&self) -> (ReplyCode, SmtpString) {
        self.r(Kind::AlreadyInMail)
    }
    fn rcpt_before_mail(&self) -> (ReplyCode, SmtpString) {
        self.r(Kind::RcptBeforeMail)
    }
    fn data_before_rcpt(&self) -> (ReplyCode, SmtpString) {
        self.r(Kind::DataBeforeRcpt)
    }
    fn data_before_mail(&self) -> (ReplyCode, SmtpString) {
        self.r(Kind::DataBeforeMail)
    }
    fn command_unimplemented(&self) -> (ReplyCode, SmtpString) {
        self.r(Kind::Unimplemented)
    }
    fn command_unrecognized(&self) -> (ReplyCode, SmtpString) {
        self.r(Kind::Unrecognized)
    }
}

pub type Session = Pin<Box<dyn Future<Output = Result<(), ()>>>>;

#[inline(never)]
pub fn session_custom(r: BoxReader, w: BoxWriter, user: User, mut cfg: Custom) -> Session {
    Box::pin(async move {
        let mut w = w;
        smtp_server::interact(r, Pin::new(&mut w), user, &mut cfg).await
    })
}

#[inline(never)]
pub fn session_plain(r: BoxReader, w: BoxWriter, user: User, mut cfg: Plain) -> Session {
    Box::pin(async move {
        let mut w = w;
        smtp_server::interact(r, Pin::new(&mut w), user, &mut cfg).await
    })
}

#[inline(never)]
pub fn session_part(r: BoxReader, w: BoxWriter, user: User, mut cfg: Part) -> Session {
    Box::pin(async move {
        let mut w = w;
        smtp_server::interact(r, Pin::new(&mut w), user, &mut cfg).await
    })
}

/// A push-back stream over a boxed source
pub struct Pre(pub Prependable<BoxReader>);

impl Pre {
    #[inline(never)]
    pub fn new(r: BoxReader) -> Pre {
        Pre(smtp_message::StreamExt::prependable(r))
    }
    #[inline(never)]
    pub fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Option<BytesMut>> {
        Pin::new(&mut self.0).poll_next(cx)
    }
    #[inline(never)]
    pub fn prepend(&mut self, b: BytesMut) -> Result<(), ()> {
        self.0.prepend(b)
    }
    #[inline(never)]
    pub fn decoder(&mut self) -> Dec<'_> {
        Dec(DataStream::new(&mut self.0))
    }
}

pub struct Dec<'a>(DataStream<'a, BoxReader>);

impl<'a> Dec<'a> {
    #[inline(never)]
    pub fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Option<BytesMut>> {
        Pin::new(&mut self.0).poll_next(cx)
    }
    #[inline(never)]
    pub fn complete(&mut self) -> Result<(), ()> {
        self.0.complete()
    }
    pub fn was_completed(&self) -> bool {
        self.0.was_completed()
    }
}

pub struct Enc(DataSink<BoxWriter>);

impl Enc {
    #[inline(never)]
    pub fn new(w: BoxWriter) -> Enc {
        Enc(DataSink::new(w))
    }
    #[inline(never)]
    pub fn send<'a>(&'a mut self, b: Bytes) -> LBox<'a, Result<(), ()>> {
        Box::pin(async move { self.0.send(b).await })
    }
    #[inline(never)]
    pub fn end(self) -> LBox<'static, Result<BoxWriter, ()>> {
        Box::pin(async move { self.0.end().await })
    }
}

/// A session on a writer that must not be moved once used
pub fn session_pinned<W: 'static + Sink<Bytes, Error = ()>>(r: BoxReader, w: Pin<Box<W>>, user: User, mut cfg: Custom) -> Session {
    Box::pin(async move {
        let mut w = w;
        smtp_server::interact(r, w.as_mut(), user, &mut cfg).await
    })
}
