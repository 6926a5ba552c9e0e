mod lasting;
mod scale;
mod sim;
mod props;
mod threads;
mod vtime;
use yv_engine::run::{main_with, no_enum, no_enum_case, CaseFn, EnumFn, Prop};

const fn p(id: &'static str, case: CaseFn, e: (fn(bool) -> u64, EnumFn), random: u64, guided: u64, deep: u64, rule: &'static str) -> Prop {
    Prop { id, rule, case, enum_total: e.0, enum_case: e.1, random, guided, deep }
}
const NONE: (fn(bool) -> u64, EnumFn) = (no_enum, no_enum_case);

fn q07_total(deep: bool) -> u64 {
    scale::total(deep) + lasting::q07_long_n(deep)
}

fn q07_enum(i: u64, o: &mut yv_engine::run::Obs) -> props::R {
    match i.checked_sub(scale::total(o.thorough)) {
        Some(k) => lasting::q07_long(k, o),
        None => scale::q07(i, o),
    }
}

static PROPS: &[Prop] = &[
    p("Q01", props::q01, (scale::total, scale::q01), 120000, 60000, 30, "Cases: virtual-time runs of the queue over up to 30 mails (queued or found in flight) with planned delays, transport refusals with any code, storage failures and stale in-flight entries; oracle: mail whose storage works is delivered and completed exactly once with one attempt per refusal more, mail always refused is always tried again, nothing is sent after it was taken. 176 large or long queues (to 140,000 mails queued or found in flight, mails with 70,000 refusals, recipients or pieces of content, and 1 to 400 days of virtual time) are enumerated too. Non-trivial: a mail that is refused and later accepted; distinct by the timed event log."),
    p("Q02", props::q02, (scale::total, scale::q02), 120000, 60000, 30, "Cases: virtual-time runs with storage failures, operations that never end and transport refusals; oracle: the exact sequence of storage and transport operations per mail, no handle dropped, no operation given up or polled after its end. 176 large or long queues (to 140,000 mails queued or found in flight, mails with 70,000 refusals, recipients or pieces of content, and 1 to 400 days of virtual time) are enumerated too. Non-trivial: some operation of a mail fails or never ends; distinct by the timed event log."),
    p("Q03", props::q03, (scale::total, scale::q03), 120000, 60000, 30, "Cases: virtual-time runs with mail found in flight, listings that take up to hours and entries that this run itself is sending; oracle: each entry is left alone for an hour from when it was found, then taken back once, promptly, and delivered. 176 large or long queues (to 140,000 mails queued or found in flight, mails with 70,000 refusals, recipients or pieces of content, and 1 to 400 days of virtual time) are enumerated too. Non-trivial: at least one mail found in flight; distinct by the timed event log."),
    p("Q04", props::q04, (scale::total, scale::q04), 60000, 30000, 30, "Cases: virtual-time runs with up to 300 mails of which many are stuck, failing or refused for ever; oracle: a healthy mail takes exactly as long as in a run of its own (within 50 ms of virtual time). 176 large or long queues (to 140,000 mails queued or found in flight, mails with 70,000 refusals, recipients or pieces of content, and 1 to 400 days of virtual time) are enumerated too. Non-trivial: at least one healthy mail timed next to at least one in trouble; distinct by the timed event log."),
    p("Q05", props::q05, (scale::total, scale::q05), 90000, 45000, 30, "Cases: virtual-time runs with mails of up to 150 recipients and many content chunks, refused and tried again, content partly read; oracle: sender, recipients and content at the transport equal what is stored, at each attempt. 176 large or long queues (to 140,000 mails queued or found in flight, mails with 70,000 refusals, recipients or pieces of content, and 1 to 400 days of virtual time) are enumerated too. Non-trivial: something was sent; distinct by content and timed event log."),
    p("Q06", props::q06, (scale::total, scale::q06), 120000, 60000, 30, "Cases: virtual-time runs in which listing the queue or what is in flight fails, stalls or is slow; oracle: start-up reports failure exactly then, each listing is made once and not polled after its end, all that was listed is handled at once. 176 large or long queues (to 140,000 mails queued or found in flight, mails with 70,000 refusals, recipients or pieces of content, and 1 to 400 days of virtual time) are enumerated too. Non-trivial: a listing fails; distinct by the timed event log."),
    p("Q07", props::q07, (q07_total, q07_enum), 120000, 60000, 30, "Cases: virtual-time runs with mails refused many times or for ever, storage failures and operations that never end; oracle: counts of references to storage and transport, handles, operations, listings and contents alive at the end: none when all mail is dealt with, else no more than a few for each mail still open. 176 large or long queues (to 140,000 mails queued or found in flight, mails with 70,000 refusals, recipients or pieces of content, and 1 to 400 days of virtual time) are enumerated too. Non-trivial: start-up over and more attempts than mails; distinct by the timed event log."),
    p("Q08", threads::q08, NONE, 20000, 4000, 30, "Cases: runs of the queue over up to 400 mails whose tasks are polled by 2 to 6 threads at once, in no fixed order, threads held up at random, operations that end at once, on another thread or after virtual time, with refusals and storage failures; oracle: each mail goes through exactly the steps its plan demands, each on time, sender, recipients and content unchanged, nothing blocks or panics, nothing is held at the end. Non-trivial: several tasks ran at the same time and some mail was refused; distinct by what the mails went through and the number of polls."),
];

fn main() {
    main_with(PROPS)
}
