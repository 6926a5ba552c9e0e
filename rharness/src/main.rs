//! R: sessions and queue together
#![allow(dead_code)]
#[path = "../../harness/src/env.rs"]
mod env;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/refp.rs"]
mod refp;
mod relay;
#[path = "../../qharness/src/vtime.rs"]
mod vtime;
use yv_engine::run::{main_with, Prop};

static PROPS: &[Prop] = &[Prop {
    id: "R01",
    rule: "Cases: up to 3 mails (6 in thorough) written by a client with this library's commands and message encoder, received by a session, put into a queue and sent on by a transport that is such a client again, to sessions that refuse at any stage, lose the connection at any byte, or lose the last reply; oracle: sender, recipients and text at the end equal those at the start, once (plus once per lost reply), every reply can be read and no command stays without one. Enumerated: 12 sorts of mails, recipients, names, failures and replies in sizes up to 70,000. Non-trivial: some attempt failed or a message has a line that starts with a dot (enumerated: all); distinct by content and faults.",
    case: relay::r01,
    enum_total: relay::large_total,
    enum_case: relay::large,
    random: 50000,
    guided: 30000,
    deep: 60,
}];

fn main() {
    main_with(PROPS)
}
