mod env;
mod gen;
mod lasting;
mod model;
mod msg;
mod refp;
mod scale;
mod senum;
mod session;
mod u01;

use yv_engine::run::{main_with, no_enum, no_enum_case, CaseFn, EnumFn, Prop};

type Total = fn(bool) -> u64;

#[allow(clippy::too_many_arguments)]
const fn p(id: &'static str, case: CaseFn, e: (Total, EnumFn), random: u64, guided: u64, deep: u64, rule: &'static str) -> Prop {
    Prop { id, rule, case, enum_total: e.0, enum_case: e.1, random, guided, deep }
}

const NONE: (Total, EnumFn) = (no_enum, no_enum_case);

/// (random cases, coverage-guided cases, times as many in depth)
static PROPS: &[Prop] = &[
    p("S01", session::s01, (senum::seq_totals, senum::s01), 60000, 30000, 30, "Cases: whole SMTP conversations (grammar-made, mutated and out-of-order lines, messages, cuts) against random policies, segmentations and readiness, plus every sequence of up to 5 (thorough 7) of 10 commands under 8 patterns of decisions; oracle: a sequential model of the session gives every reply due, in order and after the decisions it rests on. A few hundred large talks (up to 70,000 commands, recipients, mails or packets, lines to 270 KB) are enumerated too. Non-trivial: the session got at least 2 command lines (enumerated: 1); distinct by input bytes, number of packets, calls and reply codes."),
    p("S02", session::s02, (senum::seq_totals, senum::s02), 60000, 30000, 30, "Cases: conversations with most commands out of sequence, plus every sequence of up to 5 (thorough 7) of 10 commands under 8 patterns of decisions; oracle: the model's policy calls and replies, so that an out-of-sequence command that changes anything shows later. A few hundred large talks (up to 70,000 commands, recipients, mails or packets, lines to 270 KB) are enumerated too. Non-trivial: at least one command was out of sequence and at least one was not (enumerated: at least one command); distinct by input bytes, packets, calls and reply codes."),
    p("S03", session::s03, (senum::seq_totals, senum::s03), 60000, 30000, 30, "Cases: conversations against policies that accept, refuse and rewrite, plus every sequence of up to 5 (thorough 7) of 10 commands under 8 patterns of decisions; oracle: every envelope handed to the mail handler equals the model's accepted sender and recipients in order. A few hundred large talks (up to 70,000 commands, recipients, mails or packets, lines to 270 KB) are enumerated too. Non-trivial: at least one message reached the handler (enumerated: at least one command); distinct by input bytes, packets, calls and reply codes."),
    p("S04", session::s04, (senum::seq_totals, senum::s04), 60000, 30000, 30, "Cases: conversations against policies with random decisions, texts, rewrites and user data, plus every sequence of up to 5 (thorough 7) of 10 commands under 8 patterns of decisions; oracle: the policy sees each filter call the model predicts, once, with the current envelope and the user data as it left it, and the client hears exactly its decision. A few hundred large talks (up to 70,000 commands, recipients, mails or packets, lines to 270 KB) are enumerated too. Non-trivial: a refusal or more than 3 policy calls (enumerated: at least one command); distinct by input bytes, packets, calls and reply codes."),
    p("S05", session::s05, (senum::text_total, senum::s05), 60000, 30000, 30, "Cases: conversations carrying messages made of lines, dots, bare CR/LF, look-alike ends and raw bytes, in random packets, plus every text of up to 7 (thorough 9) of CR, LF, dot, x with three endings, in one packet, bytewise and cut at every place; oracle: the text handed to the handler equals the unstuffed one and the commands after it are answered. A few hundred large talks (up to 70,000 commands, recipients, mails or packets, lines to 270 KB) are enumerated too. Non-trivial: a complete message was delivered (enumerated: all); distinct by input bytes, packets, calls and reply codes."),
    p("S06", session::s06, (senum::cuts_total, senum::s06), 24000, 12000, 30, "Cases: one conversation run as one packet, bytewise, in random packets and in lock step, plus 5 conversations cut in every 4 (thorough 5) packets; oracle: output bytes, policy calls and ending are the same. A few hundred large talks (up to 70,000 commands, recipients, mails or packets, lines to 270 KB) are enumerated too. Non-trivial: at least 2 command lines (enumerated: more than one packet); distinct by input bytes and packet sizes."),
    p("S07", session::s07, (senum::text_total, senum::s07), 70000, 35000, 30, "Cases: conversations with bare CR, LF, NUL, doubled and missing line ends in commands and messages, plus every text of up to 7 (thorough 9) of CR, LF, dot, x with three endings in all single cuts; oracle: number of replies, policy calls and message texts of a model in which only CRLF ends a line and only CRLF.CRLF a message. A few hundred large talks (up to 70,000 commands, recipients, mails or packets, lines to 270 KB) are enumerated too. Non-trivial: a bare CR or LF or an unfinished last line in the input (enumerated: all); distinct by input bytes, packets, calls and reply codes."),
    p("S08", session::s08, (senum::cut_text_total, senum::s08), 80000, 40000, 30, "Cases: conversations cut at any byte, mostly inside a message near its end, plus every text of up to 7 (thorough 9) of CR, LF, dot, x with three endings (mostly truncated) in all single cuts; oracle: the completeness the handler is told, the text, no poll of the input after its end and no reply beyond the model's. Long messages cut off within their last bytes are enumerated too. Non-trivial: the conversation was cut inside a message or had one (enumerated: all); distinct by input bytes, packets, calls and reply codes."),
    p("S09", session::s09, (senum::pend_total, senum::s09), 16000, 8000, 30, "Cases: one conversation under several random patterns of not-ready readers, writers and policy futures, in lock step or not, plus 5 conversations under every repeating pattern of up to 6 (thorough 8) readiness delays of 0-3; oracle: no lost wake-up, no deadlock with a client that waits for its reply, the Sink protocol, everything flushed, output and calls as in the always-ready run. Non-trivial: something was not ready at least once and there was a command line (enumerated: all); distinct by input bytes and number of polls."),
    p("S10", session::s10, NONE, 24000, 12000, 30, "Cases: one conversation run once, then once for each (up to 60) of its output operations with that operation failing; oracle: the session ends with the error, no sink, policy or reader activity after it, and everything before it as in the run without a failure. Non-trivial: at least one operation was made to fail; distinct by input bytes, packets, calls and reply codes."),
    p("S11", session::s11, (senum::len_total, senum::s11), 150000, 75000, 30, "Cases: conversations in which the policy and configuration answer with texts of 0 to 40000 bytes (spaces, dashes, digits), plus every text length up to 1500 (thorough 10000) for 4 sorts of replies; oracle: an independent reader of replies finds one well-formed reply per command with the given code and text, no line above 512 bytes and none empty but for an empty text. Texts to 262,145 bytes are enumerated too. Non-trivial: an empty text or one above one line (enumerated: all); distinct by input bytes, calls, reply codes and text lengths."),
    p("S12", session::s12, (senum::byte_total, senum::s12), 70000, 35000, 30, "Cases: conversations with heavy corruption and raw bytes, random cuts, drops of the session midway, plus every 2-byte (thorough 3-byte) line and every byte put in or over every place of 5 conversations; oracle: no panic, no endless loop and an end when the input ends. A few hundred large talks (up to 70,000 commands, recipients, mails or packets, lines to 270 KB) are enumerated too. Non-trivial: more than one reply was sent (enumerated: all); distinct by input bytes, packets, calls and reply codes."),
    p("S13", session::s13, (session::s13_total, session::s13_threads), 24000, 12000, 30, "Cases: 2 to 4 sessions, sometimes up to 30 (150 in the thorough tier), stepped in random interleaving or each held at a step until all the others are held (one sometimes dropped midway); and, enumerated, 2 to 6 threads that each run their sessions at the same time; oracle: each one's output, policy calls and ending equal those of the same session alone. Non-trivial: more than 2 switches between sessions; distinct by interleaving, input bytes, packets, calls and reply codes."),
    p("S14", session::s14, NONE, 120000, 60000, 30, "Cases: conversations in which mail handlers return without reading their message, having read part of it, or without checking that it was complete; oracle: the session may end or panic there, but accepts no such message unless it consumed it itself, executes none of its content and otherwise goes on exactly as the model. Non-trivial: such a handler was reached; distinct by input bytes, packets, calls and reply codes."),
    p("S15", lasting::s15, (lasting::s15_total, lasting::s15_long), 6000, 3000, 30, "Cases: sessions of 40 to 400 equal rounds of commands and mails (refused, accepted, broken), and 400 (thorough 3000) messages of up to 4 MB, in random packets, with a policy, reader and writer that keep nothing; oracle: a counting allocator: what the session holds between rounds, at most holds in a round and allocates per round is no more in late rounds than in early ones, and a message passes through in bounded memory. Non-trivial: more than one mail or several policy calls per round, or a long message; distinct by input bytes and number of packets."),
    p("S16", session::s16, NONE, 60000, 30000, 30, "Cases: conversations under configurations in which each method of the interface is set or left out at random; oracle: the model's replies and policy calls: a method that is set is used for exactly its case, a general reply for the cases without one of their own, and what is left out refuses nothing and answers with the standard code. Non-trivial: at least one method is set and the session got at least 2 command lines; distinct by methods set, input bytes, packets, calls and reply codes."),
    p("M01", msg::m01, (msg::m01_total, msg::m01_enum), 400000, 200000, 30, "Cases: random message input in random packets and buffer representations, plus every string over CR, LF, dot, x up to length 8 (thorough 10) in every segmentation; oracle: a reference decoder over the whole input. 400 long texts and ways to cut them (to 300 KB, up to 300,000 packets) are enumerated too. Non-trivial: input of more than 3 bytes (enumerated: all); distinct by input and packets."),
    p("M02", msg::m02, (msg::m02_total, msg::m02_enum), 400000, 200000, 30, "Cases: random messages written in random pieces under random readiness and failures, plus every string over CR, LF, dot, x up to length 7 (thorough 9) in every division into pieces; oracle: a reference decoder reads the output back to the text written and ends exactly at its last byte. 400 long texts and ways to cut them (to 300 KB, up to 300,000 packets) are enumerated too. Non-trivial: the message holds a dot or a CR (enumerated: all); distinct by message and pieces."),
    p("M03", msg::m03, (msg::m03_total, msg::m03_enum), 500000, 250000, 30, "Cases: several messages and commands one after the other on one stream in random packets, plus every string over CR, LF, dot, x up to length 7 (thorough 9) in every segmentation; oracle: no packet taken after the one with the terminator, the remainder handed back byte for byte, completeness, and staying ended. 400 long texts and ways to cut them (to 300 KB, up to 300,000 packets) are enumerated too. Non-trivial: the input holds a terminator; distinct by input and packets."),
    p("M04", msg::m04, (msg::m04_total, msg::m04_enum), 2000000, 1000000, 30, "Cases: command lines made from the grammar, mutated, and random, plus complete enumeration of short fillings of per-verb frames; oracle: an independent reading of RFC 5321 command lines gives the fields or a refusal (lines the standard leaves open are counted, not judged). Lines of 37 sorts and up to 262,145 bytes are enumerated too. Non-trivial: the line is a command or has more than 6 bytes (enumerated: all); distinct by line."),
    p("M05", msg::m05, (scale::lines, scale::m05), 1600000, 800000, 30, "Cases: random commands built through the API or by parsing, serialised and parsed again; oracle: the same fields, exactly one line. Lines of 37 sorts and up to 262,145 bytes are enumerated too. Non-trivial: the serialised command has more than 6 bytes; distinct by line."),
    p("M06", msg::m06, (msg::m06_total, msg::m06_enum), 2000000, 1000000, 30, "Cases: mailboxes made from the grammar with random quoting, mutated and random, plus every string over 8 characters up to length 7 (thorough 9) and address literals up to 6 (thorough 8); oracle: an independent RFC 5321 mailbox reader: acceptance, raw and canonical local part and host, and equality of differently quoted writings. Addresses of 9 sorts and up to 262,145 bytes are enumerated too. Non-trivial: more than 3 bytes (enumerated: all); distinct by text."),
    p("M07", msg::m07, (msg::m07_total, msg::m07_enum), 3000000, 1500000, 30, "Cases: random reply codes and texts built, serialised and parsed, corrupted lines parsed, plus all codes 0-999, all single bytes and all text lengths to 600; oracle: an independent reader of reply lines. Non-trivial: the text is not empty (enumerated: all); distinct by line."),
    p("M08", msg::m08, (scale::lines, scale::m08), 400000, 300000, 30, "Cases: raw and corrupted bytes in all buffer representations given to every public parser; oracle: each returns, without panic. Lines of 37 sorts and up to 262,145 bytes are enumerated too. Non-trivial: more than 2 bytes; distinct by input."),
    p("M09", msg::m09, (scale::string_total, scale::m09), 3000000, 1500000, 30, "Cases: chains of sub-slices of a view inside a larger buffer, also beyond its end, and random concatenations, chunkings and comparisons of strings; oracle: plain byte vectors. Strings and views of up to 262,145 bytes are enumerated, joined and cut at sizes around the powers of two. Non-trivial: the view is not empty; distinct by content."),
    p("M10", msg::m10, (msg::m10_long_total, msg::m10_long), 3000000, 1500000, 30, "Cases: random sequences of reads, push-backs (also refused ones) and end over a stream that is sometimes not ready; oracle: a list of pending items. Runs of up to 140,000 rounds are enumerated too. Non-trivial: a push-back was accepted; distinct by operations."),
    p("M11", msg::m11, (scale::lines, scale::m11), 3000000, 1500000, 30, "Cases: commands, replies and mailboxes serialised to writers that take few bytes at a time, stop or fail at any point; oracle: success only when every byte arrived, else an error and a prefix. Lines of 37 sorts and up to 262,145 bytes are enumerated too. Non-trivial: more than one byte to write; distinct by bytes and writer."),
    p("M12", lasting::m12, (lasting::m12_total, lasting::m12_long), 200000, 100000, 30, "Cases: messages in random packets through the decoder and in random pieces through the encoder, and 300 (thorough 3000) of up to 2 MB; oracle: whenever the decoder asks for more and whenever the encoder is done with a piece, all but at most 4 bytes of what is certain was passed on, and a counting allocator sees bounded memory. Non-trivial: more than one packet; distinct by content and number of packets."),
    p("M13", msg::m13, (msg::m13_total, msg::m13_enum), 1000000, 500000, 30, "Cases: lines, replies, mailboxes and texts, broken, cut short or with more after them, given to the parsers and the reply builder, plus every byte at every place of nine lines, every place of a byte that is not allowed, and lengths to 262,145; oracle: the number left over that an error tells is right (what is before can be read, a line that can be read leaves exactly what is after it), and a refused text is refused for its length and the limit or for its first byte that is not allowed and the place of it. Non-trivial: more than 2 bytes (enumerated: all); distinct by input and what follows it."),
    p("U01", u01::u01, NONE, 4000, 0, 30, ""),
    p("U01T", u01::threads, NONE, 400, 0, 30, ""),
];

fn main() {
    main_with(PROPS)
}
