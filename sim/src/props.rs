//! The table of properties: scenario, violation classes, run counts, what is real and what is not.
use smtp_message::{Command, MailCommand, RcptCommand, Sendable};

use crate::{
    gen, interpose, model, scen_data, scen_e2e, scen_flow, scen_prep,
    scen_queue::{self, Focus as Q},
    scen_session::{self, Focus as S},
    sim::{show, Sim},
    tape::Tape,
    Outcome,
};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&Sim) -> Outcome,
    /// violation classes that count against this property (panic, abort and hang always do)
    pub classes: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    /// runs per worker process
    pub chunk: u64,
    pub cases: &'static str,
    pub nontrivial: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
}

const DATA: &[&str] = &["body", "completion", "surplus", "progress", "send-error", "truncated-complete", "wire", "report", "flush", "spin"];
const SESSION: &[&str] = &["reply", "final-reply", "reply-missing", "malformed", "envelope", "body", "completion", "ack", "stall", "spin"];

const R_DATA: &[&str] = &["smtp_message::DataSink", "smtp_message::DataStream", "smtp_message::Prependable", "bytes", "futures"];
const S_DATA: &[&str] = &["network (simulated packets, latency, stalls)", "scheduler", "clock"];
const R_SESS: &[&str] = &[
    "smtp_server::interact (crlflines, sendreply, decision, default Config)",
    "smtp_message::Command parser, DataStream, Prependable, ReplyLine",
    "bytes",
    "futures",
    "nom",
];
const S_SESS: &[&str] = &["network (simulated packets, latency, stalls, disconnection)", "client (scripted, waiting or pipelining)", "mail policy (scripted verdicts and latencies)", "scheduler", "clock"];
const R_QUEUE: &[&str] = &["smtp_queue::run and send_queued_mail", "tokio::spawn", "tokio timer wheel (tokio-timer)", "futures 0.1"];
const S_QUEUE: &[&str] = &["mail storage (simulated, durable, failing)", "mail transport (simulated outcomes)", "executor and scheduler", "clock (clock_gettime)", "process crash and restart"];

pub const ASSUMPTIONS: &[&str] = &[
    "the network keeps bytes of one connection in order (TCP) and may delay, split, merge, stall or cut them",
    "storage operations are atomic and durable once they take effect; a crash leaves each operation under way done or not done",
    "seeded sampling, not enumeration: no violation found is evidence, not proof",
    "an embedder's handler reads its message to the end, as the interface demands",
];

pub const ALL: &[Prop] = &[
    Prop {
        id: "C01",
        run: |s| scen_data::transfer(s),
        classes: DATA,
        quick: 500_000,
        thorough: 20_000_000,
        chunk: 1000,
        cases: "One run sends 1-3 drawn bodies through DataSink over a simulated connection into DataStream.",
        nontrivial: "at least one body is not empty",
        real: R_DATA,
        stub: S_DATA,
    },
    Prop {
        id: "C02",
        run: |s| scen_data::receive(s, false),
        classes: DATA,
        quick: 1_250_000,
        thorough: 50_000_000,
        chunk: 1000,
        cases: "One run feeds drawn data-phase bytes in drawn packets to DataStream and reads the rest of the connection afterwards.",
        nontrivial: "at least one byte is received",
        real: R_DATA,
        stub: S_DATA,
    },
    Prop {
        id: "C03",
        run: |s| if s.draw(2) == 0 { scen_data::receive(s, true) } else { scen_session::run(s, S::Truncate) },
        classes: &[
            "body", "completion", "surplus", "progress", "truncated-complete", "reply", "final-reply", "reply-missing", "malformed", "envelope", "ack", "stall", "spin", "eof",
        ],
        quick: 750_000,
        thorough: 30_000_000,
        chunk: 1000,
        cases: "One run cuts a connection in its data phase, either under a bare DataStream or under a whole server session.",
        nontrivial: "bytes were received before the cut",
        real: R_SESS,
        stub: S_SESS,
    },
    Prop {
        id: "C04",
        run: |s| scen_data::send_faults(s),
        classes: DATA,
        quick: 1_250_000,
        thorough: 50_000_000,
        chunk: 1000,
        cases: "One run sends a drawn body through DataSink over a transport that fails, stalls, is severed, or whose sender is aborted.",
        nontrivial: "a fault was planned and the body is not empty",
        real: R_DATA,
        stub: S_DATA,
    },
    Prop {
        id: "C05",
        run: |s| scen_session::run(s, S::Replies),
        classes: SESSION,
        quick: 375_000,
        thorough: 15_000_000,
        chunk: 1000,
        cases: "One run is one SMTP session of drawn commands, mails and verdicts over a simulated connection.",
        nontrivial: "at least one command was executed",
        real: R_SESS,
        stub: S_SESS,
    },
    Prop {
        id: "C06",
        run: |s| scen_session::run(s, S::Envelope),
        classes: SESSION,
        quick: 375_000,
        thorough: 15_000_000,
        chunk: 1000,
        cases: "One run is one SMTP session rich in transaction commands, with a policy that refuses and rewrites addresses.",
        nontrivial: "at least one command was executed",
        real: R_SESS,
        stub: S_SESS,
    },
    Prop {
        id: "C07",
        run: |s| scen_session::run(s, S::Ack),
        classes: SESSION,
        quick: 625_000,
        thorough: 25_000_000,
        chunk: 1000,
        cases: "One run is one SMTP session with mails, slow and refusing handlers, disconnections and write failures.",
        nontrivial: "at least one command was executed",
        real: R_SESS,
        stub: S_SESS,
    },
    Prop {
        id: "C08",
        run: |s| scen_session::run(s, S::Waiting),
        classes: SESSION,
        quick: 500_000,
        thorough: 20_000_000,
        chunk: 1000,
        cases: "One run is one SMTP session whose client waits for each reply, over slow and fragmenting links.",
        nontrivial: "at least one command was executed",
        real: R_SESS,
        stub: S_SESS,
    },
    Prop {
        id: "C09",
        run: |s| scen_session::run(s, S::WriteFail),
        classes: &["reply", "final-reply", "reply-missing", "malformed", "envelope", "body", "completion", "ack", "stall", "spin", "write-fail"],
        quick: 625_000,
        thorough: 25_000_000,
        chunk: 1000,
        cases: "One run is one SMTP session whose writer fails at a drawn operation (readiness, hand-over, flush) or byte count.",
        nontrivial: "at least one command was executed",
        real: R_SESS,
        stub: S_SESS,
    },
    Prop {
        id: "C10",
        run: |s| scen_session::run(s, S::Eof),
        classes: &["reply", "final-reply", "reply-missing", "malformed", "envelope", "body", "completion", "ack", "stall", "spin", "eof", "eof-reread"],
        quick: 625_000,
        thorough: 25_000_000,
        chunk: 1000,
        cases: "One run is one SMTP session whose client closes its side after a drawn number of bytes.",
        nontrivial: "at least one command was executed",
        real: R_SESS,
        stub: S_SESS,
    },
    Prop {
        id: "C11",
        run: |s| scen_session::run(s, S::Format),
        classes: SESSION,
        quick: 500_000,
        thorough: 20_000_000,
        chunk: 1000,
        cases: "One run is one SMTP session with drawn reply codes and texts of every length class, under back-pressure.",
        nontrivial: "at least one command was executed",
        real: R_SESS,
        stub: S_SESS,
    },
    Prop {
        id: "C12",
        run: |s| scen_session::run(s, S::Hostile),
        classes: SESSION,
        quick: 300_000,
        thorough: 12_000_000,
        chunk: 500,
        cases: "One run is one SMTP session fed with mutated, overlong, nested and random input, then valid commands, on a 256 KiB stack.",
        nontrivial: "at least one command line was received",
        real: R_SESS,
        stub: S_SESS,
    },
    Prop {
        id: "C13",
        run: |s| scen_session::many(s),
        classes: &["reply", "final-reply", "reply-missing", "malformed", "envelope", "body", "completion", "ack", "stall", "spin", "write-fail", "eof"],
        quick: 250_000,
        thorough: 10_000_000,
        chunk: 3000,
        cases: "One run serves 2-6 (now and then up to 200) SMTP sessions at once or staggered, some stalled, failing, aborted or hostile.",
        nontrivial: "at least two sessions executed a command",
        real: R_SESS,
        stub: S_SESS,
    },
    Prop {
        id: "C14",
        run: |s| scen_prep::run(s),
        classes: &["order", "refusal", "lost", "spin"],
        quick: 1_250_000,
        thorough: 50_000_000,
        chunk: 1000,
        cases: "One run is a drawn history of reads, abandoned reads, push-backs, arrivals and end of stream on one Prependable.",
        nontrivial: "at least one item was pushed back",
        real: &["smtp_message::Prependable", "futures"],
        stub: &["underlying connection", "scheduler", "clock"],
    },
    Prop {
        id: "C15",
        run: |s| scen_queue::run(s, Q::Removal),
        classes: &["remove", "close", "undelivered", "spin"],
        quick: 625_000,
        thorough: 25_000_000,
        chunk: 1000,
        cases: "One run is a queue of 1-40 mails with failing deliveries, storage errors and lost answers, crashes and restarts.",
        nontrivial: "at least one delivery was attempted",
        real: R_QUEUE,
        stub: S_QUEUE,
    },
    Prop {
        id: "C16",
        run: |s| scen_queue::run(s, Q::Eventual),
        classes: &["abandoned", "undelivered", "spin", "scan"],
        quick: 625_000,
        thorough: 25_000_000,
        chunk: 1000,
        cases: "One run is a queue of 1-40 mails with failing deliveries, storage errors, crashes, restarts, then a fault-free restart.",
        nontrivial: "at least one delivery was attempted",
        real: R_QUEUE,
        stub: S_QUEUE,
    },
    Prop {
        id: "C17",
        run: |s| scen_queue::run(s, Q::Once),
        classes: &["duplicate", "protocol", "early", "close", "remove", "abandoned", "undelivered", "spin", "scan"],
        quick: 625_000,
        thorough: 25_000_000,
        chunk: 1000,
        cases: "One run is 1-3 queue instances on one storage with slow listings, slow operations and cleanly failing deliveries.",
        nontrivial: "at least one delivery was attempted",
        real: R_QUEUE,
        stub: S_QUEUE,
    },
    Prop {
        id: "C18",
        run: |s| scen_queue::run(s, Q::Recovery),
        classes: &["early", "abandoned", "undelivered", "spin", "close", "remove"],
        quick: 625_000,
        thorough: 25_000_000,
        chunk: 1000,
        cases: "One run is a queue started over mails already marked in progress, whose owners may finish or not, with clock jumps, failures and crashes.",
        nontrivial: "at least one delivery was attempted",
        real: R_QUEUE,
        stub: S_QUEUE,
    },
    Prop {
        id: "C19",
        run: |s| scen_queue::run(s, Q::Isolation),
        classes: &["held-back", "scan", "spin", "abandoned", "undelivered"],
        quick: 200_000,
        thorough: 8_000_000,
        chunk: 500,
        cases: "One run is a queue in which drawn mails are stuck for ever at a drawn stage or fail at every attempt.",
        nontrivial: "at least one delivery was attempted",
        real: R_QUEUE,
        stub: S_QUEUE,
    },
    Prop {
        id: "C20",
        run: |s| scen_queue::run(s, Q::Protocol),
        classes: &["protocol", "content", "close", "remove", "abandoned", "duplicate", "spin"],
        quick: 625_000,
        thorough: 25_000_000,
        chunk: 1000,
        cases: "One run is 1-3 queue instances with drawn mails, contents, latencies, storage errors and failing deliveries.",
        nontrivial: "at least one delivery was attempted",
        real: R_QUEUE,
        stub: S_QUEUE,
    },
    Prop {
        id: "C21",
        run: |s| scen_queue::run(s, Q::Scan),
        classes: &["scan", "abandoned", "undelivered", "spin"],
        quick: 625_000,
        thorough: 25_000_000,
        chunk: 1000,
        cases: "One run is a queue start whose lists are slow or fail at a drawn entry.",
        nontrivial: "at least one delivery was attempted",
        real: R_QUEUE,
        stub: S_QUEUE,
    },
    Prop {
        id: "C22",
        run: |s| scen_e2e::run(s),
        classes: &[
            "lost", "corrupt", "truncated", "duplication", "remove", "close", "content", "protocol", "abandoned", "undelivered", "spin", "stall", "send-error", "malformed",
        ],
        quick: 200_000,
        thorough: 8_000_000,
        chunk: 500,
        cases: "One run relays 1-6 queued mails to a server host over connections that are delayed, split, stalled and reset, with both hosts crashing.",
        nontrivial: "at least one mail was relayed",
        real: &[
            "smtp_queue::run and send_queued_mail",
            "tokio::spawn and timer",
            "smtp_message command and reply codecs, DataSink, DataStream",
            "smtp_server::interact",
        ],
        stub: &["queue storage", "server mailbox (durable on acceptance)", "SMTP client control flow (library builders and parsers inside)", "network", "executor and scheduler", "clock", "process crash and restart"],
    },
    Prop {
        id: "C26",
        run: |s| scen_flow::run(s),
        classes: &["body", "held-back", "progress", "spin"],
        quick: 750_000,
        thorough: 30_000_000,
        chunk: 1000,
        cases: "One run sends 1-3 drawn messages piece by piece into DataStream, bare or under a served session; the sender goes on only when what has arrived was handed on.",
        nontrivial: "a message is longer than what may be held back",
        real: R_SESS,
        stub: S_DATA,
    },
    Prop {
        id: "C27",
        run: |s| scen_session::run(s, S::Unfinished),
        classes: &["smuggled", "reply", "final-reply", "reply-missing", "malformed", "envelope", "body", "completion", "ack", "stall", "spin"],
        quick: 625_000,
        thorough: 25_000_000,
        chunk: 1000,
        cases: "One run is one SMTP session whose messages hold commands, and one of whose handlers leaves its message unfinished.",
        nontrivial: "at least one command was executed",
        real: R_SESS,
        stub: S_SESS,
    },
];

pub fn get(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id)
}

/// Which counters are injected faults (the others count workload and outcomes)
pub fn is_fault(k: &str) -> bool {
    !matches!(k, "mails" | "instant_delivery" | "throng" | "endless_failures" | "huge_body" | "enormous_body" | "long_queue" | "bulk_session" | "crowd" | "long_connection" | "delivery_attempts" | "sessions" | "commands" | "mails_relayed" | "mails_received" | "relay_attempts" | "relay_successes" | "duplicate_after_loss")
}

/// Compare the reference grammar with the library's parser on drawn lines (development aid: run
/// on the unchanged tree only)
pub fn grammar(args: &[String]) -> i32 {
    let n: u64 = args.first().and_then(|x| x.parse().ok()).unwrap_or(100_000);
    let mut bad = 0;
    let mut kinds = [0u64; 5];
    for i in 0..n {
        let sim = Sim::new(Tape::from_seed(crate::tape::mix(i)), false, vec![]);
        interpose::enter(i);
        let l = match sim.draw(6) {
            0 => gen::mail_cmd(&sim),
            1 => gen::rcpt_cmd(&sim),
            2 => gen::data_cmd(&sim),
            3 => gen::other_cmd(&sim),
            _ => gen::bad_line(&sim, false),
        };
        interpose::leave();
        let p = l.windows(2).position(|x| x == b"\r\n").unwrap() + 2;
        let l = &l[..p];
        let wire = |e: &smtp_message::Email| {
            let mut v = Vec::new();
            e.send_to(&mut v).unwrap();
            v
        };
        let lib = match Command::parse(bytes::Bytes::from(l)) {
            Ok(Command::Mail(MailCommand { from, .. })) => model::Line::Mail(from.as_ref().map(|e| wire(e))),
            Ok(Command::Rcpt(RcptCommand { to, .. })) => model::Line::Rcpt(wire(&to)),
            Ok(Command::Data(_)) => model::Line::Data,
            Ok(_) => model::Line::Other,
            Err(_) => model::Line::Bad,
        };
        let m = model::classify(l);
        kinds[match m {
            model::Line::Mail(_) => 0,
            model::Line::Rcpt(_) => 1,
            model::Line::Data => 2,
            model::Line::Other => 3,
            model::Line::Bad => 4,
        }] += 1;
        if m != lib {
            bad += 1;
            if bad < 20 {
                println!("{}: library {:?}, model {:?}", show(l), lib, m);
            }
        }
    }
    println!("{} lines, {} differences; mail rcpt data other bad = {:?}", n, bad, kinds);
    (bad > 0) as i32
}
