//! C03 (server part), C05–C13: SMTP sessions served by `interact` over simulated connections.
use std::{
    future::Future,
    pin::Pin,
    sync::{Arc, Mutex},
};

use bytes::BytesMut;
use futures::{FutureExt, Stream, StreamExt};
use smtp_message::{DataStream, Email, ReplyCode, Sendable, SmtpString};
use smtp_server::{interact, Config, ConnectionMetadata, Decision, MailMetadata, Refusal};

use crate::{
    gen,
    model::{self, Call, Exp, Kind, Profile, Reply, Rewrite, Texts, Verdict},
    net::{In, InKnobs, Out, OutKnobs, Reader, Writer},
    sim::{hash_bytes, set_group, show, spawn3, Exec, Sim, Sleep, Stop, HOUR, MS, SEC, US},
    tape::mix,
    Outcome,
};

pub struct Plan {
    pub id: u64,
    pub input: Vec<u8>,
    /// client send units: end offsets
    pub units: Vec<usize>,
    pub verdicts: Vec<Verdict>,
    pub texts: Texts,
    pub which: u32, // embedder variant
    pub prof: Profile,
    pub host: Vec<u8>,
    pub banner: Vec<u8>,
    pub lat: u64,
    pub handler_slow: u32,
    /// the handler of this message leaves it unfinished
    pub leave: Option<Leave>,
}

#[derive(Clone, Copy, Debug)]
pub struct Leave {
    /// which handler call
    pub nth: usize,
    /// how many blocks it takes before
    pub blocks: u32,
    /// it asks for completion all the same
    pub claim: bool,
}

impl Plan {
    fn verdict(&self, i: usize) -> Verdict {
        self.verdicts.get(i).cloned().unwrap_or(Verdict { reject: None, rewrite: Rewrite::None })
    }
    pub fn model(&self, input: &[u8]) -> model::ModelOut {
        model::session(input, &self.texts, self.prof, &mut |i| self.verdict(i))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Call(Call),
    Handled { body: Vec<u8>, complete: bool, accepted: bool },
}

#[derive(Default)]
pub struct Rec {
    pub evs: Vec<Ev>,
    pub ended: usize,
    pub handles: usize,
    wire: Vec<u8>,
    /// complete replies handed to the writer, and offset behind the last of them
    complete: usize,
    done_off: usize,
    begun: usize,
    pub result: Option<Result<(), ()>>,
    /// the handler that leaves its message unfinished has been called
    pub left: bool,
    /// and was told whether it is complete
    pub told: bool,
}

struct Core {
    sim: Sim,
    plan: Arc<Plan>,
    rec: Arc<Mutex<Rec>>,
    out: Out,
    goahead: Arc<Vec<usize>>, // reply index of the k-th go-ahead
    nv: usize,
}

fn wire_form(e: &Email) -> Vec<u8> {
    let mut v = Vec::new();
    e.send_to(&mut v).unwrap();
    v
}
fn wire_opt(e: &Option<Email>) -> Option<Vec<u8>> {
    e.as_ref().map(wire_form)
}
fn addr(b: &[u8]) -> Email {
    Email::parse_slice(b).unwrap_or_else(|_| panic!("harness: address {:?} does not parse", show(b)))
}
fn rtext((r, t): (&Reply, ())) -> (ReplyCode, SmtpString) {
    let _ = t;
    (ReplyCode::custom(r.code), SmtpString::from(&r.text[..]))
}

impl Core {
    fn call(&self, c: Call) {
        self.sim.log(40, hash_bytes(format!("{:?}", c).as_bytes()), self.plan.id, || format!("session#{}: callback {}", self.plan.id, show_call(&c)));
        if self.out.st.lock().unwrap().failed {
            self.sim.fail("write-fail", format!("session#{}: callback {} invoked after a write had failed", self.plan.id, show_call(&c)));
        }
        self.rec.lock().unwrap().evs.push(Ev::Call(c));
    }
    fn end(&self, what: &str) {
        self.sim.log(41, 0, self.plan.id, || format!("session#{}: {} callback answers", self.plan.id, what));
        self.rec.lock().unwrap().ended += 1;
    }
    fn next(&mut self) -> Verdict {
        let v = self.plan.verdict(self.nv);
        self.nv += 1;
        v
    }
    fn base(&self) -> u64 {
        self.plan.id * 1_000_000
    }
    fn latency(&self) -> Sleep {
        let d = if self.plan.lat == 0 || self.sim.chance(1, 2) {
            0
        } else {
            self.sim.stat("slow_callback");
            self.sim.draw((self.plan.lat / 1000) as u32 + 1) as u64 * 1000
        };
        Sleep::new(&self.sim, d)
    }
    fn decision(v: &Verdict) -> Decision {
        match v.reject {
            None => Decision::Accept,
            Some((c, ref t)) => Decision::Reject(Refusal { code: ReplyCode::custom(c), msg: SmtpString::from(&t[..]) }),
        }
    }

    /// What a policy would look at: the parts of an address agree with the whole
    fn inspect(&self, e: &Email) {
        let wire = wire_form(e);
        let (raw, plain) = model::local_part(&wire);
        let host = wire.len() > raw.len();
        if e.raw_localpart().bytes()[..] != *raw || e.localpart().bytes()[..] != plain[..] || e.hostname().is_some() != host {
            self.sim.fail(
                "envelope",
                format!(
                    "session#{}: the address {} is presented with local part {} (unquoted {}){}, it must be {} ({})",
                    self.plan.id,
                    show(&wire),
                    show(&e.raw_localpart().bytes()[..]),
                    show(&e.localpart().bytes()[..]),
                    if e.hostname().is_some() { " and a host" } else { "" },
                    show(raw),
                    show(&plain)
                ),
            );
        }
    }

    async fn new_mail(&mut self) {
        self.call(Call::NewMail);
        self.latency().await;
        self.end("new-mail");
    }
    async fn from(&mut self, from: &mut Option<Email>, cm: &mut ConnectionMetadata<u64>) -> Decision {
        self.call(Call::From { from: wire_opt(from), user: cm.user.wrapping_sub(self.base()) });
        if let Some(e) = from {
            self.inspect(e);
        }
        let v = self.next();
        self.latency().await;
        match v.rewrite {
            Rewrite::Addr(ref a) => *from = Some(addr(a)),
            Rewrite::Null => *from = None,
            _ => (),
        }
        cm.user += 1;
        self.end("sender");
        Core::decision(&v)
    }
    async fn to(&mut self, to: &mut Email, m: &mut MailMetadata, cm: &mut ConnectionMetadata<u64>) -> Decision {
        self.call(Call::To {
            to: wire_form(to),
            from: wire_opt(&m.from),
            rcpts: m.to.iter().map(wire_form).collect(),
            user: cm.user.wrapping_sub(self.base()),
        });
        self.inspect(to);
        let v = self.next();
        self.latency().await;
        match v.rewrite {
            Rewrite::Addr(ref a) => *to = addr(a),
            Rewrite::MetaFrom(ref a) => m.from = Some(addr(a)),
            Rewrite::AddRcpt(ref a) => m.to.push(addr(a)),
            Rewrite::DropLast if m.to.len() > 1 => {
                m.to.pop();
            }
            _ => (),
        }
        cm.user += 1;
        self.end("recipient");
        Core::decision(&v)
    }
    async fn data(&mut self, m: &mut MailMetadata, cm: &mut ConnectionMetadata<u64>) -> Decision {
        self.call(Call::Data { from: wire_opt(&m.from), rcpts: m.to.iter().map(wire_form).collect(), user: cm.user.wrapping_sub(self.base()) });
        let v = self.next();
        self.latency().await;
        match v.rewrite {
            Rewrite::MetaFrom(ref a) => m.from = Some(addr(a)),
            Rewrite::AddRcpt(ref a) => m.to.push(addr(a)),
            Rewrite::DropLast if m.to.len() > 1 => {
                m.to.pop();
            }
            _ => (),
        }
        cm.user += 1;
        self.end("data");
        Core::decision(&v)
    }
    async fn handle<S>(&mut self, ds: &mut DataStream<'_, S>, m: MailMetadata, cm: &mut ConnectionMetadata<u64>) -> Decision
    where
        S: Unpin + Stream<Item = BytesMut>,
    {
        self.call(Call::Handle { from: wire_opt(&m.from), rcpts: m.to.iter().map(wire_form).collect(), user: cm.user.wrapping_sub(self.base()) });
        let v = self.next();
        if self.sim.chance(1, 4) {
            self.latency().await;
        }
        {
            let mut r = self.rec.lock().unwrap();
            let k = r.handles;
            r.handles += 1;
            let have = r.complete;
            drop(r);
            if self.goahead.get(k).map_or(true, |&g| have <= g) {
                self.sim.fail("ack", format!("session#{}: the mail handler asks for the message before the go-ahead has been sent", self.plan.id));
            }
        }
        let mut body = Vec::new();
        if let Some(l) = self.plan.leave.filter(|l| l.nth + 1 == self.rec.lock().unwrap().handles) {
            let mut over = false;
            for _ in 0..l.blocks {
                over = ds.next().await.map(|b| body.extend_from_slice(&b)).is_none();
                if over {
                    break;
                }
            }
            self.latency().await;
            self.sim.stat("unfinished_message");
            self.sim.log(46, over as u64, l.claim as u64, || format!("session#{}: the handler returns after {} bytes of its message, {}", self.plan.id, body.len(), if l.claim { "claiming to have finished it" } else { "without finishing it" }));
            {
                let mut r = self.rec.lock().unwrap();
                r.left = true;
                r.ended += 1;
            }
            if l.claim {
                // (may well panic)
                let _ = ds.complete();
                self.rec.lock().unwrap().told = true;
            }
            cm.user += 1;
            return Core::decision(&v);
        }
        while let Some(b) = ds.next().await {
            self.sim.log(43, hash_bytes(&b), b.len() as u64, || format!("session#{}: handler gets {:?}", self.plan.id, show(&b)));
            body.extend_from_slice(&b);
            if self.plan.handler_slow > 0 && self.sim.chance(self.plan.handler_slow, 64) {
                self.sim.stat("slow_handler");
                Sleep::new(&self.sim, 30 * MS).await;
            }
        }
        let complete = ds.complete().is_ok();
        self.latency().await;
        cm.user += 1;
        let accepted = complete && v.reject.is_none();
        {
            let mut r = self.rec.lock().unwrap();
            r.evs.push(Ev::Handled { body, complete, accepted });
            r.ended += 1;
        }
        self.sim.log(44, complete as u64, accepted as u64, || {
            format!("session#{}: handler finishes: message {}, {}", self.plan.id, if complete { "complete" } else { "incomplete" }, if accepted { "accepted" } else { "refused" })
        });
        if !complete {
            return Decision::Reject(Refusal { code: ReplyCode::custom(model::INCOMPLETE.0), msg: SmtpString::from(model::INCOMPLETE.1) });
        }
        Core::decision(&v)
    }
}

fn show_call(c: &Call) -> String {
    let o = |f: &Option<Vec<u8>>| f.as_ref().map_or("<>".to_string(), |x| show(x));
    let l = |r: &Vec<Vec<u8>>| {
        if r.len() > 6 {
            format!("{} recipients", r.len())
        } else {
            r.iter().map(|x| show(x)).collect::<Vec<_>>().join(", ")
        }
    };
    match c {
        Call::NewMail => "new_mail".into(),
        Call::From { from, user } => format!("filter_from({}) user={}", o(from), user),
        Call::To { to, from, rcpts, user } => format!("filter_to({}; from {}, to [{}]) user={}", show(to), o(from), l(rcpts), user),
        Call::Data { from, rcpts, user } => format!("filter_data(from {}, to [{}]) user={}", o(from), l(rcpts), user),
        Call::Handle { from, rcpts, user } => format!("handle_mail(from {}, to [{}]) user={}", o(from), l(rcpts), user),
    }
}
fn show_ev(e: &Ev) -> String {
    match e {
        Ev::Call(c) => show_call(c),
        Ev::Handled { body, complete, accepted } => format!("message {:?} complete={} accepted={}", show(body), complete, accepted),
    }
}

type Fut<'a, T> = Pin<Box<dyn 'a + Send + Future<Output = T>>>;

macro_rules! common {
    () => {
        fn filter_from<'a>(&'a mut self, from: &'a mut Option<Email>, cm: &'a mut ConnectionMetadata<u64>) -> Fut<'a, Decision> {
            Box::pin(self.0.from(from, cm))
        }
        fn filter_to<'a>(&'a mut self, to: &'a mut Email, m: &'a mut MailMetadata, cm: &'a mut ConnectionMetadata<u64>) -> Fut<'a, Decision> {
            Box::pin(self.0.to(to, m, cm))
        }
        fn handle_mail<'a, S>(&'a mut self, ds: &'a mut DataStream<S>, m: MailMetadata, cm: &'a mut ConnectionMetadata<u64>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
        where
            S: 'a + Unpin + Stream<Item = BytesMut>,
        {
            Box::pin(self.0.handle(ds, m, cm))
        }
        fn hostname(&self) -> SmtpString {
            SmtpString::from(&self.0.plan.host[..])
        }
    };
}
macro_rules! optional {
    () => {
        fn new_mail<'a>(&'a mut self) -> Fut<'a, ()> {
            Box::pin(self.0.new_mail())
        }
        fn filter_data<'a>(&'a mut self, m: &'a mut MailMetadata, cm: &'a mut ConnectionMetadata<u64>) -> Fut<'a, Decision> {
            Box::pin(self.0.data(m, cm))
        }
    };
}
macro_rules! texts {
    ($($f:ident => $t:ident),*) => { $(fn $f(&self) -> (ReplyCode, SmtpString) { rtext((&self.0.plan.texts.$t, ())) })* };
}

/// Everything left at its default
struct CfgA(Core);
impl Config<u64> for CfgA {
    common!();
}
/// Everything overridden
struct CfgB(Core);
impl Config<u64> for CfgB {
    common!();
    optional!();
    texts!(welcome_banner => welcome, mail_okay => mail_ok, rcpt_okay => rcpt_ok, data_okay => data_ok, mail_accepted => accepted, already_in_mail => in_mail,
        rcpt_before_mail => rcpt_first, data_before_rcpt => data_no_rcpt, data_before_mail => data_no_mail, command_unimplemented => unimpl,
        command_unrecognized => unrec);
}
/// The shared texts overridden
struct CfgC(Core);
impl Config<u64> for CfgC {
    common!();
    optional!();
    texts!(okay => mail_ok, bad_sequence => in_mail);
    fn banner(&self) -> SmtpString {
        SmtpString::from(&self.0.plan.banner[..])
    }
}

// ------------------------------------------------------------------ plan generation

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bias {
    General,
    Hostile,
    Texts,
    Transfers,
    LongDialogue,
}

fn draw_verdict(sim: &Sim, bias: Bias) -> Verdict {
    let rej = match bias {
        Bias::Transfers => 8,
        Bias::Texts => 32,
        _ => 16,
    };
    let reject = if sim.chance(rej, 64) { Some((gen::code(sim), gen::text(sim))) } else { None };
    let rewrite = match sim.weighted(&[10, 2, 1, 1, 1, 1]) {
        5 => Rewrite::AddRcpt(sim.pick(&[&b"alias@example.net"[..], b"postmaster", b"\"al ias\"@x.y", b"alice@example.org"]).to_vec()),
        0 => Rewrite::None,
        1 => Rewrite::Addr(sim.pick(&[&b"rewritten@example.net"[..], b"\"re written\"@[127.0.0.1]", b"root", b"x@y.z"]).to_vec()),
        2 => Rewrite::Null,
        3 => Rewrite::MetaFrom(b"other@example.com".to_vec()),
        _ => Rewrite::DropLast,
    };
    Verdict { reject, rewrite }
}

fn rep(code: u16, text: &[u8]) -> Reply {
    Reply { code, text: text.to_vec() }
}

pub fn draw_plan(sim: &Sim, id: u64, bias: Bias) -> Plan {
    let which = sim.weighted(&[3, 4, 2]) as u32;
    let host: Vec<u8> = match sim.weighted(&[6, 1]) {
        0 => b"test.example.org".to_vec(),
        _ => gen::text(sim),
    };
    let mut banner = b"Service ready".to_vec();
    let okay = rep(250, b"Okay");
    let seq = rep(503, b"Bad sequence of commands");
    let mut texts = Texts {
        welcome: rep(220, b""),
        mail_ok: okay.clone(),
        rcpt_ok: okay.clone(),
        data_ok: rep(354, b"Start mail input; end with <CRLF>.<CRLF>"),
        accepted: okay.clone(),
        in_mail: seq.clone(),
        rcpt_first: seq.clone(),
        data_no_rcpt: seq.clone(),
        data_no_mail: seq.clone(),
        unimpl: rep(502, b"Command not implemented"),
        unrec: rep(500, b"Command not recognized"),
    };
    if which == 1 {
        // every text its own, so that a reply in the wrong place is seen
        let odd = if bias == Bias::Texts { 32 } else { 10 };
        let t = |code: u16, d: &[u8]| {
            if sim.chance(odd, 64) {
                Reply { code: if sim.chance(1, 3) { gen::code(sim) } else { code }, text: gen::text(sim) }
            } else {
                rep(code, d)
            }
        };
        texts = Texts {
            welcome: t(220, b"hello"),
            mail_ok: t(250, b"sender ok"),
            rcpt_ok: t(250, b"recipient ok"),
            data_ok: t(354, b"go ahead"),
            accepted: t(250, b"taken"),
            in_mail: t(503, b"already in mail"),
            rcpt_first: t(503, b"MAIL first"),
            data_no_rcpt: t(503, b"RCPT first"),
            data_no_mail: t(503, b"MAIL and RCPT first"),
            unimpl: t(502, b"not implemented"),
            unrec: t(500, b"what?"),
        };
    } else {
        if which == 2 {
            if sim.chance(1, 2) {
                banner = gen::text(sim);
            }
            let ok = if sim.chance(1, 2) { Reply { code: 250, text: gen::text(sim) } } else { rep(250, b"fine") };
            let sq = if sim.chance(1, 2) { Reply { code: gen::code(sim), text: gen::text(sim) } } else { rep(503, b"wrong order") };
            texts.mail_ok = ok.clone();
            texts.rcpt_ok = ok.clone();
            texts.accepted = ok;
            texts.in_mail = sq.clone();
            texts.rcpt_first = sq.clone();
            texts.data_no_rcpt = sq.clone();
            texts.data_no_mail = sq;
        }
        let mut w = host.clone();
        w.push(b' ');
        w.extend_from_slice(&banner);
        texts.welcome = rep(220, &w);
    }
    let prof = Profile { new_mail: which != 0, data_filter: which != 0 };

    // the dialogue
    let mut verdicts: Vec<Verdict> = Vec::new();
    let mut input: Vec<u8> = Vec::new();
    let mut units: Vec<usize> = Vec::new();
    let big = sim.chance(1, match bias { Bias::Hostile => 5, _ => 16 });
    let n = match bias {
        Bias::LongDialogue => sim.range(60, 400),
        _ => match sim.weighted(&[6, 6, 1]) {
            0 => sim.draw(6),
            1 => sim.range(4, 16),
            _ => sim.range(16, 60),
        },
    };
    // one behaviour for a whole stretch makes long transactions (many recipients) likely
    let mut stretch: Option<u32> = None;
    let mut prev_state = 0u32; // rough guess of where the dialogue is
    while (units.len() as u32) < n {
        let w: [u32; 5] = match bias {
            Bias::Hostile => [3, 3, 2, 3, 14],
            Bias::Transfers => [8, 8, 8, 1, 1],
            _ => [6, 7, 5, 3, 3],
        };
        // follow the usual order most of the time
        let kind = if let Some(k) = stretch {
            if sim.chance(1, 12) {
                stretch = None;
            }
            k
        } else if sim.chance(if bias == Bias::Hostile { 1 } else { 3 }, 5) {
            prev_state
        } else {
            sim.weighted(&w) as u32
        };
        if bias == Bias::LongDialogue && stretch.is_none() && sim.chance(1, 20) {
            stretch = Some(sim.draw(5));
        }
        let mut is_data = false;
        match kind {
            0 => {
                input.extend(gen::mail_cmd(sim));
                prev_state = 1;
            }
            1 => {
                input.extend(gen::rcpt_cmd(sim));
                prev_state = if sim.chance(1, 3) { 1 } else { 2 };
            }
            2 => {
                input.extend(gen::data_cmd(sim));
                prev_state = 0;
                is_data = true;
            }
            3 => input.extend(gen::other_cmd(sim)),
            _ => input.extend(gen::bad_line(sim, big)),
        }
        units.push(input.len());
        if is_data || kind == 4 {
            let m = model::session(&input, &texts, prof, &mut |i| {
                while verdicts.len() <= i {
                    let v = draw_verdict(sim, bias);
                    verdicts.push(v);
                }
                verdicts[i].clone()
            });
            let want_body = if m.mid_data { !sim.chance(1, 24) } else { is_data && sim.chance(1, 10) };
            if want_body {
                let b = match sim.weighted(&[6, 1]) {
                    0 => model::encode_full(&gen::body(sim, big)),
                    _ => {
                        let mut b = gen::raw_data(sim, big);
                        if model::decode(&b).end.is_none() {
                            b.extend_from_slice(b"\r\n.\r\n");
                        }
                        b
                    }
                };
                // sometimes in several sends
                if sim.chance(1, 3) {
                    let mut at = 0;
                    for _ in 0..sim.draw(4) {
                        at += sim.draw((b.len() - at) as u32 + 1) as usize;
                        if at > 0 && at < b.len() {
                            units.push(input.len() + at);
                        }
                    }
                }
                input.extend(b);
                units.push(input.len());
                units.dedup();
            }
        }
    }
    if sim.chance(1, 8) {
        // an unfinished line at the end
        let l = gen::mail_cmd(sim);
        let k = sim.draw(l.len() as u32 - 1) as usize;
        input.extend_from_slice(&l[..k]);
        if k > 0 {
            units.push(input.len());
        }
    }
    // draw the remaining verdicts
    model::session(&input, &texts, prof, &mut |i| {
        while verdicts.len() <= i {
            let v = draw_verdict(sim, bias);
            verdicts.push(v);
        }
        verdicts[i].clone()
    });
    Plan {
        id,
        input,
        units,
        verdicts,
        texts,
        which,
        prof,
        host,
        banner,
        lat: if sim.chance(1, 24) { HOUR } else { *sim.pick(&[0, 0, MS, 200 * MS, 30 * SEC]) },
        handler_slow: *sim.pick(&[0, 0, 12]),
        leave: None,
    }
}

// ------------------------------------------------------------------ one served connection

pub struct Session {
    pub plan: Arc<Plan>,
    pub inp: In,
    pub out: Out,
    pub rec: Arc<Mutex<Rec>>,
    pub client: Arc<Mutex<Client>>,
    pub group: u32,
    pub eof_sent: bool,
}

pub struct Client {
    /// replies due per unit: number of complete replies which must have arrived before the next unit may be sent
    need: Vec<usize>,
    next: usize,
    window: usize,
    think: u64,
    seen: Vec<u8>,
    line: usize,
    pub complete: usize,
    close_after: bool,
    pub closed: bool,
    /// thinking before a send
    busy: bool,
    /// the client stops reading and writing after this many units
    pub stop_after: usize,
}

fn pump(sim: &Sim, cl: &Arc<Mutex<Client>>, inp: &In, plan: &Arc<Plan>) {
    loop {
        let (from, to, think) = {
            let mut c = cl.lock().unwrap();
            if c.busy {
                return;
            }
            if c.next >= plan.units.len() {
                if c.close_after && !c.closed {
                    c.closed = true;
                    drop(c);
                    inp.close();
                }
                return;
            }
            if c.next >= c.stop_after {
                return;
            }
            // wait for the replies to unit next - window
            let ok = c.next < c.window || c.complete >= c.need[c.next - c.window];
            if !ok {
                return;
            }
            let from = if c.next == 0 { 0 } else { plan.units[c.next - 1] };
            let to = plan.units[c.next];
            c.next += 1;
            (from, to, c.think)
        };
        if think > 0 && sim.chance(1, 2) {
            let d = sim.draw((think / 1000) as u32) as u64 * 1000 + 1;
            let (c2, i2, p2) = (cl.clone(), inp.clone(), plan.clone());
            cl.lock().unwrap().busy = true;
            sim.after(d, move |sim| {
                c2.lock().unwrap().busy = false;
                i2.inject(&p2.input[from..to]);
                pump(sim, &c2, &i2, &p2);
            });
            return;
        }
        inp.inject(&plan.input[from..to]);
    }
}

/// Number of complete replies in the newly seen bytes
fn scan(seen: &[u8], line: &mut usize, complete: &mut usize) {
    while let Some(p) = seen[*line..].windows(2).position(|w| w == b"\r\n") {
        let l = &seen[*line..*line + p];
        if l.len() < 4 || l[3] != b'-' {
            *complete += 1;
        }
        *line += p + 2;
    }
}

pub struct Conn {
    pub window: usize,
    pub think: u64,
    pub close_after: bool,
    pub stop_after: usize,
}

pub fn serve(sim: &Sim, group: u32, plan: Plan, ik: InKnobs, ok: OutKnobs, conn: Conn) -> Session {
    let plan = Arc::new(plan);
    let id = plan.id;
    sim.log(93, hash_bytes(&plan.input), id, || {
        let mut t = format!("session#{}: embedder variant {}, callback latency up to {}ms, client window {}, think {}ms\n    network {:?}\n    writer {:?}\n    client will send:", id, ["defaults", "all overridden", "shared texts overridden"][plan.which as usize], plan.lat / MS, conn.window, conn.think / MS, ik, ok);
        let mut from = 0;
        for (i, &u) in plan.units.iter().enumerate() {
            if i >= 60 {
                t.push_str(&format!("\n      … {} more units", plan.units.len() - i));
                break;
            }
            t.push_str(&format!("\n      {:?}", show(&plan.input[from..u])));
            from = u;
        }
        t
    });
    let m = plan.model(&plan.input);
    // calls that must have ended before reply r may be handed over; go-ahead positions
    let mut need_calls = Vec::new();
    let mut goahead = Vec::new();
    let mut calls = 0;
    for e in &m.exp {
        match e {
            Exp::Call { c: Call::Handle { .. }, .. } => (),
            Exp::Call { .. } | Exp::Handled { .. } => calls += 1,
            Exp::Reply { kind, .. } => {
                if *kind == Kind::GoAhead {
                    goahead.push(need_calls.len());
                }
                need_calls.push(calls);
            }
        }
    }
    // replies a client may wait for after each unit
    let dues: Vec<usize> = m
        .exp
        .iter()
        .filter_map(|e| match e {
            Exp::Reply { kind: Kind::Final { complete: false, .. }, .. } => None,
            Exp::Reply { due, .. } => Some(*due),
            _ => None,
        })
        .collect();
    let need: Vec<usize> = plan.units.iter().map(|&u| dues.iter().take_while(|&&d| d <= u).count()).collect();

    let inp = In::new(sim, id * 2 + 1, ik);
    let rec = Arc::new(Mutex::new(Rec::default()));
    let client = Arc::new(Mutex::new(Client {
        need,
        next: 0,
        window: conn.window,
        think: conn.think,
        seen: Vec::new(),
        line: 0,
        complete: 0,
        close_after: conn.close_after,
        closed: false,
        busy: false,
        stop_after: conn.stop_after,
    }));
    let deliver = {
        let (client, inp, plan) = (client.clone(), inp.clone(), plan.clone());
        Arc::new(move |sim: &Sim, b: &[u8]| {
            {
                let mut c = client.lock().unwrap();
                let c = &mut *c;
                c.seen.extend_from_slice(b);
                scan(&c.seen, &mut c.line, &mut c.complete);
            }
            pump(sim, &client, &inp, &plan);
        })
    };
    let on_hand = {
        let rec = rec.clone();
        Arc::new(move |sim: &Sim, _off: usize, b: &[u8]| {
            let mut r = rec.lock().unwrap();
            let r = &mut *r;
            r.wire.extend_from_slice(b);
            // `done_off` is the start of the first incomplete line; a reply is begun once it has a byte
            let (mut line, mut complete) = (r.done_off, r.complete);
            let ended = r.ended;
            let mut begun = r.begun;
            loop {
                // a reply begins if there are bytes behind the last complete one
                let start_of_reply = begun == complete;
                if start_of_reply && r.wire.len() > line {
                    match need_calls.get(begun) {
                        None => sim.fail("reply", format!("session#{}: more replies than commands: {:?}", id, show(&r.wire[line..]))),
                        Some(&k) if ended < k => sim.fail("ack", format!("session#{}: reply {:?} is sent before the callback that decides it has answered", id, show(&r.wire[line..]))),
                        _ => (),
                    }
                    begun += 1;
                }
                match r.wire[line..].windows(2).position(|w| w == b"\r\n") {
                    None => break,
                    Some(p) => {
                        let l = &r.wire[line..line + p];
                        if l.len() < 4 || l[3] != b'-' {
                            complete += 1;
                        }
                        line += p + 2;
                    }
                }
            }
            r.done_off = line;
            r.complete = complete;
            r.begun = begun;
        })
    };
    let out = Out::new(sim, id * 2 + 2, ok, deliver, Some(on_hand));
    let core = Core { sim: sim.clone(), plan: plan.clone(), rec: rec.clone(), out: out.clone(), goahead: Arc::new(goahead), nv: 0 };
    {
        let (sim, inp, out, rec, plan) = (sim.clone(), inp.clone(), out.clone(), rec.clone(), plan.clone());
        set_group(group);
        spawn3("session", async move {
            let mut w = Writer(out);
            let user = plan.id * 1_000_000;
            let f = async {
                match plan.which {
                    0 => interact(Reader(inp), Pin::new(&mut w), user, &mut CfgA(core)).await,
                    1 => interact(Reader(inp), Pin::new(&mut w), user, &mut CfgB(core)).await,
                    _ => interact(Reader(inp), Pin::new(&mut w), user, &mut CfgC(core)).await,
                }
            };
            let r = if plan.leave.is_some() {
                // a session may refuse to go on by panicking once its handler has left a message unfinished
                match std::panic::AssertUnwindSafe(f).catch_unwind().await {
                    Ok(r) => r,
                    Err(_) if rec.lock().unwrap().left => {
                        crate::driver::forget_panic();
                        Err(())
                    }
                    Err(e) => std::panic::resume_unwind(e),
                }
            } else {
                f.await
            };
            sim.log(45, r.is_ok() as u64, plan.id, || format!("session#{}: session ends: {:?}", plan.id, r));
            rec.lock().unwrap().result = Some(r);
        });
        set_group(0);
    }
    let s = Session { plan: plan.clone(), inp: inp.clone(), out, rec, client: client.clone(), group, eof_sent: false };
    pump(sim, &client, &inp, &plan);
    s
}

// ------------------------------------------------------------------ verdict over a finished or settled session

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Scope {
    /// everything due must be there, and nothing else
    Exact,
    /// what is there must be a prefix of what is right
    Prefix,
}

pub fn judge(sim: &Sim, s: &Session, scope: Scope) -> u64 {
    let delivered = s.inp.st.lock().unwrap().delivered;
    let eof = s.inp.st.lock().unwrap().eof_seen;
    let m = s.plan.model(&s.plan.input[..delivered]);
    let id = s.plan.id;
    let r = s.rec.lock().unwrap();
    // replies
    let exp: Vec<(&Reply, &Kind)> = m
        .exp
        .iter()
        .filter_map(|e| match e {
            Exp::Reply { kind: Kind::Final { complete: false, .. }, .. } if !eof => None,
            Exp::Reply { r, kind, .. } => Some((r, kind)),
            _ => None,
        })
        .collect();
    match model::parse_replies(&r.wire) {
        Err(e) => sim.fail("malformed", format!("session#{}: {}; wire {:?}", id, e, show(&r.wire))),
        Ok((got, used)) => {
            for (i, g) in got.iter().enumerate() {
                match exp.get(i) {
                    None => {
                        sim.fail("reply", format!("session#{}: reply {} ({} {:?}) is one too many", id, i, g.code, show(&g.text)));
                        break;
                    }
                    Some((w, k)) => {
                        if *g != **w {
                            let class = match k {
                                Kind::Final { .. } => "final-reply",
                                _ => "reply",
                            };
                            sim.fail(class, format!("session#{}: reply {} must be {} {:?} ({:?}), is {} {:?}", id, i, w.code, show(&w.text), k, g.code, show(&g.text)));
                            break;
                        }
                    }
                }
            }
            let rest = &r.wire[used..];
            if scope == Scope::Exact {
                if got.len() < exp.len() && !sim.failed() {
                    sim.fail("reply-missing", format!("session#{}: {} replies are due, {} were sent; next due: {} {:?}", id, exp.len(), got.len(), exp[got.len()].0.code, show(&exp[got.len()].0.text)));
                }
                if !rest.is_empty() {
                    sim.fail("malformed", format!("session#{}: unfinished reply at the end of the output: {:?}", id, show(rest)));
                }
            } else if !rest.is_empty() && !sim.failed() {
                // a reply cut short: what is there must be a beginning of the right one
                match exp.get(got.len()) {
                    None => sim.fail("reply", format!("session#{}: bytes behind the last due reply: {:?}", id, show(rest))),
                    Some((w, _)) => {
                        let (lines, tail) = model::reply_lines(rest);
                        let mut text = Vec::new();
                        let code = format!("{:03}", w.code);
                        let mut bad = false;
                        for l in lines.iter().chain(std::iter::once(&tail)) {
                            let k = l.len().min(3);
                            bad |= l[..k] != code.as_bytes()[..k];
                            if l.len() > 4 {
                                text.extend_from_slice(&l[4..]);
                            }
                        }
                        while text.last() == Some(&b'\r') {
                            text.pop();
                        }
                        if bad || !w.text.starts_with(&text) {
                            sim.fail("reply", format!("session#{}: cut-off reply {:?} is no beginning of {} {:?}", id, show(rest), w.code, show(&w.text)));
                        }
                    }
                }
            }
        }
    }
    // callbacks
    let want: Vec<Ev> = m
        .exp
        .iter()
        .filter_map(|e| match e {
            Exp::Call { c, .. } => Some(Ev::Call(c.clone())),
            Exp::Handled { complete: false, .. } if !eof => None,
            Exp::Handled { body, complete, accepted } => Some(Ev::Handled { body: body.clone(), complete: *complete, accepted: *accepted }),
            _ => None,
        })
        .collect();
    for (i, g) in r.evs.iter().enumerate() {
        let same = match (g, want.get(i)) {
            (Ev::Handled { body: b, complete: false, .. }, Some(Ev::Handled { body: w, complete: false, .. })) => w.starts_with(b),
            (g, Some(w)) => g == w,
            _ => false,
        };
        if !same {
            let class = match (g, want.get(i)) {
                (Ev::Handled { complete: a, .. }, Some(Ev::Handled { complete: b, .. })) if a != b => "completion",
                (Ev::Handled { .. }, Some(Ev::Handled { .. })) => "body",
                _ => "envelope",
            };
            sim.fail(class, format!("session#{}: callback event {} must be {}, is {}", id, i, want.get(i).map_or("absent".into(), show_ev), show_ev(g)));
            break;
        }
    }
    if scope == Scope::Exact && r.evs.len() < want.len() && !sim.failed() {
        sim.fail("envelope", format!("session#{}: callback event {} is missing: {}", id, r.evs.len(), show_ev(&want[r.evs.len()])));
    }
    sim.stat_n("commands", m.commands);
    sim.stat_n("messages", m.mails);
    m.state_hash
}

fn settle(sim: &Sim, ex: &mut Exec) -> bool {
    match ex.run(u64::MAX / 4, |s| s.failed()) {
        Stop::Overrun => {
            sim.fail("spin", "the sessions do not settle within the step limit");
            false
        }
        _ => !sim.failed(),
    }
}

fn check_ended(sim: &Sim, s: &Session) {
    let r = s.rec.lock().unwrap().result;
    match r {
        None => sim.fail("eof", format!("session#{}: the input has ended but the session does not end", s.plan.id)),
        Some(Err(())) => sim.fail("eof", format!("session#{}: the session ends with a failure although nothing failed", s.plan.id)),
        Some(Ok(())) => (),
    }
    let n = s.inp.st.lock().unwrap().reads_after_end;
    if n > 0 {
        sim.fail("eof-reread", format!("session#{}: the input is read again after it had signalled its end", s.plan.id));
    }
}

/// All replies due have reached the client
fn check_answered(sim: &Sim, s: &Session) {
    let delivered = s.inp.st.lock().unwrap().delivered;
    let arrived = s.inp.st.lock().unwrap().arrived.len();
    let m = s.plan.model(&s.plan.input[..arrived]);
    let due = m
        .exp
        .iter()
        .filter(|e| match e {
            Exp::Reply { kind: Kind::Final { complete: false, .. }, .. } => false,
            Exp::Reply { .. } => true,
            _ => false,
        })
        .count();
    let c = s.client.lock().unwrap();
    if c.complete < due {
        sim.fail(
            "stall",
            format!("session#{}: the client waits: {} replies are due for the {} bytes that arrived ({} read), {} have reached it", s.plan.id, due, arrived, delivered, c.complete),
        );
    } else if c.next < s.plan.units.len().min(c.stop_after) {
        sim.fail("stall", format!("session#{}: the client is stuck before unit {}", s.plan.id, c.next));
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Focus {
    Replies,
    Envelope,
    Ack,
    Waiting,
    WriteFail,
    Eof,
    Format,
    Hostile,
    Truncate,
    Unfinished,
}

pub fn run(sim: &Sim, focus: Focus) -> Outcome {
    let mut ex = Exec::new(sim, false);
    ex.spurious = *sim.pick(&[0, 0, 20]);
    let bias = match focus {
        Focus::Hostile => *sim.pick(&[Bias::Hostile, Bias::Hostile, Bias::General]),
        Focus::Format => *sim.pick(&[Bias::Texts, Bias::Texts, Bias::General]),
        Focus::Truncate | Focus::Ack | Focus::Unfinished => *sim.pick(&[Bias::Transfers, Bias::General]),
        _ => *sim.pick(&[Bias::General, Bias::Transfers, Bias::Texts]),
    };
    let often = matches!(focus, Focus::Replies | Focus::Envelope | Focus::Hostile);
    let bias = if sim.chance(1, if often { 40 } else { 120 }) { Bias::LongDialogue } else { bias };
    let mut plan = draw_plan(sim, 0, bias);
    if focus == Focus::Hostile && sim.chance(1, 60) {
        flood(sim, &mut plan);
    }
    if matches!(focus, Focus::Replies | Focus::Envelope) && sim.chance(1, 250) {
        crowd(sim, &mut plan);
    }
    let bulk = matches!(focus, Focus::Replies | Focus::Envelope | Focus::Ack | Focus::Hostile | Focus::Waiting) && sim.chance(1, 1500);
    if bulk {
        bulk_session(sim, &mut plan);
    }
    if focus == Focus::Unfinished {
        smuggle(sim, &mut plan);
    }
    let mut ik = InKnobs::draw(sim);
    let mut ok = OutKnobs::draw(sim);
    if plan.input.len() > 20_000 {
        ik.seg = if ik.seg == 1 { 2 } else { ik.seg };
    }
    if bulk {
        ik.seg = if ik.seg == 2 { 3 } else { ik.seg };
    }
    ex.max_steps += work(&plan);
    // which disturbance
    let mut close_after = sim.chance(1, 4);
    let mut reset_at = None;
    let mut abort_at = None;
    let wf = match focus {
        Focus::WriteFail => true,
        Focus::Ack => sim.chance(1, 4),
        _ => false,
    };
    if wf {
        let total: usize = plan.model(&plan.input).exp.iter().map(|e| if let Exp::Reply { r, .. } = e { 1 + r.text.len() / 506 } else { 0 }).sum();
        match sim.weighted(&[4, 1, 1]) {
            0 => ok.fail_at = Some(1 + sim.draw(5 * total as u32 + 4)),
            1 => ok.fail_bytes = Some(sim.draw(30 * total as u32 + 20) as usize),
            _ => ok.fail_at = Some(1 + sim.draw(12)),
        }
        ok.recovers = sim.chance(1, 3);
    }
    let cut = match focus {
        Focus::Eof | Focus::Truncate => sim.chance(3, 4),
        Focus::Ack => sim.chance(1, 4),
        _ => false,
    };
    if cut && !plan.input.is_empty() {
        let mut at = sim.draw(plan.input.len() as u32 + 1) as usize;
        if focus == Focus::Truncate || sim.chance(1, 3) {
            // inside or at the edge of a message
            let m = plan.model(&plan.input);
            let mut spans = Vec::new();
            let mut go = None;
            for e in &m.exp {
                match e {
                    Exp::Reply { kind: Kind::GoAhead, due, .. } => go = Some(*due),
                    Exp::Reply { kind: Kind::Final { .. }, due, .. } => {
                        if let Some(g) = go.take() {
                            spans.push((g, *due))
                        }
                    }
                    _ => (),
                }
            }
            if !spans.is_empty() {
                let (a, b) = *sim.pick(&spans);
                at = match sim.draw(2) {
                    0 => a + sim.draw((b - a) as u32 + 1) as usize,
                    _ => b.saturating_sub(sim.draw(7) as usize).max(a),
                };
            }
        }
        sim.stat("input_cut");
        plan.input.truncate(at);
        plan.units.retain(|&u| u < at);
        if at > 0 {
            plan.units.push(at);
        }
        if focus != Focus::Truncate && focus != Focus::Eof && sim.chance(1, 2) {
            close_after = true;
        } else if focus == Focus::Truncate || focus == Focus::Eof {
            close_after = sim.chance(1, 2);
        }
    }
    if matches!(focus, Focus::Eof | Focus::Ack | Focus::Truncate) && sim.chance(1, 5) {
        reset_at = Some(sim.draw(5000) as u64 * *sim.pick(&[US, 100 * US, 20 * MS]));
    }
    if focus == Focus::Ack && sim.chance(1, 6) {
        abort_at = Some(sim.draw(400));
    }
    let window = match focus {
        Focus::Waiting => *sim.pick(&[1, 1, 1, 2, 5]),
        _ => *sim.pick(&[1, 2, usize::MAX, usize::MAX]),
    };
    let think = if sim.chance(1, 24) { *sim.pick(&[HOUR, HOUR, 30 * 24 * HOUR]) } else { *sim.pick(&[0, 0, MS, 20 * SEC]) };
    if sim.chance(1, 16) {
        let (t, by) = (sim.draw(5000) as u64 * *sim.pick(&[US, MS, SEC]), *sim.pick(&[3600i64, -3600, 86400, -86400]) * SEC as i64);
        sim.at(t, move |sim| {
            sim.stat("wall_clock_jump");
            sim.log(17, 0, 0, || format!("the wall clock jumps by {} s", by / SEC as i64));
            crate::interpose::set_wall_skew(by);
        });
    }
    let s = serve(sim, 0, plan, ik, ok, Conn { window, think, close_after, stop_after: usize::MAX });
    if let Some(t) = reset_at {
        let i = s.inp.clone();
        sim.after(t, move |sim| {
            sim.stat("connection_reset");
            sim.log(15, 0, 0, || "the connection is cut".into());
            i.cut_now()
        });
    }
    let mut n = 0;
    let stop = ex.run(u64::MAX / 4, |s| {
        n += 1;
        s.failed() || abort_at.map_or(false, |a| n > a)
    });
    let mut aborted = false;
    match stop {
        Stop::Overrun => sim.fail("spin", "the session does not settle within the step limit"),
        Stop::Until if !sim.failed() => {
            aborted = true;
            sim.stat("session_aborted");
            sim.log(16, 0, 0, || "the session is dropped".into());
            ex.kill_group(0);
        }
        _ => (),
    }
    let mut measure = 0;
    let left = s.rec.lock().unwrap().left;
    if !sim.failed() && left {
        measure = judge_left(sim, &s);
    } else if !sim.failed() {
        let failed = s.out.st.lock().unwrap().failed;
        if aborted {
            measure = judge(sim, &s, Scope::Prefix);
        } else if failed {
            // write failure
            let r = s.rec.lock().unwrap().result;
            match r {
                None => sim.fail("write-fail", "a write has failed but the session goes on"),
                Some(Ok(())) => sim.fail("write-fail", "a write has failed but the session ends with success"),
                Some(Err(())) => (),
            }
            measure = judge(sim, &s, Scope::Prefix);
        } else {
            let eof = s.inp.st.lock().unwrap().eof_seen;
            if !eof {
                check_answered(sim, &s);
                if !sim.failed() && s.rec.lock().unwrap().result.is_some() {
                    sim.fail("reply-missing", "the session ended although the client is still connected");
                }
                measure = judge(sim, &s, Scope::Exact);
                if !sim.failed() {
                    s.inp.close();
                    settle(sim, &mut ex);
                }
            }
            if !sim.failed() && s.rec.lock().unwrap().left {
                measure = judge_left(sim, &s);
            } else if !sim.failed() {
                let failed = s.out.st.lock().unwrap().failed;
                if failed {
                    let r = s.rec.lock().unwrap().result;
                    if r != Some(Err(())) {
                        sim.fail("write-fail", format!("a write has failed but the session's result is {:?}", r));
                    }
                    measure = judge(sim, &s, Scope::Prefix);
                } else {
                    check_ended(sim, &s);
                    measure = judge(sim, &s, Scope::Exact);
                }
            }
        }
        let st = s.out.st.lock().unwrap();
        if st.handed_after_failure > 0 {
            drop(st);
            sim.fail("write-fail", "bytes are handed to the writer after it has failed");
        } else if st.unready_sends > 0 {
            drop(st);
            sim.fail("reply", "bytes are handed to the writer without it being ready");
        }
    }
    let rec = s.rec.lock().unwrap();
    Outcome { nontrivial: rec.complete > 1, measure: mix(measure) }
}

/// Messages full of commands, one of which its handler leaves unfinished
fn smuggle(sim: &Sim, plan: &mut Plan) {
    let mut v = Vec::new();
    let mut units = Vec::new();
    for _ in 0..1 + sim.weighted(&[3, 2, 1]) {
        for _ in 0..sim.draw(3) {
            v.extend(gen::other_cmd(sim));
            units.push(v.len());
        }
        v.extend_from_slice(b"MAIL FROM:<outer@example.org>\r\n");
        units.push(v.len());
        v.extend_from_slice(b"RCPT TO:<someone@example.org>\r\n");
        units.push(v.len());
        v.extend_from_slice(b"DATA\r\n");
        units.push(v.len());
        let mut b = if sim.chance(1, 3) { gen::body(sim, false) } else { Vec::new() };
        for _ in 0..sim.draw(8) {
            match sim.draw(6) {
                0 => b.extend(gen::mail_cmd(sim)),
                1 => b.extend(gen::rcpt_cmd(sim)),
                2 => b.extend_from_slice(b"MAIL FROM:<inner@example.org>\r\n"),
                3 => b.extend_from_slice(b"RCPT TO:<victim@example.org>\r\nDATA\r\n"),
                4 => b.extend(gen::other_cmd(sim)),
                _ => b.extend(gen::body(sim, false)),
            }
        }
        let b = model::encode_full(&b);
        if sim.chance(1, 2) {
            // in several sends
            let mut at = 0;
            for _ in 0..sim.draw(6) {
                at += sim.draw((b.len() - at) as u32 + 1) as usize;
                if at > 0 && at < b.len() {
                    units.push(v.len() + at);
                }
            }
        }
        v.extend(b);
        units.push(v.len());
        units.dedup();
    }
    if sim.chance(1, 2) && plan.input.len() < 3000 {
        let off = v.len();
        v.extend_from_slice(&plan.input);
        units.extend(plan.units.iter().map(|u| u + off));
    }
    let mut verdicts = Vec::new();
    let m = model::session(&v, &plan.texts, plan.prof, &mut |i| {
        while verdicts.len() <= i {
            verdicts.push(if sim.chance(1, 6) { draw_verdict(sim, Bias::General) } else { Verdict { reject: None, rewrite: Rewrite::None } });
        }
        verdicts[i].clone()
    });
    plan.input = v;
    plan.units = units;
    plan.verdicts = verdicts;
    if m.mails > 0 {
        plan.leave = Some(Leave { nth: sim.draw(m.mails.min(6) as u32) as usize, blocks: *sim.pick(&[0, 0, 1, 2, 5, 1000]), claim: sim.chance(1, 3) });
    }
}

/// A handler left its message unfinished: the session may end (in whatever way), or skip the whole
/// message and go on; what it may not do is take the message's bytes for commands, or acknowledge it
fn judge_left(sim: &Sim, s: &Session) -> u64 {
    let delivered = s.inp.st.lock().unwrap().delivered;
    let l = s.plan.leave.unwrap();
    let id = s.plan.id;
    let m = s.plan.model(&s.plan.input[..delivered]);
    let r = s.rec.lock().unwrap();
    let mut want_calls = Vec::new();
    let mut want = Vec::new();
    let (mut n, mut mark, mut whole) = (0, 0, false);
    for e in &m.exp {
        match e {
            Exp::Call { c, .. } => {
                if let Call::Handle { .. } = c {
                    if n == l.nth {
                        mark = want.len();
                    }
                    n += 1;
                }
                want_calls.push(Ev::Call(c.clone()));
            }
            Exp::Handled { body, complete, accepted } => {
                if n == l.nth + 1 {
                    whole = *complete;
                } else {
                    want_calls.push(Ev::Handled { body: body.clone(), complete: *complete, accepted: *accepted });
                }
            }
            Exp::Reply { r, .. } => want.push(r),
        }
    }
    for (i, g) in r.evs.iter().enumerate() {
        let same = match (g, want_calls.get(i)) {
            (Ev::Handled { body: b, complete: false, .. }, Some(Ev::Handled { body: w, complete: false, .. })) => w.starts_with(b),
            (g, Some(w)) => g == w,
            _ => false,
        };
        if !same {
            sim.fail("smuggled", format!("session#{}: after a handler left its message unfinished, callback event {} must be {}, is {}", id, i, want_calls.get(i).map_or("absent".into(), show_ev), show_ev(g)));
            return 0;
        }
    }
    match model::parse_replies(&r.wire) {
        Err(e) => sim.fail("malformed", format!("session#{}: {}; wire {:?}", id, e, show(&r.wire))),
        Ok((got, _)) => {
            for (i, g) in got.iter().enumerate() {
                if i == mark {
                    // refusing is always right; whether a message left unfinished is accepted is up to
                    // its handler, provided that all of it has arrived and is skipped
                    if !whole && !r.told && g.code / 100 == 2 {
                        sim.fail("ack", format!("session#{}: a message that has neither been read nor arrived is acknowledged with {} {:?}", id, g.code, show(&g.text)));
                        return 0;
                    }
                    continue;
                }
                match want.get(i) {
                    Some(w) if *g == **w => (),
                    w => {
                        sim.fail("smuggled", format!("session#{}: after a handler left its message unfinished, reply {} must be {:?}, is {} {:?}", id, i, w.map(|w| (w.code, show(&w.text))), g.code, show(&g.text)));
                        return 0;
                    }
                }
            }
        }
    }
    m.state_hash
}

/// More recipients in one transaction than a table of fixed size would hold
fn crowd(sim: &Sim, plan: &mut Plan) {
    sim.stat("crowd");
    let n = match sim.weighted(&[6, 1]) {
        0 => sim.pick(&[60, 100, 128, 256]) + sim.draw(40),
        _ => sim.pick(&[500, 1000]) + sim.draw(40),
    };
    let mut v = Vec::new();
    let mut units = Vec::new();
    v.extend_from_slice(b"MAIL FROM:<list@example.org>\r\n");
    units.push(v.len());
    let same = sim.chance(1, 6);
    for i in 0..n {
        if sim.chance(1, 40) {
            v.extend(gen::rcpt_cmd(sim));
        } else if same {
            v.extend_from_slice(b"RCPT TO:<all@example.org>\r\n");
        } else {
            v.extend(format!("RCPT TO:<r{}@example.org>\r\n", i).bytes());
        }
        units.push(v.len());
    }
    v.extend_from_slice(b"DATA\r\n");
    units.push(v.len());
    let mut verdicts = Vec::new();
    let picky = *sim.pick(&[0, 0, 4, 32]);
    let m = model::session(&v, &plan.texts, plan.prof, &mut |i| {
        while verdicts.len() <= i {
            verdicts.push(if picky > 0 && sim.chance(picky, 256) { draw_verdict(sim, Bias::General) } else { Verdict { reject: None, rewrite: Rewrite::None } });
        }
        verdicts[i].clone()
    });
    if m.mid_data {
        v.extend(model::encode_full(&gen::body(sim, false)));
        units.push(v.len());
    }
    let off = v.len();
    if !plan.units.is_empty() && plan.input.len() < 3000 {
        v.extend_from_slice(&plan.input);
        units.extend(plan.units.iter().map(|u| u + off));
    }
    plan.input = v;
    plan.units = units;
    plan.verdicts = verdicts;
}

/// Hundreds of kilobytes to megabytes in one session
fn bulk_session(sim: &Sim, plan: &mut Plan) {
    sim.stat("bulk_session");
    let mut total = *sim.pick(&[70_000usize, 140_000, 300_000, 1_100_000, 1_100_000]);
    let mut v = Vec::new();
    let mut units = Vec::new();
    let kind = sim.draw(7);
    if kind == 6 {
        total = 60 * *sim.pick(&[140usize, 300, 1100]);
    } else if kind >= 4 {
        total = (kind as usize - 2) * *sim.pick(&[33_500, 66_500]);
    }
    while v.len() < total {
        match kind {
            // more lines than 16 bits count
            4 => (0..500).for_each(|_| v.extend_from_slice(b"\r\n")),
            5 => (0..500).for_each(|_| v.extend_from_slice(b"x\r\n")),
            // many mails
            6 => v.extend_from_slice(b"MAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nDATA\r\nsome body\r\n.\r\n"),
            0 => {
                for _ in 0..50 {
                    v.extend_from_slice(b"NOOP 0123456789abcdef0123456789abcdef\r\n");
                }
            }
            1 => v.extend(std::iter::repeat(b'g').take(998).chain(b"\r\n".iter().cloned())),
            2 => {
                v.extend_from_slice(b"HELP ");
                v.extend(std::iter::repeat(b'x').take(10_000).chain(b"\r\n".iter().cloned()));
            }
            _ => {
                v.extend_from_slice(b"MAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nDATA\r\n");
                let l = total / 3;
                while v.len() % (l + 1) < l {
                    v.extend_from_slice(b"some line of some mail, of no interest to anybody\r\n");
                }
                v.extend_from_slice(b".\r\n");
            }
        }
        units.push(v.len());
    }
    let off = v.len();
    v.extend_from_slice(&plan.input);
    units.extend(plan.units.iter().map(|u| u + off));
    plan.input = v;
    plan.units = units;
    plan.verdicts.clear();
}

/// Steps a session may take, beyond a fixed allowance
fn work(plan: &Plan) -> u64 {
    let out: usize = plan.model(&plan.input).exp.iter().map(|e| if let Exp::Reply { r, .. } = e { 1 + r.text.len() / 100 } else { 0 }).sum();
    40 * plan.input.len() as u64 + 200 * out as u64
}

/// Many commands, many packets, many dots: depth must not grow with the input
fn flood(sim: &Sim, plan: &mut Plan) {
    let mut v = Vec::new();
    let n = sim.range(500, 4000) as usize;
    match sim.draw(6) {
        0 => (0..n).for_each(|_| v.extend_from_slice(b"NOOP\r\n")),
        1 => (0..n).for_each(|_| v.extend_from_slice(b"\r\n")),
        2 => (0..n).for_each(|_| v.extend_from_slice(b"MAIL FROM:<a@b>\r\n")),
        3 => {
            v.extend_from_slice(b"MAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nDATA\r\n");
            (0..n).for_each(|_| v.extend_from_slice(b"..\r\n"));
            v.extend_from_slice(b".\r\nNOOP\r\n");
        }
        4 => {
            v.extend_from_slice(b"MAIL FROM:<\"");
            (0..n).for_each(|_| v.extend_from_slice(*sim.pick(&[b"\\a", b"xx", b"..", b"@a"])));
            v.extend_from_slice(b"\"@b>\r\nRSET\r\n");
        }
        _ => {
            v.extend_from_slice(b"MAIL FROM:<");
            (0..n).for_each(|i| v.extend_from_slice(if i + 1 == n { b"@x:" } else { b"@x," }));
            v.extend_from_slice(b"a@b>\r\nNOOP\r\n");
        }
    }
    sim.stat("flood");
    v.extend_from_slice(&plan.input);
    plan.input = v;
    plan.units = vec![plan.input.len()];
    plan.verdicts.clear();
}

/// C13: several sessions in one process
pub fn many(sim: &Sim) -> Outcome {
    let mut ex = Exec::new(sim, false);
    ex.spurious = *sim.pick(&[0, 0, 20]);
    // now and then more sessions than a table or pool of fixed size would hold
    let throng = sim.chance(1, 250);
    let n = if throng { sim.range(20, 200) } else { sim.range(2, 6) };
    let most = if throng { 400 } else { 6000 };
    if throng {
        sim.stat("throng");
    }
    // all at once, or one after another
    let stagger = *sim.pick(&[0, 0, 0, US, 100 * US, SEC, HOUR]);
    let mut ss = Vec::new();
    let mut kinds = Vec::new();
    for i in 0..n {
        if stagger > 0 && i > 0 {
            let t = sim.now() + sim.draw(1000) as u64 * stagger / 200;
            match ex.run(t, |s| s.failed()) {
                Stop::Overrun => sim.fail("spin", "the sessions do not settle within the step limit"),
                _ => (),
            }
            if sim.failed() {
                break;
            }
            crate::scen_queue::advance(sim, t);
        }
        let bias = *sim.pick(&[Bias::General, Bias::Transfers, Bias::Hostile, Bias::Texts]);
        let mut plan = draw_plan(sim, i as u64, bias);
        if plan.input.len() > most {
            plan.input.truncate(most);
            plan.units.retain(|&u| u < most);
            plan.units.push(most);
        }
        ex.max_steps += work(&plan);
        let ik = InKnobs::draw(sim);
        let mut ok = OutKnobs::draw(sim);
        // 0 healthy, 1 client goes silent, 2 writer blocked, 3 writer fails, 4 dropped, 5 connection cut
        let kind = if i == 0 { 0 } else { sim.weighted(&[4, 2, 2, 2, 2, 2]) };
        let nu = plan.units.len();
        if kind == 3 {
            ok.fail_at = Some(1 + sim.draw(4 * nu as u32 + 6));
            ok.recovers = sim.chance(1, 3);
        }
        let conn = Conn {
            window: *sim.pick(&[1, 2, usize::MAX]),
            think: *sim.pick(&[0, 0, MS, SEC]),
            close_after: sim.chance(1, 3),
            stop_after: if kind == 1 { sim.draw(nu as u32 + 1) as usize } else { usize::MAX },
        };
        let s = serve(sim, i + 1, plan, ik, ok, conn);
        let t = sim.draw(2000) as u64 * *sim.pick(&[US, 100 * US, MS]);
        match kind {
            1 => sim.stat("client_silent"),
            2 => {
                let o = s.out.clone();
                sim.after(t, move |sim| {
                    sim.stat("client_stops_reading");
                    o.st.lock().unwrap().blocked = true
                });
            }
            5 => {
                let (inp, o) = (s.inp.clone(), s.out.clone());
                let both = sim.chance(1, 2);
                sim.after(t, move |sim| {
                    sim.stat("connection_reset");
                    inp.cut_now();
                    if both {
                        o.sever()
                    }
                });
            }
            _ => (),
        }
        ss.push(s);
        kinds.push(kind);
    }
    let mut kills: Vec<(u64, u32)> = (0..kinds.len() as u32).filter(|&i| kinds[i as usize] == 4).map(|i| (sim.draw(2000) as u64 * *sim.pick(&[US, 100 * US, MS]), i)).collect();
    kills.sort();
    for &(t, i) in &kills {
        match ex.run(t, |s| s.failed()) {
            Stop::Overrun => sim.fail("spin", "the sessions do not settle within the step limit"),
            _ => (),
        }
        if sim.failed() {
            break;
        }
        sim.stat("session_aborted");
        sim.log(16, i as u64, 0, || format!("session#{} is dropped", i));
        ex.kill_group(i + 1);
    }
    let mut measure = 0;
    if !sim.failed() && settle(sim, &mut ex) {
        for round in 0..2 {
            for (i, s) in ss.iter().enumerate() {
                let failed = s.out.st.lock().unwrap().failed;
                let eof = s.inp.st.lock().unwrap().eof_seen;
                match kinds[i] {
                    2 | 4 => {
                        measure ^= judge(sim, s, Scope::Prefix);
                    }
                    _ if failed => {
                        if s.rec.lock().unwrap().result != Some(Err(())) {
                            sim.fail("write-fail", format!("session#{}: a write has failed but the session goes on or succeeds", i));
                        }
                        measure ^= judge(sim, s, Scope::Prefix);
                    }
                    _ if !eof => {
                        if round == 1 {
                            sim.fail("eof", format!("session#{} does not read the end of its input", i));
                        }
                        check_answered(sim, s);
                        measure ^= judge(sim, s, Scope::Exact);
                        s.inp.close();
                    }
                    _ => {
                        check_ended(sim, s);
                        measure ^= judge(sim, s, Scope::Exact);
                    }
                }
                measure = mix(measure);
                if sim.failed() {
                    break;
                }
            }
            if sim.failed() || !settle(sim, &mut ex) {
                break;
            }
        }
    }
    Outcome { nontrivial: true, measure }
}
