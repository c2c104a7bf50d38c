//! C22: queue host → SMTP dialogue over a simulated network → server host, with connection loss
//! and crashes of both hosts.
use std::{
    pin::Pin,
    sync::{Arc, Mutex},
};

use bytes::{Bytes, BytesMut};
use futures::{Future, SinkExt, Stream, StreamExt};
use futures01::{task::Task, Async, Future as Future01, Poll as Poll01, Stream as Stream01};
use smtp_message::{Command, DataCommand, DataSink, DataStream, EhloCommand, Email, ExpnCommand, HeloCommand, HelpCommand, MailCommand, NoopCommand, QuitCommand, RcptCommand, ReplyCode, ReplyLine, RsetCommand, Sendable, SmtpString, VrfyCommand};
use smtp_queue::{Mail, Transport};
use smtp_server::{interact, Config, ConnectionMetadata, Decision, MailMetadata, Refusal};

use crate::{
    gen, model,
    net::{In, InKnobs, Out, OutKnobs, Reader, Writer},
    scen_queue::{advance, crash, draw_mails, handover, report, start_with, wire, Host, Knobs, Meta, St, World, W},
    sim::{hash_bytes, set_group, show, spawn3, Exec, Sim, Sleep, Stop, HOUR, MS, SEC},
    tape::mix,
    Outcome,
};

const SERVER_GROUP: u32 = 1_000_000;

struct Conn {
    host: u32,
    server: u32,
    c2s: In,
    s2c: In,
    cout: Out,
    sout: Out,
    /// broken by the network or by a crash, or given up by the client
    lost: bool,
    closed: bool,
    /// mail now being sent over it, and whether the client has finished the message
    mail: Option<usize>,
    ended: bool,
    stored: u32,
}

struct Copy {
    mail: usize,
    conn: usize,
}

struct Server {
    alive: bool,
    gen: u32,
}

/// The network between the two hosts, and the server's durable mailbox
struct Net {
    w: W,
    conns: Vec<Conn>,
    server: Server,
    mailbox: Vec<Copy>,
    k: Nk,
    quiet: bool,
    /// deliveries: mail, begin, end
    tries: Vec<(usize, u64, Option<u64>)>,
}

impl Net {
    /// Did a delivery of this mail take (about) the hour after which the queue gives up on its sender?
    fn slow(&self, mail: usize, now: u64) -> bool {
        self.tries.iter().any(|t| t.0 == mail && t.2.unwrap_or(now) - t.1 > HOUR * 5 / 6)
    }
}

#[derive(Clone)]
struct Nk {
    refuse: u32,    // per 64: server refuses a command for now
    full: u32,      // per 64: server cannot store
    no_connect: u32, // per 64
    give_up: u32,   // per 64: client gives up in the middle of a message
    deadline: u64,  // 0: none
    pipeline: bool,
    extra: bool,
    reuse: bool,
    store_lat: Vec<u64>,
    banner: usize,
    plain: bool,
    /// a mail is tens of kilobytes long
    big: bool,
    stall: bool,
}

type N = Arc<Mutex<Net>>;

/// Break a connection now
fn cut(net: &N, c: usize) {
    let (a, b, x, y) = {
        let mut g = net.lock().unwrap();
        let k = &mut g.conns[c];
        k.lost = true;
        (k.c2s.clone(), k.s2c.clone(), k.cout.clone(), k.sout.clone())
    };
    a.cut_now();
    b.cut_now();
    x.sever();
    y.sever();
}

// ------------------------------------------------------------------ server

struct Cfg {
    sim: Sim,
    net: N,
    conn: usize,
}

/// What the server's policy says; the session's own refusals have other codes
const REFUSALS: [u16; 6] = [451, 450, 550, 452, 552, 554];

fn soft(sim: &Sim, text: &'static [u8]) -> Decision {
    let code = *sim.pick(&REFUSALS);
    let n = if sim.chance(1, 16) { sim.range(0, 1600) } else { 0 };
    Decision::Reject(Refusal { code: ReplyCode::custom(code), msg: SmtpString::from(&long_text(text, n as usize)[..]) })
}

/// A reply text which takes more than one line when `n` is large
fn long_text(t: &[u8], n: usize) -> Vec<u8> {
    let mut v = t.to_vec();
    while v.len() < n {
        v.push(b"no more than that "[v.len() % 17]);
    }
    v
}

impl Cfg {
    fn policy(&self) -> Decision {
        let (p, q) = {
            let g = self.net.lock().unwrap();
            (g.k.refuse, g.quiet)
        };
        if !q && self.sim.chance(p, 64) {
            self.sim.stat("server_refusal");
            soft(&self.sim, b"not now")
        } else {
            Decision::Accept
        }
    }

    async fn receive<S>(&mut self, ds: &mut DataStream<'_, S>, m: MailMetadata) -> Decision
    where
        S: Unpin + Stream<Item = BytesMut>,
    {
        let mut body = Vec::new();
        while let Some(b) = ds.next().await {
            body.extend_from_slice(&b);
        }
        let ok = ds.complete().is_ok();
        self.sim.log(70, ok as u64, hash_bytes(&body), || format!("server: message over connection {} is {}: {:?}", self.conn, if ok { "complete" } else { "incomplete" }, show(&body)));
        if !ok {
            return soft(&self.sim, b"incomplete");
        }
        let (lat, full, q) = {
            let g = self.net.lock().unwrap();
            (g.k.store_lat.clone(), g.k.full, g.quiet)
        };
        if !q && self.sim.chance(full, 64) {
            self.sim.stat("server_storage_full");
            return soft(&self.sim, b"no room");
        }
        Sleep::new(&self.sim, *self.sim.pick(&lat)).await;
        store(&self.sim, &self.net, self.conn, m, &body);
        Sleep::new(&self.sim, *self.sim.pick(&lat)).await;
        Decision::Accept
    }
}

type Fut<'a, T> = Pin<Box<dyn 'a + Send + Future<Output = T>>>;

impl Config<()> for Cfg {
    fn filter_from<'a>(&'a mut self, _: &'a mut Option<Email>, _: &'a mut ConnectionMetadata<()>) -> Fut<'a, Decision> {
        Box::pin(futures::future::ready(self.policy()))
    }
    fn filter_to<'a>(&'a mut self, _: &'a mut Email, _: &'a mut MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Fut<'a, Decision> {
        Box::pin(futures::future::ready(self.policy()))
    }
    fn filter_data<'a>(&'a mut self, _: &'a mut MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Fut<'a, Decision> {
        Box::pin(futures::future::ready(self.policy()))
    }
    fn handle_mail<'a, S>(&'a mut self, ds: &'a mut DataStream<S>, m: MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where
        S: 'a + Unpin + Stream<Item = BytesMut>,
    {
        Box::pin(self.receive(ds, m))
    }
    fn hostname(&self) -> SmtpString {
        SmtpString::from_static(b"mx.example.net")
    }
    fn banner(&self) -> SmtpString {
        let n = self.net.lock().unwrap().k.banner;
        SmtpString::from(&long_text(b"Service ready", n)[..])
    }
}

/// The server stores a message: the moment at which everything about it must be right
fn store(sim: &Sim, net: &N, conn: usize, m: MailMetadata, body: &[u8]) {
    let from = m.from.as_ref().map(wire);
    let to: Vec<Vec<u8>> = m.to.iter().map(wire).collect();
    let mut bad: Vec<(&'static str, String)> = Vec::new();
    {
        let mut g = net.lock().unwrap();
        let g = &mut *g;
        let id = g.conns[conn].mail;
        sim.log(71, id.unwrap_or(99) as u64, hash_bytes(body), || format!("server: stores a message received over connection {} (mail {:?})", conn, id));
        sim.stat("mails_received");
        match id {
            None => bad.push(("corrupt", format!("the server stores a message {:?} received over connection {} on which none was sent", show(body), conn))),
            Some(id) => {
                if !g.conns[conn].ended {
                    bad.push(("truncated", format!("the server stores mail {} although its sender never finished it", id)));
                }
                let w = g.w.lock().unwrap();
                let r = &w.mails[id];
                if r.from != from || r.to != to {
                    bad.push((
                        "corrupt",
                        format!("mail {} arrives with sender {:?} and recipients {:?}, sent were {:?} and {:?}", id, from.as_ref().map(|x| show(x)), to.iter().map(|x| show(x)).collect::<Vec<_>>(), r.from.as_ref().map(|x| show(x)), r.to.iter().map(|x| show(x)).collect::<Vec<_>>()),
                    ));
                }
                let want = model::delivered(&r.body);
                if body != &want[..] {
                    let class = if want.starts_with(body) { "truncated" } else { "corrupt" };
                    bad.push((class, format!("mail {} arrives as {:?}, sent was {:?}", id, show(body), show(&want))));
                }
                g.conns[conn].stored += 1;
                if g.conns[conn].stored > 1 {
                    bad.push(("duplication", format!("the server stores mail {} twice from one transfer", id)));
                }
                // of two copies, one must have come over a connection that was lost (messages on
                // their way can be stored late) or of a host that crashed
                // ... or of a delivery so slow that the queue had to take its sender for dead
                let late = g.slow(id, sim.now());
                if late {
                    sim.stat("slow_delivery");
                }
                let excused = |k: &Conn| k.lost || !w.hosts[k.host as usize].alive || k.server != g.server.gen || !g.server.alive;
                for c in g.mailbox.iter().filter(|c| c.mail == id) {
                    if !excused(&g.conns[c.conn]) && !excused(&g.conns[conn]) && !r.loose && !late {
                        bad.push(("duplication", format!("the server stores mail {} again although neither copy's connection was lost, no host crashed and the queue's storage did not fail to remove it", id)));
                    } else {
                        sim.stat("duplicate_after_loss");
                    }
                }
                g.mailbox.push(Copy { mail: id, conn });
            }
        }
    }
    for (c, m) in bad {
        sim.fail(c, m);
    }
}

fn start_server(sim: &Sim, net: &N) {
    let gen = {
        let mut g = net.lock().unwrap();
        if g.server.alive {
            return;
        }
        g.server.alive = true;
        g.server.gen += 1;
        g.server.gen
    };
    sim.log(72, gen as u64, 0, || format!("server: starts (incarnation {})", gen));
}

fn crash_server(ex: &mut Exec, sim: &Sim, net: &N) {
    let (gen, conns) = {
        let mut g = net.lock().unwrap();
        if !g.server.alive {
            return;
        }
        g.server.alive = false;
        let gen = g.server.gen;
        let v: Vec<usize> = (0..g.conns.len()).filter(|&c| g.conns[c].server == gen && !g.conns[c].closed).collect();
        (gen, v)
    };
    sim.stat("server_crash");
    sim.log(73, gen as u64, 0, || format!("server: crashes (incarnation {})", gen));
    ex.kill_group(SERVER_GROUP + gen);
    for c in conns {
        gone(sim, net, c);
    }
}

/// One end of a connection has crashed: the other end learns of it now, later, or only by waiting
/// in vain
fn gone(sim: &Sim, net: &N, c: usize) {
    net.lock().unwrap().conns[c].lost = true;
    let (deadline, quiet) = {
        let g = net.lock().unwrap();
        (g.k.deadline, g.quiet)
    };
    match sim.draw(3) {
        0 => cut(net, c),
        1 => {
            let n2 = net.clone();
            let d = sim.draw(60) as u64 * SEC;
            sim.after(d, move |_| cut(&n2, c));
        }
        _ if deadline == 0 || quiet => cut(net, c),
        _ => sim.stat("half_open_connection"),
    }
}

fn crash_client(ex: &mut Exec, sim: &Sim, w: &W, net: &N, host: u32) {
    let conns: Vec<usize> = {
        let g = net.lock().unwrap();
        (0..g.conns.len()).filter(|&c| g.conns[c].host == host && !g.conns[c].closed).collect()
    };
    crash(ex, sim, w, host);
    for c in conns {
        gone(sim, net, c);
    }
}

// ------------------------------------------------------------------ client side

/// What remains of a connection between two mails
struct Link {
    c: usize,
    inp: Reader,
    out: Writer,
    buf: Vec<u8>,
}

struct Relay {
    sim: Sim,
    w: W,
    net: N,
    host: u32,
    pool: Arc<Mutex<Vec<Link>>>,
}

struct ResSt {
    reply: Option<Result<(), u16>>,
    task: Option<Task>,
}
struct ResFut(Arc<Mutex<ResSt>>);
impl Future01 for ResFut {
    type Item = ();
    type Error = (ReplyCode, SmtpString);
    fn poll(&mut self) -> Poll01<(), (ReplyCode, SmtpString)> {
        let mut s = self.0.lock().unwrap();
        match s.reply.take() {
            Some(Ok(())) => Ok(Async::Ready(())),
            Some(Err(c)) => Err((ReplyCode::custom(c), SmtpString::from_static(b"relay failed"))),
            None => {
                s.task = Some(futures01::task::current());
                Ok(Async::NotReady)
            }
        }
    }
}

impl Transport<Meta> for Relay {
    fn send<S: Stream01<Item = BytesMut, Error = ()>>(&self, mail: Mail<S, Meta>) -> Box<dyn Future01<Item = (), Error = (ReplyCode, SmtpString)> + Send> {
        let (id, tok, broken) = handover(&self.sim, &self.w, self.host, mail);
        self.sim.stat("relay_attempts");
        let st = Arc::new(Mutex::new(ResSt { reply: None, task: None }));
        let (sim, w, net, host, pool, st2) = (self.sim.clone(), self.w.clone(), self.net.clone(), self.host, self.pool.clone(), st.clone());
        spawn3("relay", async move {
            let nth = {
                let mut g = net.lock().unwrap();
                g.tries.push((id, sim.now(), None));
                g.tries.len() - 1
            };
            let r = attempt(&sim, &w, &net, host, &pool, id, broken).await;
            net.lock().unwrap().tries[nth].2 = Some(sim.now());
            if let Err(code) = r {
                sim.log(74, id as u64, code as u64, || format!("client@{}: relaying mail {} fails ({})", host, id, code));
                Sleep::new(&sim, 10 * SEC).await;
            } else {
                sim.stat("relay_successes");
            }
            report(&sim, &w, host, id, tok, r.is_ok());
            let t = {
                let mut s = st2.lock().unwrap();
                s.reply = Some(r);
                s.task.take()
            };
            if let Some(t) = t {
                t.notify()
            }
        });
        Box::new(ResFut(st))
    }
}

/// Open a connection; the server serves it in its own group
async fn connect(sim: &Sim, net: &N, host: u32) -> Option<Link> {
    let (k, quiet) = {
        let g = net.lock().unwrap();
        (g.k.clone(), g.quiet)
    };
    Sleep::new(sim, *sim.pick(&[0, MS, 100 * MS])).await;
    if !quiet && sim.chance(k.no_connect, 64) {
        sim.stat("connection_refused");
        return None;
    }
    let (plain, id) = {
        let g = net.lock().unwrap();
        if !g.server.alive {
            drop(g);
            sim.stat("server_unreachable");
            return None;
        }
        (g.k.plain || g.quiet, g.conns.len())
    };
    let ik = || {
        let mut i = if plain { InKnobs::plain() } else { InKnobs::draw(sim) };
        // a relay that takes an hour over a mail would have it recovered under its feet
        i.hour = false;
        if !k.stall || quiet {
            i.stall = 0;
        }
        if k.big && i.seg > 0 {
            i.seg = 4;
        }
        i
    };
    let ok = || OutKnobs::draw(sim);
    let c2s = In::new(sim, id as u64 * 4 + 1, ik());
    let s2c = In::new(sim, id as u64 * 4 + 3, ik());
    let i2 = c2s.clone();
    let cout = Out::new(sim, id as u64 * 4 + 2, ok(), Arc::new(move |_, b| i2.inject(b)), None);
    let i2 = s2c.clone();
    let sout = Out::new(sim, id as u64 * 4 + 4, ok(), Arc::new(move |_, b| i2.inject(b)), None);
    let gen = {
        let mut g = net.lock().unwrap();
        let gen = g.server.gen;
        g.conns.push(Conn {
            host,
            server: gen,
            c2s: c2s.clone(),
            s2c: s2c.clone(),
            cout: cout.clone(),
            sout: sout.clone(),
            lost: false,
            closed: false,
            mail: None,
            ended: false,
            stored: 0,
        });
        gen
    };
    sim.log(75, id as u64, gen as u64, || format!("client@{}: connection {} to server incarnation {} opens", host, id, gen));
    let (s2, n2) = (sim.clone(), net.clone());
    let (si, so, back) = (c2s.clone(), sout.clone(), s2c.clone());
    set_group(SERVER_GROUP + gen);
    spawn3("server", async move {
        let mut w = Writer(so);
        let mut cfg = Cfg { sim: s2.clone(), net: n2.clone(), conn: id };
        let r = interact(Reader(si), Pin::new(&mut w), (), &mut cfg).await;
        s2.log(76, id as u64, r.is_ok() as u64, || format!("server: session on connection {} ends: {:?}", id, r));
        let early = {
            let g = n2.lock().unwrap();
            !g.conns[id].lost && !g.conns[id].closed
        };
        if early {
            s2.fail("protocol", format!("the server ends the session on connection {} by itself: {:?}", id, r));
        }
        let d = w.0.k.slow_net + 1;
        s2.after(d, move |_| back.close());
    });
    set_group(host + 1);
    Some(Link { c: id, inp: Reader(s2c), out: Writer(cout), buf: Vec::new() })
}

impl Link {
    /// The next complete reply's code
    async fn reply(&mut self, sim: &Sim) -> Result<u16, u16> {
        loop {
            if let Some(p) = self.buf.windows(2).position(|x| x == b"\r\n") {
                let l: Vec<u8> = self.buf.drain(..p + 2).collect();
                // what the client's parser understands, written again, must be what came
                let back = ReplyLine::parse(Bytes::from(&l[..])).ok().map(|r| {
                    let mut v = Vec::new();
                    r.send_to(&mut v).unwrap();
                    v
                });
                let ok = back.as_ref() == Some(&l) && l.len() >= 6 && l[..3].iter().all(|x| x.is_ascii_digit());
                if !ok {
                    sim.fail("malformed", format!("the client understands the reply line {:?} as {:?}", show(&l), back.map(|x| show(&x))));
                    return Err(500);
                }
                if l[3] == b' ' {
                    return Ok(l[..3].iter().fold(0, |a, &x| a * 10 + (x - b'0') as u16));
                }
                continue;
            }
            match self.inp.next().await {
                Some(b) => self.buf.extend_from_slice(&b),
                None => return Err(421),
            }
        }
    }
    async fn say(&mut self, b: &[u8]) -> Result<(), u16> {
        self.out.send(Bytes::from(b)).await.map_err(|()| 421)
    }
    /// The expected reply, or a temporary refusal by the server's policy
    async fn expect(&mut self, sim: &Sim, want: u16, what: &str) -> Result<(), u16> {
        let c = self.reply(sim).await?;
        if c == want {
            return Ok(());
        }
        if !REFUSALS.contains(&c) {
            sim.fail("protocol", format!("the server answers {} to {} on connection {}", c, what, self.c));
        }
        Err(c)
    }
}

fn bytes_of(c: &dyn Sendable) -> Vec<u8> {
    let mut v = Vec::new();
    c.send_to(&mut v).unwrap();
    v
}

fn quit() -> Vec<u8> {
    let mut v = Vec::new();
    Command::Quit(QuitCommand::new()).send_to(&mut v).unwrap();
    v
}

async fn attempt(sim: &Sim, w: &W, net: &N, host: u32, pool: &Arc<Mutex<Vec<Link>>>, id: usize, broken: Option<usize>) -> Result<(), u16> {
    let (k, quiet) = {
        let g = net.lock().unwrap();
        (g.k.clone(), g.quiet)
    };
    let old = if k.reuse { pool.lock().unwrap().pop() } else { None };
    let fresh = old.is_none();
    let mut l = match old {
        Some(l) => l,
        None => match connect(sim, net, host).await {
            Some(l) => l,
            None => return Err(421),
        },
    };
    let c = l.c;
    {
        let mut g = net.lock().unwrap();
        let n = &mut g.conns[c];
        n.mail = Some(id);
        n.ended = false;
        n.stored = 0;
    }
    let running = Arc::new(Mutex::new(true));
    if k.deadline > 0 && !quiet {
        let (n2, r2) = (net.clone(), running.clone());
        sim.after(k.deadline, move |sim| {
            if *r2.lock().unwrap() {
                sim.stat("client_timeout");
                sim.log(77, c as u64, 0, || format!("client: gives up waiting on connection {}", c));
                cut(&n2, c);
            }
        });
    }
    let (from, to, pieces) = {
        let g = w.lock().unwrap();
        let m = &g.mails[id];
        (m.from.clone(), m.to.clone(), m.pieces.clone())
    };
    let r = dialogue(sim, net, &mut l, fresh, &k, quiet, from, to, pieces, broken).await;
    *running.lock().unwrap() = false;
    match r {
        Ok(out) => {
            let mut l = Link { c, inp: l.inp, out, buf: l.buf };
            if k.reuse && !net.lock().unwrap().conns[c].lost {
                pool.lock().unwrap().push(l);
            } else {
                if sim.chance(1, 2) && l.say(&quit()).await.is_ok() {
                    let _ = l.reply(sim).await;
                }
                hang_up(sim, net, c);
            }
            Ok(())
        }
        Err(e) => {
            hang_up(sim, net, c);
            Err(e)
        }
    }
}

/// The client closes the connection in an orderly way
fn hang_up(sim: &Sim, net: &N, c: usize) {
    let (i, d) = {
        let mut g = net.lock().unwrap();
        let k = &mut g.conns[c];
        k.closed = true;
        (k.c2s.clone(), k.cout.k.slow_net + 1)
    };
    sim.log(78, c as u64, 0, || format!("client: closes connection {}", c));
    sim.after(d, move |_| i.close());
}

/// A command beside the transaction, made with the library's builders: the server need not
/// support it, but it must understand it
async fn aside(sim: &Sim, l: &mut Link) -> Result<(), u16> {
    let word = |least: usize| {
        let mut t = gen::text(sim);
        if t.len() < least {
            t = b"someone".to_vec();
        }
        SmtpString::from(&t[..])
    };
    let dom = || {
        let b = [b"EHLO ", &gen::domain(sim)[..], b"\r\n"].concat();
        match Command::parse(Bytes::from(&b[..])) {
            Ok(Command::Ehlo(e)) => e.domain().clone(),
            _ => panic!("harness: prototype command does not parse: {:?}", show(&b)),
        }
    };
    let c = match sim.draw(8) {
        0 => Command::Ehlo(EhloCommand::new(dom())),
        1 => Command::Helo(HeloCommand::new(dom())),
        2 => Command::Noop(NoopCommand::new(word(0))),
        3 => Command::Help(HelpCommand::new(word(0))),
        4 => Command::Vrfy(VrfyCommand::new(word(1))),
        5 => Command::Expn(ExpnCommand::new(word(1))),
        6 => Command::Rset(RsetCommand::new()),
        _ => {
            l.say(b"bogus\r\n").await?;
            l.reply(sim).await?;
            return Ok(());
        }
    };
    let mut b = Vec::new();
    c.send_to(&mut b).unwrap();
    l.say(&b).await?;
    if l.reply(sim).await? == 500 {
        sim.fail("protocol", format!("the server does not understand {} on connection {}", show(&b), l.c));
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
async fn dialogue(sim: &Sim, net: &N, l: &mut Link, fresh: bool, k: &Nk, quiet: bool, from: Option<Vec<u8>>, to: Vec<Vec<u8>>, pieces: Vec<Vec<u8>>, broken: Option<usize>) -> Result<Writer, u16> {
    let c = l.c;
    if fresh {
        l.expect(sim, 220, "the connection").await?;
    }
    if k.extra {
        for _ in 0..sim.draw(4) {
            aside(sim, l).await?;
        }
    }
    // the parameters the client asks for, taken from a command line that carries them
    let params = || {
        let p = if sim.chance(1, 3) { gen::odd_params(sim) } else { sim.pick(&[&b""[..], b" SIZE=1000 BODY=8BITMIME"]).to_vec() };
        match Command::parse(Bytes::from([b"MAIL FROM:<>", &p[..], b"\r\n"].concat())) {
            Ok(Command::Mail(m)) => m.params,
            _ => panic!("harness: prototype command does not parse: {:?}", show(&p)),
        }
    };
    let em = |b: &[u8]| Email::parse_slice(b).unwrap_or_else(|_| panic!("harness: address {:?} does not parse", show(b)));
    let mut cmds = vec![(bytes_of(&MailCommand::new(from.as_ref().map(|x| em(x)), params())), 250)];
    for t in &to {
        cmds.push((bytes_of(&RcptCommand::new(em(t), params())), 250));
    }
    let mut d = Vec::new();
    DataCommand::new().send_to(&mut d).unwrap();
    cmds.push((d, 354));
    if k.pipeline {
        // everything up to, but not including, DATA
        let n = cmds.len() - 1;
        let all: Vec<u8> = cmds[..n].iter().flat_map(|x| x.0.clone()).collect();
        l.say(&all).await?;
        let mut r = Ok(());
        for x in cmds.drain(..n).collect::<Vec<_>>() {
            // after a refused sender the recipients are out of sequence: that is no surprise
            let e = if r.is_ok() { l.expect(sim, x.1, &show(&x.0)).await } else { l.reply(sim).await.map(|_| ()) };
            if r.is_ok() {
                r = e;
            }
        }
        r?;
    }
    for (b, want) in cmds {
        if k.extra && sim.chance(1, 8) {
            aside(sim, l).await?;
        }
        l.say(&b).await?;
        l.expect(sim, want, &show(&b)).await?;
    }
    sim.log(79, c as u64, 0, || format!("client: sends the message over connection {}", c));
    let give_up = if broken.is_some() {
        broken
    } else if !quiet && sim.chance(k.give_up, 64) { Some(sim.draw(pieces.len() as u32 + 1) as usize) } else { None };
    // (the writer is rebuilt around the same connection)
    let out = Writer(l.out.0.clone());
    let mut ds = DataSink::new(out);
    for (i, p) in pieces.iter().enumerate() {
        if give_up == Some(i) {
            sim.stat("client_gives_up");
            return Err(421);
        }
        ds.send(Bytes::from(&p[..])).await.map_err(|()| 421u16)?;
    }
    if give_up.is_some() {
        sim.stat("client_gives_up");
        return Err(421);
    }
    net.lock().unwrap().conns[c].ended = true;
    let out = match ds.end().await {
        Ok(o) => o,
        Err(()) => {
            let lost = net.lock().unwrap().conns[c].lost;
            if !lost {
                sim.fail("send-error", "finishing a message fails on a healthy connection");
            }
            return Err(421);
        }
    };
    sim.stat("mails_relayed");
    let r = l.expect(sim, 250, "the message").await;
    if r.is_ok() {
        let stored = net.lock().unwrap().conns[c].stored;
        if stored == 0 {
            sim.fail("lost", format!("the server acknowledges the message on connection {} without having stored it", c));
        }
    }
    r.map(|()| out)
}

// ------------------------------------------------------------------ scenario

fn start_client(ex: &mut Exec, sim: &Sim, w: &W, net: &N) {
    let host = {
        let mut g = w.lock().unwrap();
        g.hosts.push(Host { alive: true, ..Host::default() });
        g.hosts.len() as u32 - 1
    };
    let tr = Relay { sim: sim.clone(), w: w.clone(), net: net.clone(), host, pool: Arc::new(Mutex::new(Vec::new())) };
    start_with(ex, sim, w, host, tr);
}

pub fn run(sim: &Sim) -> Outcome {
    let mut ex = Exec::new(sim, true);
    ex.spurious = *sim.pick(&[0, 0, 15]);
    ex.max_steps = 2_000_000;
    ex.scope(|ex| body(sim, ex))
}

fn body(sim: &Sim, ex: &mut Exec) -> Outcome {
    let n = 1 + sim.weighted(&[4, 3, 2, 1, 1, 1]);
    let mut tok = 0;
    let mut mails = draw_mails(sim, n, &mut tok, false);
    let big = sim.chance(1, 25);
    if big {
        sim.stat("huge_body");
        let m = &mut mails[0];
        m.body = gen::long_body(sim);
        m.pieces = gen::pieces(sim, &m.body);
    }
    for m in mails.iter_mut() {
        if sim.chance(1, 12) {
            if let St::Queued(t) = m.state {
                m.state = St::Inflight(t);
            }
        }
    }
    let faulty = sim.chance(5, 6);
    let f = |v: &[u32]| if faulty { *sim.pick(v) } else { 0 };
    let nk = Nk {
        refuse: f(&[0, 0, 6]),
        full: f(&[0, 0, 12]),
        no_connect: f(&[0, 0, 8]),
        give_up: f(&[0, 0, 16]),
        deadline: if faulty { *sim.pick(&[300 * SEC, 30 * SEC, 1200 * SEC]) } else { 0 },
        pipeline: sim.chance(1, 2),
        extra: sim.chance(1, 3),
        reuse: sim.chance(1, 3),
        store_lat: sim.pick(&[vec![0], vec![0, MS], vec![MS, SEC], vec![SEC, 20 * SEC]]).clone(),
        banner: if sim.chance(1, 8) { sim.range(0, 1600) as usize } else { 0 },
        plain: sim.chance(1, 3),
        stall: faulty && sim.chance(1, 4),
        big,
    };
    let k = Knobs {
        lat: sim.pick(&[vec![0], vec![0, MS], vec![MS, SEC]]).clone(),
        send_lat: vec![0],
        list_lat: sim.pick(&[vec![0], vec![0, SEC]]).clone(),
        fail_before: f(&[0, 0, 6]),
        fail_after: f(&[0, 0, 6]),
        eager: sim.chance(1, 2),
        snapshot: sim.chance(1, 2),
        ambiguous_send: 0,
        list_err: f(&[0, 0, 4]),
        read_err: f(&[0, 0, 24]),
        done_ok: false,
    };
    let clean = !faulty;
    if sim.tracing() {
        let mut t = format!("{} mails; refusals {} full {} unreachable {} give-up {} per 64, deadline {} s, pipelining {}, reuse {}", n, nk.refuse, nk.full, nk.no_connect, nk.give_up, nk.deadline / SEC, nk.pipeline, nk.reuse);
        for (i, m) in mails.iter().enumerate() {
            t.push_str(&format!("\n    mail {}: from {:?} to {:?}, {:?} in {} pieces", i, m.from.as_ref().map(|x| show(x)), m.to.iter().map(|x| show(x)).collect::<Vec<_>>(), show(&m.body), m.pieces.len()));
        }
        sim.log(94, 0, 0, || t);
    }
    let w: W = Arc::new(Mutex::new(World::new(mails, tok, k)));
    let net: N = Arc::new(Mutex::new(Net { w: w.clone(), conns: Vec::new(), server: Server { alive: false, gen: 0 }, mailbox: Vec::new(), k: nk, quiet: false, tries: Vec::new() }));
    {
        let n2 = Arc::downgrade(&net);
        w.lock().unwrap().may_remove = Some(Arc::new(move |id| match n2.upgrade() {
            Some(n) if !n.lock().map_or(true, |g| g.mailbox.iter().any(|c| c.mail == id)) => Err(format!("storage is asked to drop mail {} although the server has not stored it", id)),
            _ => Ok(()),
        }));
    }
    start_server(sim, &net);
    start_client(ex, sim, &w, &net);
    let mut over = false;
    if faulty {
        // what happens when: 0 reset, 1 client crash, 2 client start, 3 server crash, 4 server start
        let unit = *sim.pick(&[100 * crate::sim::US, MS, 50 * MS, SEC]);
        let mut plan: Vec<(u64, u32)> = Vec::new();
        for _ in 0..sim.weighted(&[2, 3, 2, 1, 1]) {
            plan.push((sim.draw(1000) as u64 * unit, 0));
        }
        for kind in [1, 3] {
            for _ in 0..sim.weighted(&[3, 3, 1]) {
                let at = sim.draw(1000) as u64 * unit;
                plan.push((at, kind));
                plan.push((at + 1 + sim.draw(300) as u64 * unit, kind + 1));
            }
        }
        plan.sort();
        let end = plan.last().map_or(0, |x| x.0) + sim.draw(3) as u64 * HOUR + 600 * SEC;
        plan.push((end, 9));
        for (at, what) in plan {
            if let Stop::Overrun = ex.run(at, |s| s.failed()) {
                over = true;
                break;
            }
            if sim.failed() {
                return finish(&w, &net);
            }
            advance(sim, at);
            let alive = w.lock().unwrap().hosts.iter().position(|h| h.alive);
            match what {
                0 => {
                    let v: Vec<usize> = {
                        let g = net.lock().unwrap();
                        (0..g.conns.len()).filter(|&c| !g.conns[c].lost && !g.conns[c].closed).collect()
                    };
                    if !v.is_empty() {
                        let c = *sim.pick(&v);
                        sim.stat("connection_reset");
                        sim.log(80, c as u64, 0, || format!("network: connection {} is reset", c));
                        cut(&net, c);
                    }
                }
                1 => {
                    if let Some(h) = alive {
                        crash_client(ex, sim, &w, &net, h as u32);
                    }
                }
                2 => {
                    if alive.is_none() {
                        start_client(ex, sim, &w, &net);
                    }
                }
                3 => crash_server(ex, sim, &net),
                4 => start_server(sim, &net),
                _ => (),
            }
        }
    } else {
        match ex.run(200 * HOUR, |s| s.failed()) {
            Stop::Quiescent => {
                let g = w.lock().unwrap();
                let mut bad = None;
                for (i, m) in g.mails.iter().enumerate() {
                    let copies = net.lock().unwrap().mailbox.iter().filter(|c| c.mail == i).count();
                    if m.state != St::Done || copies == 0 {
                        bad = Some(("undelivered", format!("nothing fails, but mail {} is {:?} after {} attempts with {} copies at the server", i, m.state, m.attempts, copies)));
                    } else if copies > 1 && !net.lock().unwrap().slow(i, sim.now()) {
                        bad = Some(("duplication", format!("nothing fails, but the server stored mail {} {} times", i, copies)));
                    }
                }
                drop(g);
                if let Some((c, m)) = bad {
                    sim.fail(c, m);
                }
            }
            Stop::Overrun | Stop::Until => {
                if !sim.failed() {
                    sim.fail("spin", "the relay does not settle although nothing fails");
                }
            }
        }
    }
    if sim.failed() || clean {
        return finish(&w, &net);
    }
    // faults stop; both hosts restart; everything must get through
    let alive: Vec<u32> = {
        let g = w.lock().unwrap();
        (0..g.hosts.len() as u32).filter(|&h| g.hosts[h as usize].alive).collect()
    };
    {
        let mut g = w.lock().unwrap();
        g.quiet = true;
        g.k.lat = vec![0, MS];
        g.k.list_lat = vec![0, MS];
        let mut g = net.lock().unwrap();
        g.quiet = true;
        g.k.store_lat = vec![0, MS, SEC];
    }
    for h in alive {
        crash_client(ex, sim, &w, &net, h);
    }
    if sim.chance(1, 2) {
        crash_server(ex, sim, &net);
    }
    let old: Vec<usize> = (0..net.lock().unwrap().conns.len()).collect();
    for c in old {
        cut(&net, c);
    }
    sim.stat("final_restart");
    start_server(sim, &net);
    let t0 = sim.now();
    start_client(ex, sim, &w, &net);
    ex.max_steps = sim.core().steps + 2_000_000;
    match ex.run(t0 + 3 * HOUR, |s| s.failed()) {
        Stop::Overrun => sim.fail("spin", "the relay does not settle within the step limit although faults have stopped"),
        _ => (),
    }
    let _ = over;
    if !sim.failed() {
        let g = w.lock().unwrap();
        let mut bad = None;
        for (i, m) in g.mails.iter().enumerate() {
            let copies = net.lock().unwrap().mailbox.iter().filter(|c| c.mail == i).count();
            if copies == 0 && m.state == St::Done {
                bad = Some(("lost", format!("mail {} has left the queue but the server does not have it", i)));
            } else if m.state != St::Done {
                bad = Some(("undelivered", format!("three hours after a fault-free restart mail {} is still {:?} after {} attempts, {} copies at the server", i, m.state, m.attempts, copies)));
            }
        }
        drop(g);
        if let Some((c, m)) = bad {
            sim.fail(c, m);
        }
    }
    finish(&w, &net)
}

fn finish(w: &W, net: &N) -> Outcome {
    let (measure, nontrivial) = {
        let g = net.lock().unwrap();
        (mix(g.mailbox.len() as u64 ^ (g.conns.len() as u64) << 20), !g.mailbox.is_empty())
    };
    let h = w.lock().unwrap().history;
    // break reference cycles
    let rest = std::mem::take(&mut w.lock().unwrap().pending);
    drop(rest);
    w.lock().unwrap().may_remove = None;
    let conns = std::mem::take(&mut net.lock().unwrap().conns);
    drop(conns);
    Outcome { nontrivial, measure: mix(measure ^ h) }
}
