//! C15–C21: the outgoing queue on a simulated storage and transport, with latencies, failures,
//! crashes, restarts and several instances.
use std::sync::{Arc, Mutex};

use bytes::BytesMut;
use futures01::{task::Task, Async, Future, Poll, Stream};
use smtp_message::{Email, ReplyCode, Sendable, SmtpString};
use smtp_queue::{FoundInflightMail, InflightMail, Mail, QueuedMail, Storage, Transport};

use crate::{
    gen, interpose,
    sim::{set_group, show, spawn1, Exec, Sim, Stop, HOUR, MS, SEC},
    tape::mix,
    Outcome,
};

pub struct QM {
    pub id: usize,
    pub tok: u64,
}
pub struct IM {
    pub id: usize,
    pub tok: u64,
    st: SimStore,
}
pub struct FIM {
    pub id: usize,
    pub tok: u64,
    pub found: u64,
}
pub struct Meta {
    pub id: usize,
    pub secret: u64,
    pub tok: u64,
}
impl QueuedMail<Meta> for QM {}
impl FoundInflightMail<Meta> for FIM {}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Queued(u64),
    Inflight(u64),
    Done,
}

pub struct MailRec {
    pub from: Option<Vec<u8>>,
    pub to: Vec<Vec<u8>>,
    pub body: Vec<u8>,
    pub pieces: Vec<Vec<u8>>,
    pub secret: u64,
    pub state: St,
    /// how many more delivery attempts fail (u32::MAX: for ever)
    pub fails: u32,
    pub delivered: u32,
    pub active: u32,
    pub attempts: u32,
    /// stage at which this mail's operations never answer
    pub stuck: Option<Op>,
    /// an ambiguous or failed operation may have made its delivery repeat
    pub loose: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Start,
    Get,
    Done,
    Cancel,
    CancelFound,
    Send,
}

/// One marking as in progress
pub struct Attempt {
    pub mail: usize,
    pub host: u32,
    pub tok: u64,
    pub loaded: bool,
    pub sent: u32,
    pub reported: Option<bool>,
    pub reported_at: u64,
    pub closed: u32,
    /// reading the content fails after this many pieces
    pub unreadable: Option<usize>,
}

#[derive(Default)]
pub struct Host {
    pub alive: bool,
    pub list_ended: bool,
    pub find_ended: bool,
    pub list_failed: bool,
    pub find_failed: bool,
    pub result: Option<Result<(), ()>>,
    /// queued mails handed to this instance and not yet taken up by send_start
    pub waiting_qm: Vec<(usize, u64)>,
    pub waiting_fim: Vec<(usize, u64, u64)>,
    pub listed: u32,
    pub found: u32,
    /// every mail it was ever given, by a list or otherwise
    pub given: Vec<usize>,
}

#[derive(Clone)]
pub struct Knobs {
    pub lat: Vec<u64>,
    pub send_lat: Vec<u64>,
    pub list_lat: Vec<u64>,
    pub fail_before: u32, // per 256
    pub fail_after: u32,
    pub eager: bool,
    pub snapshot: bool,
    pub ambiguous_send: u32,
    pub list_err: u32,
    /// reading a mail's content fails part-way (per 256)
    pub read_err: u32,
    /// removal of a delivered mail never fails
    pub done_ok: bool,
}

pub struct Pending {
    id: u64,
    host: u32,
    effect: Box<dyn FnOnce(&Sim) + Send>,
}

pub struct World {
    pub mails: Vec<MailRec>,
    pub attempts: Vec<Attempt>,
    pub hosts: Vec<Host>,
    pub tok: u64,
    pub k: Knobs,
    pub pending: Vec<Pending>,
    next_pending: u64,
    /// no crash, no ambiguous failure so far: overlap and duplicates are violations
    pub strict: bool,
    pub history: u64,
    pub quiet: bool, // faults have stopped
    /// one of the lists (in progress?) stalls for ever before this entry
    pub list_stuck: Option<(bool, u32)>,
    /// stored mails may be removed only if this holds (end to end runs)
    pub may_remove: Option<Arc<dyn Fn(usize) -> Result<(), String> + Send + Sync>>,
}

pub type W = Arc<Mutex<World>>;

impl World {
    pub fn new(mails: Vec<MailRec>, tok: u64, k: Knobs) -> World {
        World { mails, attempts: Vec::new(), hosts: Vec::new(), tok, k, pending: Vec::new(), next_pending: 0, strict: false, history: 0, quiet: false, list_stuck: None, may_remove: None }
    }
    pub fn fresh(&mut self) -> u64 {
        self.tok += 1;
        self.tok
    }
    pub fn attempt(&mut self, tok: u64) -> Option<&mut Attempt> {
        self.attempts.iter_mut().rev().find(|a| a.tok == tok)
    }
    fn note(&mut self, x: u64) {
        self.history = mix(self.history ^ x);
    }
}

#[derive(Clone)]
pub struct SimStore {
    pub sim: Sim,
    pub w: W,
    pub host: u32,
}

// ------------------------------------------------------------------ operations

struct OpSt<T> {
    reply: Option<Result<T, ()>>,
    task: Option<Task>,
}
type Effect<T> = Box<dyn FnOnce(&Sim, &W, bool) -> Result<T, ()> + Send>;

/// A storage operation: latency, effect (or clean failure), latency, reply (or lost reply)
pub struct OpFut<T> {
    s: SimStore,
    op: Op,
    mail: usize,
    effect: Option<Effect<T>>,
    st: Arc<Mutex<OpSt<T>>>,
}

impl<T: Send + 'static> OpFut<T> {
    fn new(s: &SimStore, op: Op, mail: usize, effect: Effect<T>) -> OpFut<T> {
        let mut f = OpFut { s: s.clone(), op, mail, effect: Some(effect), st: Arc::new(Mutex::new(OpSt { reply: None, task: None })) };
        if s.w.lock().unwrap().k.eager {
            f.start();
        }
        f
    }

    fn start(&mut self) {
        let effect = match self.effect.take() {
            Some(e) => e,
            None => return,
        };
        let (sim, w, host) = (self.s.sim.clone(), self.s.w.clone(), self.s.host);
        let (k, quiet, stuck) = {
            let w = w.lock().unwrap();
            (w.k.clone(), w.quiet, w.mails[self.mail].stuck == Some(self.op) && !w.quiet)
        };
        let op = self.op;
        if stuck {
            sim.stat("stuck_operation");
            sim.log(30, self.mail as u64, host as u64, || format!("storage@{}: {:?} of mail {} never answers", host, op, self.mail));
            return;
        }
        let may_fail = !quiet && !(op == Op::Done && k.done_ok);
        let (mut before, mut after) = (false, false);
        if may_fail {
            before = sim.chance(k.fail_before, 256);
            after = !before && op != Op::Get && sim.chance(k.fail_after, 256);
        }
        let (l1, l2) = (*sim.pick(&k.lat), *sim.pick(&k.lat));
        let st = self.st.clone();
        let mail = self.mail;
        let w2 = w.clone();
        let apply: Box<dyn FnOnce(&Sim) + Send> = Box::new(move |sim: &Sim| {
            let r = if before {
                sim.stat("storage_error");
                if op == Op::Done {
                    w2.lock().unwrap().mails[mail].loose = true;
                }
                sim.log(31, mail as u64, host as u64, || format!("storage@{}: {:?} of mail {} fails", host, op, mail));
                Err(())
            } else {
                let r = effect(sim, &w2, true);
                sim.log(32, mail as u64, (r.is_ok() as u64) << 8 | host as u64, || format!("storage@{}: {:?} of mail {} {}", host, op, mail, if r.is_ok() { "takes effect" } else { "is refused" }));
                if after && r.is_ok() {
                    sim.stat("storage_reply_lost");
                    let mut g = w2.lock().unwrap();
                    g.mails[mail].loose = true;
                    // the mail has been put back, but the queue was not given it
                    g.hosts[host as usize].waiting_qm.retain(|x| x.0 != mail || op == Op::Start);
                    drop(g);
                    sim.log(33, mail as u64, host as u64, || format!("storage@{}: {:?} of mail {} is reported as failed", host, op, mail));
                    Err(())
                } else {
                    r
                }
            };
            let st2 = st.clone();
            let done = move |_: &Sim| {
                let t = {
                    let mut s = st2.lock().unwrap();
                    s.reply = Some(r);
                    s.task.take()
                };
                if let Some(t) = t {
                    t.notify()
                }
            };
            if l2 == 0 {
                done(sim)
            } else {
                sim.after(l2, done)
            }
        });
        if l1 == 0 {
            apply(&sim);
            return;
        }
        let id = {
            let mut g = w.lock().unwrap();
            g.next_pending += 1;
            let id = g.next_pending;
            g.pending.push(Pending { id, host, effect: apply });
            id
        };
        let w3 = w.clone();
        sim.after(l1, move |sim| {
            let p = {
                let mut g = w3.lock().unwrap();
                match g.pending.iter().position(|p| p.id == id) {
                    Some(i) => g.pending.remove(i),
                    None => return, // gone with its process
                }
            };
            (p.effect)(sim);
        });
    }
}

impl<T: Send + 'static> Future for OpFut<T> {
    type Item = T;
    type Error = ();
    fn poll(&mut self) -> Poll<T, ()> {
        self.start();
        let mut s = self.st.lock().unwrap();
        match s.reply.take() {
            Some(Ok(v)) => Ok(Async::Ready(v)),
            Some(Err(())) => Err(()),
            None => {
                s.task = Some(futures01::task::current());
                Ok(Async::NotReady)
            }
        }
    }
}

fn email(b: &[u8]) -> Email {
    Email::parse_slice(b).unwrap_or_else(|_| panic!("harness: address {:?} does not parse", show(b)))
}
pub fn wire(e: &Email) -> Vec<u8> {
    let mut v = Vec::new();
    e.send_to(&mut v).unwrap();
    v
}

impl SimStore {
    /// this instance has been given a queued mail
    fn give(&self, w: &mut World, id: usize, tok: u64) -> QM {
        if w.hosts[self.host as usize].alive {
            w.hosts[self.host as usize].waiting_qm.push((id, tok));
        }
        QM { id, tok }
    }
}

struct Entries {
    s: SimStore,
    inflight: bool,
    pos: usize,
    snap: Option<Vec<(usize, u64)>>,
    wait: Option<Arc<Mutex<OpSt<()>>>>,
    waited: bool,
    fail_at: Option<u32>,
    n: u32,
    over: bool,
}

impl Entries {
    fn next_entry(&mut self) -> Option<(usize, u64)> {
        let w = self.s.w.lock().unwrap();
        let pick = |st: St| match (st, self.inflight) {
            (St::Queued(t), false) => Some(t),
            (St::Inflight(t), true) => Some(t),
            _ => None,
        };
        if w.k.snapshot {
            let snap = self.snap.get_or_insert_with(|| w.mails.iter().enumerate().filter_map(|(i, m)| pick(m.state).map(|t| (i, t))).collect());
            let r = snap.get(self.pos).cloned();
            self.pos += 1;
            r
        } else {
            while self.pos < w.mails.len() {
                let i = self.pos;
                self.pos += 1;
                if let Some(t) = pick(w.mails[i].state) {
                    return Some((i, t));
                }
            }
            None
        }
    }

    /// the next entry, after a latency
    fn poll_entry(&mut self) -> Poll<Option<(usize, u64)>, ()> {
        let sim = self.s.sim.clone();
        if self.over {
            return Ok(Async::Ready(None));
        }
        let stuck = self.s.w.lock().unwrap().list_stuck;
        if stuck == Some((self.inflight, self.n)) {
            if self.wait.is_none() {
                self.wait = Some(Arc::new(Mutex::new(OpSt { reply: None, task: None::<Task> })));
                sim.stat("stuck_list");
                sim.log(33, self.inflight as u64, self.n as u64, || format!("storage@{}: the {} list stalls for ever", self.s.host, if self.inflight { "in-progress" } else { "queue" }));
            }
            return Ok(Async::NotReady);
        }
        if !self.waited {
            if self.wait.is_none() {
                let k = self.s.w.lock().unwrap().k.list_lat.clone();
                let d = *sim.pick(&k);
                if d > 0 {
                    let st = Arc::new(Mutex::new(OpSt { reply: None, task: None::<Task> }));
                    self.wait = Some(st.clone());
                    sim.after(d, move |_| {
                        let t = {
                            let mut s = st.lock().unwrap();
                            s.reply = Some(Ok(()));
                            s.task.take()
                        };
                        if let Some(t) = t {
                            t.notify()
                        }
                    });
                }
            }
            if let Some(ref st) = self.wait {
                let mut s = st.lock().unwrap();
                if s.reply.is_none() {
                    s.task = Some(futures01::task::current());
                    return Ok(Async::NotReady);
                }
            }
            self.wait = None;
            self.waited = true;
        }
        let host = self.s.host;
        let name = if self.inflight { "in-progress" } else { "queue" };
        if self.fail_at == Some(self.n) {
            self.over = true;
            sim.stat("listing_error");
            sim.log(34, host as u64, self.inflight as u64, || format!("storage@{}: reading the {} list fails", host, name));
            let mut w = self.s.w.lock().unwrap();
            let h = &mut w.hosts[host as usize];
            if self.inflight {
                h.find_failed = true
            } else {
                h.list_failed = true
            }
            return Err(());
        }
        self.waited = false;
        self.n += 1;
        let e = self.next_entry();
        match e {
            Some((i, t)) => {
                sim.log(35, i as u64, t, || format!("storage@{}: {} list has mail {} (mark {})", host, name, i, t));
                Ok(Async::Ready(Some((i, t))))
            }
            None => {
                self.over = true;
                sim.log(36, host as u64, self.inflight as u64, || format!("storage@{}: end of the {} list", host, name));
                let mut w = self.s.w.lock().unwrap();
                let h = &mut w.hosts[host as usize];
                if self.inflight {
                    h.find_ended = true
                } else {
                    h.list_ended = true
                }
                Ok(Async::Ready(None))
            }
        }
    }
}

struct QList(Entries);
impl Stream for QList {
    type Item = QM;
    type Error = ();
    fn poll(&mut self) -> Poll<Option<QM>, ()> {
        match self.0.poll_entry()? {
            Async::NotReady => Ok(Async::NotReady),
            Async::Ready(None) => Ok(Async::Ready(None)),
            Async::Ready(Some((i, t))) => {
                let s = self.0.s.clone();
                let mut w = s.w.lock().unwrap();
                w.hosts[s.host as usize].listed += 1;
                w.hosts[s.host as usize].given.push(i);
                Ok(Async::Ready(Some(s.give(&mut w, i, t))))
            }
        }
    }
}
struct FList(Entries);
impl Stream for FList {
    type Item = FIM;
    type Error = ();
    fn poll(&mut self) -> Poll<Option<FIM>, ()> {
        match self.0.poll_entry()? {
            Async::NotReady => Ok(Async::NotReady),
            Async::Ready(None) => Ok(Async::Ready(None)),
            Async::Ready(Some((i, t))) => {
                let found = self.0.s.sim.now();
                let mut w = self.0.s.w.lock().unwrap();
                let h = &mut w.hosts[self.0.s.host as usize];
                h.waiting_fim.push((i, t, found));
                h.given.push(i);
                h.found += 1;
                Ok(Async::Ready(Some(FIM { id: i, tok: t, found })))
            }
        }
    }
}

impl SimStore {
    fn entries(&self, inflight: bool) -> Entries {
        let (n, p, quiet) = {
            let w = self.w.lock().unwrap();
            (w.mails.len() as u32, w.k.list_err, w.quiet)
        };
        let fail_at = if !quiet && self.sim.chance(p, 64) { Some(self.sim.draw(n + 2)) } else { None };
        Entries { s: self.clone(), inflight, pos: 0, snap: None, wait: None, waited: false, fail_at, n: 0, over: false }
    }
}

impl Storage<Meta, QM, IM, FIM> for SimStore {
    fn list_queue(&self) -> Box<dyn Stream<Item = QM, Error = ()>> {
        Box::new(QList(self.entries(false)))
    }
    fn find_inflight(&self) -> Box<dyn Stream<Item = FIM, Error = ()>> {
        Box::new(FList(self.entries(true)))
    }

    fn cancel_found_inflight(&self, m: FIM) -> Box<dyn Future<Item = QM, Error = ()> + Send> {
        let now = self.sim.now();
        self.sim.log(37, m.id as u64, m.tok, || format!("queue@{}: recovers found mail {} (mark {}), found {} s ago", self.host, m.id, m.tok, (now - m.found) / SEC));
        if now < m.found + HOUR {
            self.sim.fail("early", format!("mail {} was found in progress {} s ago and is already being taken away from its sender", m.id, (now - m.found) / SEC));
        }
        {
            let mut w = self.w.lock().unwrap();
            let h = &mut w.hosts[self.host as usize];
            h.waiting_fim.retain(|x| !(x.0 == m.id && x.1 == m.tok));
            w.note(0x100 + m.id as u64);
        }
        let s = self.clone();
        Box::new(OpFut::new(
            self,
            Op::CancelFound,
            m.id,
            Box::new(move |_, w, _| {
                let mut w = w.lock().unwrap();
                if w.mails[m.id].state == St::Inflight(m.tok) {
                    let t = w.fresh();
                    w.mails[m.id].state = St::Queued(t);
                    w.note(0x200 + m.id as u64);
                    Ok(s.give(&mut w, m.id, t))
                } else {
                    Err(())
                }
            }),
        ))
    }

    fn enqueue<S>(&self, _mail: Mail<S, Meta>) -> Box<dyn Future<Item = QM, Error = ()>>
    where
        S: Stream<Item = BytesMut, Error = ()>,
    {
        Box::new(futures01::future::err(()))
    }

    fn send_start(&self, m: QM) -> Box<dyn Future<Item = IM, Error = ()> + Send> {
        self.sim.log(38, m.id as u64, m.tok, || format!("queue@{}: takes up mail {} (mark {})", self.host, m.id, m.tok));
        {
            let mut w = self.w.lock().unwrap();
            let h = &mut w.hosts[self.host as usize];
            if let Some(p) = h.waiting_qm.iter().position(|x| *x == (m.id, m.tok)) {
                h.waiting_qm.remove(p);
            }
            w.note(0x300 + m.id as u64);
        }
        let s = self.clone();
        Box::new(OpFut::new(
            self,
            Op::Start,
            m.id,
            Box::new(move |_, w, _| {
                let mut w = w.lock().unwrap();
                if w.mails[m.id].state == St::Queued(m.tok) {
                    let t = w.fresh();
                    w.mails[m.id].state = St::Inflight(t);
                    w.note(0x400 + m.id as u64);
                    w.attempts.push(Attempt { mail: m.id, host: s.host, tok: t, loaded: false, sent: 0, reported: None, reported_at: 0, closed: 0, unreadable: None });
                    let st = s.clone();
                    drop(w);
                    Ok(IM { id: m.id, tok: t, st })
                } else {
                    Err(())
                }
            }),
        ))
    }

    fn send_done(&self, m: IM) -> Box<dyn Future<Item = (), Error = ()> + Send> {
        self.close(m.id, m.tok, true);
        Box::new(OpFut::new(
            self,
            Op::Done,
            m.id,
            Box::new(move |_, w, _| {
                let mut w = w.lock().unwrap();
                if w.mails[m.id].state == St::Inflight(m.tok) {
                    w.mails[m.id].state = St::Done;
                    w.note(0x500 + m.id as u64);
                    Ok(())
                } else {
                    Err(())
                }
            }),
        ))
    }

    fn send_cancel(&self, m: IM) -> Box<dyn Future<Item = QM, Error = ()> + Send> {
        self.close(m.id, m.tok, false);
        let s = self.clone();
        Box::new(OpFut::new(
            self,
            Op::Cancel,
            m.id,
            Box::new(move |_, w, _| {
                let mut w = w.lock().unwrap();
                if w.mails[m.id].state == St::Inflight(m.tok) {
                    let t = w.fresh();
                    w.mails[m.id].state = St::Queued(t);
                    w.note(0x600 + m.id as u64);
                    Ok(s.give(&mut w, m.id, t))
                } else {
                    Err(())
                }
            }),
        ))
    }
}

impl SimStore {
    /// the queue closes an attempt
    fn close(&self, id: usize, tok: u64, done: bool) {
        self.sim.log(39, id as u64, tok << 1 | done as u64, || format!("queue@{}: {} mail {} (mark {})", self.host, if done { "completes" } else { "returns" }, id, tok));
        let mut bad = None;
        {
            let mut w = self.w.lock().unwrap();
            if done {
                if let Some(f) = w.may_remove.clone() {
                    if let Err(e) = f(id) {
                        bad = Some(("remove", e));
                    }
                }
            }
            match w.attempt(tok) {
                None => bad = Some(("close", format!("mail {} is closed with a mark it was never given", id))),
                Some(a) => {
                    a.closed += 1;
                    if a.closed > 1 {
                        bad = Some(("close", format!("an attempt for mail {} is closed twice", id)));
                    } else if done && a.reported != Some(true) {
                        bad = Some((
                            "remove",
                            format!("storage is asked to drop mail {} although {}", id, if a.reported.is_none() { "its delivery has not been reported" } else { "its delivery failed" }),
                        ));
                    } else if !done && a.reported != Some(false) {
                        bad = Some(("close", format!("mail {} is returned to the queue although {}", id, if a.reported.is_none() { "its delivery has not been reported" } else { "it was delivered" })));
                    }
                }
            }
        }
        if let Some((c, m)) = bad {
            self.sim.fail(c, m);
        }
    }
}

impl InflightMail<Meta> for IM {
    fn get_mail(&self) -> Box<dyn Future<Item = Mail<Box<dyn Stream<Item = BytesMut, Error = ()>>, Meta>, Error = ()> + Send> {
        let (id, tok) = (self.id, self.tok);
        self.st.sim.log(46, id as u64, tok, || format!("queue@{}: loads mail {}", self.st.host, id));
        let f = OpFut::new(&self.st, Op::Get, id, Box::new(move |_, _, _| Ok(())));
        let (w, sim) = (self.st.w.clone(), self.st.sim.clone());
        Box::new(f.map(move |()| {
            let mut w = w.lock().unwrap();
            let n = w.mails[id].pieces.len() as u32;
            let p = if w.quiet { 0 } else { w.k.read_err };
            let bad = if p > 0 && sim.chance(p, 256) { Some(sim.draw(n.max(1)) as usize) } else { None };
            if bad.is_some() {
                sim.stat("content_read_error");
            }
            if let Some(a) = w.attempt(tok) {
                a.loaded = true;
                a.unreadable = bad;
            }
            let m = &w.mails[id];
            let mut pieces: Vec<Result<BytesMut, ()>> = m.pieces.iter().map(|p| Ok(BytesMut::from(&p[..]))).collect();
            if let Some(k) = bad {
                pieces.truncate(k);
                pieces.push(Err(()));
            }
            let data: Box<dyn Stream<Item = BytesMut, Error = ()>> = Box::new(futures01::stream::iter_result(pieces));
            Mail { from: m.from.as_ref().map(|b| email(b)), to: m.to.iter().map(|b| email(b)).collect(), data, metadata: Meta { id, secret: m.secret, tok } }
        }))
    }
}

// ------------------------------------------------------------------ transport

pub struct SimTransp {
    pub sim: Sim,
    pub w: W,
    pub host: u32,
}

struct Never;
impl futures01::executor::Notify for Never {
    fn notify(&self, _: usize) {}
}

/// Read a mail's content (our storage always has it at hand)
pub fn drain<S: Stream<Item = BytesMut, Error = ()>>(s: S) -> Result<Vec<u8>, &'static str> {
    let mut sp = futures01::executor::spawn(s);
    let n = Arc::new(Never);
    let mut v = Vec::new();
    loop {
        match sp.poll_stream_notify(&n, 0) {
            Ok(Async::Ready(Some(b))) => v.extend_from_slice(&b),
            Ok(Async::Ready(None)) => return Ok(v),
            Ok(Async::NotReady) => return Err("the content is not there"),
            Err(()) => return Err("reading the content fails"),
        }
    }
}

/// Checks at hand-over to the transport; returns the mail's index, its mark, and after how many
/// pieces its content turned out to be unreadable
pub fn handover<S: Stream<Item = BytesMut, Error = ()>>(sim: &Sim, w: &W, host: u32, mail: Mail<S, Meta>) -> (usize, u64, Option<usize>) {
    let Mail { from, to, data, metadata } = mail;
    let (id, tok) = (metadata.id, metadata.tok);
    let body = drain(data);
    let from = from.as_ref().map(wire);
    let to: Vec<Vec<u8>> = to.iter().map(wire).collect();
    sim.log(47, id as u64, tok, || format!("queue@{}: hands mail {} (mark {}) to the transport", host, id, tok));
    let mut bad: Vec<(&'static str, String)> = Vec::new();
    let mut broken = None;
    {
        let mut w = w.lock().unwrap();
        w.note(0x700 + id as u64);
        let m = &w.mails[id];
        if from != m.from || to != m.to || metadata.secret != m.secret {
            bad.push(("content", format!("mail {} is handed over with sender {:?} and recipients {:?}, stored were {:?} and {:?}", id, from.as_ref().map(|x| show(x)), to.iter().map(|x| show(x)).collect::<Vec<_>>(), m.from.as_ref().map(|x| show(x)), m.to.iter().map(|x| show(x)).collect::<Vec<_>>())));
        }
        let unreadable = w.attempts.iter().rev().find(|a| a.tok == tok).and_then(|a| a.unreadable);
        match body {
            Ok(ref b) if unreadable.is_some() && *b != m.body => bad.push(("content", format!("reading the content of mail {} failed, but the transport is given {:?} as the whole of it", id, show(b)))),
            Err(_) if unreadable.is_some() => broken = unreadable,
            Ok(ref b) if *b == m.body => (),
            Ok(ref b) => bad.push(("content", format!("mail {} is handed over with content {:?}, stored was {:?}", id, show(b), show(&m.body)))),
            Err(e) => bad.push(("content", format!("mail {} is handed over but {}", id, e))),
        }
        let (strict, state, active) = (w.strict && !m.loose, m.state, m.active);
        match w.attempt(tok) {
            None => bad.push(("protocol", format!("mail {} is handed over without having been marked in progress", id))),
            Some(a) => {
                if a.mail != id || !a.loaded {
                    bad.push(("protocol", format!("mail {} is handed over under the mark of mail {}", id, a.mail)));
                }
                if a.closed > 0 {
                    bad.push(("protocol", format!("mail {} is handed over although the attempt has been closed", id)));
                }
                a.sent += 1;
                if a.sent > 1 {
                    bad.push(("protocol", format!("mail {} is handed over twice under one mark", id)));
                }
            }
        }
        if strict {
            if active > 0 {
                bad.push(("duplicate", format!("two attempts to deliver mail {} overlap", id)));
            }
            if w.mails[id].delivered > 0 {
                bad.push(("duplicate", format!("mail {} has been delivered and is being sent again", id)));
            }
            if state != St::Inflight(tok) {
                bad.push(("protocol", format!("mail {} is being sent while storage has it as {:?}", id, state)));
            }
        }
        w.mails[id].active += 1;
        w.mails[id].attempts += 1;
    }
    for (c, m) in bad {
        sim.fail(c, m);
    }
    (id, tok, broken)
}

pub fn report(sim: &Sim, w: &W, host: u32, id: usize, tok: u64, ok: bool) {
    sim.log(48, id as u64, tok << 1 | ok as u64, || format!("transport@{}: delivery of mail {} reported as {}", host, id, if ok { "done" } else { "failed" }));
    let mut g = w.lock().unwrap();
    g.mails[id].active -= 1;
    let now = sim.now();
    g.note(0x800 + id as u64 * 2 + ok as u64);
    if let Some(a) = g.attempt(tok) {
        a.reported = Some(ok);
        a.reported_at = now;
    }
}

struct SendFut {
    st: Arc<Mutex<OpSt<bool>>>,
    code: u16,
    text: Vec<u8>,
}
impl Future for SendFut {
    type Item = ();
    type Error = (ReplyCode, SmtpString);
    fn poll(&mut self) -> Poll<(), (ReplyCode, SmtpString)> {
        let mut s = self.st.lock().unwrap();
        match s.reply.take() {
            Some(Ok(true)) => Ok(Async::Ready(())),
            Some(_) => Err((ReplyCode::custom(self.code), SmtpString::from(&self.text[..]))),
            None => {
                s.task = Some(futures01::task::current());
                Ok(Async::NotReady)
            }
        }
    }
}

impl Transport<Meta> for SimTransp {
    fn send<S: Stream<Item = BytesMut, Error = ()>>(&self, mail: Mail<S, Meta>) -> Box<dyn Future<Item = (), Error = (ReplyCode, SmtpString)> + Send> {
        let (id, tok, broken) = handover(&self.sim, &self.w, self.host, mail);
        let st = Arc::new(Mutex::new(OpSt { reply: None, task: None::<Task> }));
        let sim = &self.sim;
        let (stuck, fails, k, quiet) = {
            let w = self.w.lock().unwrap();
            (w.mails[id].stuck == Some(Op::Send) && !w.quiet, w.mails[id].fails, w.k.clone(), w.quiet)
        };
        if stuck {
            sim.stat("stuck_operation");
            sim.log(49, id as u64, 0, || format!("transport@{}: delivery of mail {} never ends", self.host, id));
            return Box::new(SendFut { st, code: 451, text: Vec::new() });
        }
        let mut d1 = *sim.pick(&k.send_lat);
        let d2 = *sim.pick(&k.send_lat) / 2;
        let will_fail = fails > 0 || broken.is_some();
        let ambiguous = will_fail && broken.is_none() && !quiet && sim.chance(k.ambiguous_send, 64);
        if will_fail {
            sim.stat("delivery_failure");
            if fails == u32::MAX {
                d1 = d1.max(600 * SEC);
            } else if fails > 0 {
                self.w.lock().unwrap().mails[id].fails -= 1;
            }
        }
        let text = if sim.chance(1, 4) { gen::text(sim) } else { b"try later".to_vec() };
        // whatever the next hop says, it has not taken the mail
        let code = if will_fail { *sim.pick(&[451, 450, 550, 421, 452, 455, 500, 501, 502, 503, 504, 551, 552, 553, 554, 555, 571, 0, 250, 251, 354, 220, 999, sim.draw(1000) as u16]) } else { 250 };
        let (w, host, st2) = (self.w.clone(), self.host, st.clone());
        // the moment at which the other side takes it, or does not
        let takes = move |sim: &Sim, w: &W| -> bool {
            let mut g = w.lock().unwrap();
            if !g.hosts[host as usize].alive {
                g.mails[id].active -= 1;
                return false;
            }
            if !will_fail || ambiguous {
                g.mails[id].delivered += 1;
                if ambiguous {
                    g.mails[id].loose = true;
                }
                drop(g);
                if ambiguous {
                    sim.stat("delivered_but_reported_failed");
                }
                sim.log(50, id as u64, ambiguous as u64, || format!("transport@{}: mail {} has arrived", host, id));
            }
            true
        };
        let tells = move |sim: &Sim, w: &W| {
            {
                let mut g = w.lock().unwrap();
                if !g.hosts[host as usize].alive {
                    g.mails[id].active -= 1;
                    return;
                }
            }
            report(sim, w, host, id, tok, !will_fail);
            let t = {
                let mut s = st2.lock().unwrap();
                s.reply = Some(Ok(!will_fail));
                s.task.take()
            };
            if let Some(t) = t {
                t.notify()
            }
        };
        if d1 == 0 && d2 == 0 && k.eager {
            // settled before the call returns
            sim.stat("instant_delivery");
            takes(sim, &w);
            tells(sim, &w);
        } else {
            sim.after(d1, move |sim| {
                if takes(sim, &w) {
                    sim.after(d2, move |sim| tells(sim, &w));
                }
            });
        }
        Box::new(SendFut { st, code, text })
    }
}

// ------------------------------------------------------------------ scenario

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Focus {
    Removal,   // C15
    Eventual,  // C16
    Once,      // C17
    Recovery,  // C18
    Isolation, // C19
    Protocol,  // C20
    Scan,      // C21
}

pub fn draw_mails(sim: &Sim, n: usize, tok: &mut u64, nobody: bool) -> Vec<MailRec> {
    (0..n)
        .map(|i| {
            let from = if sim.chance(1, 5) {
                None
            } else if sim.chance(1, 4) {
                Some(wire(&email(&gen::email(sim))))
            } else { Some(format!("m{}@example.org", i).into_bytes()) };
            let nto = match sim.weighted(&[40, 4, 1]) {
                0 => 1 + sim.draw(3),
                1 => 1 - nobody as u32,
                _ => sim.range(20, 150),
            };
            let to = (0..nto).map(|k| if k == 0 { format!("r{}@example.net", i).into_bytes() } else { match sim.draw(5) {
                0 => wire(&email(&gen::email(sim))),
                _ => sim.pick(&[&b"\"q q\"@x.y"[..], b"root", b"a@[127.0.0.1]", b"z@example.com"]).to_vec(),
            } }).collect();
            let body = gen::body(sim, false);
            let pieces = gen::pieces(sim, &body);
            *tok += 1;
            MailRec { from, to, body, pieces, secret: 1000 + i as u64 * 7, state: St::Queued(*tok), fails: 0, delivered: 0, active: 0, attempts: 0, stuck: None, loose: false }
        })
        .collect()
}

pub fn start_host(ex: &mut Exec, sim: &Sim, w: &W) -> u32 {
    let host = {
        let mut g = w.lock().unwrap();
        g.hosts.push(Host { alive: true, ..Host::default() });
        g.hosts.len() as u32 - 1
    };
    let tr = SimTransp { sim: sim.clone(), w: w.clone(), host };
    start_with(ex, sim, w, host, tr);
    host
}

pub fn start_with<T: Transport<Meta>>(_ex: &mut Exec, sim: &Sim, w: &W, host: u32, tr: T) {
    sim.log(51, host as u64, 0, || format!("queue@{}: starts", host));
    let st = SimStore { sim: sim.clone(), w: w.clone(), host };
    set_group(host + 1);
    // (the queue may start its work already while being constructed)
    let f = smtp_queue::run::<Meta, QM, IM, FIM, SimStore, T>(Arc::new(st), Arc::new(tr));
    let (sim, w) = (sim.clone(), w.clone());
    spawn1(
        "queue",
        Box::new(f.then(move |r| {
            sim.log(52, host as u64, r.is_ok() as u64, || format!("queue@{}: start-up scan ends: {:?}", host, r));
            let mut g = w.lock().unwrap();
            let h = &mut g.hosts[host as usize];
            h.result = Some(r);
            let (le, fe, lf, ff) = (h.list_ended, h.find_ended, h.list_failed, h.find_failed);
            let waiting = h.waiting_qm.len();
            let _ = waiting;
            drop(g);
            match r {
                Ok(()) if lf || ff => sim.fail("scan", format!("instance {}: reading a list failed but start-up reports success", host)),
                Ok(()) if !(le && fe) => sim.fail("scan", format!("instance {}: start-up reports success before both lists have been read to the end", host)),
                Err(()) if !(lf || ff) => sim.fail("scan", format!("instance {}: start-up reports failure although both lists could be read", host)),
                _ => (),
            }
            Ok(())
        })),
    );
    set_group(0);
}

pub fn crash(ex: &mut Exec, sim: &Sim, w: &W, host: u32) {
    sim.stat("process_crash");
    sim.log(53, host as u64, 0, || format!("queue@{}: crashes", host));
    w.lock().unwrap().strict = false;
    w.lock().unwrap().hosts[host as usize].alive = false;
    ex.kill_group(host + 1);
    // operations under way either happen now or never
    loop {
        let p = {
            let mut g = w.lock().unwrap();
            match g.pending.iter().position(|p| p.host == host) {
                Some(i) => g.pending.remove(i),
                None => break,
            }
        };
        if sim.chance(1, 2) {
            sim.stat("operation_completed_by_crash");
            (p.effect)(sim);
        } else {
            sim.stat("operation_lost_in_crash");
        }
    }
}

/// Everything handed to a live instance has been taken up
fn taken_charge(sim: &Sim, w: &W) {
    let g = w.lock().unwrap();
    let mut bad = None;
    for (i, h) in g.hosts.iter().enumerate() {
        if !h.alive {
            continue;
        }
        if let Some(x) = h.waiting_qm.first() {
            bad = Some(format!("instance {} was given queued mail {} and never takes it up", i, x.0));
        } else if let Some(x) = h.waiting_fim.first() {
            bad = Some(format!("instance {} found mail {} in progress {} s ago and never recovers it", i, x.0, (sim.now() - x.2) / SEC));
        }
    }
    // attempts whose outcome was reported must be closed
    for a in &g.attempts {
        if g.hosts[a.host as usize].alive && a.reported.is_some() && a.closed == 0 && bad.is_none() {
            bad = Some(format!("the delivery of mail {} was reported as {} but the attempt is never closed", a.mail, if a.reported == Some(true) { "done" } else { "failed" }));
        }
        if g.hosts[a.host as usize].alive && a.sent == 0 && a.loaded && bad.is_none() {
            bad = Some(format!("mail {} was loaded but is never handed to the transport", a.mail));
        }
    }
    drop(g);
    if let Some(m) = bad {
        sim.fail("abandoned", m);
    }
}

pub fn run(sim: &Sim, focus: Focus) -> Outcome {
    let mut ex = Exec::new(sim, true);
    ex.spurious = *sim.pick(&[0, 0, 15]);
    ex.max_steps = 300_000;
    if !matches!(focus, Focus::Once | Focus::Eventual) {
        ex.stall = *sim.pick(&[0, 0, 0, 10]);
    }
    ex.scope(|ex| body(sim, ex, focus))
}

fn body(sim: &Sim, ex: &mut Exec, focus: Focus) -> Outcome {
    // now and then a really long queue
    let bulk = focus != Focus::Isolation && sim.chance(1, if matches!(focus, Focus::Scan | Focus::Recovery | Focus::Eventual) { 800 } else { 1600 });
    let n = match sim.weighted(&[6, 4, 1]) {
        _ if bulk => {
            ex.max_steps = 5_000_000;
            sim.stat("long_queue");
            sim.pick(&[500, 1000, 2000, 4100]) + sim.draw(100)
        }
        0 => sim.range(1, 3),
        1 => sim.range(2, 8),
        _ if focus == Focus::Isolation && sim.chance(1, 8) => sim.range(100, 400),
        _ => sim.range(8, 40),
    } as usize;
    let mut tok = 0;
    let mut mails = draw_mails(sim, n, &mut tok, true);
    let slow = sim.chance(1, 2);
    let mut k = Knobs {
        lat: if slow { vec![0, MS, SEC, 60 * SEC, 500 * SEC] } else { vec![0, 0, MS, 20 * MS] },
        send_lat: sim.pick(&[vec![10 * MS], vec![MS, SEC, 60 * SEC], vec![SEC, 500 * SEC], vec![0], vec![0, 0, SEC]]).clone(),
        list_lat: sim.pick(&[vec![0], vec![0, MS, SEC], vec![0, 600 * SEC], vec![0, HOUR, 2 * HOUR]]).clone(),
        fail_before: 0,
        fail_after: 0,
        eager: sim.chance(1, 2),
        snapshot: sim.chance(1, 2),
        ambiguous_send: 0,
        list_err: 0,
        read_err: 0,
        done_ok: false,
    };
    let faulty = match focus {
        Focus::Removal | Focus::Eventual | Focus::Protocol => sim.chance(2, 3),
        Focus::Recovery => sim.chance(1, 2),
        _ => false,
    };
    if faulty {
        k.fail_before = *sim.pick(&[0, 8, 40]);
        k.fail_after = *sim.pick(&[0, 8, 40]);
        k.ambiguous_send = *sim.pick(&[0, 16]);
        k.list_err = *sim.pick(&[0, 0, 8]);
    }
    if !matches!(focus, Focus::Isolation | Focus::Scan) && sim.chance(1, 3) {
        k.read_err = *sim.pick(&[8, 40]);
    }
    if focus == Focus::Isolation {
        k.list_lat.retain(|&d| d < HOUR);
    }
    if bulk {
        k.list_lat.retain(|&d| d <= MS);
    }
    if focus == Focus::Once {
        k.done_ok = true;
        if sim.chance(1, 3) {
            k.fail_before = *sim.pick(&[8, 40]);
        }
    }
    if focus == Focus::Scan {
        k.list_err = *sim.pick(&[0, 24, 40]);
        // in this check every mail takes part, in one list or the other
    }
    // deliveries which fail a number of times
    let pf = *sim.pick(&[0, 16, 40]);
    for m in mails.iter_mut() {
        if sim.chance(pf, 64) {
            m.fails = 1 + sim.draw(4);
            match sim.weighted(&[60, 4, 1]) {
                _ if bulk => (),
                1 => m.fails = 30,
                2 if focus != Focus::Isolation => m.fails = 300,
                _ => (),
            }
        }
    }
    // one mail whose deliveries fail more often than any small counter can tell
    let endless = !bulk && matches!(focus, Focus::Eventual | Focus::Protocol) && sim.chance(1, 12_000);
    if endless {
        ex.max_steps = 5_000_000;
        ex.stall = 0;
        sim.stat("endless_failures");
        k.lat = vec![0, MS];
        k.send_lat = sim.pick(&[vec![0], vec![0, MS]]).clone();
        k.fail_before = 0;
        k.fail_after = 0;
        k.ambiguous_send = 0;
        k.read_err = 0;
        mails.truncate(3);
        let i = sim.draw(mails.len() as u32) as usize;
        mails[i].fails = *sim.pick(&[1100, 1100, 5000, 5000, 33_000, 66_000]);
    }
    let n = mails.len();
    // leftovers, marked in progress by someone else
    let left = match focus {
        Focus::Recovery => *sim.pick(&[64, 40, 20]),
        Focus::Once => *sim.pick(&[0, 0, 16]),
        _ => *sim.pick(&[0, 16, 40]),
    };
    let mut owners = Vec::new();
    for (i, m) in mails.iter_mut().enumerate() {
        if sim.chance(left, 64) {
            if let St::Queued(t) = m.state {
                m.state = St::Inflight(t);
                // the owner may be alive and finish later (within its hour)
                if sim.chance(1, 3) {
                    let at = sim.draw(3599) as u64 * SEC;
                    owners.push((i, t, at, sim.chance(1, 2)));
                }
            }
        }
    }
    if focus == Focus::Isolation {
        let p = *sim.pick(&[16, 32, 60]);
        for m in mails.iter_mut() {
            if sim.chance(p, 64) {
                m.stuck = Some(*sim.pick(&[Op::Start, Op::Get, Op::Send, Op::Done, Op::Cancel, Op::CancelFound]));
                if m.stuck == Some(Op::Cancel) {
                    m.fails = 1;
                }
                sim.stat("stuck_mail");
            } else if sim.chance(8, 64) {
                m.fails = u32::MAX;
                sim.stat("ever_failing_mail");
            }
        }
    }
    let list_stuck = if focus == Focus::Isolation && sim.chance(1, 8) { Some((sim.chance(1, 2), sim.draw(n as u32 + 1))) } else { None };
    if sim.tracing() {
        let mut t = format!("{} mails; latencies {:?} ms, transport {:?} ms, listing {:?} s; eager={} snapshot={}", n, k.lat.iter().map(|x| x / MS).collect::<Vec<_>>(), k.send_lat.iter().map(|x| x / MS).collect::<Vec<_>>(), k.list_lat.iter().map(|x| x / SEC).collect::<Vec<_>>(), k.eager, k.snapshot);
        for (i, m) in mails.iter().enumerate() {
            t.push_str(&format!("\n    mail {}: {:?}, {} failures ahead, stuck {:?}, {} bytes", i, m.state, m.fails, m.stuck, m.body.len()));
        }
        sim.log(94, 0, 0, || t);
    }
    let mut world = World::new(mails, tok, k);
    world.list_stuck = list_stuck;
    world.strict = matches!(focus, Focus::Once | Focus::Protocol | Focus::Scan | Focus::Isolation);
    let w: W = Arc::new(Mutex::new(world));
    if focus != Focus::Once {
        // an operation that may hang, or a stalled process, can outlast the recovery hour
        if ex.stall > 0 || focus == Focus::Isolation {
            w.lock().unwrap().strict = false;
        }
    }
    // leftovers whose owner finishes: it completes the mail, or gives it back
    for (i, t, at, done) in owners {
        let w2 = w.clone();
        sim.at(at, move |sim| {
            let mut g = w2.lock().unwrap();
            if g.mails[i].state == St::Inflight(t) {
                if done {
                    g.mails[i].state = St::Done;
                    g.mails[i].delivered += 1;
                } else {
                    let t2 = g.fresh();
                    g.mails[i].state = St::Queued(t2);
                }
                drop(g);
                sim.stat("owner_finishes");
                sim.log(54, i as u64, done as u64, || format!("the other owner of mail {} {}", i, if done { "has delivered it" } else { "gives it back" }));
            }
        });
    }
    // the wall clock may jump; nothing here may depend on it
    if sim.chance(1, 3) {
        for _ in 0..1 + sim.draw(3) {
            let at = sim.draw(7200) as u64 * SEC;
            let by = *sim.pick(&[3600i64, -3600, 86400, -86400]) * SEC as i64;
            sim.at(at, move |sim| {
                sim.stat("wall_clock_jump");
                interpose::set_wall_skew(by);
                sim.log(55, 0, 0, || format!("the wall clock jumps by {} s", by / SEC as i64));
            });
        }
    }
    let horizon = 40_000 * HOUR;
    let mut measure = 0;
    // phase 1: instances come and go
    let ninst = match focus {
        Focus::Once | Focus::Protocol => sim.range(1, 3),
        Focus::Removal | Focus::Eventual | Focus::Recovery => 1 + sim.weighted(&[4, 1]) as u32,
        _ => 1,
    };
    let mut plan: Vec<(u64, u32)> = Vec::new(); // (time, 0 start / 1 crash the oldest)
    for i in 0..ninst {
        let at = if i == 0 { 0 } else { sim.draw(3 * 3600) as u64 * *sim.pick(&[MS, SEC, SEC]) };
        plan.push((at, 0));
    }
    if matches!(focus, Focus::Removal | Focus::Eventual | Focus::Recovery) {
        let nc = *sim.pick(&[0, 1, 1, 2, 3]);
        for _ in 0..nc {
            let unit = *sim.pick(&[MS, 50 * MS, SEC, 4 * SEC]);
            let at = sim.draw(3000) as u64 * unit;
            plan.push((at, 1));
            let back = at + sim.draw(1000) as u64 * unit;
            plan.push((back, 0));
        }
    }
    plan.sort();
    // with one instance only, nothing limits how long a delivery may take
    if plan.len() == 1 && !bulk && !endless && ninst == 1 && matches!(focus, Focus::Removal | Focus::Eventual | Focus::Recovery | Focus::Protocol) && sim.chance(1, 6) {
        let mut g = w.lock().unwrap();
        if g.mails.iter().all(|m| m.fails <= 5) {
            sim.stat("deliveries_of_hours");
            // the instance may find its own mails in progress and take their sender for dead
            g.strict = false;
            g.k.send_lat = sim.pick(&[vec![0, 2 * HOUR], vec![MS, SEC, HOUR], vec![SEC, 30 * HOUR]]).clone();
            if sim.chance(1, 3) {
                g.k.lat = vec![0, MS, 2 * HOUR];
            }
        }
    }
    for (at, what) in plan {
        match ex.run(at, |s| s.failed()) {
            Stop::Overrun => sim.fail("spin", "the queue does not settle within the step limit"),
            _ => (),
        }
        if sim.failed() {
            return Outcome { nontrivial: true, measure };
        }
        // run() stops early when nothing is left to do: move the clock
        advance(sim, at);
        if what == 0 {
            start_host(ex, sim, &w);
        } else {
            let h = w.lock().unwrap().hosts.iter().position(|h| h.alive);
            if let Some(h) = h {
                crash(ex, sim, &w, h as u32);
            }
        }
    }
    let stop = ex.run(if focus == Focus::Isolation { 60 * HOUR } else { horizon }, |s| s.failed());
    if sim.failed() {
        return Outcome { nontrivial: true, measure };
    }
    let settled = matches!(stop, Stop::Quiescent);
    if !settled && focus != Focus::Isolation {
        sim.fail("spin", "the queue does not settle although every delivery succeeds after finitely many failures");
        return Outcome { nontrivial: true, measure };
    }
    // phase 1 verdicts
    if focus == Focus::Isolation {
        let g = w.lock().unwrap();
        let mut bad = None;
        let stalled = g.list_stuck.map_or(false, |(i, n)| if i { g.hosts[0].list_ended && n <= g.hosts[0].found } else { n <= g.hosts[0].listed }) && !(g.hosts[0].list_ended && g.hosts[0].find_ended);
        if !stalled && !matches!(g.hosts[0].result, Some(Ok(()))) {
            bad = Some(("scan", "the start-up scan does not complete although only deliveries are stuck".to_string()));
        }
        for (i, m) in g.mails.iter().enumerate() {
            if stalled && !g.hosts[0].given.contains(&i) {
                continue;
            }
            if m.stuck.is_none() && m.fails != u32::MAX && m.state != St::Done && !(matches!(m.state, St::Queued(_)) && m.attempts == 0 && ext_returned(&g, i)) {
                bad = Some(("held-back", format!("mail {} is healthy but not delivered ({:?}) while others are stuck or failing", i, m.state)));
            }
            if m.fails == u32::MAX && m.stuck.is_none() && m.attempts < 2 && m.state != St::Done && !(matches!(m.state, St::Queued(_)) && m.attempts == 0 && ext_returned(&g, i)) {
                bad = Some(("held-back", format!("failing mail {} was attempted {} times only in 60 hours", i, m.attempts)));
            }
        }
        drop(g);
        if let Some((c, m)) = bad {
            sim.fail(c, m);
        }
    } else {
        taken_charge(sim, &w);
        let g = w.lock().unwrap();
        let mut bad = None;
        for (i, h) in g.hosts.iter().enumerate() {
            if h.alive && h.result.is_none() {
                bad = Some(("scan", format!("instance {}: the start-up scan never ends", i)));
            }
        }
        let clean = g.k.fail_before == 0 && g.k.fail_after == 0 && g.k.ambiguous_send == 0 && g.hosts.iter().all(|h| h.alive && h.result == Some(Ok(())));
        if clean {
            for (i, m) in g.mails.iter().enumerate() {
                if m.state != St::Done && !ext_returned(&g, i) {
                    bad = Some(("undelivered", format!("mail {} is never delivered: {:?} after {} attempts", i, m.state, m.attempts)));
                }
            }
        }
        if g.strict {
            for (i, m) in g.mails.iter().enumerate() {
                if m.delivered > 1 && !m.loose {
                    bad = Some(("duplicate", format!("mail {} was delivered {} times", i, m.delivered)));
                }
            }
        }
        drop(g);
        if let Some((c, m)) = bad {
            sim.fail(c, m);
        }
    }
    measure = mix(measure ^ w.lock().unwrap().history);
    // phase 2: faults stop; one last restart delivers whatever is left
    if !sim.failed() && matches!(focus, Focus::Removal | Focus::Eventual | Focus::Recovery) {
        let alive: Vec<u32> = {
            let g = w.lock().unwrap();
            (0..g.hosts.len() as u32).filter(|&h| g.hosts[h as usize].alive).collect()
        };
        for h in alive {
            crash(ex, sim, &w, h);
        }
        {
            let mut g = w.lock().unwrap();
            g.quiet = true;
            g.k.lat = vec![0, MS, SEC];
            g.k.list_lat = vec![0, MS, SEC];
            g.k.send_lat = vec![MS, SEC];
        }
        sim.stat("final_restart");
        let t0 = sim.now();
        // the recovery delay, the two lists, the operations of a first attempt and of all retries
        let retries: u64 = w.lock().unwrap().mails.iter().map(|m| m.fails as u64).max().unwrap_or(0);
        let bound = HOUR + 60 * SEC + 2 * (n as u64 + 2) * SEC + 5 * (retries + 1) * SEC;
        start_host(ex, sim, &w);
        let stop = ex.run(t0 + bound, |s| s.failed());
        if let Stop::Overrun = stop {
            sim.fail("spin", "the queue does not settle within the step limit");
        }
        let g = w.lock().unwrap();
        let mut bad = None;
        for (i, m) in g.mails.iter().enumerate() {
            if m.state != St::Done {
                bad = Some(format!("{} s after a fault-free restart mail {} is still {:?} after {} attempts", bound / SEC, i, m.state, m.attempts));
            } else if m.delivered == 0 {
                bad = Some(format!("mail {} has been removed without ever having been delivered", i));
            }
        }
        drop(g);
        if let Some(m) = bad {
            sim.fail("undelivered", m);
        }
        if !sim.failed() {
            taken_charge(sim, &w);
        }
        measure = mix(measure ^ w.lock().unwrap().history);
    }
    let g = w.lock().unwrap();
    let na: u64 = g.mails.iter().map(|m| m.attempts as u64).sum();
    drop(g);
    sim.stat_n("delivery_attempts", na);
    sim.stat_n("mails", n as u64);
    let rest = std::mem::replace(&mut w.lock().unwrap().pending, Vec::new());
    drop(rest);
    Outcome { nontrivial: na > 0, measure }
}

/// Given back to the queue by an owner outside this simulation's instances after they had listed
/// it: nobody is in charge until the next restart
fn ext_returned(g: &World, i: usize) -> bool {
    matches!(g.mails[i].state, St::Queued(_)) && !g.hosts.iter().any(|h| h.alive && h.waiting_qm.iter().any(|x| x.0 == i)) && g.mails[i].attempts == 0
}

pub fn advance(sim: &Sim, t: u64) {
    let mut c = sim.core();
    if c.now < t {
        c.now = t;
        drop(c);
        interpose::set_now(t);
    }
}
