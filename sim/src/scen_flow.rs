//! C26: what has arrived of a message is handed on before more is asked for.
//!
//! The sender puts a piece on the wire, and goes on only when the receiver has got (nearly) all of
//! it, as a peer does that has nothing else to send for the moment.
use std::{
    future::Future,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};

use bytes::BytesMut;
use futures::{Stream, StreamExt};
use smtp_message::{DataStream, Email, Prependable, SmtpString};
use smtp_server::{interact, Config, ConnectionMetadata, Decision, MailMetadata};

use crate::{
    gen, model,
    net::{In, InKnobs, Out, OutKnobs, Reader, Writer},
    sim::{hash_bytes, show, spawn3, Exec, Sim, Sleep, Stop, MS, SEC},
    Outcome,
};

/// How many bytes at the end of what has arrived may be held back, since they may turn out to belong
/// to the end-of-message line
fn undecided(w: &[u8]) -> usize {
    let end = b"\r\n.\r\n";
    let k = (0..end.len()).rev().find(|&k| w.ends_with(&end[..k])).unwrap();
    // the beginning of a message is the beginning of a line
    if w == b"." || w == b".\r" {
        w.len()
    } else {
        k
    }
}

#[derive(Default)]
struct Prog {
    /// messages begun and finished by the receiver, bytes got of the present one
    begun: usize,
    done: usize,
    got: Vec<u8>,
    replies: usize,
    waker: Option<Waker>,
    over: bool,
    waiting_for: Option<(usize, usize)>,
}
type P = Arc<Mutex<Prog>>;

fn wake(p: &P) {
    let w = p.lock().unwrap().waker.take();
    if let Some(w) = w {
        w.wake()
    }
}

struct Until<F>(P, F);
impl<F: Fn(&Prog) -> bool + Unpin> Future for Until<F> {
    type Output = ();
    fn poll(self: Pin<&mut Self>, c: &mut Context) -> Poll<()> {
        let mut g = self.0.lock().unwrap();
        if (self.1)(&g) {
            return Poll::Ready(());
        }
        g.waker = Some(c.waker().clone());
        Poll::Pending
    }
}

/// Take one message, noting what has been got so far
async fn take<S>(sim: &Sim, p: &P, ds: &mut DataStream<'_, S>, slow: u32) -> bool
where
    S: Unpin + Stream<Item = BytesMut>,
{
    {
        let mut g = p.lock().unwrap();
        g.begun += 1;
        g.got.clear();
    }
    wake(p);
    while let Some(b) = ds.next().await {
        sim.log(60, b.len() as u64, hash_bytes(&b), || format!("receiver gets {:?}", show(&b)));
        p.lock().unwrap().got.extend_from_slice(&b);
        wake(p);
        if slow > 0 && sim.chance(slow, 64) {
            Sleep::new(sim, 20 * MS).await;
        }
    }
    let ok = ds.complete().is_ok();
    p.lock().unwrap().done += 1;
    wake(p);
    ok
}

struct Cfg {
    sim: Sim,
    p: P,
    slow: u32,
}
type Fut<'a, T> = Pin<Box<dyn 'a + Send + Future<Output = T>>>;
impl Config<()> for Cfg {
    fn hostname(&self) -> SmtpString {
        "relay.example.org".into()
    }
    fn filter_from<'a>(&'a mut self, _: &'a mut Option<Email>, _: &'a mut ConnectionMetadata<()>) -> Fut<'a, Decision> {
        Box::pin(async { Decision::Accept })
    }
    fn filter_to<'a>(&'a mut self, _: &'a mut Email, _: &'a mut MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Fut<'a, Decision> {
        Box::pin(async { Decision::Accept })
    }
    fn handle_mail<'a, S>(&'a mut self, ds: &'a mut DataStream<S>, _: MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where
        S: 'a + Unpin + Stream<Item = BytesMut>,
    {
        Box::pin(async move {
            take(&self.sim, &self.p, ds, self.slow).await;
            Decision::Accept
        })
    }
}

pub fn run(sim: &Sim) -> Outcome {
    let mut ex = Exec::new(sim, false);
    ex.spurious = *sim.pick(&[0, 0, 20]);
    let served = sim.chance(1, 2);
    let big = sim.chance(1, 12);
    let nm = 1 + sim.weighted(&[5, 2, 1]);
    let ik = InKnobs::draw(sim);
    let ok = OutKnobs::draw(sim);
    let msgs: Vec<(Vec<u8>, Vec<Vec<u8>>)> = (0..nm)
        .map(|_| {
            let mut b = gen::raw_data(sim, big);
            let e = match model::decode(&b).end {
                Some(e) => e,
                None => {
                    b.extend_from_slice(b"\r\n.\r\n");
                    model::decode(&b).end.unwrap()
                }
            };
            b.truncate(e);
            let p = gen::pieces(sim, &b);
            (b, p)
        })
        .collect();
    ex.max_steps += msgs.iter().map(|m| 60 * (64 + m.0.len() + m.1.len()) as u64).sum::<u64>();
    sim.log(90, served as u64, 0, || format!("{}; network {:?} writer {:?}", if served { "a served session" } else { "bare framing" }, ik, ok));
    for m in &msgs {
        sim.log(91, hash_bytes(&m.0), 0, || format!("message {:?} in {} pieces", show(&m.0), m.1.len()));
    }
    let slow = *sim.pick(&[0, 0, 16]);
    let think = *sim.pick(&[0u64, 0, 5 * MS, 30 * SEC]);
    // several pieces may follow each other before the sender waits
    let batch = *sim.pick(&[1u32, 1, 1, 3, 10]);
    let p: P = Arc::new(Mutex::new(Prog::default()));
    let inp = In::new(sim, 1, ik);
    if served {
        let (sim, p, inp) = (sim.clone(), p.clone(), inp.clone());
        let p2 = p.clone();
        let back = Out::new(
            &sim,
            3,
            ok,
            Arc::new(move |_, b| {
                p2.lock().unwrap().replies += b.windows(2).filter(|x| *x == b"\r\n").count();
                wake(&p2);
            }),
            None,
        );
        spawn3("session", async move {
            let mut w = Writer(back);
            let mut cfg = Cfg { sim: sim.clone(), p, slow };
            let _ = interact(Reader(inp), Pin::new(&mut w), (), &mut cfg).await;
        });
    } else {
        let (sim, p, inp) = (sim.clone(), p.clone(), inp.clone());
        spawn3("receiver", async move {
            let mut pre = Prependable::new(Reader(inp));
            for _ in 0..nm {
                let mut ds = DataStream::new(&mut pre);
                if !take(&sim, &p, &mut ds, slow).await {
                    return;
                }
            }
        });
    }
    {
        let (sim, msgs, p) = (sim.clone(), msgs.clone(), p.clone());
        spawn3("sender", async move {
            let last = msgs.len() - 1;
            for (i, (wire, pieces)) in msgs.iter().enumerate() {
                if served {
                    inp.inject(b"MAIL FROM:<a@example.org>\r\nRCPT TO:<b@example.org>\r\nDATA\r\n");
                }
                Until(p.clone(), |g: &Prog| g.begun > i).await;
                let mut given = 0;
                for x in pieces {
                    sim.log(62, x.len() as u64, hash_bytes(x), || format!("sender puts {:?} on the wire", show(x)));
                    given += x.len();
                    inp.inject(x);
                    if given == wire.len() && i == last && sim.chance(1, 4) {
                        inp.close();
                    }
                    if sim.chance(1, batch) {
                        let d = model::decode(&wire[..given]);
                        let n = model::decode(&wire[..given - undecided(&wire[..given])]).body.len();
                        p.lock().unwrap().waiting_for = Some((given, n));
                        Until(p.clone(), move |g: &Prog| g.done > i || g.got.len() >= n).await;
                        let mut g = p.lock().unwrap();
                        g.waiting_for = None;
                        if g.done <= i && !d.body.starts_with(&g.got) {
                            let t = format!("message {}: {:?} is on the wire, {:?} was handed on", i, show(&wire[..given]), show(&g.got));
                            drop(g);
                            sim.fail("body", t);
                            return;
                        }
                        drop(g);
                        if think > 0 && sim.chance(1, 4) {
                            Sleep::new(&sim, think).await;
                        }
                    }
                }
                Until(p.clone(), |g: &Prog| g.done > i).await;
                if served {
                    Until(p.clone(), |g: &Prog| g.replies >= 1 + 4 * (i + 1)).await;
                }
            }
            p.lock().unwrap().over = true;
        });
    }
    let stop = ex.run(u64::MAX / 4, |s| s.failed());
    let g = p.lock().unwrap();
    if !sim.failed() {
        if let Stop::Overrun = stop {
            sim.fail("progress", "the transfer does not finish within the step limit");
        } else if let (false, Some((w, n))) = (g.over, g.waiting_for) {
            sim.fail("held-back", format!("{} bytes of the message have arrived, {} of its contents can be handed on, {} have been, although nothing more happens by itself", w, n, g.got.len()));
        } else if !g.over {
            sim.fail("progress", format!("the transfer does not finish: {} messages begun, {} done, {} reply lines", g.begun, g.done, g.replies));
        }
    }
    let h = msgs.iter().fold(0, |a, m| a ^ hash_bytes(&m.0).rotate_left(m.1.len() as u32 % 63));
    Outcome { nontrivial: msgs.iter().any(|m| m.0.len() > 6), measure: h ^ sim.hash() }
}
