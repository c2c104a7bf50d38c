//! C14: Prependable under every interleaving of reads, pending reads, push-backs and end of stream.
use std::{
    collections::VecDeque,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};

use bytes::BytesMut;
use futures::{Stream, StreamExt};
use smtp_message::Prependable;

use crate::{
    sim::{hash_bytes, show, spawn3, Exec, Sim, Sleep, Stop, MS},
    Outcome,
};

#[derive(Default)]
struct St {
    q: VecDeque<Vec<u8>>,
    end: bool,
    waker: Option<Waker>,
}
/// The connection underneath: items appear at simulated times, then it ends (for good)
struct Under(Arc<Mutex<St>>);
impl Stream for Under {
    type Item = BytesMut;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<BytesMut>> {
        let mut s = self.0.lock().unwrap();
        if let Some(b) = s.q.pop_front() {
            return Poll::Ready(Some(BytesMut::from(b)));
        }
        if s.end {
            return Poll::Ready(None);
        }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

pub fn run(sim: &Sim) -> Outcome {
    let mut ex = Exec::new(sim, false);
    ex.spurious = *sim.pick(&[0, 0, 30]);
    let st = Arc::new(Mutex::new(St::default()));
    // everything that arrives, in order
    // now and then a long history
    let long = sim.chance(1, 60);
    let n = sim.draw(if long { 400 } else { 12 }) as usize;
    let mut t = 0;
    let mut all: VecDeque<Vec<u8>> = VecDeque::new();
    for i in 0..n {
        t += sim.pick(&[0, 0, MS, 10 * MS]);
        let mut v = format!("r{}", i).into_bytes();
        if sim.chance(1, 6) {
            v.clear();
        } else if sim.chance(1, 30) {
            v.resize(*sim.pick(&[31, 32, 1024, 4096, 70_000]), b'-');
        }
        all.push_back(v.clone());
        let s2 = st.clone();
        sim.at(t, move |sim| {
            sim.log(70, hash_bytes(&v), 0, || format!("item {:?} arrives", show(&v)));
            let w = {
                let mut s = s2.lock().unwrap();
                s.q.push_back(v);
                s.waker.take()
            };
            if let Some(w) = w {
                w.wake()
            }
        });
    }
    t += sim.pick(&[0, MS, 50 * MS]);
    {
        let s2 = st.clone();
        sim.at(t, move |sim| {
            sim.log(71, 0, 0, || "end of stream".into());
            let w = {
                let mut s = s2.lock().unwrap();
                s.end = true;
                s.waker.take()
            };
            if let Some(w) = w {
                w.wake()
            }
        });
    }
    let nops = sim.draw(if long { 1200 } else { 40 });
    let done = Arc::new(Mutex::new(false));
    let measure = Arc::new(Mutex::new(0u64));
    let ctor = sim.draw(2);
    {
        let (sim, done, measure, st) = (sim.clone(), done.clone(), measure.clone(), st.clone());
        spawn3("user", async move {
            let mut p = if ctor == 0 { Prependable::new(Under(st.clone())) } else { smtp_message::StreamExt::prependable(Under(st.clone())) };
            let mut held: Option<Vec<u8>> = None;
            let mut nid = 0;
            let mut ops = 0;
            let mut ended = false;
            let mut m = 0u64;
            // what a read must return now: from the held item, else from the connection
            macro_rules! got {
                ($x:expr) => {{
                    let x: Option<BytesMut> = $x;
                    let x = x.map(|b| b.to_vec());
                    sim.log(72, x.as_ref().map_or(0, |v| hash_bytes(v)), 0, || format!("read returns {:?}", x.as_ref().map(|v| show(v))));
                    let want = match held.take() {
                        Some(h) => Some(h),
                        None => all.pop_front(),
                    };
                    if x != want {
                        sim.fail("order", format!("a read returned {:?}, it must return {:?}", x.as_ref().map(|v| show(v)), want.as_ref().map(|v| show(v))));
                        return;
                    }
                    if x.is_none() {
                        ended = true;
                    }
                }};
            }
            while ops < nops {
                ops += 1;
                let k = sim.draw(if ended { 4 } else { 5 });
                m = crate::tape::mix(m ^ k as u64 ^ ((held.is_some() as u64) << 8) ^ ((ended as u64) << 9));
                match k {
                    // one read attempt that may be pending
                    0 | 1 => {
                        let avail = held.is_some() || { let s = st.lock().unwrap(); !s.q.is_empty() || s.end };
                        let r = futures::poll!(p.next());
                        match r {
                            Poll::Ready(x) => got!(x),
                            Poll::Pending => {
                                sim.stat("pending_read");
                                sim.log(73, 0, 0, || "read is pending".into());
                                if avail {
                                    sim.fail("order", "a read is pending although an item is available");
                                    return;
                                }
                            }
                        }
                    }
                    2 => {
                        nid += 1;
                        let v = match sim.weighted(&[12, 40, 1]) {
                            0 => Vec::new(),
                            1 => format!("p{}", nid).into_bytes(),
                            _ => vec![b'p'; *sim.pick(&[31, 32, 1024, 4096, 70_000])],
                        };
                        let r = p.prepend(BytesMut::from(&v[..]));
                        sim.log(74, nid, r.is_ok() as u64, || format!("push back {:?}: {:?}", show(&v), r));
                        if r.is_ok() != held.is_none() {
                            sim.fail("refusal", format!("pushing back {} returned {:?}", if held.is_some() { "onto a held item" } else { "with nothing held" }, r));
                            return;
                        }
                        if r.is_ok() {
                            held = Some(v);
                            if ended {
                                sim.stat("push_back_after_end");
                            }
                        } else {
                            sim.stat("push_back_refused");
                        }
                    }
                    3 => Sleep::new(&sim, *sim.pick(&[MS, 100 * 1000, 20 * MS])).await,
                    _ => {
                        // a read that waits
                        let x = p.next().await;
                        got!(x)
                    }
                }
            }
            // drain
            loop {
                let x = p.next().await;
                let end = x.is_none();
                got!(x);
                if end {
                    break;
                }
            }
            if !all.is_empty() || held.is_some() {
                sim.fail("lost", format!("{} items never came out", all.len() + held.is_some() as usize));
            }
            *measure.lock().unwrap() = m;
            *done.lock().unwrap() = true;
        });
    }
    let stop = ex.run(u64::MAX / 4, |s| s.failed());
    if !sim.failed() && !*done.lock().unwrap() {
        sim.fail("lost", match stop { Stop::Overrun => "reads never reach the end of the stream", _ => "a read waits for ever although items or the end have arrived" });
    }
    let m = *measure.lock().unwrap();
    Outcome { nontrivial: nops > 2, measure: m ^ sim.hash() }
}
