//! C01–C04: message bodies from DataSink over a simulated connection into DataStream.
use std::sync::{Arc, Mutex};

use bytes::{Bytes, BytesMut};
use futures::StreamExt;
use smtp_message::{DataSink, DataStream, Prependable};

use crate::{
    gen, model,
    net::{In, InKnobs, Out, OutKnobs, Reader, Writer},
    sim::{hash_bytes, show, spawn3, Exec, Sim, Sleep, Stop, MS, SEC, US},
    Outcome,
};

fn to_bytes(sim: &Sim, v: &[u8]) -> Bytes {
    match sim.draw(3) {
        0 => Bytes::from(v),
        1 => Bytes::from(v.to_vec()),
        _ => {
            // a window into a larger allocation
            let mut w = b"#".to_vec();
            w.extend_from_slice(v);
            w.push(b'#');
            Bytes::from(w).slice(1, 1 + v.len())
        }
    }
}

struct Msg {
    body: Vec<u8>,
    pieces: Vec<Vec<u8>>,
    /// bytes on the connection in front of the message (read by someone else)
    gap: Vec<u8>,
}

#[derive(Default)]
struct Got {
    msgs: Vec<(Vec<u8>, bool)>,
    finished: bool,
    in_rest: bool,
    rest: Vec<u8>,
}

fn knobs_summary(sim: &Sim, i: &InKnobs, o: Option<&OutKnobs>) {
    sim.log(90, 0, 0, || format!("network {:?} writer {:?}", i, o));
}

/// Read exactly `n` bytes from the connection and push the surplus back
async fn read_gap(pre: &mut Prependable<Reader>, n: usize) -> Option<Vec<u8>> {
    let mut buf = BytesMut::new();
    if n == 0 {
        return Some(Vec::new());
    }
    while let Some(p) = pre.next().await {
        buf.unsplit(p);
        if buf.len() >= n {
            let rest = buf.split_off(n);
            if pre.prepend(rest).is_err() {
                return None;
            }
            return Some(buf.to_vec());
        }
    }
    None
}

async fn read_msg(sim: &Sim, pre: &mut Prependable<Reader>, slow: u32) -> (Vec<u8>, bool) {
    let mut got = Vec::new();
    let ok;
    {
        let mut ds = DataStream::new(pre);
        while let Some(b) = ds.next().await {
            sim.log(60, b.len() as u64, hash_bytes(&b), || format!("receiver gets body bytes {:?}", show(&b)));
            got.extend_from_slice(&b);
            if slow > 0 && sim.chance(slow, 64) {
                sim.stat("slow_reader");
                Sleep::new(sim, 20 * MS).await;
            }
        }
        ok = ds.complete().is_ok();
        if !ds.was_completed() {
            sim.fail("completion", "was_completed() is false after complete()");
        }
        sim.log(61, ok as u64, 0, || format!("receiver told the message is {}", if ok { "complete" } else { "incomplete" }));
    }
    (got, ok)
}

/// C01: the whole path
pub fn transfer(sim: &Sim) -> Outcome {
    let mut ex = Exec::new(sim, false);
    ex.spurious = *sim.pick(&[0, 0, 20]);
    let big = sim.chance(1, 12);
    let nm = match sim.weighted(&[4, 4, 1]) {
        0 => 1,
        1 => sim.range(2, 4),
        _ if sim.chance(1, 100) => {
            sim.stat("long_connection");
            sim.range(100, 1100)
        }
        _ => sim.range(5, 25),
    };
    let ik = InKnobs::draw(sim);
    let ok = OutKnobs::draw(sim);
    knobs_summary(sim, &ik, Some(&ok));
    let gaps = sim.chance(1, 3);
    let mut total = 0;
    let msgs: Vec<Msg> = (0..nm)
        .map(|_| {
            let mut body = gen::body(sim, big && total < 100_000);
            if total > 400_000 {
                body.truncate(60); // enough work for one run
            }
            total += body.len();
            let pieces = gen::pieces(sim, &body);
            let gap = if gaps { sim.pick(&[&b""[..], b"x", b".\r\n", b"RSET\r\n", b"\r\n", b"DATA\r\n", b"."]).to_vec() } else { Vec::new() };
            Msg { body, pieces, gap }
        })
        .collect();
    let msgs = Arc::new(msgs);
    ex.max_steps += msgs.iter().map(|m| 60 * (64 + m.body.len() + m.pieces.len()) as u64).sum::<u64>();
    for m in msgs.iter() {
        sim.log(91, hash_bytes(&m.body), 0, || format!("body {:?} in {} pieces, gap {:?}", show(&m.body), m.pieces.len(), show(&m.gap)));
    }
    let slow = *sim.pick(&[0, 0, 16]);
    let think = *sim.pick(&[0u64, 0, 5 * MS, 30 * SEC]);
    let inp = In::new(sim, 1, ik);
    let i2 = inp.clone();
    let out = Out::new(sim, 2, ok, Arc::new(move |_, b| i2.inject(b)), None);

    let got = Arc::new(Mutex::new(Got::default()));
    {
        let (sim, msgs, got, inp) = (sim.clone(), msgs.clone(), got.clone(), inp.clone());
        let ctor = sim.draw(2);
        spawn3("receiver", async move {
            let mut pre = if ctor == 0 { Prependable::new(Reader(inp)) } else { smtp_message::StreamExt::prependable(Reader(inp)) };
            for m in msgs.iter() {
                match read_gap(&mut pre, m.gap.len()).await {
                    Some(g) if g == m.gap => (),
                    o => {
                        sim.fail("surplus", format!("bytes between messages: expected {:?}, read {:?}", show(&m.gap), o.map(|x| show(&x))));
                        return;
                    }
                }
                let r = read_msg(&sim, &mut pre, slow).await;
                got.lock().unwrap().msgs.push(r);
            }
            while let Some(b) = pre.next().await {
                got.lock().unwrap().rest.extend_from_slice(&b);
            }
            got.lock().unwrap().finished = true;
        });
    }
    let sent = Arc::new(Mutex::new(0usize));
    {
        let (sim, msgs, sent, out, inp) = (sim.clone(), msgs.clone(), sent.clone(), out.clone(), inp.clone());
        spawn3("sender", async move {
            use futures::SinkExt;
            let mut w = Writer(out);
            for m in msgs.iter() {
                if !m.gap.is_empty() {
                    if w.send(Bytes::from(&m.gap[..])).await.is_err() {
                        return;
                    }
                }
                let mut ds = DataSink::new(w);
                for p in &m.pieces {
                    sim.log(62, p.len() as u64, hash_bytes(p), || format!("sender passes {:?}", show(p)));
                    if ds.send(to_bytes(&sim, p)).await.is_err() {
                        sim.fail("send-error", "send() failed on a healthy connection");
                        return;
                    }
                    if think > 0 && sim.chance(1, 4) {
                        Sleep::new(&sim, think).await;
                    }
                }
                sim.log(63, 0, 0, || "sender ends the message".into());
                match ds.end().await {
                    Ok(x) => w = x,
                    Err(()) => {
                        sim.fail("send-error", "end() failed on a healthy connection");
                        return;
                    }
                }
                *sent.lock().unwrap() += 1;
            }
            // everything has been flushed; let the network deliver, then close behind it
            let d = 1 + w.0.k.slow_net;
            sim.after(d, move |_| inp.close());
        });
    }
    let stop = ex.run(u64::MAX / 4, |s| s.failed());
    let g = got.lock().unwrap();
    if !sim.failed() {
        if let Stop::Overrun = stop {
            sim.fail("progress", "the transfer does not finish within the step limit");
        }
        for (i, m) in msgs.iter().enumerate() {
            match g.msgs.get(i) {
                None => {
                    sim.fail("progress", format!("message {} of {} never arrives completely (sender finished {} messages)", i, msgs.len(), *sent.lock().unwrap()));
                    break;
                }
                Some((b, done)) => {
                    let want = model::delivered(&m.body);
                    if *b != want {
                        sim.fail("body", format!("message {}: sent {:?}, must arrive as {:?}, arrived as {:?}", i, show(&m.body), show(&want), show(b)));
                    } else if !done {
                        sim.fail("completion", format!("message {} arrived whole but is reported incomplete", i));
                    }
                }
            }
        }
        if !g.rest.is_empty() {
            sim.fail("surplus", format!("bytes left over behind the last message: {:?}", show(&g.rest)));
        }
        if !g.finished {
            sim.fail("progress", "the receiver never sees the end of the connection");
        }
    }
    let h = msgs.iter().fold(0, |a, m| a ^ hash_bytes(&m.body).rotate_left(m.pieces.len() as u32 % 63));
    Outcome { nontrivial: msgs.iter().any(|m| !m.body.is_empty()), measure: h ^ sim.hash() }
}

/// C02 and C03: raw data-phase bytes, arbitrary segmentation, optional truncation
pub fn receive(sim: &Sim, truncate: bool) -> Outcome {
    let mut ex = Exec::new(sim, false);
    ex.spurious = *sim.pick(&[0, 0, 20]);
    let big = sim.chance(1, 12);
    let ik = InKnobs::draw(sim);
    knobs_summary(sim, &ik, None);
    let nm = sim.range(1, 3);
    let mut wire = Vec::new();
    for _ in 0..nm {
        wire.extend(gen::raw_data(sim, big));
    }
    // optionally start from bytes which were pushed back on the connection
    let pre_len = if sim.chance(1, 3) { sim.draw(wire.len() as u32 + 1) as usize } else { 0 };
    let mut all = wire.clone();
    let mut late = 0u64;
    if truncate {
        // cut either anywhere or around the terminator of the first message
        let at = match (sim.draw(2), model::decode(&all).end) {
            (1, Some(e)) => (e + 2).saturating_sub(sim.draw(8) as usize).min(all.len()),
            _ => sim.draw(all.len() as u32 + 1) as usize,
        };
        all.truncate(at);
        late = *sim.pick(&[0, 0, 1, 10 * SEC]);
        sim.stat("connection_cut");
    }
    let pre_len = pre_len.min(all.len());
    ex.max_steps += 40 * all.len() as u64;
    sim.log(92, hash_bytes(&all), pre_len as u64, || format!("wire bytes {:?}, {} of them pushed back before", show(&all), pre_len));

    let inp = In::new(sim, 1, ik);
    inp.inject(&all[pre_len..]);
    if truncate {
        let i2 = inp.clone();
        if late == 0 {
            inp.close();
        } else {
            sim.after(late, move |_| i2.close());
        }
    }
    let slow = *sim.pick(&[0, 0, 16]);
    let got = Arc::new(Mutex::new(Got::default()));
    {
        let (sim, got, inp, head) = (sim.clone(), got.clone(), inp.clone(), all[..pre_len].to_vec());
        spawn3("receiver", async move {
            let mut pre = Prependable::new(Reader(inp));
            if !head.is_empty() {
                let _ = pre.prepend(BytesMut::from(head));
            }
            for _ in 0..4 {
                let r = read_msg(&sim, &mut pre, slow).await;
                let ok = r.1;
                got.lock().unwrap().msgs.push(r);
                if !ok {
                    return;
                }
                if sim.chance(1, 3) {
                    break;
                }
            }
            got.lock().unwrap().in_rest = true;
            while let Some(b) = pre.next().await {
                got.lock().unwrap().rest.extend_from_slice(&b);
            }
            got.lock().unwrap().finished = true;
        });
    }
    let stop = ex.run(u64::MAX / 4, |s| s.failed());
    if let Stop::Overrun = stop {
        sim.fail("progress", "the receiver does not settle within the step limit");
    }
    let g0 = got.lock().unwrap().msgs.len();
    if !truncate {
        // nothing more comes: what could be decided must have been decided
        let mut off = 0;
        let mut expect = 0;
        while expect < 4 {
            match model::decode(&all[off..]).end {
                Some(e) => {
                    off += e;
                    expect += 1;
                }
                None => break,
            }
        }
        if g0 < expect && !got.lock().unwrap().in_rest {
            sim.fail("progress", format!("{} end-of-message lines have arrived but only {} messages are finished", expect, g0));
        }
        inp.close();
        let stop = ex.run(u64::MAX / 4, |s| s.failed());
        if let Stop::Overrun = stop {
            sim.fail("progress", "the receiver does not settle within the step limit after the end of input");
        }
    }
    let g = got.lock().unwrap();
    if !sim.failed() {
        let mut off = 0;
        let mut closed = true;
        for (i, (b, ok)) in g.msgs.iter().enumerate() {
            let d = model::decode(&all[off..]);
            match d.end {
                Some(e) => {
                    if !ok {
                        sim.fail("completion", format!("message {}: the end-of-message line arrived but the message is reported incomplete (bytes {:?})", i, show(&all[off..])));
                    } else if *b != d.body {
                        sim.fail("body", format!("message {}: bytes {:?} must decode to {:?}, got {:?}", i, show(&all[off..off + e]), show(&d.body), show(b)));
                    }
                    off += e;
                }
                None => {
                    closed = false;
                    if *ok {
                        sim.fail("truncated-complete", format!("message {}: no end-of-message line in {:?}, but the message is reported complete with body {:?}", i, show(&all[off..]), show(b)));
                    } else if !d.body.starts_with(b) {
                        sim.fail("body", format!("message {}: truncated bytes {:?} decode to {:?}, but {:?} was given", i, show(&all[off..]), show(&d.body), show(b)));
                    }
                    break;
                }
            }
        }
        if closed && !sim.failed() {
            if !g.finished {
                sim.fail("progress", format!("after {} messages the receiver hangs although the connection has ended", g.msgs.len()));
            } else if g.rest[..] != all[off..] {
                sim.fail("surplus", format!("after the messages, {:?} must be left on the connection, but {:?} was read", show(&all[off..]), show(&g.rest)));
            }
        }
    }
    let ends = model::decode(&all).end;
    Outcome { nontrivial: !all.is_empty(), measure: hash_bytes(&all) ^ (ends.unwrap_or(0) as u64) ^ sim.hash() }
}

/// C04: what a sender puts on the wire, under failures and aborts
pub fn send_faults(sim: &Sim) -> Outcome {
    let mut ex = Exec::new(sim, false);
    ex.spurious = *sim.pick(&[0, 0, 20]);
    let big = sim.chance(1, 12);
    let body = gen::body(sim, big);
    let pieces = gen::pieces(sim, &body);
    let mut ok = OutKnobs::draw(sim);
    let fault = sim.weighted(&[1, 4, 2, 2, 1]);
    let mut abort_at = None;
    match fault {
        0 => (),
        1 => ok.fail_at = Some(1 + sim.draw(4 + 6 * pieces.len().min(40) as u32)),
        2 => ok.fail_bytes = Some(sim.draw(body.len() as u32 + 8) as usize),
        3 => abort_at = Some(sim.draw(2 + 3 * pieces.len().min(100) as u32) as u64),
        _ => (),
    }
    ok.recovers = matches!(fault, 1 | 2) && sim.chance(1, 3);
    let sever = if fault == 4 { Some(sim.draw(2000) as u64 * 100 * US) } else { None };
    sim.log(92, hash_bytes(&body), fault as u64, || format!("body {:?} in {} pieces; writer {:?}; abort {:?}; severed {:?}", show(&body), pieces.len(), ok, abort_at, sever));

    ex.max_steps += 60 * (body.len() + pieces.len()) as u64;
    // (bytes given so far, has end() been called)
    let given = Arc::new(Mutex::new((Vec::<u8>::new(), false)));
    // (right encoding of what was given so far, bytes of it encoded, finished; bytes seen on the wire)
    let acc = Arc::new(Mutex::new((Vec::<u8>::new(), 0usize, false, 0usize)));
    let (g2, a2) = (given.clone(), acc.clone());
    let out = Out::new(
        sim,
        2,
        ok,
        Arc::new(|_, _| ()),
        Some(Arc::new(move |sim: &Sim, _off, b: &[u8]| {
            let g = g2.lock().unwrap();
            let mut a = a2.lock().unwrap();
            let (right, done, finished, seen) = &mut *a;
            while *done < g.0.len() {
                let i = *done;
                if g.0[i] == b'.' && (i == 0 || (i >= 2 && &g.0[i - 2..i] == b"\r\n")) {
                    right.push(b'.');
                }
                right.push(g.0[i]);
                *done += 1;
            }
            if g.1 && !*finished {
                *finished = true;
                right.extend_from_slice(if model::ends_line(&g.0) { &b".\r\n"[..] } else { &b"\r\n.\r\n"[..] });
            }
            if !right[*seen..].starts_with(b) {
                let at = *seen;
                sim.fail(
                    "wire",
                    format!("after {:?} was given{}, the wire carries {:?} behind the first {} bytes, where the right encoding goes on with {:?}", show(&g.0), if g.1 { " and finished" } else { "" }, show(b), at, show(&right[at..])),
                );
                return;
            }
            *seen += b.len();
        })),
    );
    let result = Arc::new(Mutex::new(None::<Result<(), usize>>));
    {
        let (sim, given, out, result, pieces) = (sim.clone(), given.clone(), out.clone(), result.clone(), pieces.clone());
        spawn3("sender", async move {
            let mut ds = DataSink::new(Writer(out.clone()));
            for (i, p) in pieces.iter().enumerate() {
                given.lock().unwrap().0.extend_from_slice(p);
                sim.log(62, p.len() as u64, hash_bytes(p), || format!("sender passes {:?}", show(p)));
                let r = ds.send(to_bytes(&sim, p)).await;
                let failed = out.st.lock().unwrap().failed;
                if r.is_ok() == failed {
                    sim.fail("report", format!("send() of piece {} returned {:?} although the transport {}", i, r, if failed { "failed during it" } else { "did not fail" }));
                }
                if r.is_err() {
                    *result.lock().unwrap() = Some(Err(i));
                    return;
                }
            }
            given.lock().unwrap().1 = true;
            sim.log(63, 0, 0, || "sender ends the message".into());
            let r = ds.end().await;
            let failed = out.st.lock().unwrap().failed;
            if r.is_ok() == failed {
                sim.fail("report", format!("end() returned {} although the transport {}", if r.is_ok() { "Ok" } else { "Err" }, if failed { "failed during it" } else { "did not fail" }));
            }
            if r.is_ok() {
                let st = out.st.lock().unwrap();
                let want = model::encode_full(&given.lock().unwrap().0);
                if st.sent != want {
                    let msg = format!("end() succeeded, the transport must have {:?} flushed, but has flushed {:?} (accepted {:?})", show(&want), show(&st.sent), show(&st.handed));
                    drop(st);
                    sim.fail("flush", msg);
                }
                *result.lock().unwrap() = Some(Ok(()));
            } else {
                *result.lock().unwrap() = Some(Err(pieces.len()));
            }
        });
    }
    if let Some(t) = sever {
        let o = out.clone();
        sim.after(t, move |s| {
            s.stat("connection_severed");
            o.sever()
        });
    }
    let mut n = 0;
    let stop = ex.run(u64::MAX / 4, |s| {
        n += 1;
        s.failed() || abort_at.map_or(false, |a| n > a)
    });
    let aborted = matches!(stop, Stop::Until) && !sim.failed();
    if aborted {
        sim.stat("sender_aborted");
        ex.kill_group(0);
        ex.run(u64::MAX / 4, |s| s.failed());
    } else if !sim.failed() && result.lock().unwrap().is_none() {
        sim.fail("progress", "the sender hangs although the transport is ready");
    }
    // unready hand-overs break the transport's contract
    let st = out.st.lock().unwrap();
    if st.unready_sends > 0 {
        sim.fail("wire", "bytes handed over without the transport being ready");
    }
    if st.handed_after_failure > 0 {
        sim.fail("wire", "bytes handed over after the transport failed");
    }
    let h = hash_bytes(&st.handed);
    drop(st);
    Outcome { nontrivial: fault != 0 && !body.is_empty(), measure: h ^ sim.hash() }
}
