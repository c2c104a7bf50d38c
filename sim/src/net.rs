//! Simulated byte transport: an input side (`In`, read by the code under test as a stream of
//! packets) and an output side (`Out`, a buffering sink with back-pressure and failures).
use std::{
    collections::VecDeque,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};

use bytes::{Bytes, BytesMut};
use futures::{Sink, Stream};

use crate::sim::{hash_bytes, show, Sim, MS, US};

// ------------------------------------------------------------------ input

#[derive(Clone, Debug)]
pub struct InKnobs {
    /// 0: as sent, 1: every byte alone, 2: at CR, LF and dots, 3: random, 4: random large
    pub seg: u32,
    pub latency: u64,   // max extra delay per packet
    pub pend: u32,      // per 64: reader sees "pending" although data is there
    pub empty: u32,     // per 64: an empty packet is inserted
    pub coalesce: u32,  // per 64: packet merged with the previous one if still unread
    pub stall: u32,     // per 64: a long stall before a packet
    pub hour: bool,     // such a stall can last an hour
    pub shared: u32,    // how buffers are built
}

impl InKnobs {
    pub fn draw(sim: &Sim) -> InKnobs {
        let seg = sim.weighted(&[3, 3, 3, 4, 2]) as u32;
        let latency = *sim.pick(&[0, 10 * US, MS, 200 * MS]);
        InKnobs {
            seg,
            latency,
            pend: *sim.pick(&[0, 0, 8, 24]),
            empty: *sim.pick(&[0, 0, 0, 6]),
            coalesce: *sim.pick(&[0, 0, 16, 48]),
            stall: *sim.pick(&[0, 0, 0, 4]),
            hour: true,
            shared: sim.draw(4),
        }
    }
    pub fn plain() -> InKnobs {
        InKnobs { seg: 0, latency: 0, pend: 0, empty: 0, coalesce: 0, stall: 0, hour: false, shared: 0 }
    }
}

pub struct InSt {
    q: VecDeque<BytesMut>,
    waker: Option<Waker>,
    eof: bool,
    cut: bool,
    pub eof_seen: bool,
    pub reads_after_end: u32,
    last_t: u64,
    in_flight: usize,
    /// bytes given to the reader
    pub delivered: usize,
    /// bytes that have arrived (readable)
    pub arrived: Vec<u8>,
    /// number of packets read
    pub packets: u64,
    pub reader_waiting: bool,
    pool: BytesMut,
    /// called with the number of bytes consumed by the reader (flow control)
    pub on_read: Option<Arc<dyn Fn(&Sim) + Send + Sync>>,
    pend_armed: bool,
    no_pend_once: bool,
}

#[derive(Clone)]
pub struct In {
    pub sim: Sim,
    pub st: Arc<Mutex<InSt>>,
    pub k: Arc<InKnobs>,
    pub id: u64,
}

impl In {
    pub fn new(sim: &Sim, id: u64, k: InKnobs) -> In {
        In {
            sim: sim.clone(),
            st: Arc::new(Mutex::new(InSt {
                q: VecDeque::new(),
                waker: None,
                eof: false,
                cut: false,
                eof_seen: false,
                reads_after_end: 0,
                last_t: 0,
                in_flight: 0,
                delivered: 0,
                arrived: Vec::new(),
                packets: 0,
                reader_waiting: false,
                pool: BytesMut::new(),
                on_read: None,
                pend_armed: false,
                no_pend_once: false,
            })),
            k: Arc::new(k),
            id,
        }
    }

    /// Cut points chosen by the network for this piece of data
    fn segments(&self, b: &[u8]) -> Vec<usize> {
        let sim = &self.sim;
        let n = b.len();
        let mut v = Vec::new();
        if n == 0 {
            return v;
        }
        let mode = if n > 4000 && self.k.seg == 1 { 2 } else { self.k.seg };
        match mode {
            0 => v.push(n),
            1 => (1..=n).for_each(|i| v.push(i)),
            2 => {
                // cut around CR, LF and dots, each with probability 1/2 (or 1/32 on long inputs)
                let (num, den) = if n > 2000 { (1, 32) } else { (16, 32) };
                for i in 1..n {
                    let near = matches!(b[i - 1], b'\r' | b'\n' | b'.') || matches!(b[i], b'\r' | b'\n' | b'.');
                    if near && sim.chance(num, den) {
                        v.push(i);
                    }
                }
                v.push(n);
            }
            m => {
                let max = if m == 3 { 1 + (n / 200).max(7) } else { 64 + n / 8 } as u32;
                let mut i = 0;
                while i < n {
                    i = (i + 1 + sim.draw(max) as usize).min(n);
                    v.push(i);
                }
            }
        }
        v
    }

    fn schedule(&self) -> u64 {
        let k = &self.k;
        let mut d = if k.latency > 0 { self.sim.draw((k.latency / 1000) as u32 + 1) as u64 * 1000 } else { 0 };
        if k.stall > 0 && self.sim.chance(k.stall, 64) {
            self.sim.stat("net_stall");
            d += if k.hour && self.sim.chance(1, 8) { 3_600_000 * MS } else { 60_000 * MS };
        }
        let mut st = self.st.lock().unwrap();
        let t = st.last_t.max(self.sim.now()) + d;
        st.last_t = t;
        t
    }

    /// The peer sends these bytes
    pub fn inject(&self, b: &[u8]) {
        let mut from = 0;
        for to in self.segments(b) {
            if self.k.empty > 0 && self.sim.chance(self.k.empty, 64) {
                self.sim.stat("empty_packet");
                self.packet(Vec::new());
            }
            self.packet(b[from..to].to_vec());
            if to != b.len() {
                self.sim.stat("packet_split");
            }
            from = to;
        }
    }

    fn packet(&self, data: Vec<u8>) {
        let t = self.schedule();
        self.st.lock().unwrap().in_flight += 1;
        let this = self.clone();
        self.sim.at(t, move |sim| this.arrive(sim, data));
    }

    fn arrive(&self, sim: &Sim, data: Vec<u8>) {
        sim.log(10, self.id, hash_bytes(&data), || format!("net#{}: packet arrives {:?}", self.id, show(&data)));
        let merge = self.k.coalesce > 0 && sim.chance(self.k.coalesce, 64);
        let w = {
            let mut st = self.st.lock().unwrap();
            st.in_flight -= 1;
            if st.cut {
                drop(st);
                sim.stat("packet_lost");
                return;
            }
            st.arrived.extend_from_slice(&data);
            let b = match self.k.shared {
                0 => BytesMut::from(&data[..]),
                1 => BytesMut::from(data),
                2 => {
                    let mut b = BytesMut::with_capacity(data.len() + 64);
                    b.extend_from_slice(&data);
                    b
                }
                _ => {
                    // carve consecutive packets out of one allocation
                    if st.pool.capacity() < data.len() + 64 {
                        st.pool = BytesMut::with_capacity(4096.max(data.len() * 2 + 64));
                    }
                    st.pool.extend_from_slice(&data);
                    let n = data.len();
                    st.pool.split_to(n)
                }
            };
            if merge && !st.q.is_empty() {
                sim.stat("packet_coalesced");
                let mut last = st.q.pop_back().unwrap();
                last.unsplit(b);
                st.q.push_back(last);
            } else {
                st.q.push_back(b);
            }
            st.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }

    /// The peer closes its side, after everything injected so far
    pub fn close(&self) {
        let t = self.schedule();
        let this = self.clone();
        self.sim.at(t, move |sim| {
            sim.log(11, this.id, 0, || format!("net#{}: end of input", this.id));
            let w = {
                let mut st = this.st.lock().unwrap();
                st.eof = true;
                st.waker.take()
            };
            if let Some(w) = w {
                w.wake();
            }
        });
    }

    /// The connection is cut: packets in flight are lost, the reader sees the end of input
    pub fn cut_now(&self) {
        let w = {
            let mut st = self.st.lock().unwrap();
            if st.eof {
                return;
            }
            st.eof = true;
            st.cut = true;
            st.q.clear();
            st.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }

    pub fn drained(&self) -> bool {
        let st = self.st.lock().unwrap();
        st.q.is_empty() && st.in_flight == 0
    }
}

pub struct Reader(pub In);

impl Stream for Reader {
    type Item = BytesMut;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<BytesMut>> {
        let this = &self.0;
        let sim = &this.sim;
        let have = {
            let st = this.st.lock().unwrap();
            if st.eof_seen {
                drop(st);
                this.st.lock().unwrap().reads_after_end += 1;
                sim.log(14, this.id, 0, || format!("net#{}: read after end of input", this.id));
                return Poll::Ready(None);
            }
            !st.q.is_empty() || st.eof
        };
        let skip = {
            let mut st = this.st.lock().unwrap();
            std::mem::replace(&mut st.no_pend_once, false)
        };
        if have && !skip && this.k.pend > 0 && sim.chance(this.k.pend, 64) {
            // readiness is reported late
            sim.stat("late_readiness");
            let mut st = this.st.lock().unwrap();
            st.waker = Some(cx.waker().clone());
            if !st.pend_armed {
                st.pend_armed = true;
                let t2 = this.clone();
                drop(st);
                sim.after(50 * US, move |_| {
                    let w = {
                        let mut st = t2.st.lock().unwrap();
                        st.pend_armed = false;
                        st.no_pend_once = true;
                        st.waker.take()
                    };
                    if let Some(w) = w {
                        w.wake()
                    }
                });
            }
            return Poll::Pending;
        }
        let mut st = this.st.lock().unwrap();
        if let Some(b) = st.q.pop_front() {
            st.delivered += b.len();
            st.packets += 1;
            st.reader_waiting = false;
            let cb = st.on_read.clone();
            drop(st);
            sim.log(12, this.id, b.len() as u64, || format!("net#{}: read {:?}", this.id, show(&b)));
            if let Some(cb) = cb {
                cb(sim);
            }
            return Poll::Ready(Some(b));
        }
        if st.eof {
            st.eof_seen = true;
            drop(st);
            sim.log(13, this.id, 0, || format!("net#{}: reader sees end of input", this.id));
            return Poll::Ready(None);
        }
        st.waker = Some(cx.waker().clone());
        st.reader_waiting = true;
        Poll::Pending
    }
}

// ------------------------------------------------------------------ output

#[derive(Clone, Debug)]
pub struct OutKnobs {
    pub cap: usize,      // items buffered before back-pressure
    pub instant: bool,   // flush completes at once
    pub pend: u32,       // per 64: readiness or flush reported late
    pub latency: u64,    // max delay for a drain step
    pub partial: bool,   // drains item by item
    pub fail_at: Option<u32>, // operation index that fails
    pub fail_bytes: Option<usize>, // fail once this many bytes have been handed over
    pub recovers: bool,  // after the failure the transport accepts bytes again
    pub slow_net: u64,   // delay between drain and arrival
    pub eager: bool,     // drains by itself, without a flush
}

impl OutKnobs {
    pub fn draw(sim: &Sim) -> OutKnobs {
        let cap = *sim.pick(&[64, 1, 2, 5]);
        OutKnobs {
            cap,
            instant: !sim.chance(3, 4),
            pend: *sim.pick(&[0, 0, 10, 30]),
            latency: *sim.pick(&[0, 10 * US, MS, 100 * MS]),
            partial: sim.chance(1, 2),
            fail_at: None,
            fail_bytes: None,
            recovers: false,
            slow_net: *sim.pick(&[0, 0, MS, 300 * MS]),
            eager: sim.chance(1, 4),
        }
    }
}

pub struct OutSt {
    buf: VecDeque<Bytes>,
    waker: Option<Waker>,
    granted: bool,
    draining: bool,
    flush_wanted: bool,
    pub ops: u32,
    pub failed: bool,
    pub use_after_failure: u32,
    pub handed_after_failure: u32,
    pub unready_sends: u32,
    pub handed: Vec<u8>,
    pub sent: Vec<u8>,
    pub items: u64,
    pend_armed: bool,
    no_pend: bool,
    last_arrival: u64,
    /// flow control: the peer accepts no more for now
    pub blocked: bool,
    pub severed: bool,
}

/// called when bytes reach the other end
pub type Deliver = Arc<dyn Fn(&Sim, &[u8]) + Send + Sync>;
/// called when bytes are handed to the writer (offset before, bytes)
pub type OnHand = Arc<dyn Fn(&Sim, usize, &[u8]) + Send + Sync>;

#[derive(Clone)]
pub struct Out {
    pub sim: Sim,
    pub st: Arc<Mutex<OutSt>>,
    pub k: Arc<OutKnobs>,
    pub id: u64,
    deliver: Deliver,
    on_hand: Option<OnHand>,
}

impl Out {
    pub fn new(sim: &Sim, id: u64, k: OutKnobs, deliver: Deliver, on_hand: Option<OnHand>) -> Out {
        Out {
            sim: sim.clone(),
            st: Arc::new(Mutex::new(OutSt {
                buf: VecDeque::new(),
                waker: None,
                granted: false,
                draining: false,
                flush_wanted: false,
                ops: 0,
                failed: false,
                use_after_failure: 0,
                handed_after_failure: 0,
                unready_sends: 0,
                handed: Vec::new(),
                sent: Vec::new(),
                items: 0,
                pend_armed: false,
                no_pend: false,
                last_arrival: 0,
                blocked: false,
                severed: false,
            })),
            k: Arc::new(k),
            id,
            deliver,
            on_hand,
        }
    }

    /// The connection is lost: every further operation fails
    pub fn sever(&self) {
        let w = {
            let mut st = self.st.lock().unwrap();
            st.severed = true;
            st.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }

    pub fn unblock(&self, sim: &Sim) {
        let was = {
            let mut st = self.st.lock().unwrap();
            std::mem::replace(&mut st.blocked, false)
        };
        if was {
            self.start_drain(sim);
        }
    }

    fn op(&self, phase: &'static str) -> Result<(), ()> {
        let mut st = self.st.lock().unwrap();
        if st.failed {
            st.use_after_failure += 1;
            return if self.k.recovers && !st.severed { Ok(()) } else { Err(()) };
        }
        st.ops += 1;
        if self.k.fail_at == Some(st.ops) || st.severed || self.k.fail_bytes.map_or(false, |n| st.handed.len() >= n) {
            st.failed = true;
            drop(st);
            self.sim.stat(match phase {
                "ready" => "write_failure_at_readiness",
                "send" => "write_failure_at_handover",
                _ => "write_failure_at_flush",
            });
            if self.k.recovers {
                self.sim.stat("write_failure_passing");
            }
            self.sim.log(20, self.id, 0, || format!("out#{}: write fails at {}", self.id, phase));
            return Err(());
        }
        Ok(())
    }

    fn late(&self, cx: &mut Context<'_>) -> bool {
        let skip = std::mem::replace(&mut self.st.lock().unwrap().no_pend, false);
        if skip || self.k.pend == 0 || !self.sim.chance(self.k.pend, 64) {
            return false;
        }
        self.sim.stat("late_write_readiness");
        let mut st = self.st.lock().unwrap();
        st.waker = Some(cx.waker().clone());
        if !st.pend_armed {
            st.pend_armed = true;
            drop(st);
            let this = self.clone();
            self.sim.after(70 * US, move |_| {
                let w = {
                    let mut st = this.st.lock().unwrap();
                    st.pend_armed = false;
                    st.no_pend = true;
                    st.waker.take()
                };
                if let Some(w) = w {
                    w.wake()
                }
            });
        }
        true
    }

    fn drain_some(&self, sim: &Sim) {
        // move one item or everything onto the network
        loop {
            let item = {
                let mut st = self.st.lock().unwrap();
                if st.blocked || st.severed {
                    return;
                }
                match st.buf.pop_front() {
                    Some(b) => {
                        st.sent.extend_from_slice(&b);
                        b
                    }
                    None => return,
                }
            };
            sim.log(21, self.id, hash_bytes(&item), || format!("out#{}: on the wire {:?}", self.id, show(&item)));
            let t = {
                let mut st = self.st.lock().unwrap();
                let t = st.last_arrival.max(sim.now() + self.k.slow_net);
                st.last_arrival = t;
                t
            };
            if self.k.slow_net == 0 {
                (self.deliver)(sim, &item);
            } else {
                let d = self.deliver.clone();
                let this = self.clone();
                sim.at(t, move |sim| {
                    if !this.st.lock().unwrap().severed {
                        d(sim, &item)
                    }
                });
            }
            if self.k.partial {
                return;
            }
        }
    }

    fn start_drain(&self, sim: &Sim) {
        {
            let mut st = self.st.lock().unwrap();
            if st.draining || st.buf.is_empty() || st.blocked || st.severed {
                return;
            }
            st.draining = true;
        }
        let d = if self.k.latency > 0 { sim.draw((self.k.latency / 1000) as u32) as u64 * 1000 + 1000 } else { 0 };
        let this = self.clone();
        sim.after(d, move |sim| {
            this.st.lock().unwrap().draining = false;
            this.drain_some(sim);
            let (w, again) = {
                let mut st = this.st.lock().unwrap();
                (st.waker.take(), !st.buf.is_empty() && (st.flush_wanted || this.k.eager))
            };
            if let Some(w) = w {
                w.wake()
            }
            if again {
                this.start_drain(sim);
            }
        });
    }
}

pub struct Writer(pub Out);

impl Sink<Bytes> for Writer {
    type Error = ();

    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        let this = &self.0;
        if this.op("ready").is_err() {
            return Poll::Ready(Err(()));
        }
        if this.late(cx) {
            return Poll::Pending;
        }
        let full = {
            let st = this.st.lock().unwrap();
            st.buf.len() >= this.k.cap
        };
        if full {
            this.sim.stat("back_pressure");
            {
                let mut st = this.st.lock().unwrap();
                st.flush_wanted = true;
                st.waker = Some(cx.waker().clone());
            }
            this.start_drain(&this.sim);
            return Poll::Pending;
        }
        this.st.lock().unwrap().granted = true;
        Poll::Ready(Ok(()))
    }

    fn start_send(self: Pin<&mut Self>, item: Bytes) -> Result<(), ()> {
        let this = &self.0;
        {
            let mut st = this.st.lock().unwrap();
            if st.failed {
                st.handed_after_failure += 1;
            }
            if !st.granted {
                st.unready_sends += 1;
            }
            st.granted = false;
        }
        this.op("send")?;
        let off = this.st.lock().unwrap().handed.len();
        this.sim.log(22, this.id, hash_bytes(&item), || format!("out#{}: handed over {:?}", this.id, show(&item)));
        if let Some(ref f) = this.on_hand {
            f(&this.sim, off, &item);
        }
        let mut st = this.st.lock().unwrap();
        st.handed.extend_from_slice(&item);
        st.items += 1;
        st.buf.push_back(item);
        st.flush_wanted = false;
        drop(st);
        if this.k.eager {
            this.start_drain(&this.sim);
        }
        Ok(())
    }

    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        let this = &self.0;
        if this.op("flush").is_err() {
            return Poll::Ready(Err(()));
        }
        if this.late(cx) {
            return Poll::Pending;
        }
        if this.k.instant {
            loop {
                {
                    let st = this.st.lock().unwrap();
                    if st.buf.is_empty() || st.blocked || st.severed {
                        break;
                    }
                }
                this.drain_some(&this.sim);
            }
        }
        let empty = this.st.lock().unwrap().buf.is_empty();
        if empty {
            return Poll::Ready(Ok(()));
        }
        {
            let mut st = this.st.lock().unwrap();
            st.flush_wanted = true;
            st.waker = Some(cx.waker().clone());
        }
        this.start_drain(&this.sim);
        Poll::Pending
    }

    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
        self.poll_flush(cx)
    }
}
