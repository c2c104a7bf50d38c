//! The simulator core: discrete-event clock, seeded scheduler, executor for futures 0.3 and
//! futures 0.1 tasks, event log, fault counters.
use std::{
    cell::{Cell, RefCell},
    cmp::Reverse,
    collections::{BTreeMap, BinaryHeap},
    future::Future,
    pin::Pin,
    sync::{Arc, Mutex, MutexGuard},
    task::{Context, Wake, Waker},
    time::Duration,
};

use crate::{interpose, tape::{mix, Tape}};

/// Where the steps of the scheduler are counted for the parent process, if there is one
pub static BEAT: std::sync::atomic::AtomicPtr<std::sync::atomic::AtomicU64> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;
pub const HOUR: u64 = 3600 * SEC;

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

type Event = Box<dyn FnOnce(&Sim) + Send>;

pub struct Core {
    pub tape: Tape,
    pub now: u64,
    seq: u64,
    heap: BinaryHeap<Reverse<(u64, u64)>>,
    events: BTreeMap<u64, Event>,
    ready: Vec<(usize, u64)>, // task, generation of the waker
    pub hash: u64,
    pub nlog: u64,
    pub trace: Option<Vec<String>>,
    pub stats: Vec<(&'static str, u64)>,
    pub violations: Vec<Violation>,
    pub steps: u64,
    pub strict_wakers: bool,
    pub allowed: Vec<&'static str>,
}

#[derive(Clone)]
pub struct Sim(pub Arc<Mutex<Core>>);

impl Sim {
    pub fn new(tape: Tape, want_trace: bool, allowed: Vec<&'static str>) -> Sim {
        Sim(Arc::new(Mutex::new(Core {
            tape,
            now: 0,
            seq: 0,
            heap: BinaryHeap::new(),
            events: BTreeMap::new(),
            ready: Vec::new(),
            hash: 0,
            nlog: 0,
            trace: if want_trace { Some(Vec::new()) } else { None },
            stats: Vec::new(),
            violations: Vec::new(),
            steps: 0,
            strict_wakers: false,
            allowed,
        })))
    }

    pub fn core(&self) -> MutexGuard<'_, Core> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }

    // ---- choices
    pub fn draw(&self, n: u32) -> u32 {
        self.core().tape.draw(n)
    }
    /// true with probability num/den; 0 on the tape means false
    pub fn chance(&self, num: u32, den: u32) -> bool {
        if num == 0 {
            return false;
        }
        self.draw(den) >= den - num.min(den)
    }
    pub fn range(&self, lo: u32, hi: u32) -> u32 {
        lo + self.draw(hi - lo + 1)
    }
    pub fn pick<'a, T>(&self, v: &'a [T]) -> &'a T {
        &v[self.draw(v.len() as u32) as usize]
    }
    /// index chosen by weight; index 0 is the plain one
    pub fn weighted(&self, w: &[u32]) -> usize {
        let tot: u32 = w.iter().sum();
        let mut x = self.draw(tot);
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        w.len() - 1
    }

    pub fn hash(&self) -> u64 {
        let c = self.core();
        let h = c.hash;
        drop(c);
        h
    }

    // ---- time and events
    pub fn now(&self) -> u64 {
        self.core().now
    }
    pub fn at(&self, t: u64, f: impl FnOnce(&Sim) + Send + 'static) {
        let mut c = self.core();
        let t = t.max(c.now);
        c.seq += 1;
        let s = c.seq;
        c.heap.push(Reverse((t, s)));
        c.events.insert(s, Box::new(f));
    }
    pub fn after(&self, d: u64, f: impl FnOnce(&Sim) + Send + 'static) {
        let t = self.now().saturating_add(d);
        self.at(t, f)
    }

    // ---- log and oracles
    pub fn stat(&self, k: &'static str) {
        self.stat_n(k, 1)
    }
    pub fn stat_n(&self, k: &'static str, n: u64) {
        let mut c = self.core();
        for e in c.stats.iter_mut() {
            if std::ptr::eq(e.0, k) || e.0 == k {
                e.1 += n;
                return;
            }
        }
        c.stats.push((k, n));
    }
    pub fn log(&self, code: u32, a: u64, b: u64, text: impl FnOnce() -> String) {
        let mut c = self.core();
        let now = c.now;
        c.hash = mix(c.hash ^ mix(code as u64 ^ (a << 20)) ^ mix(b.wrapping_add(0x5bd1)) ^ now.rotate_left(17));
        c.nlog += 1;
        if c.trace.is_some() {
            let line = format!("t={}.{:06}ms {}", now / MS, now % MS, text());
            c.trace.as_mut().unwrap().push(line);
        }
    }
    pub fn fail(&self, class: &str, msg: impl Into<String>) {
        let msg = msg.into();
        let mut c = self.core();
        if !c.allowed.iter().any(|a| *a == class) {
            return;
        }
        if c.violations.len() < 4 {
            if let Some(t) = c.trace.as_mut() {
                t.push(format!("VIOLATED {}: {}", class, msg));
            }
            c.violations.push(Violation { class: class.to_string(), msg });
        }
    }
    pub fn failed(&self) -> bool {
        !self.core().violations.is_empty()
    }
    pub fn tracing(&self) -> bool {
        self.core().trace.is_some()
    }

    fn wake(&self, id: usize, gen: u64) {
        let mut c = self.core();
        if !c.ready.iter().any(|r| r.0 == id && r.1 == gen) {
            c.ready.push((id, gen));
        }
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ (b.len() as u64);
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h)
}

pub fn show(b: &[u8]) -> String {
    if b.len() > 300 {
        format!("{}…({} bytes)", b[..200].escape_ascii(), b.len())
    } else {
        b.escape_ascii().to_string()
    }
}

// ------------------------------------------------------------------ tasks

type Fut3 = Pin<Box<dyn Future<Output = ()>>>;
type Fut1 = Box<dyn futures01::Future<Item = (), Error = ()>>;

enum Body {
    F3(Fut3),
    F1(futures01::executor::Spawn<Fut1>),
}

struct Task {
    body: Option<Body>,
    gen: u64,
    group: u32,
    #[allow(dead_code)]
    name: &'static str,
}

thread_local! {
    static NEW: RefCell<Vec<(Body, u32, &'static str)>> = const { RefCell::new(Vec::new()) };
    static GROUP: Cell<u32> = const { Cell::new(0) };
}

/// Spawn a futures 0.3 task in the group of the running task
pub fn spawn3(name: &'static str, f: impl Future<Output = ()> + 'static) {
    let g = GROUP.with(|g| g.get());
    NEW.with(|n| n.borrow_mut().push((Body::F3(Box::pin(f)), g, name)));
}
pub fn spawn1(name: &'static str, f: Fut1) {
    let g = GROUP.with(|g| g.get());
    NEW.with(|n| n.borrow_mut().push((Body::F1(futures01::executor::spawn(f)), g, name)));
}
pub fn set_group(g: u32) {
    GROUP.with(|c| c.set(g))
}

struct TaskWaker {
    sim: Sim,
    id: usize,
    gen: u64,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.sim.wake(self.id, self.gen)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.sim.wake(self.id, self.gen)
    }
}
impl futures01::executor::Notify for TaskWaker {
    fn notify(&self, _id: usize) {
        self.sim.wake(self.id, self.gen)
    }
}

/// The default executor seen by `tokio::spawn` inside a run
struct Tokio01;
impl tokio_executor::Executor for Tokio01 {
    fn spawn(&mut self, f: Box<dyn futures01::Future<Item = (), Error = ()> + Send>) -> Result<(), tokio_executor::SpawnError> {
        spawn1("tokio", f);
        Ok(())
    }
}

struct SimPark(Arc<Mutex<Option<Duration>>>);
struct NoUnpark;
impl tokio_executor::park::Unpark for NoUnpark {
    fn unpark(&self) {}
}
impl tokio_executor::park::Park for SimPark {
    type Unpark = NoUnpark;
    type Error = ();
    fn unpark(&self) -> NoUnpark {
        NoUnpark
    }
    fn park(&mut self) -> Result<(), ()> {
        *self.0.lock().unwrap() = None;
        Ok(())
    }
    fn park_timeout(&mut self, d: Duration) -> Result<(), ()> {
        *self.0.lock().unwrap() = Some(d);
        Ok(())
    }
}

pub struct Exec {
    pub sim: Sim,
    tasks: Vec<Task>,
    live: usize,
    pub spurious: u32, // per 256
    pub stall: u32,    // per 256: let time pass although tasks are ready
    timer: Option<tokio_timer::Timer<SimPark>>,
    park_req: Arc<Mutex<Option<Duration>>>,
    pub max_steps: u64,
    pub overrun: bool,
}

pub enum Stop {
    Quiescent,
    Overrun,
    Until,
}

impl Exec {
    pub fn new(sim: &Sim, with_timer: bool) -> Exec {
        NEW.with(|n| n.borrow_mut().clear());
        let park_req = Arc::new(Mutex::new(None));
        let timer = if with_timer { Some(tokio_timer::Timer::new(SimPark(park_req.clone()))) } else { None };
        Exec {
            sim: sim.clone(),
            tasks: Vec::new(),
            live: 0,
            spurious: 0,
            stall: 0,
            timer,
            park_req,
            max_steps: 400_000,
            overrun: false,
        }
    }

    pub fn live(&self) -> usize {
        self.live
    }

    fn adopt(&mut self) {
        loop {
            let v = NEW.with(|n| std::mem::take(&mut *n.borrow_mut()));
            if v.is_empty() {
                return;
            }
            for (body, group, name) in v {
                let id = self.tasks.len();
                self.tasks.push(Task { body: Some(body), gen: 0, group, name });
                self.live += 1;
                self.sim.core().ready.push((id, 0));
            }
        }
    }

    /// Crash: drop all tasks of a group without running them any further
    pub fn kill_group(&mut self, g: u32) -> usize {
        self.adopt();
        let mut n = 0;
        for i in 0..self.tasks.len() {
            if self.tasks[i].group == g {
                if let Some(b) = self.tasks[i].body.take() {
                    self.live -= 1;
                    n += 1;
                    drop(b);
                }
            }
        }
        // Tasks spawned by destructors, if any, die too
        NEW.with(|v| v.borrow_mut().retain(|t| t.1 != g));
        n
    }

    fn poll_task(&mut self, id: usize) {
        let t = &mut self.tasks[id];
        let mut body = match t.body.take() {
            Some(b) => b,
            None => return,
        };
        if let Body::F3(_) = body {
            t.gen += 1;
        }
        let w = Arc::new(TaskWaker { sim: self.sim.clone(), id, gen: t.gen });
        GROUP.with(|g| g.set(t.group));
        let done = match body {
            Body::F3(ref mut f) => {
                let waker = Waker::from(w);
                f.as_mut().poll(&mut Context::from_waker(&waker)).is_ready()
            }
            Body::F1(ref mut f) => match f.poll_future_notify(&w, id) {
                Ok(futures01::Async::NotReady) => false,
                _ => true,
            },
        };
        if done {
            self.live -= 1;
            drop(body);
        } else {
            self.tasks[id].body = Some(body);
        }
    }

    /// Run `f` with this simulator installed as tokio's default executor and timer
    pub fn scope<R>(&mut self, f: impl FnOnce(&mut Exec) -> R) -> R {
        match self.timer.as_ref().map(|t| t.handle()) {
            None => f(self),
            Some(h) => {
                let mut enter = tokio_executor::enter().expect("nested executor");
                let mut ex = Tokio01;
                let this = self;
                tokio_executor::with_default(&mut ex, &mut enter, move |enter| {
                    tokio_timer::with_default(&h, enter, move |_| f(this))
                })
            }
        }
    }

    /// Run until quiescence, until the clock would pass `until`, until `stop()` or the step limit.
    pub fn run(&mut self, until: u64, mut stop: impl FnMut(&Sim) -> bool) -> Stop {
        let sim = self.sim.clone();
        loop {
            self.adopt();
            if stop(&sim) {
                return Stop::Until;
            }
            {
                let mut c = sim.core();
                c.steps += 1;
                let beat = BEAT.load(std::sync::atomic::Ordering::Relaxed);
                if !beat.is_null() {
                    // seen by the parent process, which tells slow from stuck by it
                    unsafe { (*beat).fetch_add(1, std::sync::atomic::Ordering::Relaxed) };
                }
                if c.steps > self.max_steps {
                    drop(c);
                    self.overrun = true;
                    return Stop::Overrun;
                }
            }
            // drop stale wake-ups
            let nready = {
                let mut c = sim.core();
                let strict = c.strict_wakers;
                let tasks = &self.tasks;
                c.ready.retain(|&(id, gen)| tasks[id].body.is_some() && (!strict || gen == tasks[id].gen));
                c.ready.len()
            };
            if nready > 0 && !(self.stall > 0 && self.has_timed() && sim.chance(self.stall, 256)) {
                if self.spurious > 0 && sim.chance(self.spurious, 256) {
                    let live: Vec<usize> = (0..self.tasks.len()).filter(|&i| self.tasks[i].body.is_some()).collect();
                    let k = *sim.pick(&live);
                    sim.stat("spurious_poll");
                    sim.log(1, k as u64, 1, || format!("spurious poll of task {}", k));
                    self.poll_task(k);
                    continue;
                }
                let k = sim.draw(nready as u32) as usize;
                let (id, _) = {
                    let mut c = sim.core();
                    let r = c.ready.remove(k);
                    c.ready.retain(|x| x.0 != r.0);
                    r
                };
                sim.log(1, id as u64, 0, || format!("poll task {}", id));
                self.poll_task(id);
                let slept = interpose::take_slept();
                if slept > 0 {
                    let mut c = sim.core();
                    c.now += slept;
                    drop(c);
                    sim.stat("blocking_sleep");
                }
                continue;
            }
            // nothing runnable (or a stall): advance time
            if nready > 0 {
                sim.stat("node_stall");
            }
            let ev = sim.core().heap.peek().map(|r| (r.0).0);
            let tm = self.timer_deadline();
            // timer processing may have woken something up
            if tm == Some(sim.now()) || (nready == 0 && !sim.core().ready.is_empty()) {
                continue;
            }
            let next = match (ev, tm) {
                (None, None) => {
                    if nready > 0 {
                        continue;
                    }
                    return Stop::Quiescent;
                }
                (Some(a), None) => a,
                (None, Some(b)) => b,
                (Some(a), Some(b)) => a.min(b),
            };
            if next > until {
                let mut c = sim.core();
                c.now = until.max(c.now);
                let n = c.now;
                drop(c);
                interpose::set_now(n);
                return Stop::Until;
            }
            {
                let mut c = sim.core();
                c.now = next.max(c.now);
                let n = c.now;
                drop(c);
                interpose::set_now(n);
            }
            if ev == Some(next) {
                let f = {
                    let mut c = sim.core();
                    let Reverse((_, s)) = c.heap.pop().unwrap();
                    c.events.remove(&s)
                };
                if let Some(f) = f {
                    f(&sim);
                }
            } else if let Some(t) = self.timer.as_mut() {
                t.turn(None).unwrap();
            }
        }
    }

    fn has_timed(&mut self) -> bool {
        !self.sim.core().heap.is_empty()
    }

    /// Next instant at which tokio's timer wheel wants to be turned (fires what is due now)
    fn timer_deadline(&mut self) -> Option<u64> {
        let t = self.timer.as_mut()?;
        *self.park_req.lock().unwrap() = None;
        t.turn(None).unwrap();
        let req = self.park_req.lock().unwrap().take();
        req.map(|d| self.sim.now() + d.as_nanos() as u64)
    }

    pub fn forget_events(&mut self) {
        let mut c = self.sim.core();
        c.heap.clear();
        let ev = std::mem::take(&mut c.events);
        drop(c);
        drop(ev);
    }
}

impl Drop for Exec {
    fn drop(&mut self) {
        // break Arc cycles: tasks hold the sim, the sim's events hold pipes
        let tasks = std::mem::take(&mut self.tasks);
        drop(tasks);
        NEW.with(|n| n.borrow_mut().clear());
        self.forget_events();
    }
}

/// A future that is pending until an event scheduled `d` later wakes it (0: ready at once)
pub struct Sleep {
    sim: Sim,
    state: Arc<Mutex<(bool, Option<Waker>)>>,
    d: u64,
    armed: bool,
}
impl Sleep {
    pub fn new(sim: &Sim, d: u64) -> Sleep {
        Sleep { sim: sim.clone(), state: Arc::new(Mutex::new((false, None))), d, armed: false }
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> std::task::Poll<()> {
        if self.d == 0 {
            return std::task::Poll::Ready(());
        }
        {
            let mut s = self.state.lock().unwrap();
            if s.0 {
                return std::task::Poll::Ready(());
            }
            s.1 = Some(cx.waker().clone());
        }
        if !self.armed {
            self.armed = true;
            let st = self.state.clone();
            let d = self.d;
            self.sim.clone().after(d, move |_| {
                let w = {
                    let mut s = st.lock().unwrap();
                    s.0 = true;
                    s.1.take()
                };
                if let Some(w) = w {
                    w.wake()
                }
            });
        }
        std::task::Poll::Pending
    }
}
