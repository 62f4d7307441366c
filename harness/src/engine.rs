//! Stateless exhaustive exploration: a driver function asks a `Ch` for choices; `explore` runs the driver once
//! for every complete sequence of choices. `pick` is enumerated in full; a non-default answer of `dev` is a
//! deviation, and executions are bounded to `bound` deviations. No sampling anywhere.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub struct Ch {
    script: Vec<u32>,
    pos: usize,
    /// (choice, alternatives, costs a deviation)
    trace: Vec<(u32, u32, bool)>,
    used: u32,
    bound: u32,
}

impl Ch {
    pub fn new(script: Vec<u32>, bound: u32) -> Self {
        Ch { script, pos: 0, trace: vec![], used: 0, bound }
    }
    fn choose(&mut self, n: usize, cost: bool) -> usize {
        assert!(n > 0, "harness: empty choice");
        let n_eff = if cost && self.used >= self.bound { 1 } else { n as u32 };
        let c = self.script.get(self.pos).copied().unwrap_or(0);
        assert!(c < n_eff, "harness: divergence while replaying a choice prefix");
        self.pos += 1;
        if cost && c > 0 {
            self.used += 1
        }
        self.trace.push((c, n_eff, cost));
        c as usize
    }
    /// Full enumeration of 0..n.
    pub fn pick(&mut self, n: usize) -> usize {
        self.choose(n, false)
    }
    pub fn pick_of<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.pick(xs.len());
        &xs[i]
    }
    pub fn pick_str<'b>(&mut self, xs: &[&'b str]) -> &'b str {
        let i = self.pick(xs.len());
        xs[i]
    }
    pub fn dev_str<'b>(&mut self, xs: &[&'b str]) -> &'b str {
        let i = self.dev(xs.len());
        xs[i]
    }
    pub fn flip(&mut self) -> bool {
        self.pick(2) == 1
    }
    /// 0 is the default; any other answer is one deviation.
    pub fn dev(&mut self, n: usize) -> usize {
        self.choose(n, true)
    }
    pub fn dev_of<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.dev(xs.len());
        &xs[i]
    }
    pub fn dev_flip(&mut self) -> bool {
        self.dev(2) == 1
    }
}

#[derive(Default)]
pub struct Run {
    pub case: String,
    pub fails: Vec<String>,
    pub outcomes: Vec<String>,
    pub compared: u64,
    skip: bool,
    dup_check: Option<*const Shared>,
}

impl Run {
    /// Declares the case of this run; returns false if it was already explored (then just return).
    pub fn case(&mut self, s: impl Into<String>) -> bool {
        self.case = s.into();
        set_current(&self.case);
        if let Some(sh) = self.dup_check {
            let sh = unsafe { &*sh };
            let h = hash_str(&self.case);
            if !sh.seen[(h % 64) as usize].lock().unwrap().insert(h) {
                self.skip = true;
                return false;
            }
        }
        true
    }
    pub fn skip(&mut self) {
        self.skip = true
    }
    pub fn fail(&mut self, m: impl Into<String>) {
        self.fails.push(m.into())
    }
    pub fn outcome(&mut self, o: impl Into<String>) {
        self.outcomes.push(o.into())
    }
    /// one comparison of the reference model with the implementation
    pub fn agree<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, reference: &T, implementation: &T) {
        self.compared += 1;
        if reference != implementation {
            self.fail(format!("{what}: expected {} got {}", cut(&format!("{reference:?}")), cut(&format!("{implementation:?}"))));
        }
    }
    pub fn check(&mut self, ok: bool, what: impl Fn() -> String) {
        self.compared += 1;
        if !ok {
            self.fail(what())
        }
    }
}
fn cut(s: &str) -> String {
    if s.len() > 1500 { format!("{}…", s.chars().take(1500).collect::<String>()) } else { s.to_string() }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

struct Shared {
    seen: Vec<Mutex<HashSet<u64>>>,
}

#[derive(Clone, Debug)]
pub struct Mismatch {
    pub space: String,
    pub case: String,
    pub msgs: Vec<String>,
    pub script: Vec<u32>,
    pub bound: u32,
}

#[derive(Default, Debug)]
pub struct SpaceStats {
    pub name: String,
    pub bound: u32,
    pub runs: u64,
    pub distinct: u64,
    pub transitions: u64,
    pub compared: u64,
    pub capped: bool,
    pub wall: f64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<(String, String)>,
}

pub struct Report {
    pub property: String,
    pub tier: String,
    pub spaces: Vec<SpaceStats>,
    pub mismatches: Vec<Mismatch>,
    pub start: Instant,
    pub replay: Option<(String, Vec<u32>, u32)>,
    pub only: Option<String>,
    pub deadline: Instant,
    /// names of the spaces still to come; filled by a first pass that explores nothing
    pub planned: Option<Vec<String>>,
    pub planning: bool,
}

// ---- crash handling: a stack overflow, abort or hang inside the implementation becomes a verdict ----
thread_local! {
    static CUR: Cell<(*const u8, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
static CASE_STARTED: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static CASE_TEXT: [Mutex<String>; 64] = [const { Mutex::new(String::new()) }; 64];
static mut CRASH_PATH: [u8; 512] = [0; 512];
static mut CRASH_LINE: [u8; 640] = [0; 640];
static CRASH_LINE_LEN: AtomicUsize = AtomicUsize::new(0);
static EPOCH: Mutex<Option<Instant>> = Mutex::new(None);

extern "C" {
    fn signal(sig: i32, h: usize) -> usize;
    fn _exit(c: i32) -> !;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn creat(p: *const std::ffi::c_char, mode: u32) -> i32;
}

fn set_current(s: &str) {
    CUR.with(|c| c.set((s.as_ptr(), s.len())));
    let slot = SLOT.with(|s| s.get());
    if slot < 64 {
        let mut t = CASE_TEXT[slot].lock().unwrap();
        t.clear();
        t.push_str(s);
    }
}

extern "C" fn on_abort(_sig: i32) {
    unsafe {
        let (p, n) = CUR.with(|c| c.get());
        if p.is_null() {
            _exit(3);
        }
        #[allow(static_mut_refs)]
        let fd = creat(CRASH_PATH.as_ptr() as *const std::ffi::c_char, 0o644);
        if fd >= 0 {
            let h = b"the implementation crashed the process (stack overflow or abort) on this case:\n";
            write(fd, h.as_ptr(), h.len());
            write(fd, p, n);
        }
        #[allow(static_mut_refs)]
        write(1, CRASH_LINE.as_ptr(), CRASH_LINE_LEN.load(Ordering::Relaxed));
        _exit(1)
    }
}

pub fn install_crash_handler(property: &str, out_dir: &str) {
    let path = format!("{out_dir}/{property}-crash.txt");
    let line = format!("\nVIOLATION property={property} replay={path}\n");
    unsafe {
        #[allow(static_mut_refs)]
        {
            CRASH_PATH[..path.len()].copy_from_slice(path.as_bytes());
            CRASH_LINE[..line.len()].copy_from_slice(line.as_bytes());
        }
        CRASH_LINE_LEN.store(line.len(), Ordering::Relaxed);
        signal(6, on_abort as *const () as usize);
    }
    *EPOCH.lock().unwrap() = Some(Instant::now());
    std::panic::set_hook(Box::new(|info| {
        let m = info.payload().downcast_ref::<String>().cloned().or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
    }));
    // hang watchdog
    let prop = property.to_string();
    let dir = out_dir.to_string();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(5));
        let now = EPOCH.lock().unwrap().unwrap().elapsed().as_millis() as u64;
        for (i, s) in CASE_STARTED.iter().enumerate() {
            let t = s.load(Ordering::Relaxed);
            if t != 0 && now > t + 90_000 {
                let path = format!("{dir}/{prop}-hang.txt");
                let text = CASE_TEXT[i].lock().unwrap().clone();
                let _ = std::fs::write(&path, format!("no answer within 90 s on this case:\n{text}\n"));
                println!("\nVIOLATION property={prop} replay={path}");
                std::process::exit(1);
            }
        }
    });
}

fn now_ms() -> u64 {
    EPOCH.lock().unwrap().map(|e| e.elapsed().as_millis() as u64 + 1).unwrap_or(1)
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

impl Report {
    pub fn new(property: &str, tier: &str) -> Self {
        let limit = std::env::var("MC_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 240 } else { 780 });
        Report {
            property: property.into(),
            tier: tier.into(),
            spaces: vec![],
            mismatches: vec![],
            start: Instant::now(),
            replay: None,
            only: None,
            deadline: Instant::now() + Duration::from_secs(limit),
            planned: None,
            planning: false,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// quick bound or thorough bound
    pub fn b(&self, quick: u32, thorough: u32) -> u32 {
        if self.thorough() { thorough } else { quick }
    }

    /// Explore every execution of `f` with at most `bound` deviations.
    pub fn explore(&mut self, name: &str, bound: u32, f: impl Fn(&mut Ch, &mut Run) + Sync) {
        if let Some(o) = &self.only {
            if o != name {
                return;
            }
        }
        if self.planning {
            self.planned.get_or_insert_with(Vec::new).push(name.to_string());
            return;
        }
        if let Some((space, script, b)) = &self.replay {
            if space != name {
                return;
            }
            let (run, _) = exec_one(&f, Ch::new(script.clone(), *b), None);
            println!("case:\n{}", run.case);
            if run.fails.is_empty() {
                println!("no mismatch on this case");
            }
            for m in &run.fails {
                println!("MISMATCH {m}");
            }
            if !run.fails.is_empty() {
                self.mismatches.push(Mismatch { space: name.into(), case: run.case, msgs: run.fails, script: script.clone(), bound: *b });
            }
            return;
        }
        let t0 = Instant::now();
        let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
        let shared = Shared { seen: (0..64).map(|_| Mutex::new(HashSet::new())).collect() };
        let queue: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![vec![]]);
        let cv = Condvar::new();
        let idle = AtomicUsize::new(0);
        let hungry = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let total: Mutex<(SpaceStats, Vec<Mismatch>)> = Mutex::new((SpaceStats { name: name.into(), bound, ..Default::default() }, vec![]));
        // no space may take more than half of what is left while others are to come
        let left = self.deadline.saturating_duration_since(Instant::now());
        let last = match &mut self.planned {
            Some(p) => {
                p.retain(|x| x != name);
                p.is_empty()
            }
            None => true,
        };
        let deadline = if last { self.deadline } else { Instant::now() + left / 2 };
        std::thread::scope(|sc| {
            for w in 0..workers {
                let (f, shared, queue, cv, idle, hungry, stop, capped, total) = (&f, &shared, &queue, &cv, &idle, &hungry, &stop, &capped, &total);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        SLOT.with(|s| s.set(w));
                        let mut local: Vec<Vec<u32>> = vec![];
                        let mut st = SpaceStats::default();
                        let mut mm: Vec<Mismatch> = vec![];
                        'outer: loop {
                            if local.is_empty() {
                                let mut q = queue.lock().unwrap();
                                idle.fetch_add(1, Ordering::SeqCst);
                                hungry.fetch_add(1, Ordering::SeqCst);
                                loop {
                                    if stop.load(Ordering::SeqCst) {
                                        break 'outer;
                                    }
                                    if let Some(t) = q.pop() {
                                        local.push(t);
                                        let extra = (q.len() / workers).min(200);
                                        for _ in 0..extra {
                                            local.push(q.pop().unwrap());
                                        }
                                        break;
                                    }
                                    if idle.load(Ordering::SeqCst) == workers {
                                        stop.store(true, Ordering::SeqCst);
                                        cv.notify_all();
                                        break 'outer;
                                    }
                                    q = cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
                                }
                                idle.fetch_sub(1, Ordering::SeqCst);
                                hungry.fetch_sub(1, Ordering::SeqCst);
                            }
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let script = local.pop().unwrap();
                            let plen = script.len();
                            CASE_STARTED[w].store(now_ms(), Ordering::Relaxed);
                            if st.runs % 64 == 0 {
                                if Instant::now() > deadline {
                                    capped.store(true, Ordering::SeqCst);
                                    stop.store(true, Ordering::SeqCst);
                                    break;
                                }
                            }
                            let (run, ch) = exec_one(f, Ch::new(script, bound), Some(shared));
                            CASE_STARTED[w].store(0, Ordering::Relaxed);
                            st.runs += 1;
                            st.transitions += (ch.trace.len() + 1 - plen.min(ch.trace.len())) as u64;
                            st.compared += run.compared;
                            if !run.skip {
                                st.distinct += 1;
                                for o in &run.outcomes {
                                    if let Some(n) = st.outcomes.get_mut(o) {
                                        *n += 1;
                                    } else {
                                        st.outcomes.insert(o.clone(), 1);
                                        if st.samples.len() < 12 {
                                            st.samples.push((o.clone(), run.case.clone()));
                                        }
                                    }
                                }
                            }
                            let choices: Vec<u32> = ch.trace.iter().map(|t| t.0).collect();
                            if !run.fails.is_empty() {
                                mm.push(Mismatch { space: name.into(), case: run.case, msgs: run.fails, script: choices.clone(), bound });
                                if mm.len() > 400 {
                                    capped.store(true, Ordering::SeqCst);
                                    stop.store(true, Ordering::SeqCst);
                                    break;
                                }
                            }
                            for i in (plen..ch.trace.len()).rev() {
                                let (_, n, _) = ch.trace[i];
                                for alt in (1..n).rev() {
                                    let mut s = choices[..i].to_vec();
                                    s.push(alt);
                                    local.push(s);
                                }
                            }
                            if local.len() > 1 && hungry.load(Ordering::Relaxed) > 0 {
                                let mut q = queue.lock().unwrap();
                                if q.len() < workers * 4 {
                                    let k = local.len() / 2;
                                    q.extend(local.drain(..k));
                                    cv.notify_all();
                                }
                            }
                        }
                        let mut t = total.lock().unwrap();
                        t.0.runs += st.runs;
                        t.0.distinct += st.distinct;
                        t.0.transitions += st.transitions;
                        t.0.compared += st.compared;
                        for (k, v) in st.outcomes {
                            *t.0.outcomes.entry(k).or_default() += v;
                        }
                        for s in st.samples {
                            if t.0.samples.len() < 40 && !t.0.samples.iter().any(|x| x.0 == s.0) {
                                t.0.samples.push(s);
                            }
                        }
                        t.1.extend(mm);
                    })
                    .expect("harness: thread");
            }
        });
        let (mut st, mut mm) = total.into_inner().unwrap();
        st.capped = capped.load(Ordering::SeqCst);
        st.wall = t0.elapsed().as_secs_f64();
        eprintln!(
            "{} {name}: bound={} runs={} distinct={} compared={} outcomes={} mismatches={} {:.1}s{}",
            self.property,
            bound,
            st.runs,
            st.distinct,
            st.compared,
            st.outcomes.len(),
            mm.len(),
            st.wall,
            if st.capped { " CAPPED" } else { "" }
        );
        mm.sort_by(|a, b| (a.case.len(), &a.case).cmp(&(b.case.len(), &b.case)));
        self.spaces.push(st);
        self.mismatches.extend(mm);
    }
}

fn exec_one(f: &(impl Fn(&mut Ch, &mut Run) + Sync), mut ch: Ch, shared: Option<&Shared>) -> (Run, Ch) {
    let mut run = Run { dup_check: shared.map(|s| s as *const Shared), ..Default::default() };
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut ch, &mut run)));
    CUR.with(|c| c.set((std::ptr::null(), 0)));
    if r.is_err() {
        let p = last_panic();
        run.fails.push(format!("panic: {p}"));
    }
    (run, ch)
}
