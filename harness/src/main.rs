//! Replay and stand-in harness: runs the real library against an independent
//! implementation of the format. `kdbx-harness PROPERTY SEED quick|thorough [CASE]`
mod model;
mod p_arch;
mod p_db;
#[cfg(kdbx_verif)]
mod p_stream;
mod p_xml;
mod refk;

use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Job = (String, Box<dyn Fn() -> Result<(), String> + Send + Sync>);

pub struct Jobs {
    pub v: Vec<Job>,
    pub seed: u64,
    pub thorough: bool,
}
impl Jobs {
    pub fn add(&mut self, name: impl Into<String>, f: impl Fn() -> Result<(), String> + Send + Sync + 'static) {
        self.v.push((name.into(), Box::new(f)));
    }
    /// number of random cases
    pub fn n(&self, quick: usize) -> u64 {
        (if self.thorough { quick * 6 } else { quick }) as u64
    }
}

thread_local!(static WHERE: RefCell<String> = RefCell::new(String::new()));
// the case a thread is running and whether it has compared anything yet
thread_local!(static CASE: RefCell<(String, bool)> = RefCell::new((String::new(), false)));
static EVALS: AtomicUsize = AtomicUsize::new(0);
static SEEN: Mutex<BTreeSet<u64>> = Mutex::new(BTreeSet::new());

/// one comparison of an answer of the library; `on` is what it was asked about,
/// or nothing where the question is only named
pub fn evaluated(what: &str, on: &[u8]) {
    EVALS.fetch_add(1, Ordering::Relaxed);
    CASE.with(|c| c.borrow_mut().1 = true);
    let mut h = DefaultHasher::new();
    what.hash(&mut h);
    if on.is_empty() {
        CASE.with(|c| c.borrow().0.hash(&mut h));
    } else {
        on.hash(&mut h);
    }
    SEEN.lock().unwrap().insert(h.finish());
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: kdbx-harness PROPERTY SEED quick|thorough [CASE]");
        std::process::exit(3);
    }
    let mut j = Jobs { v: vec![], seed: a[2].parse().unwrap_or(1), thorough: a[3] == "thorough" };
    p_arch::jobs(&a[1], &mut j);
    p_xml::jobs(&a[1], &mut j);
    p_db::jobs(&a[1], &mut j);
    #[cfg(kdbx_verif)]
    match &a[1][..] {
        "C02" => p_stream::c02(&mut j),
        "C10" => p_stream::c10(&mut j),
        "C11" => p_stream::c11(&mut j),
        "C21" => p_stream::c21(&mut j),
        _ => {}
    }
    if let Some(only) = a.get(4) {
        j.v.retain(|x| x.0 == *only);
    }
    if j.v.is_empty() {
        eprintln!("no cases for {}", a[1]);
        std::process::exit(3);
    }
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or(i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        WHERE.with(|w| *w.borrow_mut() = format!("panic at {}: {}", l, m));
    }));
    let next = AtomicUsize::new(0);
    let fails: Mutex<Vec<(usize, String, String)>> = Mutex::new(vec![]);
    let done = AtomicUsize::new(0);
    let running: Mutex<Vec<Option<(usize, Instant)>>> = Mutex::new(vec![None; 8]);
    let v = &j.v;
    let names: Vec<String> = v.iter().map(|x| x.0.clone()).collect();
    for k in 0..5.min(names.len()) {
        println!("SAMPLE {}", names[k * (names.len() - 1) / 4.max(1)]);
    }
    let finish = |fails: Vec<(usize, String, String)>, done: usize| -> ! {
        let mut f = fails;
        f.sort();
        for (_, n, m) in f.iter().take(5) {
            println!("FAIL {} :: {}", n, m.replace('\n', "\\n"));
        }
        println!("EVALUATED {} DISTINCT {}", EVALS.load(Ordering::SeqCst), SEEN.lock().unwrap().len());
        println!("CASES {} FAILED {}", done, f.len());
        std::process::exit(if f.is_empty() { 0 } else { 1 });
    };
    std::thread::scope(|s| {
        for t in 0..8 {
            let (next, fails, done, running) = (&next, &fails, &done, &running);
            // deep recursion in the code under test must not end the process early
            let _ = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= v.len() || fails.lock().unwrap().len() >= 20 {
                    running.lock().unwrap()[t] = None;
                    return;
                }
                running.lock().unwrap()[t] = Some((i, Instant::now()));
                CASE.with(|c| *c.borrow_mut() = (v[i].0.clone(), false));
                let r = catch_unwind(AssertUnwindSafe(|| (v[i].1)()));
                let r = match r {
                    Ok(r) => r,
                    Err(_) => Err(WHERE.with(|w| w.borrow().clone())),
                };
                let took = running.lock().unwrap()[t].map(|x| x.1.elapsed()).unwrap_or_default();
                if took > Duration::from_secs(5) {
                    eprintln!("slow: {} took {:?}", v[i].0, took);
                }
                if let Err(m) = r {
                    fails.lock().unwrap().push((i, v[i].0.clone(), m));
                }
                if !CASE.with(|c| c.borrow().1) {
                    evaluated("finished", &[]);
                }
                done.fetch_add(1, Ordering::SeqCst);
            });
        }
        // a case that does not come back is a failure of that case
        loop {
            std::thread::sleep(Duration::from_millis(20));
            let run = running.lock().unwrap().clone();
            if run.iter().all(|r| r.is_none()) && next.load(Ordering::SeqCst) >= v.len().min(1) {
                if next.load(Ordering::SeqCst) >= v.len() || fails.lock().unwrap().len() >= 20 {
                    break;
                }
            }
            for r in run.iter().flatten() {
                if r.1.elapsed() > Duration::from_secs(150) {
                    let mut f = fails.lock().unwrap().clone();
                    f.push((r.0, v[r.0].0.clone(), "did not finish within 150 s".into()));
                    finish(f, done.load(Ordering::SeqCst));
                }
            }
        }
    });
    let f = fails.lock().unwrap().clone();
    finish(f, done.load(Ordering::SeqCst));
}
