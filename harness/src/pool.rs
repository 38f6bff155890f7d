//! Jobs on all cores, each with its own random stream, so that results do not depend on
//! scheduling; and a watchdog over the calls they make.

use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

type Slot = Arc<Mutex<(Option<Instant>, String)>>;
static SLOTS: Mutex<Vec<Slot>> = Mutex::new(Vec::new());
thread_local!(static MINE: RefCell<Option<Slot>> = const { RefCell::new(None) });

/// No call of the library takes anywhere near this long.
const HUNG: Duration = Duration::from_secs(150);

/// Says which call this thread is about to make.
pub fn calling(what: &str, arg: &str) {
    MINE.with(|m| {
        let mut m = m.borrow_mut();
        let s = m.get_or_insert_with(|| {
            let s: Slot = Arc::new(Mutex::new((None, String::new())));
            SLOTS.lock().unwrap().push(s.clone());
            s
        });
        let mut g = s.lock().unwrap();
        g.0 = Some(Instant::now());
        g.1.clear();
        g.1.push_str(what);
        g.1.push(' ');
        g.1.push_str(if arg.len() > 4000 { "(a long string)" } else { arg });
    });
}
pub fn called() {
    MINE.with(|m| {
        if let Some(s) = &*m.borrow() {
            s.lock().unwrap().0 = None;
        }
    });
}

/// Ends the process (exit code 7) when a call does not come back.
pub fn watch(out: String) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(2));
        for s in SLOTS.lock().unwrap().iter() {
            let g = s.lock().unwrap();
            if g.0.map(|t| t.elapsed() > HUNG).unwrap_or(false) {
                let _ = std::fs::write(format!("{}/hung.txt", out), format!("this call did not return: {:?}\n", g.1));
                std::process::exit(7);
            }
        }
    });
}

pub type Job<'a, A> = Box<dyn Fn(&mut A) + Send + Sync + 'a>;

/// Runs the jobs; every job gets a fresh accumulator, returned in the order of the jobs.
pub fn run<A: Default + Send>(jobs: Vec<Job<A>>) -> Vec<A> {
    let n = jobs.len();
    let next = AtomicUsize::new(0);
    let done: Mutex<Vec<(usize, A)>> = Mutex::new(vec![]);
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(n.max(1));
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    break;
                }
                let mut a = A::default();
                jobs[i](&mut a);
                done.lock().unwrap().push((i, a));
            });
        }
    });
    let mut v = done.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}
