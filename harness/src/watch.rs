//! Notices a call into the code under test that does not return, or takes ever more memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static START: Mutex<Option<Instant>> = Mutex::new(None);
const SLOTS: usize = 64;
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicU64 = AtomicU64::new(0);
/// milliseconds since START + 1 at which the call of each thread began; 0: none
static SINCE: [AtomicU64; SLOTS] = [ZERO; SLOTS];
static WHAT: Mutex<Vec<String>> = Mutex::new(Vec::new());

thread_local! {
    static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// what the scenario of a thread holds, and the most any has held
#[allow(clippy::declare_interior_mutable_const)]
const NIL: Own = Own(AtomicI64::new(0));
static HELD: [Own; SLOTS] = [NIL; SLOTS];
/// on a cache line of its own
#[repr(align(128))]
struct Own(AtomicI64);
const MOST: i64 = 3 << 30;

struct Counting;
#[global_allocator]
static ALLOCATOR: Counting = Counting;

fn count(n: i64) {
    let _ = SLOT.try_with(|s| HELD[s.get()].0.fetch_add(n, Ordering::Relaxed));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// megabytes this thread holds now
pub fn held() -> i64 {
    HELD[SLOT.with(|s| s.get())].0.load(Ordering::Relaxed) >> 20
}

pub fn now_ms() -> u64 {
    let mut s = START.lock().unwrap_or_else(|e| e.into_inner());
    let t = *s.get_or_insert_with(Instant::now);
    t.elapsed().as_millis() as u64 + 1
}

pub fn register(slot: usize) {
    SLOT.with(|s| s.set(slot % SLOTS));
}

pub fn scenario(what: &str) {
    let slot = SLOT.with(|s| s.get());
    let mut w = WHAT.lock().unwrap_or_else(|e| e.into_inner());
    while w.len() < SLOTS {
        w.push(String::new());
    }
    w[slot] = what.to_owned();
}

static COARSE: AtomicU64 = AtomicU64::new(1);

pub fn enter() {
    SINCE[SLOT.with(|s| s.get())].store(COARSE.load(Ordering::Relaxed), Ordering::Relaxed);
}
pub fn leave() {
    SINCE[SLOT.with(|s| s.get())].store(0, Ordering::Relaxed);
}

/// Calls `stuck` with the scenario and the reason once a call has taken longer than `limit`, or
/// holds more memory than any scenario has use for.
pub fn start(limit: Duration, stuck: impl Fn(String, String) + Send + 'static) {
    std::thread::spawn(move || {
        register(SLOTS - 1);
        loop {
            std::thread::sleep(Duration::from_millis(50));
            let now = now_ms();
            COARSE.store(now, Ordering::Relaxed);
            for (i, s) in SINCE.iter().enumerate() {
                let t = s.load(Ordering::Relaxed);
                let why = if t != 0 && now.saturating_sub(t) > limit.as_millis() as u64 {
                    format!("a call did not return within {} s", limit.as_secs())
                } else if t != 0 && HELD[i].0.load(Ordering::Relaxed) > MOST {
                    format!("a call took more than {} GB of memory", MOST >> 30)
                } else {
                    continue;
                };
                let w = WHAT.lock().unwrap_or_else(|e| e.into_inner());
                stuck(w.get(i).cloned().unwrap_or_default(), why);
            }
        }
    });
}
