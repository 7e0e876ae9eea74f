//! A global allocator that can look, on the current thread, at the memory being released.
//! Inside `watch` every block given back is searched for the secret before it goes; `track` lists
//! the live blocks allocated since, so that the places that hold a secret are known beforehand.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct Spy;
const MAX: usize = 4096;
struct State {
    tracked: [(usize, usize); MAX],
    n: usize,
    secret: [u8; 64],
    secret_len: usize,
    /// places where a live block holds the whole secret
    places: [(usize, usize); 64],
    places_n: usize,
    /// worst find
    found: Option<Found>,
    blocks: usize,
    bytes: usize,
    held: usize,
    freed: [usize; 256],
    freed_n: usize,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Found {
    pub block_size: usize,
    pub offset: usize,
    /// bytes of the secret still there
    pub left: usize,
}
thread_local! {
    static TRACKING: Cell<bool> = const { Cell::new(false) };
    static WATCHING: Cell<bool> = const { Cell::new(false) };
    static STATE: UnsafeCell<State> = const { UnsafeCell::new(State {
        tracked: [(0, 0); MAX], n: 0, secret: [0; 64], secret_len: 0, places: [(0, 0); 64], places_n: 0, found: None, blocks: 0, bytes: 0, held: 0, freed: [0; 256], freed_n: 0,
    }) };
}
fn state<T>(f: impl FnOnce(&mut State) -> T) -> Option<T> {
    // never entered again: nothing inside allocates
    STATE.try_with(|s| f(unsafe { &mut *s.get() })).ok()
}
fn on(flag: &'static std::thread::LocalKey<Cell<bool>>) -> bool {
    flag.try_with(|f| f.get()).unwrap_or(false)
}
/// shortest run of secret bytes that counts when it is found at an unexpected place
const RUN: usize = 6;
impl State {
    fn release(&mut self, ptr: usize, size: usize) {
        self.blocks += 1;
        self.bytes += size;
        if self.freed_n < 256 {
            self.freed[self.freed_n] = ptr;
            self.freed_n += 1;
        }
        let block = unsafe { std::slice::from_raw_parts(ptr as *const u8, size) };
        let secret = &self.secret[..self.secret_len];
        let mut worst = self.found;
        let mut note = |offset: usize, left: usize| {
            if worst.map_or(true, |w| left > w.left) {
                worst = Some(Found { block_size: size, offset, left });
            }
        };
        for (at, off) in self.places[..self.places_n].iter() {
            if *at == ptr {
                self.held += 1;
                let here = &block[*off..*off + secret.len()];
                let same = here.iter().zip(secret).filter(|(a, b)| a == b && **b != 0).count();
                let wiped = here.iter().zip(secret).all(|(a, b)| a == b || *a == 0);
                let mut run = 0;
                let mut longest = 0;
                for (a, b) in here.iter().zip(secret) {
                    run = if a == b && *b != 0 { run + 1 } else { 0 };
                    longest = longest.max(run);
                }
                // zeroed except for some bytes, or overwritten by something else except for a stretch
                if same > 0 && (wiped || longest >= 3) {
                    note(*off, same);
                }
            }
        }
        if secret.len() >= RUN && size >= RUN {
            for i in 0..=size - RUN {
                for j in 0..=secret.len() - RUN {
                    if block[i] == secret[j] && block[i..i + RUN] == secret[j..j + RUN] {
                        let n = block[i..].iter().zip(&secret[j..]).take_while(|(a, b)| a == b).count();
                        note(i, n);
                    }
                }
            }
        }
        self.found = worst;
    }
}
unsafe impl GlobalAlloc for Spy {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if on(&TRACKING) {
            state(|s| {
                if s.n < MAX {
                    s.tracked[s.n] = (p as usize, l.size());
                    s.n += 1;
                }
            });
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if on(&TRACKING) {
            state(|s| {
                if s.n < MAX {
                    s.tracked[s.n] = (p as usize, l.size());
                    s.n += 1;
                }
            });
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if on(&WATCHING) {
            state(|s| s.release(p as usize, l.size()));
        }
        if on(&TRACKING) {
            state(|s| {
                if let Some(i) = s.tracked[..s.n].iter().position(|(q, _)| *q == p as usize) {
                    s.n -= 1;
                    s.tracked[i] = s.tracked[s.n];
                }
            });
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        if on(&WATCHING) || on(&TRACKING) {
            let new = self.alloc(Layout::from_size_align_unchecked(size, l.align()));
            if !new.is_null() {
                std::ptr::copy_nonoverlapping(p, new, l.size().min(size));
                self.dealloc(p, l);
            }
            new
        } else {
            System.realloc(p, l, size)
        }
    }
}
/// starts listing the blocks this thread allocates
pub fn track() {
    state(|s| s.n = 0);
    TRACKING.with(|t| t.set(true));
}
pub fn untrack() {
    TRACKING.with(|t| t.set(false));
    state(|s| s.n = 0);
}
fn tracked() -> Vec<(usize, usize)> {
    let mut v = Vec::with_capacity(MAX);
    state(|s| v.extend_from_slice(&s.tracked[..s.n]));
    v
}
pub struct Report {
    pub found: Option<Found>,
    /// blocks released, their bytes, and how many of them held the secret before
    pub blocks: usize,
    pub bytes: usize,
    pub held: usize,
    freed: Vec<usize>,
}
/// `live` are the blocks to search beforehand
/// (None: those tracked by this thread).
fn watch_with<T>(x: T, secret: &[u8], live: Option<&[(usize, usize)]>) -> Report {
    state(|s| {
        s.secret_len = secret.len().min(64);
        s.secret[..s.secret_len].copy_from_slice(&secret[..s.secret_len]);
        s.found = None;
        (s.blocks, s.bytes, s.held, s.places_n, s.freed_n) = (0, 0, 0, 0, 0);
        let n = live.map_or(s.n, |l| l.len());
        for i in 0..n {
            let (p, size) = live.map_or(s.tracked[i], |l| l[i]);
            if size >= secret.len() && !secret.is_empty() {
                let block = unsafe { std::slice::from_raw_parts(p as *const u8, size) };
                for off in 0..=size - secret.len() {
                    if block[off..off + secret.len()] == *secret && s.places_n < 64 {
                        s.places[s.places_n] = (p, off);
                        s.places_n += 1;
                    }
                }
            }
        }
    });
    WATCHING.with(|w| w.set(true));
    drop(x);
    WATCHING.with(|w| w.set(false));
    let mut freed = Vec::with_capacity(256);
    state(|s| {
        freed.extend_from_slice(&s.freed[..s.freed_n]);
        Report { found: s.found, blocks: s.blocks, bytes: s.bytes, held: s.held, freed }
    })
    .unwrap()
}
/// Drops `x` while watching for `secret` in what is released.
pub fn watch<T>(x: T, secret: &[u8]) -> Report {
    watch_with(x, secret, None)
}
/// The same with the drop on another thread.
pub fn watch_elsewhere<T: Send + 'static>(x: T, secret: &[u8]) -> Option<Report> {
    // what is allocated here for the thread is released there: not for the list
    let was = TRACKING.with(|t| t.replace(false));
    let live = tracked();
    let s = secret.to_vec();
    let r = std::thread::spawn(move || watch_with(x, &s, Some(&live))).join().ok();
    if let Some(r) = &r {
        state(|s| {
            for p in &r.freed {
                if let Some(i) = s.tracked[..s.n].iter().position(|(q, _)| q == p) {
                    s.n -= 1;
                    s.tracked[i] = s.tracked[s.n];
                }
            }
        });
    }
    TRACKING.with(|t| t.set(was));
    r
}
