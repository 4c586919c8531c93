//! The element type of (almost) every exploration: it records its own life in a thread-local registry, so that a
//! double drop, a drop of memory that never held an element, a use after drop and a leak are all visible, and it can
//! panic at a chosen callback.
use std::borrow::Borrow;
use std::cell::UnsafeCell;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

pub struct Reg {
    alive: Vec<u64>, // per slot: id<<1|1 while alive, 0 after the drop
    pub live: i64,
    pub clones: u64,
    pub callbacks: u64,
    pub fuse: u64, // 0 = off, k = panic at the k-th callback from now
    pub blew: bool,
    pub drops: u64,
    pub drop_fuse: u64, // panic in the k-th destructor from now
    pub error: Option<String>,
    epoch: u32,
}

thread_local! {
    static REG: UnsafeCell<Reg> = UnsafeCell::new(Reg{alive:Vec::new(),live:0,clones:0,callbacks:0,fuse:0,blew:false,drops:0,drop_fuse:0,error:None,epoch:1});
}

impl Reg {
    /// Makes room, so that the registry itself does not allocate during a case whose memory is accounted.
    pub fn reserve(&mut self) {
        let want = (2 * self.alive.len()).max(1 << 20);
        self.alive.reserve(want.saturating_sub(self.alive.len()));
    }
}

pub fn reg<R>(f: impl FnOnce(&mut Reg) -> R) -> R {
    REG.with(|r| f(unsafe { &mut *r.get() }))
}

/// Starts a new case: forgets everything about elements made before (they must not be touched any more).
pub fn reset() {
    reg(|r| {
        r.alive.clear();
        r.live = 0;
        r.clones = 0;
        r.callbacks = 0;
        r.fuse = 0;
        r.drop_fuse = 0;
        r.drops = 0;
        r.blew = false;
        r.error = None;
        r.epoch = r.epoch.wrapping_add(1).max(1);
    })
}

pub fn set_fuse(k: u64) {
    reg(|r| {
        r.fuse = k;
        r.blew = false
    })
}

pub fn take_error() -> Option<String> {
    reg(|r| r.error.take())
}

pub const BOOM: &str = "injected panic";

pub fn tick() {
    let boom = reg(|r| {
        r.callbacks += 1;
        if r.fuse > 0 {
            r.fuse -= 1;
            if r.fuse == 0 {
                r.blew = true;
                return true;
            }
        }
        false
    });
    if boom {
        panic!("{}", BOOM);
    }
}

const MAGIC: u32 = 0x70c3_51ab;

pub struct Tok {
    magic: u32,
    epoch: u32,
    pub val: u32,
    id: u32,
    slot: u32,
}

fn note(r: &mut Reg, what: String) {
    if r.error.is_none() {
        r.error = Some(what);
    }
}

impl Tok {
    pub fn new(id: u32, val: u32) -> Tok {
        reg(|r| {
            let slot = r.alive.len() as u32;
            r.alive.push((id as u64) << 1 | 1);
            r.live += 1;
            Tok { magic: MAGIC, epoch: r.epoch, val, id, slot }
        })
    }

    fn check(&self, doing: &str) {
        let ok = self.magic == MAGIC;
        reg(|r| {
            if !ok {
                note(r, format!("{} of memory that holds no element", doing));
            } else if self.epoch != r.epoch {
                note(r, format!("{} of an element that outlived its case", doing));
            } else if r.alive.get(self.slot as usize).copied() != Some((self.id as u64) << 1 | 1) {
                note(r, format!("{} of element {} after it was dropped", doing, self.id));
            }
        })
    }

    pub fn id(&self) -> u32 {
        self.check("read");
        self.id
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        self.check("drop");
        if self.magic == MAGIC {
            reg(|r| {
                if self.epoch == r.epoch {
                    if let Some(a) = r.alive.get_mut(self.slot as usize) {
                        if *a != 0 {
                            *a = 0;
                            r.live -= 1;
                        }
                    }
                }
            });
            let boom = reg(|r| {
                r.drops += 1;
                if r.drop_fuse > 0 {
                    r.drop_fuse -= 1;
                    // a second panic while one unwinds would end the process, whatever the library does
                    if r.drop_fuse == 0 && !std::thread::panicking() {
                        r.blew = true;
                        return true;
                    }
                }
                false
            });
            if boom {
                panic!("{}", BOOM);
            }
        }
    }
}

impl Clone for Tok {
    fn clone(&self) -> Tok {
        self.check("clone");
        tick();
        let t = Tok::new(self.id, self.val);
        reg(|r| r.clones += 1);
        t
    }
}

impl std::fmt::Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("x")
    }
}

impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.check("comparison");
        o.check("comparison");
        tick();
        self.val == o.val
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Tok) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Tok) -> Ordering {
        self.check("comparison");
        o.check("comparison");
        tick();
        self.val.cmp(&o.val)
    }
}
impl Hash for Tok {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.check("hashing");
        tick();
        self.val.hash(h)
    }
}
impl Borrow<u32> for Tok {
    fn borrow(&self) -> &u32 {
        self.check("borrow");
        &self.val
    }
}
