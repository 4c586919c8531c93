//! The element: reads and writes of it are marked for loom's happens-before check, and it records its own life.
use archery::verif::Mark;
use std::cell::RefCell;

#[derive(Default)]
struct Reg {
    alive: Vec<bool>,
    live: i64,
    error: Option<String>,
}
std::thread_local! { static REG: RefCell<Reg> = RefCell::new(Reg::default()); }

pub fn reset() {
    REG.with(|r| *r.borrow_mut() = Reg::default());
}
pub fn live() -> i64 {
    REG.with(|r| r.borrow().live)
}
pub fn error() -> Option<String> {
    REG.with(|r| r.borrow().error.clone())
}
/// The first thing that goes wrong in an execution.
pub fn fail(what: String) {
    REG.with(|r| {
        let e = &mut r.borrow_mut().error;
        if e.is_none() {
            *e = Some(what)
        }
    })
}

const MAGIC: u32 = 0x51ab_70c3;

pub struct E {
    magic: u32,
    id: u32,
    mark: Mark,
    val: u32,
}

impl E {
    pub fn new(val: u32) -> E {
        let id = REG.with(|r| {
            let mut r = r.borrow_mut();
            r.alive.push(true);
            r.live += 1;
            r.alive.len() as u32 - 1
        });
        E { magic: MAGIC, id, mark: Mark::new(), val }
    }
    fn check(&self, what: &str) {
        let ok = self.magic == MAGIC && REG.with(|r| r.borrow().alive.get(self.id as usize).copied().unwrap_or(false));
        if !ok {
            fail(format!("{what} of something that is not a live element"));
            panic!("{what} of something that is not a live element");
        }
    }
    pub fn get(&self) -> u32 {
        self.check("read");
        self.mark.read("an element is read while another thread writes it");
        self.val
    }
    pub fn set(&mut self, v: u32) {
        self.check("write");
        self.mark.write("an element is written while another thread uses it");
        self.val = v
    }
}
impl Clone for E {
    fn clone(&self) -> E {
        archery::verif::step();
        E::new(self.get())
    }
}
impl Drop for E {
    fn drop(&mut self) {
        let ok = self.magic == MAGIC && REG.with(|r| r.borrow().alive.get(self.id as usize).copied().unwrap_or(false));
        if !ok {
            fail("drop of something that is not a live element".into());
            return;
        }
        self.mark.write("an element is dropped while another thread uses it");
        self.magic = 0;
        REG.with(|r| {
            let mut r = r.borrow_mut();
            r.alive[self.id as usize] = false;
            r.live -= 1
        })
    }
}
impl std::fmt::Debug for E {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.get())
    }
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        archery::verif::step();
        self.get() == o.get()
    }
}
impl Eq for E {}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for E {
    fn cmp(&self, o: &E) -> std::cmp::Ordering {
        archery::verif::step();
        self.get().cmp(&o.get())
    }
}
impl std::hash::Hash for E {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.get().hash(h)
    }
}
