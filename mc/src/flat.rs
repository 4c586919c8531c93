//! Parts that enumerate a flat list of cases (used by the ring buffer and size table checks).
use crate::engine::*;
use crate::{Part, ReplayF, RunF};

pub fn flat<C: Sync + Send + 'static>(name: &str, bound: &str, cases: fn() -> Vec<C>, text: fn(&C) -> String, visit: fn(&C, &mut Stats) -> Res) -> Part {
    let name = format!("{} w{}", name, librrb::RRB_WIDTH);
    let bound = format!("{name}: {bound}");
    let run: RunF = Box::new(move |st| {
        let cs = cases();
        let (s, v) = each_n(cs.len(), &|i| text(&cs[i]), &|i, st| visit(&cs[i], st));
        st.states += cs.len() as u64;
        st.merge(s);
        st.bounds.push(format!("{bound}; {} states", cs.len()));
        for i in [0, cs.len() / 2, cs.len().saturating_sub(1)] {
            if i < cs.len() {
                st.sample(|| text(&cs[i]));
            }
        }
        v
    });
    let replay: ReplayF = Box::new(move |case| {
        let mut st = Stats::default();
        for c in cases() {
            if text(&c) == case {
                crate::tok::reset();
                return guard(|| visit(&c, &mut st)).and_then(|r| r);
            }
        }
        Err(format!("no such case {case}"))
    });
    Part { name, run, replay }
}

pub fn q<T>(a: T, b: T) -> T {
    if thorough() {
        b
    } else {
        a
    }
}
