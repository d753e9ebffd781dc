//! A small property runner for checks over tapes, with shrinking.
use crate::tape::{mix, Tape};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub enum Out {
    /// the property held; was the case non-trivial, and a hash to tell cases apart
    Ok(bool, u64),
    Bad(String),
}

#[derive(Default, Clone)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: std::collections::HashSet<u64>,
    pub samples: Vec<String>,
    pub by: std::collections::BTreeMap<String, u64>,
}

impl Stats {
    pub fn count(&mut self, k: &str) {
        *self.by.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial.extend(o.nontrivial);
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
        for (k, v) in o.by {
            *self.by.entry(k).or_insert(0) += v;
        }
    }
}

pub struct Failure {
    pub group: String,
    pub tape: Vec<u32>,
    pub msg: String,
    /// the run that found it: its seed, and how many cases it took
    pub seed: u64,
    pub n: u64,
}

/// What each thread is doing: since when, in which group, on a tape made from a seed or a given one
pub struct Doing {
    pub since: std::time::Instant,
    pub group: String,
    pub seed: Option<u64>,
    pub tape: Vec<u32>,
}

pub type Slot = std::sync::Arc<std::sync::Mutex<Option<Doing>>>;

pub static SLOTS: std::sync::Mutex<Vec<Slot>> = std::sync::Mutex::new(vec![]);

std::thread_local! {
    static SLOT: Slot = {
        let s = Slot::default();
        SLOTS.lock().unwrap().push(s.clone());
        s
    };
}

fn doing(group: &str, seed: Option<u64>, tape: &[u32]) {
    SLOT.with(|s| {
        let mut s = s.lock().unwrap();
        match &mut *s {
            Some(d) if d.group == group => {
                d.since = std::time::Instant::now();
                d.seed = seed;
                d.tape.clear();
                d.tape.extend_from_slice(tape);
            }
            s => *s = Some(Doing { since: std::time::Instant::now(), group: group.into(), seed, tape: tape.to_vec() }),
        }
    })
}

fn done() {
    SLOT.with(|s| *s.lock().unwrap() = None)
}

/// A case that takes longer than this, as group, tape and time
pub fn stuck(secs: u64) -> Option<(String, Vec<u32>)> {
    for s in SLOTS.lock().unwrap().iter() {
        if let Some(d) = &*s.lock().unwrap() {
            if d.since.elapsed().as_secs() >= secs {
                let tape = match d.seed {
                    Some(seed) => {
                        let mut t = Tape::random(seed);
                        (0..3000).map(|_| t.draw()).collect()
                    }
                    None => d.tape.clone(),
                };
                return Some((d.group.clone(), tape));
            }
        }
    }
    None
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// One case. The property draws from the tape and describes the case in the string.
pub type Prop = fn(&mut Tape, &mut String) -> Out;

fn eval(f: Prop, t: &mut Tape, d: &mut String) -> Out {
    match catch_unwind(AssertUnwindSafe(|| f(t, d))) {
        Ok(o) => o,
        Err(p) => Out::Bad(format!("panicked: {}", panic_text(p))),
    }
}

pub fn replay(f: Prop, tape: &[u32]) -> (Option<String>, String) {
    let mut t = Tape::replay(tape);
    let mut d = String::new();
    match eval(f, &mut t, &mut d) {
        Out::Bad(m) => (Some(m), d),
        Out::Ok(..) => (None, d),
    }
}

pub fn shrink(tape: &[u32], bad: &mut dyn FnMut(&[u32]) -> bool, budget: usize) -> Vec<u32> {
    let mut cur = tape.to_vec();
    let mut left = budget;
    let mut progress = true;
    while progress && left > 0 {
        progress = false;
        let mut n = (cur.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < cur.len() && left > 0 {
                let mut c = cur.clone();
                c.drain(i..(i + n).min(c.len()));
                left -= 1;
                if bad(&c) {
                    cur = c;
                    progress = true;
                } else {
                    i += n;
                }
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
        for i in 0..cur.len() {
            for k in 0..6 {
                if left == 0 || cur[i] == 0 {
                    break;
                }
                let v = match k {
                    0 => 0,
                    1 => cur[i] / 2,
                    2 => cur[i] & 0xff00_0000,
                    3 => cur[i] - cur[i].min(1 << 24),
                    4 => cur[i] - cur[i].min(1 << 16),
                    _ => cur[i] - 1,
                };
                if v == cur[i] {
                    continue;
                }
                let mut c = cur.clone();
                c[i] = v;
                left -= 1;
                if bad(&c) {
                    cur = c;
                    progress = true;
                    if k == 0 {
                        break;
                    }
                }
            }
        }
    }
    cur
}

/// Runs a property; stops at the first failure
pub fn run(group: &str, f: Prop, n: u64, seed: u64, st: &mut Stats) -> Option<Failure> {
    let mut gseed = seed;
    for b in group.bytes() {
        gseed = mix(gseed, b as u64);
    }
    for i in 0..n {
        doing(group, Some(mix(gseed, i)), &[]);
        let mut t = Tape::random(mix(gseed, i));
        let mut d = String::new();
        let o = eval(f, &mut t, &mut d);
        st.evaluations += 1;
        match o {
            Out::Ok(nt, h) => {
                if nt {
                    let fresh = st.nontrivial.insert(mix(gseed, h));
                    if fresh {
                        st.count(group);
                        if st.by[group] <= 2 && st.samples.len() < 24 {
                            st.samples.push(format!("{}: {}", group, d));
                        }
                    }
                }
            }
            Out::Bad(first) => {
                let first = format!("{}\n{}", first, d);
                let tape = t.used().to_vec();
                let mut still = |c: &[u32]| {
                    doing(group, None, c);
                    replay(f, c).0.is_some()
                };
                let small = shrink(&tape, &mut still, 3000);
                let small = if still(&small) { small } else { tape };
                let (m, d) = replay(f, &small);
                done();
                return Some(Failure {
                    group: group.into(),
                    tape: small,
                    // what depends on earlier cases may be gone by now
                    msg: m.map_or_else(|| format!("{}\n(only after other cases)", first), |m| format!("{}\n{}", m, d)),
                    seed,
                    n: i + 1,
                });
            }
        }
    }
    done();
    None
}
