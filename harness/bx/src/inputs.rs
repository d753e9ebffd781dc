//! Inputs for a program, from a tape.
use crate::ir::*;
use crate::model::{self, Opts};
use crate::tape::Tape;

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub data: Vec<u8>,
    /// the reader has a hole of zeroes before the data
    pub base: u64,
    pub pos: u64,
    pub opts: Opts,
}

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    /// largest input
    pub max: u64,
    pub base: bool,
    pub hostile: u32,
    /// percent of inputs made of mostly right values
    pub clean: u32,
    pub mutate: u32,
}

impl Cfg {
    pub fn get(id: &str) -> Cfg {
        let d = Cfg { max: 400, base: true, hostile: 6, clean: 70, mutate: 45 };
        match id {
            "C18" => Cfg { hostile: 60, ..d },
            "C04" => Cfg { max: 64, mutate: 25, ..d },
            "C20" => Cfg { max: 64, mutate: 12, clean: 88, ..d },
            "C19" => Cfg { max: 200, mutate: 25, clean: 85, ..d },
            "C16" | "C14" | "C12" | "C05" => Cfg { clean: 85, mutate: 25, ..d },
            "C26" | "C31" => Cfg { max: 120, mutate: 25, clean: 85, ..d },
            _ => d,
        }
    }
}

pub fn opts(p: &Program, t: &mut Tape) -> Opts {
    let root = &p.types[p.root()];
    Opts {
        e: t.below(3) as u8,
        count: if t.pct(20) { Some(t.below(7)) } else { None },
        off: if t.pct(15) { t.below(12) } else { 0 },
        args: root
            .imports
            .tys()
            .iter()
            .map(|q| {
                let v = match t.weighted(&[50, 20, 15, 15]) {
                    0 => t.below(6),
                    1 => t.below(256),
                    2 => t.u64(),
                    _ => u64::MAX - t.below(3),
                };
                q.as_u64(v as u128 & q.mask())
            })
            .collect(),
    }
}

pub fn make(p: &Program, t: &mut Tape, c: &Cfg) -> Case {
    let mut opts = opts(p, t);
    let base = if !c.base { 0 } else {
        match t.weighted(&[80, 12, 3, 3, 2]) {
            0 => 0,
            1 => 1 + t.below(40),
            2 => (1 << 31) - 3,
            3 => (1u64 << 32) - 5,
            _ => 1 << 40,
        }
    };
    if base > 0 && t.bool() {
        opts.off = base + t.below(12);
    }
    let prefix = if t.pct(30) { t.below(8) + 1 } else { 0 };
    let len = match t.weighted(&[10, 45, 33, 12]) {
        0 => t.below(9),
        1 => t.range(8, 40),
        2 => t.range(40, 96),
        _ => t.range(96, c.max.max(97)),
    }
    .min(c.max) + prefix;
    let clean = if t.pct(c.clean) { 92 } else { 45 };
    let hostile = t.pct(c.hostile);
    let pos = base + prefix;
    let mut data = model::fill(p, len as usize, base, pos, &opts, t, clean, hostile);
    if t.pct(c.mutate) && !data.is_empty() {
        match t.weighted(&[40, 40, 20, if hostile { 30 } else { 4 }]) {
            0 => {
                let n = t.below(data.len() as u64 + 1) as usize;
                data.truncate(n);
            }
            1 => {
                for _ in 0..1 + t.below(3) {
                    let i = t.below(data.len() as u64) as usize;
                    data[i] ^= 1 << t.below(8);
                }
            }
            2 => {
                let i = t.below(data.len() as u64) as usize;
                let n = t.below(6) as usize + 1;
                if t.bool() {
                    let m = n.min(data.len() - i);
                    data.drain(i..i + m);
                } else {
                    for k in 0..n {
                        let b = t.byte();
                        data.insert(i + k.min(0), b);
                    }
                }
            }
            _ => {
                let i = t.below(data.len() as u64) as usize;
                let n = (t.below(9) as usize + 1).min(data.len() - i);
                let b = *t.pick(&[0xff, 0x7f, 0x80]);
                data[i] = b;
                for k in 1..n {
                    data[i + k] = 0xff;
                }
            }
        }
    }
    Case { data, base, pos, opts }
}
