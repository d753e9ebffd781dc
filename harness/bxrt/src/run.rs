//! Runs generated programs on generated inputs and compares them with the model.
use crate::json;
use crate::mem;
use crate::obs::{err, ToVal};
use crate::reader::TestReader;
use binread::{BinRead, BinReaderExt, Endian, ReadOptions};
use bx::gen::{generate, Prof};
use bx::inputs::{make, Case, Cfg};
use bx::ir::*;
use bx::model::{self, Ev, Opts, Outcome, IO_KINDS};
use bx::prop::panic_text;
use bx::tape::{mix, Rng, Tape};
use bx::val::{er_eq, Er, V};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Call {
    pub opts: Opts,
    pub entry: u8,
}

pub struct Entry {
    pub id: u32,
    pub tape: &'static [u32],
    pub run: fn(&mut TestReader, &Call) -> Result<V, binread::Error>,
}

/// Where the number of the program and case is written before they are run
static PROGRESS: std::sync::Mutex<Option<std::fs::File>> = std::sync::Mutex::new(None);

fn note(p: u32, case: u64) {
    use std::os::unix::fs::FileExt;
    if let Some(f) = &*PROGRESS.lock().unwrap() {
        let _ = f.write_at(format!("{:10} {:20}\n", p, case).as_bytes(), 0);
    }
}

static USED: AtomicUsize = AtomicUsize::new(0);

pub fn root<T: BinRead + ToVal>(r: &mut TestReader, c: &Call, f: impl Fn(&[u64]) -> T::Args) -> Result<V, binread::Error> {
    let args = f(&c.opts.args);
    let end = match c.opts.e {
        0 => Endian::Big,
        1 => Endian::Little,
        _ => Endian::Native,
    };
    let m = mem::start();
    let x: Result<T, binread::Error> = match c.entry {
        1 => r.read_type_args(end, args),
        2 => match end {
            Endian::Big => r.read_be_args(args),
            Endian::Little => r.read_le_args(args),
            Endian::Native => r.read_ne_args(args),
        },
        3 => T::read_args(r, args),
        // without arguments
        5 => r.read_type(end),
        6 => match end {
            Endian::Big => r.read_be(),
            Endian::Little => r.read_le(),
            Endian::Native => r.read_ne(),
        },
        7 => T::read(r),
        _ => {
            let mut o = ReadOptions::default();
            o.endian = end;
            o.count = c.opts.count.map(|c| c as usize);
            o.offset = c.opts.off;
            T::read_options(r, &o, args)
        }
    };
    USED.store(mem::peak(m), Relaxed);
    x.map(|x| x.v())
}

pub enum Res {
    Done(Result<V, Er>),
    Panic(String),
}

pub struct Real {
    pub res: Res,
    pub r: TestReader,
    pub mem: usize,
}

pub fn real(en: &Entry, c: &Case, entry: u8, budget: u64, set: &dyn Fn(&mut TestReader)) -> Real {
    let mut r = TestReader::new(&c.data, c.base, c.pos);
    r.budget = budget;
    set(&mut r);
    real_on(en, &c.opts, entry, r)
}

fn real_on(en: &Entry, o: &Opts, entry: u8, mut r: TestReader) -> Real {
    let call = Call { opts: o.clone(), entry };
    let out = catch_unwind(AssertUnwindSafe(|| (en.run)(&mut r, &call)));
    let res = match out {
        Ok(Ok(v)) => Res::Done(Ok(v)),
        Ok(Err(e)) => Res::Done(Err(err(&e))),
        Err(p) => Res::Panic(panic_text(p)),
    };
    Real { res, r, mem: USED.load(Relaxed) }
}

fn show(r: &Result<V, Er>) -> String {
    format!("{:?}", r)
}

fn differs(m: &Outcome, r: &Real) -> Option<String> {
    match &r.res {
        Res::Panic(p) => Some(format!("expected {} at {}\n  but it panicked: {}", show(&m.res), m.pos, p)),
        Res::Done(x) => {
            let same = match (&m.res, x) {
                (Ok(a), Ok(b)) => a == b,
                (Err(a), Err(b)) => er_eq(a, b),
                _ => false,
            };
            if same && m.pos == r.r.pos {
                None
            } else {
                Some(format!("expected {} at {}\n  but got {} at {}", show(&m.res), m.pos, show(x), r.r.pos))
            }
        }
    }
}

fn budget(steps: u64) -> u64 {
    3000 + 200 * steps
}

pub struct Prog {
    pub prog: Program,
    pub recovers: bool,
    pub ends: bool,
}

fn ends(p: &Program) -> (bool, bool) {
    let mut rec = false;
    let mut end = false;
    let mut see = |f: &Field| {
        rec |= f.try_ || matches!(f.mode, Mode::Parse(Parser::UntilEof));
        end |= matches!(f.mode, Mode::Parse(Parser::UntilEof)) || matches!(f.seek_before, Some(SeekTo::End(..)));
    };
    for t in &p.types {
        match &t.kind {
            Kind::Struct(b) => b.fields.iter().for_each(&mut see),
            Kind::Data { variants, .. } => variants.iter().for_each(|v| v.body.fields.iter().for_each(&mut see)),
            _ => {}
        }
    }
    rec |= p.types.iter().any(|t| matches!(t.kind, Kind::Data { .. }));
    (rec, end)
}

#[derive(Default)]
pub struct Info {
    pub evals: u64,
    pub skipped: u64,
    pub nontrivial: u64,
    pub hashes: HashSet<u64>,
    pub events: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub extra: BTreeMap<String, u64>,
    pub max_mem: u64,
}

impl Info {
    fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.extra.entry(k.to_string()).or_insert(0) += n;
        }
    }
}

fn bit(e: Ev) -> u64 {
    1 << (e as u64)
}

/// Which runs count as non-trivial: any of these events
pub fn mask(id: &str) -> u64 {
    let l: &[Ev] = match id {
        "C02" => &[Ev::endian_override],
        "C03" => &[Ev::tuple, Ev::array, Ev::vec_items, Ev::multibyte],
        "C04" => &[Ev::nested_fail],
        "C05" => &[Ev::magic_bad, Ev::magic_ok],
        "C06" => &[Ev::assert_fail, Ev::pre_fail, Ev::assert_ok],
        "C07" => &[Ev::later_variant, Ev::all_variants_failed],
        "C08" => &[Ev::repr_ok, Ev::repr_bad, Ev::magic_enum_ok, Ev::magic_enum_bad],
        "C09" => &[Ev::pad, Ev::align, Ev::seek, Ev::pad_size, Ev::restore, Ev::bad_seek],
        "C10" => &[Ev::cond_false, Ev::computed, Ev::temp, Ev::cond_true],
        "C11" => &[Ev::try_none, Ev::try_some],
        "C12" => &[Ev::map, Ev::map_err],
        "C13" => &[Ev::args, Ev::obs],
        "C14" => &[Ev::ptr, Ev::hook, Ev::after_ptr_fail],
        "C15" => &[Ev::vec_items, Ev::helper_items, Ev::eof_list_end],
        "C16" => &[Ev::punct],
        "C17" => &[Ev::string],
        "C19" => &[Ev::multibyte, Ev::string, Ev::helper_items],
        "C20" => &[Ev::fault],
        "C27" => &[Ev::wrapper],
        _ => return !0,
    };
    l.iter().map(|e| bit(*e)).sum()
}

fn shift_v(v: &V, k: u64) -> V {
    let all = |l: &[V]| l.iter().map(|x| shift_v(x, k)).collect();
    match v {
        V::At(p, x) => V::At(p + k, Box::new(shift_v(x, k))),
        V::S(l) => V::S(all(l)),
        V::E(n, l) => V::E(n.clone(), all(l)),
        V::O(Some(x)) => V::O(Some(Box::new(shift_v(x, k)))),
        V::Ptr(p, Some(x)) => V::Ptr(*p, Some(Box::new(shift_v(x, k)))),
        V::Pn(a, b) => V::Pn(all(a), all(b)),
        v => v.clone(),
    }
}

fn shift_e(e: &Er, k: u64) -> Er {
    match e {
        Er::Magic(p, v) => Er::Magic(p + k, v.clone()),
        Er::Assert(p, m, w) => Er::Assert(p + k, m.clone(), *w),
        Er::Custom(p, v) => Er::Custom(p + k, v.clone()),
        Er::NoVar(p) => Er::NoVar(p + k),
        Er::Enum(p, l) => Er::Enum(p + k, l.iter().map(|(n, e)| (n.clone(), shift_e(e, k))).collect()),
        e => e.clone(),
    }
}

/// The way in
fn entry_of(c: &Case, sub: u64) -> u8 {
    if c.opts.count.is_some() || c.opts.off != 0 {
        return 0;
    }
    let k = (sub % 8) as u8;
    let k = if k > 4 && !c.opts.args.is_empty() { k - 4 } else { k };
    if (k == 3 || k == 7) && c.opts.e != 2 { 0 } else { k }
}

/// Those of the reader also resolve pointers
fn resolves(entry: u8) -> bool {
    matches!(entry, 1 | 2 | 5 | 6)
}

fn model_run(p: &Prog, c: &Case, entry: u8, fault: Option<(u64, &'static str)>) -> Option<Outcome> {
    let m = catch_unwind(AssertUnwindSafe(|| model::run(&p.prog, &c.data, c.base, c.pos, &c.opts, resolves(entry), fault)));
    match m {
        Ok(m) => m,
        Err(e) => {
            eprintln!("MODEL-PANIC {}", panic_text(e));
            None
        }
    }
}

fn record(id: &str, p: usize, c: &Case, m: &Outcome, salt: u64, info: &mut Info, force: bool) {
    info.evals += 1;
    let mut w = m.ev;
    while w != 0 {
        let i = w.trailing_zeros() as usize;
        *info.events.entry(model::EVENT_NAMES[i]).or_insert(0) += 1;
        w &= w - 1;
    }
    if force || m.ev & mask(id) != 0 {
        info.nontrivial += 1;
        let mut h = mix(p as u64 + 1, salt);
        for b in &c.data {
            h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
        }
        h = mix(h ^ c.pos, c.opts.e as u64 + 4 * c.opts.off);
        for a in &c.opts.args {
            h = mix(h, *a);
        }
        let fresh = info.hashes.insert(h);
        if fresh && info.samples.len() < 4 && info.hashes.len() % 37 == 1 {
            info.samples.push(format!(
                "program {} input {} base {} start {} options {:?}: {} at {}",
                p, json::hex(&c.data), c.base, c.pos, c.opts, clip(&show(&m.res)), m.pos
            ));
        }
    }
}

fn clip(s: &str) -> String {
    if s.len() <= 400 {
        return s.to_string();
    }
    let mut n = 400;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    format!("{}...", &s[..n])
}

/// Runs one case in the way the property asks for. Err: what went wrong.
pub fn check(id: &str, n: usize, en: &Entry, p: &Prog, c: &Case, sub: u64, info: &mut Info) -> Result<(), String> {
    let entry = entry_of(c, sub);
    let m = match model_run(p, c, entry, None) {
        Some(m) => m,
        None => {
            info.skipped += 1;
            return Ok(());
        }
    };
    let b = budget(m.steps);
    match id {
        "C19" => {
            let r = real(en, c, entry, b, &|_| {});
            if let Some(d) = differs(&m, &r) {
                return Err(d);
            }
            record(id, n, c, &m, 0, info, false);
            for k in 0..4u64 {
                let max = [1, 3, 16, 2][k as usize];
                let int = [0, 20, 40, 60][k as usize];
                let seed = mix(sub, k);
                let r = real(en, c, entry, b * 30, &|r| r.split = Some((Rng::new(seed), max, int)));
                if let Some(d) = differs(&m, &r) {
                    return Err(format!("pieces of at most {}, {}% interruptions (seed {}): {}", max, int, seed, d));
                }
                info.add("interruptions", r.r.ints);
                info.add("split_reads", r.r.splits);
                record(id, n, c, &m, seed, info, r.r.ints + r.r.splits > 0);
            }
            Ok(())
        }
        "C04" => {
            for t in 0..=c.data.len() {
                let mut c2 = c.clone();
                c2.data.truncate(t);
                let m = match model_run(p, &c2, entry, None) {
                    Some(m) => m,
                    None => {
                        info.skipped += 1;
                        continue;
                    }
                };
                let b = budget(m.steps);
                let r = real(en, &c2, entry, b, &|_| {});
                if let Some(d) = differs(&m, &r) {
                    return Err(format!("input cut to {} bytes: {}", t, d));
                }
                record(id, n, &c2, &m, 0, info, false);
                if m.res.is_err() {
                    if r.r.pos != c.pos {
                        return Err(format!("input cut to {} bytes: failed, and left the reader at {} instead of {}", t, r.r.pos, c.pos));
                    }
                    let mut rd = r.r;
                    rd.ops = 0;
                    let r2 = real_on(en, &c.opts, entry, rd);
                    if let Some(d) = differs(&m, &r2) {
                        return Err(format!("input cut to {} bytes, second read: {}", t, d));
                    }
                    info.add("reread_after_failure", 1);
                }
            }
            Ok(())
        }
        "C20" => {
            let r = real(en, c, entry, b, &|r| r.log = Some(vec![]));
            if let Some(d) = differs(&m, &r) {
                return Err(d);
            }
            record(id, n, c, &m, 0, info, false);
            let mut at: Vec<u64> = r.r.log.clone().unwrap().iter().flat_map(|(p, n)| (*p..*p + (*n).min(64)).collect::<Vec<_>>()).collect();
            at.sort();
            at.dedup();
            let mut rng = Rng::new(sub);
            while at.len() > 40 {
                let k = (rng.next() % at.len() as u64) as usize;
                at.remove(k);
            }
            for f in at {
                let k = IO_KINDS[(rng.next() % 4) as usize];
                let m2 = match model_run(p, c, entry, Some((f, k))) {
                    Some(m) => m,
                    None => continue,
                };
                let r2 = real(en, c, entry, budget(m2.steps.max(m.steps)), &|r| r.byte_fault = Some((f, k)));
                if let Some(d) = differs(&m2, &r2) {
                    return Err(format!("{} error reading byte {}: {}", k, f, d));
                }
                info.add("byte_faults", 1);
                record(id, n, c, &m2, mix(f, 1), info, m2.ev & bit(Ev::fault) != 0);
            }
            if m.res.is_ok() {
                let total = r.r.ops;
                let step = (total / 48).max(1);
                let mut k = rng.next() % step;
                while k < total {
                    let kind = IO_KINDS[(rng.next() % 4) as usize];
                    for sticky in [false, true] {
                        if !sticky && p.recovers {
                            continue;
                        }
                        let r2 = real(en, c, entry, 4 * b, &|r| r.op_fault = Some((k, kind, sticky)));
                        let what = format!("{} error at operation {} of {}{}", kind, k, total, if sticky { " and all later ones" } else { "" });
                        match &r2.res {
                            Res::Panic(x) => return Err(format!("{}: panicked: {}", what, x)),
                            Res::Done(Ok(v)) => return Err(format!("{}: succeeded with {:?}", what, v)),
                            Res::Done(Err(e)) => {
                                if !p.recovers && *e != Er::Io(kind.to_string()) {
                                    return Err(format!("{}: failed with {:?}", what, e));
                                }
                                if !sticky && r2.r.pos != c.pos {
                                    return Err(format!("{}: left the reader at {} instead of {}", what, r2.r.pos, c.pos));
                                }
                            }
                        }
                        info.add("operation_faults", 1);
                        record(id, n, c, &m, mix(k, 2 + sticky as u64), info, true);
                    }
                    k += step;
                }
            }
            Ok(())
        }
        "C31" => among(n, en, p, c, entry, &m, sub, info),
        "C26" => {
            let r = real(en, c, entry, b, &|_| {});
            if let Some(d) = differs(&m, &r) {
                return Err(d);
            }
            record(id, n, c, &m, 0, info, false);
            let res = match r.res {
                Res::Done(x) => x,
                Res::Panic(_) => unreachable!(),
            };
            let end = r.r.pos;
            // again, on the same reader
            let mut again = r.r.clone();
            again.pos = c.pos;
            again.ops = 0;
            let r2 = real_on(en, &c.opts, entry, again);
            let same = |x: &Real, want: &Result<V, Er>, pos: u64, what: String| -> Result<(), String> {
                match &x.res {
                    Res::Done(y) if y == want && x.r.pos == pos => Ok(()),
                    Res::Done(y) => Err(format!("{}: expected {} at {}\n  but got {} at {}", what, show(want), pos, show(y), x.r.pos)),
                    Res::Panic(m) => Err(format!("{}: panicked: {}", what, m)),
                }
            };
            same(&r2, &res, end, "second read".into())?;
            info.evals += 1;
            let mut rng = Rng::new(sub);
            // what lies before the start is not part of the data; a movement there sees other bytes
            if m.low >= c.pos && m.ev & bit(Ev::bad_seek) == 0 {
                for k in [1 + rng.next() % 7, 1 + rng.next() % 300] {
                    let mut c2 = c.clone();
                    let mut pre: Vec<u8> = (0..k).map(|_| rng.next() as u8).collect();
                    pre.extend(&c.data);
                    c2.data = pre;
                    c2.pos += k;
                    // positions may overflow
                    match model_run(p, &c2, entry, None) {
                        Some(m2) if m2.ev & bit(Ev::bad_seek) == 0 => {}
                        _ => break,
                    }
                    let r3 = real(en, &c2, entry, b, &|_| {});
                    let want = match &res {
                        Ok(v) => Ok(shift_v(v, k)),
                        Err(e) => Err(shift_e(e, k)),
                    };
                    same(&r3, &want, end + k, format!("{} bytes before", k))?;
                    record(id, n, &c2, &m, k, info, true);
                    info.add("shifted", 1);
                }
            }
            if res.is_ok() && !p.ends {
                let mut c2 = c.clone();
                let k = 1 + rng.next() % 40;
                c2.data.extend((0..k).map(|_| rng.next() as u8));
                if m.ev & bit(Ev::try_none) == 0 && m.ev & bit(Ev::eof) == 0 {
                    let r3 = real(en, &c2, entry, b, &|_| {});
                    same(&r3, &res, end, format!("{} bytes after", k))?;
                    record(id, n, &c2, &m, k ^ 0x5555, info, true);
                    info.add("extended", 1);
                }
            }
            Ok(())
        }
        #[cfg(feature = "tpl")]
        "C29" => {
            let (r, text) = crate::template::capture(|| real(en, c, entry, b, &|r| r.log = Some(vec![])));
            if let Some(d) = differs(&m, &r) {
                return Err(d);
            }
            let mut tpl = Some(vec![]);
            let again = model::run_tpl(&p.prog, &c.data, c.base, c.pos, &c.opts, resolves(entry), None, &mut tpl);
            if again.is_none() {
                return Ok(());
            }
            let k = crate::template::verify(&tpl.unwrap(), &text).map_err(|e| format!("{}\n--- template\n{}", e, text))?;
            info.add("template_entries", k as u64);
            record(id, n, c, &m, 0, info, k > 0);
            Ok(())
        }
        _ => {
            let r = real(en, c, entry, b, &|_| {});
            if let Some(d) = differs(&m, &r) {
                return Err(d);
            }
            if id == "C18" {
                let limit = 128 * 1024 + m.steps as usize * 4096;
                info.max_mem = info.max_mem.max(r.mem as u64);
                if r.mem > limit {
                    return Err(format!("used {} bytes of memory for {} bytes of input ({} steps)", r.mem, c.data.len(), m.steps));
                }
                if r.mem > 64 * 1024 {
                    info.add("large_memory_cases", 1);
                }
            }
            record(id, n, c, &m, 0, info, false);
            Ok(())
        }
    }
}

/// Reads of something else, to be done around others
fn peer(sub: u64) -> Result<(), String> {
    let mut rng = Rng::new(sub);
    let e = if rng.next() % 2 == 0 { Endian::Big } else { Endian::Little };
    let lead: Vec<u8> = (0..rng.next() % 3).map(|_| 0xee).collect();
    let at = lead.len() as u64;
    let mut d = lead;
    let n = (rng.next() % 4) as u8;
    let fail = rng.next() % 4;
    let put = |d: &mut Vec<u8>, x: u16| d.extend_from_slice(&if e == Endian::Big { x.to_be_bytes() } else { x.to_le_bytes() });
    d.push(if fail == 0 { 0x51 } else { 0x50 });
    put(&mut d, 0x1234);
    d.push(n);
    let list: Vec<u16> = (0..n).map(|_| rng.next() as u16).collect();
    for x in &list {
        put(&mut d, *x);
    }
    let target = d.len() as u64 + 1 + 3 + 2;
    d.push(target as u8);
    d.extend_from_slice(b"ab\0");
    d.extend_from_slice(&0xbeefu16.to_be_bytes());
    let tail = rng.next() as u16;
    if fail != 1 {
        put(&mut d, tail);
    }
    let end = target;
    let mut r = TestReader::new(&d, 0, at);
    let got: Result<Peer, binread::Error> = r.read_type(e);
    let want = if fail < 2 { None } else { Some((0x1234, list, tail, b"ab".to_vec(), 0xbeef)) };
    let same = match (&got, &want) {
        (Ok(p), Some(w)) => (p.a, p.list.clone(), *p.ptr, p.s.0.clone(), p.fixed) == *w && r.pos == end,
        (Err(_), None) => r.pos == at,
        _ => false,
    };
    if same {
        Ok(())
    } else {
        let got = got.map(|p| (p.a, p.list, p.ptr.value, p.s.0, p.fixed));
        Err(format!("of a fixed type, from {} at {} ({:?}): expected {:?}, got {:?} at {}", json::hex(&d), at, e, want, got, r.pos))
    }
}

#[derive(BinRead)]
#[br(magic = 0x50u8)]
struct Peer {
    a: u16,
    n: u8,
    #[br(count = n)]
    list: Vec<u16>,
    ptr: binread::FilePtr8<u16>,
    s: binread::NullString,
    #[br(big)]
    fixed: u16,
}

/// The read must do what it does alone, with others within, beside and before it
fn among(n: usize, en: &Entry, p: &Prog, c: &Case, entry: u8, m: &Outcome, sub: u64, info: &mut Info) -> Result<(), String> {
    let b = budget(m.steps);
    let r = real(en, c, entry, b, &|_| {});
    if let Some(d) = differs(m, &r) {
        return Err(d);
    }
    record("C31", n, c, m, 0, info, false);
    let total = r.r.ops;
    let mut rng = Rng::new(sub);
    // another input of the same definition
    let mut t = Tape::random(mix(sub, 5));
    let other = catch_unwind(AssertUnwindSafe(|| make(&p.prog, &mut t, &Cfg::get("C31")))).ok();
    let other = other.and_then(|o| {
        let e = entry_of(&o, sub >> 8);
        model_run(p, &o, e, None).map(|m| (o, e, m))
    });
    let others = |k: u64| -> Result<(), String> {
        if k % 2 == 0 {
            if let Some((o, e, m)) = &other {
                let r = real(en, o, *e, budget(m.steps), &|_| {});
                return match differs(m, &r) {
                    Some(d) => Err(format!("of {} at {} {:?}: {}", json::hex(&o.data), o.pos, o.opts, d)),
                    None => Ok(()),
                };
            }
        }
        peer(k)
    };
    // within
    for _ in 0..4 {
        let at = rng.next() % total.max(1);
        let every = rng.next() % 4 == 0;
        let k = rng.next();
        let bad = std::rc::Rc::new(std::cell::RefCell::new(None));
        // the hook is called while this function waits
        let f: Box<dyn Fn(u64)> = {
            let bad = bad.clone();
            let others = &others;
            Box::new(move |op| {
                if op == at || every && op < 40 {
                    if let Err(e) = others(k.wrapping_add(op)) {
                        *bad.borrow_mut() = Some(e);
                    }
                }
            })
        };
        let f: std::rc::Rc<dyn Fn(u64)> = unsafe { std::mem::transmute::<Box<dyn Fn(u64) + '_>, Box<dyn Fn(u64) + 'static>>(f) }.into();
        let mut r = real(en, c, entry, b, &|r| r.hook = Some(f.clone()));
        r.r.hook = None;
        let what = if every { "each operation".to_string() } else { format!("operation {}", at) };
        if let Some(e) = bad.borrow_mut().take() {
            return Err(format!("another read, within {}: {}", what, e));
        }
        if let Some(d) = differs(m, &r) {
            return Err(format!("with another read within {}: {}", what, d));
        }
        info.add("nested_reads", 1);
        record("C31", n, c, m, mix(at, k), info, total > 0);
    }
    // after one that was given up
    if total > 0 {
        let at = rng.next() % total;
        let kind = IO_KINDS[(rng.next() % 4) as usize];
        let panics = rng.next() % 2 == 0;
        let k = rng.next();
        let _ = real(en, c, entry, if panics { at } else { 4 * b }, &|r| r.op_fault = if panics { None } else { Some((at, kind, true)) });
        others(k).map_err(|e| format!("another read, after one that {} at operation {}: {}", if panics { "panicked" } else { "failed" }, at, e))?;
        let r = real(en, c, entry, b, &|_| {});
        if let Some(d) = differs(m, &r) {
            return Err(format!("after a read that {} at operation {}: {}", if panics { "panicked" } else { "failed" }, at, d));
        }
        info.add("reads_after_failures", 1);
        record("C31", n, c, m, mix(at, 1 + k), info, true);
    }
    // beside
    if rng.next() % 16 == 0 {
        let k = rng.next();
        let res: Vec<Result<(), String>> = std::thread::scope(|s| {
            let ts: Vec<_> = (0..4u64)
                .map(|t| {
                    let others = &others;
                    std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(s, move || -> Result<(), String> {
                        for i in 0..12 {
                            if (t + i) % 4 < 2 {
                                let r = real(en, c, entry, b, &|_| {});
                                if let Some(d) = differs(m, &r) {
                                    return Err(d);
                                }
                            } else {
                                others(k.wrapping_add(t * 12 + i))?;
                            }
                        }
                        Ok(())
                    }).unwrap()
                })
                .collect();
            ts.into_iter().map(|t| t.join().unwrap_or_else(|p| Err(panic_text(p)))).collect()
        });
        for r in res {
            r.map_err(|e| format!("in four threads: {}", e))?;
        }
        info.add("threads", 4);
        record("C31", n, c, m, mix(k, 3), info, true);
    }
    Ok(())
}

/// What a read does, as text
fn outcome(p: &Prog, en: &Entry, n: usize, c: &Case, sub: u64, info: &mut Info) -> Option<String> {
    let entry = entry_of(c, sub);
    let m = match model_run(p, c, entry, None) {
        Some(m) => m,
        None => {
            info.skipped += 1;
            return None;
        }
    };
    let r = real(en, c, entry, budget(m.steps), &|_| {});
    record("C21", n, c, &m, 0, info, true);
    Some(match r.res {
        Res::Done(x) => format!("{:?} at {}", x, r.r.pos),
        Res::Panic(_) => "panicked".into(),
    })
}

fn shrink(id: &str, n: usize, en: &Entry, p: &Prog, c: &Case, sub: u64, case_no: u64) -> (Case, String) {
    let mut left = 500;
    let mut cur = c.clone();
    let mut bad = |c: &Case, left: &mut i32| -> bool {
        if *left <= 0 {
            return false;
        }
        *left -= 1;
        note(n as u32, case_no);
        check(id, n, en, p, c, sub, &mut Info::default()).is_err()
    };
    loop {
        let before = cur.clone();
        if cur.base > 0 {
            let mut x = cur.clone();
            x.pos -= x.base;
            x.base = 0;
            if bad(&x, &mut left) {
                cur = x;
            }
        }
        for k in 0..3 {
            let mut x = cur.clone();
            match k {
                0 => x.opts.count = None,
                1 => x.opts.off = 0,
                _ => x.opts.args.iter_mut().for_each(|a| *a = 0),
            }
            if x != cur && bad(&x, &mut left) {
                cur = x;
            }
        }
        let pre = (cur.pos - cur.base) as usize;
        if pre > 0 && pre <= cur.data.len() {
            let mut x = cur.clone();
            x.data.drain(..pre);
            x.pos = x.base;
            if bad(&x, &mut left) {
                cur = x;
            }
        }
        let mut w = (cur.data.len() / 2).max(1);
        loop {
            let mut i = cur.data.len();
            while i > 0 {
                let lo = i.saturating_sub(w);
                let mut x = cur.clone();
                x.data.drain(lo..i);
                if x.pos <= x.base + x.data.len() as u64 && bad(&x, &mut left) {
                    cur = x;
                }
                i = lo.min(cur.data.len());
            }
            if w == 1 {
                break;
            }
            w /= 2;
        }
        for i in 0..cur.data.len() {
            if cur.data[i] != 0 {
                let mut x = cur.clone();
                x.data[i] = 0;
                if bad(&x, &mut left) {
                    cur = x;
                }
            }
        }
        if cur == before || left <= 0 {
            break;
        }
    }
    let msg = match check(id, n, en, p, &cur, sub, &mut Info::default()) {
        Err(m) => m,
        Ok(()) => "not reproducible".into(),
    };
    (cur, msg)
}

fn case_json(c: &Case) -> String {
    format!(
        "{{\"data\":{},\"base\":{},\"pos\":{},\"e\":{},\"count\":{},\"off\":{},\"args\":[{}]}}",
        json::s(&json::hex(&c.data)),
        c.base,
        c.pos,
        c.opts.e,
        c.opts.count.map_or("null".into(), |c| c.to_string()),
        c.opts.off,
        c.opts.args.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(",")
    )
}

/// data,base,pos,e,count|-,off,a:b:c
pub fn parse_case(s: &str) -> Case {
    let f: Vec<&str> = s.split(',').collect();
    Case {
        data: json::unhex(f[0]),
        base: f[1].parse().unwrap(),
        pos: f[2].parse().unwrap(),
        opts: Opts {
            e: f[3].parse().unwrap(),
            count: f[4].parse().ok(),
            off: f[5].parse().unwrap(),
            args: f[6].split(':').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
        },
    }
}

pub fn main(entries: &'static [Entry]) {
    // unoptimized code with large tuples takes much
    std::thread::Builder::new().stack_size(512 << 20).spawn(move || run_all(entries)).unwrap().join().unwrap()
}

fn run_all(entries: &[Entry]) {
    let mut id = String::new();
    let mut seed = 1u64;
    let mut cases = 100u64;
    let mut out = String::new();
    let mut progress = String::new();
    let mut only: Option<u32> = None;
    let mut from = 0u64;
    // outcomes, to be compared with those of other builds or spellings
    let mut dump: Option<std::io::BufWriter<std::fs::File>> = None;
    let mut styles = 1u32;
    let mut show_out = false;
    // the number under which the cases were generated
    let mut alias: Option<u32> = None;
    let mut given: Option<(Case, u64)> = None;
    let mut secs = u64::MAX;
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let mut v = || a.next().unwrap();
        match k.as_str() {
            "--id" => id = v(),
            "--seed" => seed = v().parse().unwrap(),
            "--cases" => cases = v().parse().unwrap(),
            "--out" => out = v(),
            "--progress" => progress = v(),
            "--only" => only = Some(v().parse().unwrap()),
            "--dump" => dump = Some(std::io::BufWriter::new(std::fs::File::create(v()).unwrap())),
            "--styles" => styles = v().parse().unwrap(),
            "--show" => show_out = v() == "yes",
            "--as" => alias = Some(v().parse().unwrap()),
            "--from" => from = v().parse().unwrap(),
            "--case" => {
                let s = v();
                let (c, sub) = s.split_once(';').unwrap();
                given = Some((parse_case(c), sub.parse().unwrap()));
            }
            "--secs" => secs = v().parse().unwrap(),
            k => panic!("option {}", k),
        }
    }
    if std::env::var("BX_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    mem::LIMIT.store(1 << 30, Relaxed);
    let start = std::time::Instant::now();
    let prof = Prof::get(&id);
    // the suffix only changes what is generated
    let id = id.trim_end_matches('+').to_string();
    let cfg = Cfg::get(&id);
    let progs: Vec<Prog> = entries
        .iter()
        .map(|e| {
            let prog = generate(&prof, &mut Tape::replay(e.tape));
            let (recovers, ends) = ends(&prog);
            Prog { prog, recovers, ends }
        })
        .collect();
    let mut info = Info::default();
    let mut failures: Vec<String> = vec![];
    let mut failed = vec![false; entries.len()];
    if !progress.is_empty() {
        *PROGRESS.lock().unwrap() = Some(std::fs::File::create(&progress).unwrap());
    }
    let mut run_cases = 0;
    'all: for case in from..from + cases {
        for (i, en) in entries.iter().enumerate() {
            if failed[i] || only.map_or(false, |o| o != en.id) {
                continue;
            }
            if start.elapsed().as_secs() >= secs {
                break 'all;
            }
            note(en.id, case);
            let number = alias.unwrap_or(en.id / styles) as u64;
            let sub = mix(seed ^ 0x77, mix(number, case));
            let (c, sub) = match &given {
                Some((c, s)) if case == from => {
                    let mut c = c.clone();
                    // arguments are those of the original program; the program may have been shrunk
                    let tys = progs[i].prog.types[progs[i].prog.root()].imports.tys();
                    c.opts.args.resize(tys.len(), 0);
                    for (a, q) in c.opts.args.iter_mut().zip(&tys) {
                        *a = q.as_u64(*a as u128 & q.mask());
                    }
                    (c, *s)
                }
                _ => {
                    let mut t = Tape::random(mix(seed, mix(number, case)));
                    let c = match catch_unwind(AssertUnwindSafe(|| make(&progs[i].prog, &mut t, &cfg))) {
                        Ok(c) => c,
                        Err(e) => {
                            eprintln!("MODEL-PANIC fill {}", panic_text(e));
                            continue;
                        }
                    };
                    (c, sub)
                }
            };
            run_cases += 1;
            if dump.is_some() || show_out {
                let h = match outcome(&progs[i], en, number as usize, &c, sub, &mut info) {
                    Some(text) => {
                        if show_out {
                            println!("{{\"case\":{},\"sub\":{},\"outcome\":{}}}", case_json(&c), sub, json::s(&text));
                        }
                        text.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3)) | 1
                    }
                    None => 0,
                };
                if let Some(d) = &mut dump {
                    use std::io::Write;
                    d.write_all(&en.id.to_le_bytes()).unwrap();
                    d.write_all(&(case as u32).to_le_bytes()).unwrap();
                    d.write_all(&h.to_le_bytes()).unwrap();
                }
                continue;
            }
            if let Err(m) = check(&id, en.id as usize, en, &progs[i], &c, sub, &mut info) {
                failed[i] = true;
                let (sc, sm) = shrink(&id, en.id as usize, en, &progs[i], &c, sub, case);
                failures.push(format!(
                    "{{\"prog\":{},\"case_no\":{},\"sub\":{},\"case\":{},\"message\":{},\"first_message\":{}}}",
                    en.id, case, sub, case_json(&sc), json::s(&sm), json::s(&m)
                ));
            }
        }
    }
    note(u32::MAX, 0);
    let o = format!(
        "{{\"evaluations\":{},\"cases\":{},\"skipped\":{},\"nontrivial\":{},\"distinct\":{},\"max_mem\":{},\"events\":{{{}}},\"extra\":{{{}}},\"samples\":{},\"failures\":[{}]}}\n",
        info.evals,
        run_cases,
        info.skipped,
        info.nontrivial,
        info.hashes.len(),
        info.max_mem,
        info.events.iter().map(|(k, v)| format!("{}:{}", json::s(k), v)).collect::<Vec<_>>().join(","),
        info.extra.iter().map(|(k, v)| format!("{}:{}", json::s(k), v)).collect::<Vec<_>>().join(","),
        json::list(info.samples.iter().map(|s| json::s(s))),
        failures.join(",")
    );
    if out.is_empty() {
        print!("{}", o);
    } else {
        std::fs::write(out, o).unwrap();
    }
}
