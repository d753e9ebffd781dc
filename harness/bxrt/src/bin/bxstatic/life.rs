//! C28: every value read is dropped exactly once.
use crate::Group;
use binread::io::{Read, Seek};
use binread::punctuated::Punctuated;
use binread::{derive_binread, helpers, BinRead, BinResult, Endian, Error, FilePtr, PosValue, ReadOptions};
use bx::prop::Out;
use bx::tape::{mix, Tape};
use bxrt::TestReader;
use std::cell::RefCell;
use std::collections::{BTreeSet, LinkedList, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
struct Reg {
    alive: Vec<bool>,
    errs: Vec<String>,
    units_made: i64,
    units_dropped: i64,
    fails: u64,
    panics: u64,
}
thread_local!(static REG: RefCell<Reg> = RefCell::new(Reg::default()));

const CANARY: u64 = 0x5eed_c0de_1234_5678;

/// Counts its own constructions and drops
#[derive(Debug)]
struct El {
    canary: u64,
    id: u64,
    v: u8,
}
impl El {
    fn new(v: u8) -> El {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            let id = r.alive.len() as u64;
            r.alive.push(true);
            El { canary: CANARY ^ id.wrapping_mul(0x9E37_79B9_7F4A_7C15), id, v }
        })
    }
    fn sane(&self) -> bool {
        self.canary == CANARY ^ self.id.wrapping_mul(0x9E37_79B9_7F4A_7C15)
    }
}
impl Default for El {
    fn default() -> El {
        El::new(0)
    }
}
impl PartialEq for El {
    fn eq(&self, o: &El) -> bool {
        self.v == o.v
    }
}
impl Eq for El {}
impl PartialOrd for El {
    fn partial_cmp(&self, o: &El) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for El {
    fn cmp(&self, o: &El) -> std::cmp::Ordering {
        self.v.cmp(&o.v)
    }
}
impl Drop for El {
    fn drop(&mut self) {
        let sane = self.sane();
        REG.with(|r| {
            let mut r = r.borrow_mut();
            if !sane {
                r.errs.push(format!("something that was never constructed was dropped ({:#x}, {:#x})", self.canary, self.id));
            } else if !std::mem::replace(&mut r.alive[self.id as usize], false) {
                r.errs.push(format!("element {} was dropped again", self.id));
            }
        })
    }
}
impl BinRead for El {
    type Args = ();
    fn read_options<R: Read + Seek>(r: &mut R, ro: &ReadOptions, _: ()) -> BinResult<El> {
        let v = u8::read_options(r, ro, ())?;
        match v >> 3 {
            0x1f => {
                REG.with(|r| r.borrow_mut().fails += 1);
                Err(Error::AssertFail { pos: 0, message: "before".into() })
            }
            0x1e => {
                let _made = El::new(v);
                REG.with(|r| r.borrow_mut().fails += 1);
                Err(Error::NoVariantMatch { pos: 1 })
            }
            0x1d => {
                REG.with(|r| r.borrow_mut().panics += 1);
                panic!("in read")
            }
            _ => Ok(El::new(v)),
        }
    }
    fn after_parse<R: Read + Seek>(&mut self, _: &mut R, _: &ReadOptions, _: ()) -> BinResult<()> {
        if !self.sane() {
            REG.with(|r| r.borrow_mut().errs.push("after_parse of something never constructed".into()));
        }
        match self.v >> 3 {
            0x1c => {
                REG.with(|r| r.borrow_mut().fails += 1);
                Err(Error::NoVariantMatch { pos: 2 })
            }
            0x1b => {
                REG.with(|r| r.borrow_mut().panics += 1);
                panic!("in after_parse")
            }
            _ => Ok(()),
        }
    }
}

/// The same without any size
#[derive(Debug)]
struct Z(());
impl Z {
    fn new() -> Z {
        REG.with(|r| r.borrow_mut().units_made += 1);
        Z(())
    }
}
impl Default for Z {
    fn default() -> Z {
        Z::new()
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        REG.with(|r| r.borrow_mut().units_dropped += 1);
    }
}
impl BinRead for Z {
    type Args = ();
    fn read_options<R: Read + Seek>(r: &mut R, ro: &ReadOptions, _: ()) -> BinResult<Z> {
        match u8::read_options(r, ro, ())? >> 3 {
            0x1f => Err(Error::NoVariantMatch { pos: 1 }),
            0x1d => panic!("in read"),
            _ => Ok(Z::new()),
        }
    }
}

trait Reach {
    fn reach(&self, out: &mut Vec<El2>);
}
/// (id, sane), or a unit
enum El2 {
    E(u64, bool),
    Z,
}
impl Reach for El {
    fn reach(&self, out: &mut Vec<El2>) {
        out.push(El2::E(self.id, self.sane()))
    }
}
impl Reach for Z {
    fn reach(&self, out: &mut Vec<El2>) {
        out.push(El2::Z)
    }
}
impl Reach for u8 {
    fn reach(&self, _: &mut Vec<El2>) {}
}
macro_rules! iterated {
    ($([$($g:tt)*] $t:ty;)*) => {$(
        impl<$($g)*> Reach for $t {
            fn reach(&self, out: &mut Vec<El2>) {
                for x in self.iter() { x.reach(out) }
            }
        }
    )*};
}
iterated! {
    [T: Reach] Vec<T>;
    [T: Reach] VecDeque<T>;
    [T: Reach] LinkedList<T>;
    [T: Reach] BTreeSet<T>;
    [T: Reach] Option<T>;
    [T: Reach, const N: usize] [T; N];
}
impl<T: Reach> Reach for Box<T> {
    fn reach(&self, out: &mut Vec<El2>) {
        (**self).reach(out)
    }
}
impl<T: Reach> Reach for PosValue<T> {
    fn reach(&self, out: &mut Vec<El2>) {
        (**self).reach(out)
    }
}
impl<P: binread::file_ptr::IntoSeekFrom, T: BinRead + Reach> Reach for FilePtr<P, T> {
    fn reach(&self, out: &mut Vec<El2>) {
        self.value.reach(out)
    }
}
impl<T: BinRead + Reach, S: BinRead + Reach> Reach for Punctuated<T, S> {
    fn reach(&self, out: &mut Vec<El2>) {
        (**self).reach(out);
        self.seperators.reach(out)
    }
}
macro_rules! tuples {
    ($(($($n:ident)*))*) => {$(
        #[allow(non_snake_case)]
        impl<$($n: Reach),*> Reach for ($($n,)*) {
            fn reach(&self, out: &mut Vec<El2>) {
                let ($($n,)*) = self;
                $($n.reach(out);)*
            }
        }
    )*};
}
tuples!((A)(A B)(A B C)(A B C D)(A B C D E)(A B C D E F)(A B C D E F G H I J K L)
    (A B C D E F G H I J K L M N O P Q R S T U V W X Y A1 B1 C1 D1 E1 F1 G1));

// ---- derived types ----

struct Wrap(El);
impl Reach for Wrap {
    fn reach(&self, out: &mut Vec<El2>) {
        self.0.reach(out)
    }
}

#[derive(BinRead)]
struct Plain {
    a: El,
    #[br(count = 3)]
    b: Vec<El>,
    c: [El; 4],
    d: (El, El),
}
impl Reach for Plain {
    fn reach(&self, out: &mut Vec<El2>) {
        self.a.reach(out);
        self.b.reach(out);
        self.c.reach(out);
        self.d.reach(out);
    }
}

#[derive_binread]
struct Rich {
    #[br(temp)]
    n: u8,
    #[br(temp)]
    t: El,
    #[br(count = n & 7)]
    v: Vec<El>,
    #[br(try)]
    tr: Option<El>,
    #[br(if(n & 8 != 0))]
    o: Option<El>,
    #[br(if(n & 16 != 0, El::new(3)))]
    o2: El,
    #[br(ignore)]
    ig: El,
    #[br(default)]
    df: Option<El>,
    #[br(calc = [El::new(1), El::new(t.v)])]
    ca: [El; 2],
    #[br(map = |x: El| Wrap(x))]
    w: Wrap,
    #[br(try_map = |x: [El; 2]| if x[0].v & 0x70 == 0x70 { Err(Error::NoVariantMatch { pos: 3 }) } else { Ok(x) })]
    tm: [El; 2],
    #[br(restore_position)]
    rp: (El, El),
    #[br(assert(as_.v & 0x60 != 0x60, "no"))]
    as_: El,
    #[br(deref_now)]
    p: FilePtr<u8, [El; 3]>,
    #[br(postprocess_now)]
    pp: FilePtr<u8, El>,
    #[br(parse_with = FilePtr::<u8, (El, El)>::parse)]
    fp: (El, El),
    #[br(count = 2, parse_with = Punctuated::separated)]
    pn: Punctuated<El, El>,
    last: El,
}
impl Reach for Rich {
    fn reach(&self, out: &mut Vec<El2>) {
        self.v.reach(out);
        self.tr.reach(out);
        self.o.reach(out);
        self.o2.reach(out);
        self.ig.reach(out);
        self.df.reach(out);
        self.ca.reach(out);
        self.w.reach(out);
        self.tm.reach(out);
        self.rp.reach(out);
        self.as_.reach(out);
        self.p.reach(out);
        self.pp.reach(out);
        self.fp.reach(out);
        self.pn.reach(out);
        self.last.reach(out);
    }
}

#[derive(BinRead)]
enum En {
    A(El, El, #[br(assert(self_2.v & 1 == 0))] El),
    B {
        #[br(count = 2)]
        a: Vec<El>,
        p: FilePtr<u8, El>,
    },
    #[br(assert(self_0[1].v & 3 == 0))]
    C([El; 3]),
    D(Box<El>),
}
impl Reach for En {
    fn reach(&self, out: &mut Vec<El2>) {
        match self {
            En::A(a, b, c) => {
                a.reach(out);
                b.reach(out);
                c.reach(out)
            }
            En::B { a, p } => {
                a.reach(out);
                p.reach(out)
            }
            En::C(a) => a.reach(out),
            En::D(a) => a.reach(out),
        }
    }
}

#[derive(BinRead)]
#[br(return_unexpected_error)]
enum Quiet {
    A([El; 3], #[br(assert(self_1.v & 1 == 0))] El),
    B(El),
}
impl Reach for Quiet {
    fn reach(&self, out: &mut Vec<El2>) {
        match self {
            Quiet::A(a, b) => {
                a.reach(out);
                b.reach(out)
            }
            Quiet::B(a) => a.reach(out),
        }
    }
}

#[derive(BinRead)]
#[br(map = |x: (El, [El; 2])| Mapped { a: x.0, b: Some(x.1) })]
struct Mapped {
    a: El,
    b: Option<[El; 2]>,
}
impl Reach for Mapped {
    fn reach(&self, out: &mut Vec<El2>) {
        self.a.reach(out);
        self.b.reach(out);
    }
}

#[derive(BinRead)]
#[br(assert(a.v & 0x40 == 0), assert(b.len() == 2 && b[1].v & 3 != 3))]
struct Asserted {
    a: El,
    #[br(count = 2)]
    b: Vec<El>,
}
impl Reach for Asserted {
    fn reach(&self, out: &mut Vec<El2>) {
        self.a.reach(out);
        self.b.reach(out);
    }
}

#[derive(BinRead)]
struct Nested<T: BinRead<Args = ()>> {
    a: T,
    b: Box<T>,
    c: El,
}
impl<T: BinRead<Args = ()> + Reach> Reach for Nested<T> {
    fn reach(&self, out: &mut Vec<El2>) {
        self.a.reach(out);
        self.b.reach(out);
        self.c.reach(out);
    }
}

/// through a helper
macro_rules! by {
    ($($n:ident $t:ty, |$r:ident, $ro:ident| $e:expr;)*) => {$(
        struct $n($t);
        impl BinRead for $n {
            type Args = ();
            fn read_options<R: Read + Seek>($r: &mut R, $ro: &ReadOptions, _: ()) -> BinResult<Self> {
                Ok($n($e?))
            }
        }
        impl Reach for $n {
            fn reach(&self, out: &mut Vec<El2>) { self.0.reach(out) }
        }
    )*};
}
by! {
    Until Vec<El>, |r, ro| helpers::until(|x: &El| x.v & 15 == 9)(r, ro, ());
    UntilX VecDeque<El>, |r, ro| helpers::until_exclusive(|x: &El| x.v & 15 == 9)(r, ro, ());
    UntilEof LinkedList<El>, |r, ro| helpers::until_eof(r, ro, ());
    Count BTreeSet<El>, |r, ro| helpers::count(ro.count.unwrap_or(3))(r, ro, ());
    CountNested Vec<[El; 2]>, |r, ro| helpers::count(ro.count.unwrap_or(3))(r, ro, ());
    EofNested Vec<(El, El)>, |r, ro| helpers::until_eof(r, ro, ());
    Sep Punctuated<El, El>, |r, ro| Punctuated::separated(r, ro, ());
    SepT Punctuated<[El; 2], El>, |r, ro| Punctuated::separated_trailing(r, ro, ());
    PtrParse El, |r, ro| FilePtr::<u8, El>::parse(r, ro, ());
    PtrParseA [El; 3], |r, ro| FilePtr::<u8, [El; 3]>::parse(r, ro, ());
    Rotap El, |r, ro| binread::error::read_options_then_after_parse(r, ro, ());
    RotapV Vec<El>, |r, ro| binread::error::read_options_then_after_parse(r, ro, ());
}

// ---- the property ----

fn bytes(t: &mut Tape, n: usize) -> Vec<u8> {
    let bad = *t.pick(&[0u32, 3, 3, 10, 25]);
    (0..n).map(|_| if t.pct(bad) { 0xd8 + t.below(0x28) as u8 } else { t.below(0x80) as u8 }).collect()
}

fn life<T: BinRead<Args = ()> + Reach>(t: &mut Tape, d: &mut String) -> Out {
    let n = t.below(60) as usize;
    let data = bytes(t, n);
    let mut r = TestReader::new(&data, 0, 0);
    let mut ro = ReadOptions::default();
    ro.endian = Endian::Big;
    ro.count = Some(t.below(9) as usize);
    match t.below(8) {
        0 => r.op_fault = Some((t.below(60), "TimedOut", t.bool())),
        1 => r.byte_fault = Some((t.below(n as u64 + 1), "NotFound")),
        2 => r.budget = t.below(50),
        _ => {}
    }
    d.push_str(&format!(
        "{} count {:?} data {:02x?} fault {:?} {:?} budget {}",
        std::any::type_name::<T>().replace("bxstatic::", ""),
        ro.count,
        data,
        r.op_fault,
        r.byte_fault,
        r.budget
    ));
    REG.with(|r| *r.borrow_mut() = Reg::default());
    let after = t.pct(85);
    let res = catch_unwind(AssertUnwindSafe(|| -> BinResult<T> {
        let mut v = T::read_options(&mut r, &ro, ())?;
        if after {
            v.after_parse(&mut r, &ro, ())?;
        }
        Ok(v)
    }));
    let take = || REG.with(|r| std::mem::take(&mut r.borrow_mut().errs));
    let live = || -> (Vec<u64>, i64) {
        REG.with(|r| {
            let r = r.borrow();
            ((0..r.alive.len() as u64).filter(|&i| r.alive[i as usize]).collect(), r.units_made - r.units_dropped)
        })
    };
    let made = REG.with(|r| r.borrow().alive.len() as u64 + r.borrow().units_made as u64);
    let how;
    match res {
        Ok(Ok(v)) => {
            how = 1;
            let mut seen = vec![];
            v.reach(&mut seen);
            let mut ids = vec![];
            let mut units = 0;
            for x in &seen {
                match x {
                    El2::E(_, false) => return forget(v, "the value holds an element that was never constructed".into()),
                    El2::E(id, _) => ids.push(*id),
                    El2::Z => units += 1,
                }
            }
            ids.sort();
            let (l, u) = live();
            if l != ids || units != u {
                return forget(v, format!("elements alive: {:?} and {} units; held by the value: {:?} and {}", l, u, ids, units));
            }
            drop(v);
        }
        Ok(Err(e)) => {
            how = 2;
            drop(e);
        }
        Err(_) => how = 3,
    }
    let e = take();
    if !e.is_empty() {
        return Out::Bad(format!("{} ({})", e.join("; "), ["", "value", "error", "panic"][how]));
    }
    let (l, u) = live();
    if !l.is_empty() || u != 0 {
        return Out::Bad(format!("never dropped: {:?} and {} units ({})", l, u, ["", "value", "error", "panic"][how]));
    }
    let h = data.iter().fold(how as u64, |h, &b| mix(h, b as u64));
    let h = std::any::type_name::<T>().bytes().fold(h, |h, b| mix(h, b as u64));
    Out::Ok(made > 0 && (how > 1 || made > 1), mix(h, ro.count.unwrap() as u64))
}

/// the value is broken: do not touch it again
fn forget<T>(v: T, m: String) -> Out {
    std::mem::forget(v);
    Out::Bad(m)
}

macro_rules! table {
    ($name:ident: $($t:ty),* $(,)?) => {
        fn $name(t: &mut Tape, d: &mut String) -> Out {
            let all: &[fn(&mut Tape, &mut String) -> Out] = &[$(life::<$t>),*];
            let i = t.below(all.len() as u64) as usize;
            all[i](t, d)
        }
    };
}

type T12 = (El, El, El, El, El, El, El, El, El, El, El, El);
type T32 = (
    El, El, El, El, El, El, El, El, El, El, El, El, El, El, El, El, El, El, El, El, El, El, El, El, El, El, El, El, El, El, El, El,
);

table!(plain: El, Vec<El>, Vec<Z>, Vec<Box<El>>, Vec<(El, El)>, Vec<[El; 2]>, Box<El>, Option<El>, PosValue<El>, Box<Option<PosValue<El>>>,
    (El,), (El, El), (El, El, El), (El, u8, El, [El; 2], Box<El>), T12, T32, FilePtr<u8, El>, FilePtr<u8, [El; 3]>,
    FilePtr<u8, FilePtr<u8, El>>, Vec<FilePtr<u8, El>>, (FilePtr<u8, El>, El, FilePtr<u8, (El, El)>));
table!(arrays: [El; 0], [El; 1], [El; 2], [El; 3], [El; 5], [El; 8], [El; 17], [El; 31], [El; 32], [Z; 4], [Z; 32], [[El; 3]; 4],
    [Option<(El, El)>; 3], [Option<FilePtr<u8, El>>; 3], [Box<El>; 4], ([El; 3], [El; 2]), [[[El; 2]; 2]; 3], Box<[El; 4]>, Option<[El; 6]>);
table!(derived: Plain, Rich, Rich, Rich, En, En, Quiet, Mapped, Asserted, Nested<El>, Nested<Plain>, Nested<[El; 2]>, Vec<Plain>, Vec<En>, Vec<Rich>,
    (En, Plain), Nested<En>, Nested<Quiet>, Vec<Asserted>);
table!(helper: Until, UntilX, UntilEof, Count, CountNested, EofNested, Sep, SepT, PtrParse, PtrParseA, Rotap, RotapV, Vec<Until>, (Until, UntilEof));

#[cfg(feature = "cg")]
table!(long: [El; 33], [El; 64], [El; 100], [Z; 64], [[El; 40]; 2], [En; 4], [Plain; 3], [Rich; 2], [(El, El); 7], [PosValue<El>; 9], [FilePtr<u8, El>; 5]);

pub fn groups() -> Vec<Group> {
    #[allow(unused_mut)]
    let mut g: Vec<Group> = vec![
        ("containers", plain, 1.0, true),
        ("arrays", arrays, 1.0, true),
        ("derived", derived, 1.0, true),
        ("helpers", helper, 0.7, true),
    ];
    #[cfg(feature = "cg")]
    g.push(("long arrays", long, 1.0, true));
    g
}
