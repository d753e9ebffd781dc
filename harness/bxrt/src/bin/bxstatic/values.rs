//! C30: what wraps a value gives access to exactly that value; errors say what they hold.
use crate::scalars::{denote, order};
use crate::Group;
use binread::io::{Cursor, ErrorKind};
use binread::punctuated::Punctuated;
use binread::{BinRead, BinReaderExt, Endian, Error, FilePtr, PosValue, ReadOptions};
use bx::prop::Out;
use bx::tape::{mix, Rng, Tape};
use core::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(BinRead, Debug, PartialEq, Clone)]
pub struct Rec {
    a: u16,
    b: i8,
}

#[derive(BinRead, Debug, PartialEq, Clone)]
pub enum Either {
    #[br(magic = 1u8)]
    One(u8),
    Any { x: u16 },
}

/// Types that can be made from bytes independently of the library
trait El: BinRead<Args = ()> + Debug + PartialEq + Clone + 'static {
    const SIZE: usize;
    fn make(b: &[u8], e: Endian) -> Self;
    /// Another value
    fn other(&self) -> Self;
}
macro_rules! ints {
    ($($t:ty),*) => {$(
        impl El for $t {
            const SIZE: usize = core::mem::size_of::<$t>();
            fn make(b: &[u8], e: Endian) -> Self { denote(&b[..Self::SIZE], e) as $t }
            fn other(&self) -> Self { !*self }
        }
    )*};
}
ints!(u8, i16, u32, i64, u128);
impl El for Rec {
    const SIZE: usize = 3;
    fn make(b: &[u8], e: Endian) -> Self { Rec { a: denote(&b[..2], e) as u16, b: b[2] as i8 } }
    fn other(&self) -> Self { Rec { a: self.a, b: !self.b } }
}
impl El for (u8, u16) {
    const SIZE: usize = 3;
    fn make(b: &[u8], e: Endian) -> Self { (b[0], denote(&b[1..3], e) as u16) }
    fn other(&self) -> Self { (self.0, !self.1) }
}
impl El for [u16; 2] {
    const SIZE: usize = 4;
    fn make(b: &[u8], e: Endian) -> Self { [denote(&b[..2], e) as u16, denote(&b[2..4], e) as u16] }
    fn other(&self) -> Self { [!self[0], self[1]] }
}
impl El for Box<u32> {
    const SIZE: usize = 4;
    fn make(b: &[u8], e: Endian) -> Self { Box::new(denote(&b[..4], e) as u32) }
    fn other(&self) -> Self { Box::new(!**self) }
}

macro_rules! ensure {
    ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
}

fn dies<T>(f: impl FnOnce() -> T) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

fn pointer<T: El>(t: &mut Tape) -> Result<u64, String> {
    let e = order(t);
    let room = 40;
    let mut data: Vec<u8> = (0..room + T::SIZE + 2).map(|_| t.byte()).collect();
    // two places with the same or other contents
    let same = t.bool();
    let (i, j) = (2 + t.below(8) as usize, 20 + t.below(8) as usize);
    if same {
        let b = data[i..i + T::SIZE].to_vec();
        data[j..j + T::SIZE].copy_from_slice(&b);
    }
    data[0] = i as u8;
    data[1] = j as u8;
    let want = [T::make(&data[i..], e), T::make(&data[j..], e)];
    let mut c = Cursor::new(&data[..]);
    let p: FilePtr<u8, T> = c.read_type(e).map_err(|x| format!("{:?}", x))?;
    let mut q: FilePtr<u8, T> = c.read_type(e).map_err(|x| format!("{:?}", x))?;
    ensure!(*p == want[0] && *q == want[1], "deref: {:?} {:?}, expected {:?}", *p, *q, want);
    ensure!(p.ptr == i as u8 && q.ptr == j as u8, "ptr: {} {}", p.ptr, q.ptr);
    ensure!((p == q) == (want[0] == want[1]), "{:?} == {:?}: {}", want[0], want[1], p == q);
    ensure!(format!("{:?}", p) == format!("{:?}", want[0]), "Debug: {:?} for {:?}", p, want[0]);
    ensure!(format!("{:#?}", p) == format!("{:#?}", want[0]), "alternate Debug: {:#?} for {:#?}", p, want[0]);
    let o = want[1].other();
    *q = o.clone();
    ensure!(*q == o && q.value.as_ref() == Some(&o), "what was stored: {:?}, found {:?}", o, *q);
    ensure!(q.into_inner() == o, "into_inner");
    ensure!(p.into_inner() == want[0], "into_inner");
    // not resolved: nothing to give
    c.set_position(0);
    let mut ro = ReadOptions::default();
    ro.endian = e;
    let mut u: FilePtr<u8, T> = FilePtr::read_options(&mut c, &ro, ()).map_err(|x| format!("{:?}", x))?;
    ensure!(u.ptr == i as u8 && u.value.is_none(), "unresolved: {} {:?}", u.ptr, u.value);
    ensure!(dies(|| { let _ = &*u; }), "access to an unresolved pointer");
    ensure!(dies(|| { let _ = &mut *u; }), "mutable access to an unresolved pointer");
    let _ = format!("{:?}", u);
    u.after_parse(&mut c, &ro, ()).map_err(|x| format!("{:?}", x))?;
    ensure!(*u == want[0], "after after_parse: {:?}", *u);
    Ok(mix(data.iter().fold(i as u64, |h, &b| mix(h, b as u64)), same as u64))
}

fn position<T: El>(t: &mut Tape) -> Result<u64, String> {
    let e = order(t);
    let at = t.below(9) as usize;
    let data: Vec<u8> = (0..at + T::SIZE).map(|_| t.byte()).collect();
    let want = T::make(&data[at..], e);
    let mut c = Cursor::new(&data[..]);
    c.set_position(at as u64);
    let mut p: PosValue<T> = c.read_type(e).map_err(|x| format!("{:?}", x))?;
    ensure!(p.pos == at as u64, "pos: {} instead of {}", p.pos, at);
    ensure!(*p == want && p.val == want, "deref: {:?} instead of {:?}", *p, want);
    let o = want.other();
    ensure!(p == want && !(p == o) && p != o, "comparison of {:?} with itself and {:?}", want, o);
    ensure!(format!("{:?}", p) == format!("{:?}", want), "Debug: {:?} for {:?}", p, want);
    let q = p.clone();
    ensure!(q.pos == p.pos && *q == *p, "clone");
    *p = o.clone();
    ensure!(p == o && p.pos == at as u64 && *q == want, "assignment");
    Ok(data.iter().fold(at as u64, |h, &b| mix(h, b as u64)))
}

fn list<T: El>(t: &mut Tape) -> Result<u64, String> {
    let e = order(t);
    let n = t.below(7) as usize;
    let trailing = t.bool();
    let data: Vec<u8> = (0..n * (T::SIZE + 2)).map(|_| t.byte()).collect();
    let mut ro = ReadOptions::default();
    ro.endian = e;
    ro.count = Some(n);
    let mut c = Cursor::new(&data[..]);
    let r: Result<Punctuated<T, u16>, _> = if trailing { Punctuated::separated_trailing(&mut c, &ro, ()) } else { Punctuated::separated(&mut c, &ro, ()) };
    let mut p = r.map_err(|x| format!("{:?}", x))?;
    let want: Vec<T> = data.chunks(T::SIZE + 2).map(|b| T::make(b, e)).collect();
    let mut seps: Vec<u16> = data.chunks(T::SIZE + 2).map(|b| denote(&b[T::SIZE..], e) as u16).collect();
    if !trailing {
        seps.pop();
    }
    ensure!(*p == want, "elements: {:?} instead of {:?}", *p, want);
    ensure!(p.seperators == seps, "separators: {:?} instead of {:?}", p.seperators, seps);
    ensure!(p.len() == n && p.iter().eq(want.iter()), "iteration");
    ensure!(format!("{:?}", p) == format!("{:?}", want), "Debug: {:?} for {:?}", p, want);
    if n > 0 {
        let k = t.below(n as u64) as usize;
        let o = want[k].other();
        p[k] = o.clone();
        let mut w2 = want.clone();
        w2[k] = o;
        ensure!(*p == w2 && p.seperators == seps, "assignment of element {}", k);
        p.push(want[0].clone());
        ensure!(p.len() == n + 1, "push");
    }
    Ok(data.iter().fold(n as u64, |h, &b| mix(h, b as u64)))
}

fn wrappers(t: &mut Tape, d: &mut String) -> Out {
    macro_rules! table {
        ($($t:ty),*) => {{
            let all: &[(&str, [fn(&mut Tape) -> Result<u64, String>; 3])] = &[$((stringify!($t), [pointer::<$t>, position::<$t>, list::<$t>])),*];
            let i = t.below(all.len() as u64) as usize;
            let k = t.below(3) as usize;
            d.push_str(&format!("{} of {}", ["FilePtr", "PosValue", "Punctuated"][k], all[i].0));
            (mix(i as u64, k as u64), all[i].1[k])
        }};
    }
    let (h, f) = table!(u8, i16, u32, i64, u128, Rec, (u8, u16), [u16; 2], Box<u32>);
    match f(t) {
        Ok(x) => Out::Ok(true, mix(h, x)),
        Err(m) => Out::Bad(m),
    }
}

// ---- errors ----

#[derive(Debug, PartialEq, Clone)]
struct Own(u32, &'static str);
#[derive(Debug, PartialEq, Clone)]
struct Unlike(u32);

#[derive(BinRead, Debug)]
#[br(assert(a < 8, Own(a as u32, "own")), assert(b < 8, "b is {} at {}", b, a))]
struct Checked {
    a: u8,
    #[br(assert(b != 1, b as u64 * 3))]
    b: u16,
    #[br(try_map = |x: u16| if x & 1 == 0 { Ok(x) } else { Err(Unlike(x as u32)) })]
    c: u16,
    #[br(magic = 7u16)]
    d: u8,
}

#[derive(BinRead, Debug)]
enum Several {
    A(Checked),
    #[br(magic = 2u8)]
    Bee(u8, #[br(assert(false, "never"))] u8),
    #[br(magic = b"cc")]
    C,
}

#[derive(BinRead, Debug)]
#[br(return_unexpected_error)]
enum Quiet {
    #[br(magic = 1u8)]
    A,
    #[br(magic = 2u16)]
    B(u8),
}

fn clash<T: PartialEq + Debug>(what: &str, got: Option<&T>, want: Option<T>) -> Result<(), String> {
    if got == want.as_ref() { Ok(()) } else { Err(format!("{}: {:?} instead of {:?}", what, got, want)) }
}

/// What must be true of any error
fn holds(e: &Error) -> Result<(), String> {
    let (dbg, dsp) = (format!("{:?}", e), format!("{}", e));
    ensure!(dbg == dsp, "Display {:?} and Debug {:?}", dsp, dbg);
    let at = |p: u64| format!("0x{:X}", p);
    let (mut own, mut un, mut word) = (None, None, None);
    match e {
        Error::BadMagic { pos, .. } => ensure!(dbg.contains("BadMagic") && dbg.contains(&at(*pos)), "{}", dbg),
        Error::AssertFail { pos, message } => ensure!(dbg.contains(&at(*pos)) && dbg.contains(message.as_str()), "{} of {:?}", dbg, message),
        Error::Io(x) => ensure!(dbg.contains(&format!("{:?}", x)), "{}", dbg),
        Error::Custom { pos, err } => {
            ensure!(dbg.contains(&at(*pos)), "{}", dbg);
            own = err.downcast_ref::<Own>().cloned();
            un = err.downcast_ref::<Unlike>().cloned();
            word = err.downcast_ref::<u64>().cloned();
            ensure!(own.is_some() as u8 + un.is_some() as u8 + word.is_some() as u8 == 1, "a custom error of no known type: {}", dbg);
        }
        Error::NoVariantMatch { pos } => ensure!(dbg.contains(&at(*pos)), "{}", dbg),
        Error::EnumErrors { pos, variant_errors } => {
            ensure!(dbg.contains(&at(*pos)), "{}", dbg);
            for (n, x) in variant_errors {
                ensure!(dbg.contains(n) && dbg.contains(&format!("{:?}", x)), "{} does not show the error of {}", dbg, n);
                holds(x)?;
            }
        }
        _ => return Err(format!("an unknown error {}", dbg)),
    }
    // the custom error, as its own type only
    clash("custom_err of its type", e.custom_err::<Own>(), own)?;
    clash("custom_err of its type", e.custom_err::<Unlike>(), un)?;
    clash("custom_err of its type", e.custom_err::<u64>(), word)?;
    ensure!(e.custom_err::<u32>().is_none() && e.custom_err::<String>().is_none() && e.custom_err::<Error>().is_none(), "custom_err of another type");
    Ok(())
}

fn errors(t: &mut Tape, d: &mut String) -> Out {
    let e = order(t);
    let n = t.below(12) as usize;
    let at = t.below(4) as usize;
    let mut data: Vec<u8> = (0..at + n).map(|_| if t.pct(70) { t.below(10) as u8 } else { t.byte() }).collect();
    if t.bool() && n > 7 {
        // up to the last magic
        let two = |x: u16| if e == Endian::Big || e == Endian::Native && cfg!(target_endian = "big") { x.to_be_bytes() } else { x.to_le_bytes() };
        for (k, x) in [(1, 1 + t.below(9) as u16), (3, t.below(9) as u16), (5, 7)] {
            data[at + k..at + k + 2].copy_from_slice(&two(x));
        }
    }
    let kind = t.below(3);
    d.push_str(&format!("type {} {:?} at {} of {:?}", kind, e, at, data));
    let mut c = Cursor::new(&data[..]);
    c.set_position(at as u64);
    let r: Result<(), Error> = match kind {
        0 => c.read_type::<Checked>(e).map(drop),
        1 => c.read_type::<Several>(e).map(drop),
        _ => c.read_type::<Quiet>(e).map(drop),
    };
    let h = data.iter().fold(mix(kind, at as u64 * 3 + e as u64), |h, &b| mix(h, b as u64));
    let x = match r {
        Ok(()) => return Out::Ok(false, h),
        Err(x) => x,
    };
    if let Err(m) = holds(&x) {
        return Out::Bad(m);
    }
    // what the type says it should be
    if kind == 0 {
        let b = &data[at..];
        let num = |i: usize, k: usize| b.get(i..i + k).map(|s| denote(s, e) as u64);
        let want = match (num(0, 1), num(1, 2), num(3, 2), num(5, 2)) {
            (_, Some(1), _, _) => "word",
            (Some(_), Some(_), Some(c), _) if c & 1 == 1 => "unlike",
            (Some(_), Some(_), Some(_), Some(m)) if m != 7 => "magic",
            (Some(a), Some(_), Some(_), Some(_)) if b.len() > 7 => if a >= 8 { "own" } else { "message" },
            _ => "io",
        };
        let got = match &x {
            Error::Io(i) if i.kind() == ErrorKind::UnexpectedEof => "io",
            Error::BadMagic { .. } => "magic",
            Error::AssertFail { .. } => "message",
            x if x.custom_err::<Own>() == Some(&Own(b[0] as u32, "own")) => "own",
            x if x.custom_err::<u64>() == Some(&3) => "word",
            x if x.custom_err::<Unlike>().map(|u| u.0 as u64) == num(3, 2) => "unlike",
            _ => "other",
        };
        if got != want {
            return Out::Bad(format!("{:?}: {} instead of {}", x, got, want));
        }
        if let Error::AssertFail { message, .. } = &x {
            let m = format!("b is {} at {}", num(1, 2).unwrap(), b[0]);
            if *message != m {
                return Out::Bad(format!("message {:?} instead of {:?}", message, m));
            }
        }
    }
    Out::Ok(true, h)
}

fn conversions(t: &mut Tape, d: &mut String) -> Out {
    let kinds = [ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::UnexpectedEof, ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::Other, ErrorKind::Interrupted, ErrorKind::AlreadyExists];
    let k = *t.pick(&kinds);
    let e = *t.pick(&[Endian::Big, Endian::Little, Endian::Native]);
    d.push_str(&format!("{:?} {:?}", k, e));
    let x: Error = binread::io::Error::new(k, "made up").into();
    match &x {
        Error::Io(i) if i.kind() == k => (),
        x => return Out::Bad(format!("{:?} from {:?}", x, k)),
    }
    if let Err(m) = holds(&x) {
        return Out::Bad(m);
    }
    if String::from(&e) != format!("{:?}", e) {
        return Out::Bad(format!("{:?} is called {:?}", e, String::from(&e)));
    }
    let o = ReadOptions::default();
    if Endian::default() != Endian::Native || o.endian != Endian::Native || o.count.is_some() || o.offset != 0 {
        return Out::Bad("other defaults".into());
    }
    if binread::endian::BE != Endian::Big || binread::endian::LE != Endian::Little || binread::endian::NE != Endian::Native {
        return Out::Bad("BE, LE, NE".into());
    }
    Out::Ok(true, k as u64 * 3 + e as u64)
}

/// C14: the aliases of pointers have the width they say
fn aliases(t: &mut Tape, d: &mut String) -> Out {
    use binread::file_ptr::{FilePtr128, FilePtr16, FilePtr32, FilePtr64, FilePtr8};
    let e = order(t);
    let at = t.below(20) as usize;
    let to = t.below(48) as usize;
    let data: Vec<u8> = (0..64).map(|_| t.byte()).collect();
    let k = t.below(5) as usize;
    d.push_str(&format!("{:?} pointer of {} bits at {} to {}", e, 8 << k, at, to));
    fn go<P: BinRead<Args = ()> + binread::file_ptr::IntoSeekFrom>(data: &[u8], at: usize, to: usize, e: Endian, w: usize, num: fn(P) -> u128, how: bool) -> Result<(), String> {
        let mut data = data.to_vec();
        let big = e == Endian::Big || e == Endian::Native && cfg!(target_endian = "big");
        for i in 0..w {
            data[at + i] = 0;
        }
        data[if big { at + w - 1 } else { at }] = to as u8;
        let mut c = Cursor::new(&data[..]);
        c.set_position(at as u64);
        let want = denote(&data[to..to + 2], e) as u16;
        let got = if how {
            let p: FilePtr<P, u16> = c.read_type(e).map_err(|x| format!("{:?}", x))?;
            ensure!(num(p.ptr) == to as u128, "ptr is {}", num(p.ptr));
            *p
        } else {
            let mut ro = ReadOptions::default();
            ro.endian = e;
            FilePtr::<P, u16>::parse(&mut c, &ro, ()).map_err(|x| format!("{:?}", x))?
        };
        ensure!(got == want, "{:x} instead of {:x}", got, want);
        ensure!(c.position() == (at + w) as u64, "the reader is at {}", c.position());
        Ok(())
    }
    // the aliases name the types of these
    fn of8<P: BinRead<Args = ()> + binread::file_ptr::IntoSeekFrom, T: BinRead>(_: fn(FilePtr<P, T>)) -> fn(&[u8], usize, usize, Endian, usize, fn(P) -> u128, bool) -> Result<(), String> {
        go::<P>
    }
    let how = t.bool();
    let r = match k {
        0 => of8(|_: FilePtr8<u16>| ())(&data, at, to, e, 1, |p| p as u128, how),
        1 => of8(|_: FilePtr16<u16>| ())(&data, at, to, e, 2, |p| p as u128, how),
        2 => of8(|_: FilePtr32<u16>| ())(&data, at, to, e, 4, |p| p as u128, how),
        3 => of8(|_: FilePtr64<u16>| ())(&data, at, to, e, 8, |p| p as u128, how),
        _ => of8(|_: FilePtr128<u16>| ())(&data, at, to, e, 16, |p| p as u128, how),
    };
    match r {
        Ok(()) => Out::Ok(true, data.iter().fold(mix(k as u64, at as u64 * 64 + to as u64), |h, &b| mix(h, b as u64))),
        Err(m) => Out::Bad(m),
    }
}

/// C14: pointers to long lists, and long lists of pointers
#[derive(BinRead)]
struct Lists {
    n: u16,
    base: u16,
    #[br(count = n, offset = base as u64)]
    a: FilePtr<u16, Vec<u16>>,
    #[br(count = n, offset_after = later as u64)]
    b: FilePtr<u32, Vec<u16>>,
    #[br(count = n, offset = base as u64, deref_now)]
    c: FilePtr<u16, Vec<u8>>,
    #[br(count = n, offset = base as u64, parse_with = FilePtr::<u8, Vec<u8>>::parse)]
    d: Vec<u8>,
    #[br(count = n, offset_after = later as u64)]
    e: Vec<FilePtr<u16, u16>>,
    later: u16,
}

fn pointed_lists(t: &mut Tape, d: &mut String) -> Out {
    let e = order(t);
    let big = e == Endian::Big || e == Endian::Native && cfg!(target_endian = "big");
    let n = match t.weighted(&[20, 20, 30, 30]) {
        0 => t.below(8),
        1 => *t.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513]),
        2 => t.below(300),
        _ => t.below(1500),
    } as usize;
    let head = 15 + 2 * n;
    let size = head + t.below(4 * n as u64 + 64) as usize;
    let base = t.below(64) as usize;
    let later = t.below(64) as usize;
    let seed = t.u64();
    let mut rng = Rng::new(seed);
    let mut data: Vec<u8> = (0..size).map(|_| rng.next() as u8).collect();
    let mut put = |at: usize, w: usize, v: usize| {
        for i in 0..w {
            data[at + if big { w - 1 - i } else { i }] = (v >> (8 * i)) as u8;
        }
    };
    let good = t.pct(85);
    // somewhere that it fits, if it is to fit
    let mut to = |from: usize, len: usize, max: usize, t: &mut Tape| {
        let room = (size + 1).saturating_sub(from + len).min(max);
        if good || !t.pct(20) { t.below(room.max(1) as u64) as usize } else { t.below(max as u64) as usize }
    };
    let (a, b, c, dd) = (to(base, 2 * n, 1 << 16, t), to(later, 2 * n, 1 << 16, t), to(base, n, 1 << 16, t), to(base, n, 256, t));
    put(0, 2, n);
    put(2, 2, base);
    put(4, 2, a);
    put(6, 4, b);
    put(10, 2, c);
    put(12, 1, dd);
    let es: Vec<usize> = (0..n)
        .map(|_| {
            let room = (size + 1).saturating_sub(later + 2).clamp(1, 1 << 16) as u64;
            (rng.next() % room) as usize
        })
        .collect();
    for (i, x) in es.iter().enumerate() {
        put(13 + 2 * i, 2, *x);
    }
    put(13 + 2 * n, 2, later);
    d.push_str(&format!("{:?} n={} size={} base={} later={} seed={} a={} b={} c={} d={}", e, n, size, base, later, seed, a, b, c, dd));
    let bytes = |from: usize, len: usize| if len == 0 { Some(&data[..0]) } else { data.get(from..from + len) };
    let words = |from: usize| bytes(from, 2 * n).map(|b| b.chunks(2).map(|w| denote(w, e) as u16).collect::<Vec<u16>>());
    let want = (|| {
        Some((
            words(base + a)?,
            words(later + b)?,
            bytes(base + c, n)?.to_vec(),
            bytes(base + dd, n)?.to_vec(),
            es.iter().map(|x| bytes(later + x, 2).map(|w| denote(w, e) as u16)).collect::<Option<Vec<u16>>>()?,
        ))
    })();
    let mut r = Cursor::new(&data[..]);
    let got: binread::BinResult<Lists> = r.read_type(e);
    let h = mix(mix(seed, n as u64), a as u64);
    match (got, want) {
        (Ok(x), Some(w)) => {
            if x.n as usize != n || x.base as usize != base || x.later as usize != later {
                return Out::Bad("other fields".into());
            }
            if x.a.value.as_ref() != Some(&w.0) || x.b.value.as_ref() != Some(&w.1) || x.c.value.as_ref() != Some(&w.2) || x.d != w.3 {
                return Out::Bad("other elements".into());
            }
            if x.e.iter().map(|p| p.value).collect::<Option<Vec<u16>>>() != Some(w.4) {
                return Out::Bad("other targets of the list of pointers".into());
            }
            if r.position() != head as u64 {
                return Out::Bad(format!("the reader is at {} instead of {}", r.position(), head));
            }
            Out::Ok(n > 0, h)
        }
        (Err(Error::Io(x)), None) if x.kind() == ErrorKind::UnexpectedEof => Out::Ok(true, h),
        (Ok(_), None) => Out::Bad("read, though something is beyond the end".into()),
        (Err(x), w) => Out::Bad(format!("{:?}{}", x, if w.is_some() { ", though everything is there" } else { "" })),
    }
}

pub fn alias_groups() -> Vec<Group> {
    vec![("aliases", aliases, 1.0, true), ("pointers and long lists", pointed_lists, 0.5, true)]
}

/// C06: the deprecated function that assertions once were
#[allow(deprecated)]
fn asserts(t: &mut Tape, d: &mut String) -> Out {
    let at = t.below(1 << 20) << t.below(30);
    let (ok, custom, x) = (t.pct(40), t.bool(), t.draw());
    let m: String = (0..t.below(12)).map(|_| (32 + t.below(90)) as u8 as char).collect();
    d.push_str(&format!("at {} holds {} custom {} message {:?}", at, ok, custom, m));
    let mut c = Cursor::new(&[][..]);
    c.set_position(at);
    let r = binread::error::assert::<_, _, Unlike>(&mut c, ok, &m, if custom { Some(|| Unlike(x)) } else { None });
    if c.position() != at {
        return Out::Bad("the reader was moved".into());
    }
    let good = match &r {
        Ok(()) => ok,
        Err(Error::AssertFail { pos, message }) => !ok && !custom && *pos == at && *message == m,
        Err(e @ Error::Custom { pos, .. }) => !ok && custom && *pos == at && e.custom_err::<Unlike>() == Some(&Unlike(x)),
        _ => false,
    };
    if good { Out::Ok(true, mix(x as u64, at)) } else { Out::Bad(format!("{:?}", r)) }
}

pub fn assert_groups() -> Vec<Group> {
    vec![("the assert function", asserts, 1.0, true)]
}

pub fn groups() -> Vec<Group> {
    vec![("wrappers", wrappers, 1.0, true), ("errors", errors, 1.0, true), ("conversions", conversions, 0.02, true)]
}
