//! C13: types with the arguments () can be read without any; others cannot.
use crate::Group;
use binread::io::Cursor;
use binread::{BinRead, BinReaderExt, FilePtr, NullString, NullWideString, PosValue};
use bx::prop::{panic_text, Out};
use bx::tape::Tape;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(BinRead)]
struct Plain(#[allow(dead_code)] u8);
#[derive(BinRead)]
#[br(import(a: u8))]
struct One(#[br(calc = a)] u8);
#[derive(BinRead)]
#[br(import(a: u8, b: u16))]
struct Two(#[br(calc = a as u16 + b)] u16);
#[derive(BinRead)]
#[br(import_tuple(a: (u8, u32)))]
struct Tuple(#[br(calc = a.0 as u32 + a.1)] u32);
#[derive(BinRead)]
#[br(import_tuple(_a: u8))]
struct Raw(#[br(calc = _a)] u8);
#[derive(BinRead)]
#[br(import(a: u8))]
enum En {
    #[br(pre_assert(a == 1))]
    A(#[br(calc = a)] u8),
    B(#[br(calc = a)] u8),
}
#[derive(BinRead)]
#[br(repr = u8)]
enum Ur {
    A = 0,
}
#[derive(BinRead)]
struct Gen<T: BinRead<Args = ()>>(T);

struct Own(u8);
impl BinRead for Own {
    type Args = (u8,);
    fn read_options<R: binread::io::Read + binread::io::Seek>(_: &mut R, _: &binread::ReadOptions, a: (u8,)) -> binread::BinResult<Self> {
        Ok(Own(a.0))
    }
    fn args_default() -> Option<(u8,)> {
        Some((42,))
    }
}

fn with<T: BinRead<Args = ()>>(what: &str) -> Result<(), String> {
    if T::args_default().is_none() {
        return Err(format!("{}: no default arguments", what));
    }
    let data = [0u8; 16];
    for k in 0..5 {
        let mut c = Cursor::new(&data[..]);
        let r = match k {
            0 => T::read(&mut c).map(|_| ()),
            1 => c.read_be::<T>().map(|_| ()),
            2 => c.read_le::<T>().map(|_| ()),
            3 => c.read_ne::<T>().map(|_| ()),
            _ => T::read_args(&mut c, ()).map(|_| ()),
        };
        if let Err(e) = r {
            return Err(format!("{}: entry {}: {:?}", what, k, e));
        }
    }
    Ok(())
}

fn without<T: BinRead>(what: &str) -> Result<(), String> {
    if T::args_default().is_some() {
        return Err(format!("{}: arguments made up", what));
    }
    let data = [0u8; 16];
    for k in 0..4 {
        let mut c = Cursor::new(&data[..]);
        let r = catch_unwind(AssertUnwindSafe(|| match k {
            0 => T::read(&mut c).is_ok(),
            1 => c.read_be::<T>().is_ok(),
            2 => c.read_le::<T>().is_ok(),
            _ => c.read_ne::<T>().is_ok(),
        }));
        match r {
            Ok(x) => return Err(format!("{}: entry {} read without arguments (ok: {})", what, k, x)),
            Err(p) => drop(panic_text(p)),
        }
    }
    Ok(())
}

fn defaults(t: &mut Tape, d: &mut String) -> Out {
    macro_rules! table {
        ($($n:literal $f:ident $t:ty;)*) => {{
            let all: &[(&str, fn(&str) -> Result<(), String>)] = &[$((stringify!($t), $f::<$t>)),*];
            let i = t.below(all.len() as u64) as usize;
            (i, all[i])
        }};
    }
    let (i, (name, f)) = table! {
        0 with u8; 0 with u128; 0 with f64; 0 with char; 0 with (); 0 with Plain; 0 with (u8, u16, Plain);
        0 with [u8; 4]; 0 with [Box<u8>; 2]; 0 with Box<Plain>; 0 with Option<u32>; 0 with PosValue<u8>;
        0 with FilePtr<u8, u8>; 0 with NullString; 0 with NullWideString; 0 with core::marker::PhantomData<One>; 0 with Ur; 0 with Gen<u16>;
        0 with Vec<core::num::NonZeroU8>;
        0 without One; 0 without Two; 0 without Tuple; 0 without Raw; 0 without En; 0 without Box<One>; 0 without Option<Two>;
        0 without PosValue<One>; 0 without FilePtr<u8, One>; 0 without Vec<One>; 0 without Box<Option<PosValue<Tuple>>>;
    };
    d.push_str(name);
    match f(name) {
        Ok(()) => Out::Ok(true, i as u64),
        Err(m) => Out::Bad(m),
    }
}

fn given(t: &mut Tape, d: &mut String) -> Out {
    let (a, b, x) = (t.byte(), (t.draw() >> 16) as u16, t.draw());
    d.push_str(&format!("{} {} {}", a, b, x));
    let data = [0u8; 8];
    let mut c = Cursor::new(&data[..]);
    macro_rules! want {
        ($e:expr, $w:expr) => {
            match $e {
                Ok(v) if v == $w => (),
                Ok(v) => return Out::Bad(format!("{}: {}, expected {}", stringify!($e), v, $w)),
                Err(x) => return Out::Bad(format!("{}: {:?}", stringify!($e), x)),
            }
        };
    }
    want!(One::read_args(&mut c, (a,)).map(|x| x.0), a);
    want!(c.read_be_args::<One>((a,)).map(|x| x.0), a);
    want!(c.read_le_args::<Two>((a, b.min(0xff00))).map(|x| x.0), a as u16 + b.min(0xff00));
    let y = x >> 1;
    want!(c.read_ne_args::<Tuple>((a, y)).map(|x| x.0), a as u32 + y);
    want!(c.read_type_args::<Raw>(binread::Endian::Little, a).map(|x| x.0), a);
    want!(c.read_be_args::<Box<Option<One>>>((a,)).map(|x| x.as_ref().as_ref().unwrap().0), a);
    want!(c.read_be_args::<En>((a,)).map(|x| match x { En::A(v) | En::B(v) => v }), a);
    // a type may give its own defaults
    want!(Own::read(&mut c).map(|x| x.0), 42);
    want!(c.read_be::<Own>().map(|x| x.0), 42);
    want!(Own::read_args(&mut c, (a,)).map(|x| x.0), a);
    Out::Ok(true, x as u64)
}

thread_local! {
    static DEFAULT: std::cell::Cell<Option<u8>> = const { std::cell::Cell::new(None) };
}

/// A type that may give its own default arguments, which it stores next to what it reads
#[derive(Default, Debug, PartialEq, Clone, Copy)]
struct Opted(u8, u8);
impl BinRead for Opted {
    type Args = (u8,);
    fn read_options<R: binread::io::Read + binread::io::Seek>(r: &mut R, o: &binread::ReadOptions, a: (u8,)) -> binread::BinResult<Self> {
        Ok(Opted(u8::read_options(r, o, ())?, a.0))
    }
    fn args_default() -> Option<(u8,)> {
        DEFAULT.with(|d| d.get()).map(|d| (d,))
    }
}

type Elems = Vec<Opted>;

/// What a wrapper holds
trait Holds: BinRead<Args = (u8,)> {
    fn all(&self) -> Elems;
}
impl Holds for Opted {
    fn all(&self) -> Elems { vec![*self] }
}
impl<T: Holds> Holds for Box<T> {
    fn all(&self) -> Elems { (**self).all() }
}
impl<T: Holds> Holds for Option<T> {
    fn all(&self) -> Elems { self.iter().flat_map(|x| x.all()).collect() }
}
impl<T: Holds> Holds for PosValue<T> {
    fn all(&self) -> Elems { self.val.all() }
}
impl<T: Holds> Holds for FilePtr<u8, T> {
    fn all(&self) -> Elems { self.value.iter().flat_map(|x| x.all()).collect() }
}
impl<T: Holds + Default> Holds for [T; 1] {
    fn all(&self) -> Elems { self.iter().flat_map(|x| x.all()).collect() }
}
impl<T: Holds + Default> Holds for [T; 3] {
    fn all(&self) -> Elems { self.iter().flat_map(|x| x.all()).collect() }
}

/// A wrapper is read with the default arguments of what it holds, or not at all if there are none
fn wrapped(t: &mut Tape, d: &mut String) -> Out {
    fn go<T: Holds>(k: u64, data: &[u8]) -> Result<Option<(Elems, u64)>, String> {
        let mut c = Cursor::new(data);
        let r = catch_unwind(AssertUnwindSafe(|| match k {
            0 => c.read_be::<T>(),
            1 => c.read_le::<T>(),
            2 => c.read_ne::<T>(),
            3 => T::read(&mut c).and_then(|mut x| {
                x.after_parse(&mut c, &Default::default(), DEFAULT.with(|d| (d.get().unwrap(),)))?;
                Ok(x)
            }),
            _ => c.read_be_args::<T>((77,)),
        }));
        match r {
            Err(p) => {
                let m = panic_text(p);
                if m.contains("args") { Ok(None) } else { Err(format!("panicked: {}", m)) }
            }
            Ok(Err(e)) => Err(format!("{:?}", e)),
            Ok(Ok(v)) => Ok(Some((v.all(), c.position()))),
        }
    }
    macro_rules! table {
        ($($t:ty, $n:literal, $p:literal;)*) => {{
            let all: &[(&str, fn(u64, &[u8]) -> Result<Option<(Elems, u64)>, String>, usize, bool)] = &[$((stringify!($t), go::<$t>, $n, $p)),*];
            let i = t.below(all.len() as u64) as usize;
            (i, all[i])
        }};
    }
    let (i, (name, f, n, ptr)) = table! {
        Opted, 1, false; Box<Opted>, 1, false; Option<Opted>, 1, false; PosValue<Opted>, 1, false; [Opted; 1], 1, false; [Opted; 3], 3, false;
        Box<Option<Opted>>, 1, false; PosValue<Box<[Opted; 3]>>, 3, false; [Option<Box<Opted>>; 3], 3, false; FilePtr<u8, Opted>, 1, true;
        FilePtr<u8, [Opted; 3]>, 3, true; Option<FilePtr<u8, Box<Opted>>>, 1, true; Box<FilePtr<u8, PosValue<Opted>>>, 1, true; PosValue<PosValue<Option<Opted>>>, 1, false;
    };
    let def = if t.pct(80) { Some(t.byte()) } else { None };
    let k = t.below(5);
    let mut data: Vec<u8> = (0..12).map(|_| t.byte()).collect();
    let mut at = 0;
    if ptr {
        at = 1 + t.below(8) as usize;
        data[0] = at as u8;
    }
    d.push_str(&format!("{} entry {} default {:?} data {:?}", name, k, def, data));
    DEFAULT.with(|c| c.set(def));
    let arg = if k == 4 { Some(77) } else { def };
    let want = arg.map(|a| (data[at..at + n].iter().map(|&b| Opted(b, a)).collect::<Elems>(), if ptr { 1 } else { n as u64 }));
    let got = f(k, &data);
    DEFAULT.with(|c| c.set(None));
    match got {
        Ok(g) if g == want => Out::Ok(true, bx::tape::mix(i as u64 * 8 + k, bx::tape::mix(def.map_or(256, |x| x as u64), data[0] as u64))),
        g => Out::Bad(format!("{:?} instead of {:?}", g, want)),
    }
}

pub fn wrapper_groups() -> Vec<Group> {
    vec![("wrapped defaults", wrapped, 1.0, true)]
}

pub fn groups() -> Vec<Group> {
    vec![("defaults", defaults, 0.2, true), ("given", given, 1.0, true)]
}
