//! C01: scalars decode exactly, through every entry point.
use crate::Group;
use binread::io::{Cursor, Read, Seek, SeekFrom, StreamPosition};
use binread::{BinRead, BinReaderExt, BinResult, Endian, Error, ReadOptions};
use bx::prop::Out;
use bx::tape::{mix, Tape};
use bxrt::TestReader;

pub trait Scalar: BinRead<Args = ()> + 'static {
    const SIZE: usize;
    const NAME: &'static str;
    fn bits(&self) -> u128;
}
macro_rules! ints {
    ($($t:ident $u:ident),*) => {$(
        impl Scalar for $t {
            const SIZE: usize = core::mem::size_of::<$t>();
            const NAME: &'static str = stringify!($t);
            fn bits(&self) -> u128 { *self as $u as u128 }
        }
    )*};
}
ints!(u8 u8, u16 u16, u32 u32, u64 u64, u128 u128, i8 u8, i16 u16, i32 u32, i64 u64, i128 u128);
impl Scalar for f32 {
    const SIZE: usize = 4;
    const NAME: &'static str = "f32";
    fn bits(&self) -> u128 { self.to_bits() as u128 }
}
impl Scalar for f64 {
    const SIZE: usize = 8;
    const NAME: &'static str = "f64";
    fn bits(&self) -> u128 { self.to_bits() as u128 }
}
impl Scalar for char {
    const SIZE: usize = 1;
    const NAME: &'static str = "char";
    fn bits(&self) -> u128 { *self as u32 as u128 }
}

fn host_big() -> bool {
    1u16.to_ne_bytes()[0] == 0
}

pub fn denote(b: &[u8], e: Endian) -> u128 {
    let big = match e {
        Endian::Big => true,
        Endian::Little => false,
        Endian::Native => host_big(),
    };
    let mut v = 0u128;
    for i in 0..b.len() {
        v = v << 8 | b[if big { i } else { b.len() - 1 - i }] as u128;
    }
    v
}

/// the entry points; `None` byte order: the default (native)
const ENTRIES: usize = 9;

fn enter<T: Scalar, R: Read + Seek>(r: &mut R, entry: usize, e: Endian, t: &mut Tape) -> (BinResult<T>, Endian) {
    match entry {
        0 => (T::read(r), Endian::Native),
        1 => (T::read_args(r, ()), Endian::Native),
        2 => {
            let mut ro = ReadOptions::default();
            ro.endian = e;
            if t.bool() {
                ro.count = Some(t.below(40) as usize);
            }
            if t.bool() {
                ro.offset = t.u64();
            }
            (T::read_options(r, &ro, ()), e)
        }
        3 => (r.read_type(e), e),
        4 => (r.read_type_args(e, ()), e),
        5 => (
            match e {
                Endian::Big => r.read_be(),
                Endian::Little => r.read_le(),
                Endian::Native => r.read_ne(),
            },
            e,
        ),
        6 => (
            match e {
                Endian::Big => r.read_be_args(()),
                Endian::Little => r.read_le_args(()),
                Endian::Native => r.read_ne_args(()),
            },
            e,
        ),
        7 => {
            // through a reference to the reader
            let mut rr = &mut *r;
            ((&mut rr).read_type(e), e)
        }
        _ => {
            let mut ro = ReadOptions::default();
            ro.endian = e;
            match T::read_options(r, &ro, ()) {
                Ok(mut v) => {
                    let p = r.stream_pos().unwrap();
                    match v.after_parse(r, &ro, ()) {
                        Ok(()) if r.stream_pos().unwrap() == p => (Ok(v), e),
                        Ok(()) => panic!("after_parse of a scalar moved the reader"),
                        Err(x) => (Err(x), e),
                    }
                }
                x => (x, e),
            }
        }
    }
}

fn one<T: Scalar, R: Read + Seek>(r: &mut R, data: &[u8], base: u64, entry: usize, e: Endian, t: &mut Tape) -> Result<bool, String> {
    let pos = r.stream_pos().unwrap();
    let (got, e) = enter::<T, R>(r, entry, e, t);
    let end = r.stream_pos().unwrap();
    let total = base + data.len() as u64;
    let byte = |p: u64| if p < base { 0 } else { data[(p - base) as usize] };
    if pos.checked_add(T::SIZE as u64).map_or(false, |x| x <= total) {
        let b: Vec<u8> = (0..T::SIZE as u64).map(|i| byte(pos + i)).collect();
        let want = denote(&b, e);
        match got {
            Ok(v) if v.bits() != want => Err(format!("{} from {:02x?} {:?}: {:#x}, expected {:#x}", T::NAME, b, e, v.bits(), want)),
            Ok(_) if end != pos + T::SIZE as u64 => Err(format!("{} read at {} left the reader at {}", T::NAME, pos, end)),
            Ok(_) => Ok(T::SIZE > 1),
            Err(x) => Err(format!("{} at {} of {}: {:?}", T::NAME, pos, total, x)),
        }
    } else {
        match got {
            Ok(v) => Err(format!("{} at {} of {}: value {:#x} from too little input", T::NAME, pos, total, v.bits())),
            Err(Error::Io(x)) if x.kind() != binread::io::ErrorKind::UnexpectedEof => Err(format!("{} cut short: error {:?}", T::NAME, x.kind())),
            Err(Error::Io(_)) if end != pos => Err(format!("{} cut short at {} left the reader at {}", T::NAME, pos, end)),
            Err(Error::Io(_)) => Ok(true),
            Err(x) => Err(format!("{} cut short: {:?}", T::NAME, x)),
        }
    }
}

fn dispatch<R: Read + Seek>(k: usize, r: &mut R, data: &[u8], base: u64, entry: usize, e: Endian, t: &mut Tape) -> Result<bool, String> {
    match k {
        0 => one::<u8, R>(r, data, base, entry, e, t),
        1 => one::<u16, R>(r, data, base, entry, e, t),
        2 => one::<u32, R>(r, data, base, entry, e, t),
        3 => one::<u64, R>(r, data, base, entry, e, t),
        4 => one::<u128, R>(r, data, base, entry, e, t),
        5 => one::<i8, R>(r, data, base, entry, e, t),
        6 => one::<i16, R>(r, data, base, entry, e, t),
        7 => one::<i32, R>(r, data, base, entry, e, t),
        8 => one::<i64, R>(r, data, base, entry, e, t),
        9 => one::<i128, R>(r, data, base, entry, e, t),
        10 => one::<f32, R>(r, data, base, entry, e, t),
        11 => one::<f64, R>(r, data, base, entry, e, t),
        _ => one::<char, R>(r, data, base, entry, e, t),
    }
}

pub fn order(t: &mut Tape) -> Endian {
    *t.pick(&[Endian::Little, Endian::Big, Endian::Native])
}

/// bytes in which signs, NaNs, zeros and distinct bytes all occur
fn bytes(t: &mut Tape, n: usize) -> Vec<u8> {
    let mode = t.below(5);
    (0..n)
        .map(|i| match mode {
            0 => t.byte(),
            1 => *t.pick(&[0u8, 0xff, 0x7f, 0x80, 1, 0xf0, 0xf8, 0xc0]),
            2 => i as u8 + 1,
            3 => 0xff - (t.below(4) == 0) as u8 * t.byte(),
            _ => t.byte() | 0x80,
        })
        .collect()
}

fn place(t: &mut Tape) -> u64 {
    match t.below(8) {
        0 | 1 => 0,
        2 => t.below(40),
        3 => (1 << 31) - t.below(20),
        4 => (1 << 32) - t.below(20),
        5 => 1 << (33 + t.below(28)),
        6 => (1u64 << 63) - t.below(20),
        _ => u64::MAX - 64 - t.below(20),
    }
}

fn history<R: Read + Seek>(r: &mut R, data: &[u8], base: u64, t: &mut Tape, d: &mut String) -> Out {
    let mut nt = false;
    let mut hash = data.iter().fold(base, |h, &b| mix(h, b as u64));
    let n = 1 + t.below(8);
    let total = base + data.len() as u64;
    for _ in 0..n {
        if t.pct(30) {
            let p = match t.below(3) {
                0 => base.saturating_sub(t.below(4)) + t.below(data.len() as u64 + 4).min(u64::MAX - base),
                1 => total.saturating_sub(t.below(18)),
                _ => total.saturating_add(t.below(5)),
            };
            r.seek(SeekFrom::Start(p)).unwrap();
            d.push_str(&format!(" seek {}", p));
            hash = mix(hash, p);
        }
        let k = t.below(13) as usize;
        let entry = t.below(ENTRIES as u64) as usize;
        let e = order(t);
        d.push_str(&format!(" type {} entry {} {:?}", k, entry, e));
        hash = mix(hash, (k * 100 + entry * 3 + e as usize) as u64);
        match dispatch(k, r, data, base, entry, e, t) {
            Ok(x) => nt |= x,
            Err(m) => return Out::Bad(m),
        }
    }
    Out::Ok(nt, hash)
}

fn far(t: &mut Tape, d: &mut String) -> Out {
    let n = t.below(40) as usize;
    let data = bytes(t, n);
    let base = place(t);
    let mut r = TestReader::new(&data, base, base);
    if t.pct(30) {
        r.split = Some((bx::tape::Rng::new(t.draw() as u64), 1 + t.below(5) as u32, t.below(60) as u32));
    }
    d.push_str(&format!("data {:02x?} from {:#x}", data, base));
    history(&mut r, &data, base, t, d)
}

fn cursor(t: &mut Tape, d: &mut String) -> Out {
    let n = t.below(40) as usize;
    let data = bytes(t, n);
    d.push_str(&format!("cursor data {:02x?}", data));
    match t.below(3) {
        0 => history(&mut Cursor::new(&data[..]), &data, 0, t, d),
        1 => history(&mut Cursor::new(data.clone()), &data, 0, t, d),
        _ => {
            let mut c = Cursor::new(&data[..]);
            let mut rr = &mut c;
            history(&mut rr, &data, 0, t, d)
        }
    }
}

#[cfg(feature = "std")]
fn buffered(t: &mut Tape, d: &mut String) -> Out {
    let n = t.below(60) as usize;
    let data = bytes(t, n);
    let cap = 1 + t.below(20) as usize;
    d.push_str(&format!("buffered {} data {:02x?}", cap, data));
    let mut r = std::io::BufReader::with_capacity(cap, TestReader::new(&data, 0, 0));
    history(&mut r, &data, 0, t, d)
}

/// C04: a scalar that cannot be read leaves the reader where it was, and fails alike again
fn failed(t: &mut Tape, d: &mut String) -> Out {
    fn go<T: Scalar>(r: &mut TestReader, entry: usize, e: Endian, want: &str, t: &mut Tape) -> Result<(), String> {
        let pos = r.pos;
        for turn in 0..2 {
            // the operations of the reader do not count here, only the bytes
            let got = match enter::<T, _>(r, entry, e, t).0 {
                Ok(v) => format!("value {:#x}", v.bits()),
                Err(Error::Io(x)) => format!("{:?}", x.kind()),
                Err(x) => format!("{:?}", x),
            };
            if got != want {
                return Err(format!("{} at {}, turn {}: {} instead of {}", T::NAME, pos, turn, got, want));
            }
            if r.pos != pos {
                return Err(format!("{} at {}, turn {}: {} left the reader at {}", T::NAME, pos, turn, got, r.pos));
            }
        }
        Ok(())
    }
    let sizes = [1usize, 2, 4, 8, 16, 1, 2, 4, 8, 16, 4, 8, 1];
    let k = t.below(13) as usize;
    let have = t.below(sizes[k] as u64);
    let n = t.below(6) as usize;
    let fault = t.bool();
    let rest = if fault { 1 + t.below(20) as usize } else { 0 };
    let data = bytes(t, n + have as usize + rest);
    let base = place(t);
    let pos = base + n as u64;
    let mut r = TestReader::new(&data, base, pos);
    let mut want = "UnexpectedEof";
    if fault {
        want = *t.pick(&["PermissionDenied", "NotFound", "InvalidData", "TimedOut"]);
        r.byte_fault = Some((pos + have, want));
    }
    if t.pct(60) {
        r.split = Some((bx::tape::Rng::new(t.draw() as u64), 1 + t.below(5) as u32, t.below(50) as u32));
    }
    let entry = t.below(ENTRIES as u64) as usize;
    let e = order(t);
    d.push_str(&format!("type {} entry {} {:?} at {:#x}, {} bytes, then {}", k, entry, e, pos, have, want));
    let x = match k {
        0 => go::<u8>(&mut r, entry, e, want, t),
        1 => go::<u16>(&mut r, entry, e, want, t),
        2 => go::<u32>(&mut r, entry, e, want, t),
        3 => go::<u64>(&mut r, entry, e, want, t),
        4 => go::<u128>(&mut r, entry, e, want, t),
        5 => go::<i8>(&mut r, entry, e, want, t),
        6 => go::<i16>(&mut r, entry, e, want, t),
        7 => go::<i32>(&mut r, entry, e, want, t),
        8 => go::<i64>(&mut r, entry, e, want, t),
        9 => go::<i128>(&mut r, entry, e, want, t),
        10 => go::<f32>(&mut r, entry, e, want, t),
        11 => go::<f64>(&mut r, entry, e, want, t),
        _ => go::<char>(&mut r, entry, e, want, t),
    };
    match x {
        Ok(()) => Out::Ok(true, data.iter().fold(mix(k as u64 * 100 + entry as u64 * 10 + e as u64, pos), |h, &b| mix(h, b as u64))),
        Err(m) => Out::Bad(m),
    }
}

pub fn failing_groups() -> Vec<Group> {
    vec![("scalars", failed, 1.0, true)]
}

pub fn groups() -> Vec<Group> {
    #[allow(unused_mut)]
    let mut g: Vec<Group> = vec![("positions", far, 1.0, true), ("cursor", cursor, 0.6, true)];
    #[cfg(feature = "std")]
    g.push(("buffered", buffered, 0.4, true));
    g
}
