//! C15, C16, C18, C19: long collections, and counts and pointers that lie.
use crate::scalars::{denote, order};
use crate::Group;
use binread::io::{Cursor, ErrorKind, Read, Seek, StreamPosition};
use binread::punctuated::Punctuated;
use binread::{helpers, BinRead, BinReaderExt, BinResult, Endian, Error, FilePtr, NullString, NullWideString, ReadOptions};
use bx::prop::Out;
use bx::tape::{mix, Rng, Tape};
use bxrt::{mem, TestReader};
use std::collections::VecDeque;

const CHUNK: u64 = 0x10000;

fn fast(t: &mut Tape, n: usize) -> Vec<u8> {
    let mut r = Rng::new(t.draw() as u64);
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend_from_slice(&r.next().to_le_bytes());
    }
    v.truncate(n);
    v
}

fn length(t: &mut Tape) -> u64 {
    match t.below(10) {
        0..=5 => t.below(40),
        6 => (CHUNK - 3) + t.below(7),
        7 => (2 * CHUNK - 3) + t.below(7),
        8 => t.below(4) * CHUNK + t.below(5),
        _ => t.below(4 * CHUNK),
    }
}

/// what the collection holds, element by element
type Got = BinResult<Vec<u128>>;

fn wide<T: Copy + Into<u128>>(v: impl IntoIterator<Item = T>) -> Vec<u128> {
    v.into_iter().map(|x| x.into()).collect()
}

#[derive(BinRead)]
struct Derived {
    n: u64,
    #[br(count = n)]
    v: Vec<u8>,
}
#[derive(BinRead)]
struct Derived2 {
    n: u64,
    #[br(count = n, parse_with = helpers::read_bytes)]
    v: Vec<u8>,
}
#[derive(BinRead)]
struct Derived3 {
    n: u64,
    #[br(parse_with = helpers::count(n as usize))]
    v: VecDeque<u16>,
}

/// way, element size
const WAYS: [usize; 10] = [1, 1, 2, 4, 1, 2, 16, 1, 1, 2];

fn opts(e: Endian, n: u64) -> ReadOptions {
    let mut ro = ReadOptions::default();
    ro.endian = e;
    ro.count = Some(n as usize);
    ro
}

/// reads n elements
fn counted<R: Read + Seek>(r: &mut R, way: usize, e: Endian, n: u64) -> Got {
    let ro = opts(e, n);
    match way {
        0 => helpers::read_bytes(r, &ro, ()).map(wide),
        1 => Vec::<u8>::read_options(r, &ro, ()).map(wide),
        2 => Vec::<u16>::read_options(r, &ro, ()).map(wide),
        3 => Vec::<u32>::read_options(r, &ro, ()).map(wide),
        4 => helpers::count(n as usize)(r, &ro, ()).map(|v: Vec<u8>| wide(v)),
        5 => helpers::count(n as usize)(r, &ro, ()).map(|v: VecDeque<u16>| wide(v)),
        6 => Vec::<u128>::read_options(r, &ro, ()).map(wide),
        7 => r.read_type::<Derived>(e).map(|d| if d.n == n { wide(d.v) } else { vec![] }),
        8 => r.read_type::<Derived2>(e).map(|d| if d.n == n { wide(d.v) } else { vec![] }),
        _ => r.read_type::<Derived3>(e).map(|d| if d.n == n { wide(d.v) } else { vec![] }),
    }
}

fn elements(b: &[u8], size: usize, e: Endian) -> Vec<u128> {
    b.chunks_exact(size).map(|c| denote(c, e)).collect()
}

fn n_bytes(n: u64, e: Endian) -> [u8; 8] {
    match e {
        Endian::Big => n.to_be_bytes(),
        Endian::Little => n.to_le_bytes(),
        Endian::Native => n.to_ne_bytes(),
    }
}

fn short(v: &[u128]) -> String {
    format!("{} elements {:x?}", v.len(), &v[..v.len().min(6)])
}

fn judge(got: Got, want: Option<&[u128]>, pos: u64, end: u64) -> Result<(), String> {
    match (got, want) {
        (Ok(g), Some(w)) if g != w => Err(format!("{}, expected {}", short(&g), short(w))),
        (Ok(_), Some(_)) if pos != end => Err(format!("reader at {}, expected {}", pos, end)),
        (Ok(_), Some(_)) => Ok(()),
        (Err(Error::Io(x)), None) if x.kind() == ErrorKind::UnexpectedEof => Ok(()),
        (Ok(g), None) => Err(format!("{} from too little input", short(&g))),
        (Err(x), w) => Err(format!("{:?}, expected {:?}", x, w.map(short))),
    }
}

fn count_case(t: &mut Tape, d: &mut String, split: bool) -> Out {
    let way = t.below(WAYS.len() as u64) as usize;
    let size = WAYS[way];
    let e = order(t);
    let n = length(t) / if size > 2 { 4 } else { 1 };
    let lead = t.below(4) as usize;
    let head = if way >= 7 { 8 } else { 0 };
    let need = head + n as usize * size;
    let have = match t.below(4) {
        0 if n > 0 => need - 1 - t.below((n * size as u64).min(20)) as usize,
        1 => need + t.below(20) as usize,
        _ => need,
    };
    let mut data = fast(t, lead + have);
    if head > 0 {
        data.splice(lead..lead + 8.min(have), n_bytes(n, e)[..8.min(have)].iter().copied());
    }
    d.push_str(&format!("way {} count {} {:?} bytes {} from {}", way, n, e, have, lead));
    let mut r = TestReader::new(&data, 0, lead as u64);
    if split {
        let m = if n > 200 { 30_000 } else { 7 };
        let int = if n > 200 { t.below(3) } else { t.below(50) };
        r.split = Some((Rng::new(t.draw() as u64), 1 + t.below(m) as u32, int as u32));
        d.push_str(&format!(" split {:?}", r.split.as_ref().map(|s| (s.1, s.2))));
    }
    let got = counted(&mut r, way, e, n);
    let want = if have >= need { Some(elements(&data[lead + head..lead + need], size, e)) } else { None };
    let end = (lead + need) as u64;
    if let Err(m) = judge(got, want.as_deref(), r.stream_pos().unwrap(), end) {
        return Out::Bad(m);
    }
    Out::Ok(n > 0 && (!split || r.splits + r.ints > 0), mix(mix(way as u64, n), mix(have as u64, lead as u64 * 4 + e as u64)))
}

/// a collection that ends by condition or at the end
fn ends_case(t: &mut Tape, d: &mut String, split: bool) -> Out {
    let e = order(t);
    let wide2 = t.bool();
    let size = if wide2 { 2 } else { 1 };
    let n = length(t) as usize;
    let lead = t.below(4) as usize;
    let extra = t.below(size as u64) as usize;
    let mut data = fast(t, lead + n * size + extra);
    // no stop yet: every byte below 0x80
    for b in data.iter_mut() {
        *b &= 0x7f;
    }
    let stop = if t.pct(80) && n > 0 { Some(if t.bool() { n - 1 } else { t.below(n as u64) as usize }) } else { None };
    if let Some(s) = stop {
        for b in &mut data[lead + s * size..lead + (s + 1) * size] {
            *b |= 0x80;
        }
    }
    let way = t.below(3) as usize;
    d.push_str(&format!("{} of {} elements of {} bytes and {} more, {:?}, stop {:?}, from {}", ["until", "until_exclusive", "until_eof"][way], n, size, extra, e, stop, lead));
    let mut r = TestReader::new(&data, 0, lead as u64);
    if split {
        let m = if n > 200 { 30_000 } else { 7 };
        r.split = Some((Rng::new(t.draw() as u64), 1 + t.below(m) as u32, t.below(if n > 200 { 3 } else { 50 }) as u32));
    }
    let ro = opts(e, t.below(100));
    let got: Got = match (way, wide2) {
        (0, false) => helpers::until(|x: &u8| x & 0x80 != 0)(&mut r, &ro, ()).map(|v: Vec<u8>| wide(v)),
        (0, true) => helpers::until(|x: &u16| x & 0x8080 == 0x8080)(&mut r, &ro, ()).map(|v: VecDeque<u16>| wide(v)),
        (1, false) => helpers::until_exclusive(|x: &u8| x & 0x80 != 0)(&mut r, &ro, ()).map(|v: VecDeque<u8>| wide(v)),
        (1, true) => helpers::until_exclusive(|x: &u16| x & 0x8080 == 0x8080)(&mut r, &ro, ()).map(|v: Vec<u16>| wide(v)),
        (_, false) => helpers::until_eof(&mut r, &ro, ()).map(|v: Vec<u8>| wide(v)),
        (_, true) => helpers::until_eof(&mut r, &ro, ()).map(|v: Vec<u16>| wide(v)),
    };
    let all = elements(&data[lead..lead + n * size], size, e);
    let (want, end) = match (way, stop) {
        (0, Some(s)) => (Some(&all[..=s]), lead + (s + 1) * size),
        (1, Some(s)) => (Some(&all[..s]), lead + (s + 1) * size),
        (2, _) => (Some(&all[..]), lead + n * size),
        _ => (None, 0),
    };
    if let Err(m) = judge(got, want, r.stream_pos().unwrap(), end as u64) {
        return Out::Bad(m);
    }
    Out::Ok(n > 0 && (!split || r.splits + r.ints > 0), mix(mix(way as u64, n as u64), mix(stop.map_or(0, |s| s as u64 + 1), lead as u64 * 8 + e as u64 * 2 + size as u64)))
}

fn count_whole(t: &mut Tape, d: &mut String) -> Out {
    count_case(t, d, false)
}
fn count_split(t: &mut Tape, d: &mut String) -> Out {
    count_case(t, d, true)
}
fn ends_whole(t: &mut Tape, d: &mut String) -> Out {
    ends_case(t, d, false)
}
fn ends_split(t: &mut Tape, d: &mut String) -> Out {
    ends_case(t, d, true)
}

fn punct(t: &mut Tape, d: &mut String) -> Out {
    let e = order(t);
    let n = length(t) / 4;
    let trailing = t.bool();
    let lead = t.below(4) as usize;
    let (es, ss) = *t.pick(&[(1usize, 1usize), (2, 1), (1, 2), (4, 2), (2, 4)]);
    let seps = if trailing { n } else { n.saturating_sub(1) };
    let need = n as usize * es + seps as usize * ss;
    let have = match t.below(4) {
        0 if need > 0 => need - 1 - t.below(need.min(20) as u64) as usize,
        1 => need + t.below(9) as usize,
        _ => need,
    };
    let data = fast(t, lead + have);
    d.push_str(&format!("{} elements of {} and {} separators of {} bytes, {:?}, have {} of {} bytes from {}", n, es, seps, ss, e, have, need, lead));
    let mut r = TestReader::new(&data, 0, lead as u64);
    if t.pct(20) {
        r.split = Some((Rng::new(t.draw() as u64), 1 + t.below(3) as u32, t.below(30) as u32));
    }
    let ro = opts(e, n);
    macro_rules! go {
        ($a:ty, $b:ty) => {
            if trailing { Punctuated::<$a, $b>::separated_trailing(&mut r, &ro, ()) } else { Punctuated::<$a, $b>::separated(&mut r, &ro, ()) }
                .map(|p| (wide(p.iter().copied()), wide(p.seperators)))
        };
    }
    let got = match (es, ss) {
        (1, 1) => go!(u8, u8),
        (2, 1) => go!(u16, u8),
        (1, 2) => go!(u8, u16),
        (4, 2) => go!(u32, u16),
        _ => go!(u16, u32),
    };
    let pos = r.stream_pos().unwrap();
    match got {
        Ok((a, b)) => {
            if have < need {
                return Out::Bad("a list from too little input".into());
            }
            let (mut wa, mut wb) = (vec![], vec![]);
            let mut p = lead;
            for i in 0..n {
                wa.push(denote(&data[p..p + es], e));
                p += es;
                if i < seps {
                    wb.push(denote(&data[p..p + ss], e));
                    p += ss;
                }
            }
            if a != wa || b != wb {
                return Out::Bad(format!("{} / {}, expected {} / {}", short(&a), short(&b), short(&wa), short(&wb)));
            }
            if pos != (lead + need) as u64 {
                return Out::Bad(format!("reader at {}, expected {}", pos, lead + need));
            }
        }
        Err(Error::Io(x)) if x.kind() == ErrorKind::UnexpectedEof && have < need => {}
        Err(x) => return Out::Bad(format!("{:?}", x)),
    }
    Out::Ok(n > 1, mix(mix(n, es as u64 * 5 + ss as u64), mix(have as u64, trailing as u64 * 4 + lead as u64)))
}

// ---- hostile ----

fn lie(t: &mut Tape) -> u64 {
    match t.below(8) {
        0 => u64::MAX,
        1 => u64::MAX >> t.below(64),
        2 => 1 << t.below(64),
        3 => (1 << 63) - t.below(3),
        4 => (1u64 << 63) + t.below(3),
        5 => u64::MAX / *t.pick(&[1u64, 2, 3, 4, 8, 16, 24]) - t.below(2),
        6 => (1 << 32) + t.below(5),
        _ => t.u64(),
    }
}

#[derive(BinRead)]
struct Hostile {
    n: u64,
    #[br(count = n)]
    _v: Vec<(u8, u32)>,
}
#[derive(BinRead)]
struct HostileP {
    n: u64,
    #[br(count = n, parse_with = Punctuated::separated)]
    _v: Punctuated<u32, u8>,
}
#[derive(BinRead)]
struct HostilePad {
    n: u64,
    #[br(pad_before = n as i64, pad_after = n as i64, pad_size_to = n)]
    _v: u8,
    #[br(align_before = 1 << (n & 31), align_after = 4096)]
    _w: u8,
    #[br(seek_before(binread::io::SeekFrom::Current(n as i64)))]
    _x: u8,
    #[br(seek_before(binread::io::SeekFrom::End(n as i64)), pad_size_to = n as u32)]
    _y: u16,
    #[br(seek_before(binread::io::SeekFrom::Start(n)), offset = n)]
    _z: FilePtr<u64, u64>,
    #[br(offset = n, offset_after = n)]
    _zz: FilePtr<i64, NullString>,
}
#[derive(BinRead)]
struct HostilePtr {
    n: i64,
    #[br(offset = n as u64)]
    _a: FilePtr<u64, u8>,
    _b: FilePtr<u128, [u16; 3]>,
    _c: FilePtr<i128, NullWideString>,
    #[br(parse_with = FilePtr::<i64, u8>::parse)]
    _d: u8,
}
#[derive(BinRead)]
enum HostileEnum {
    A(Hostile, #[br(assert(false))] u8),
    B(HostileP),
    C(HostilePad),
    #[br(magic = b"abc")]
    D(HostilePtr),
    E(#[br(parse_with = helpers::until_eof)] Vec<u16>),
}

fn hostile_case(t: &mut Tape, d: &mut String) -> Out {
    let way = t.below(20) as usize;
    let e = order(t);
    let n = lie(t);
    let len = match t.below(4) {
        0 => t.below(200_000),
        1 => CHUNK + t.below(3) - 1,
        _ => t.below(60),
    } as usize;
    let mut data = fast(t, len);
    if t.bool() {
        // no terminator
        for b in data.iter_mut() {
            *b |= 1;
        }
    }
    let mut p = 0;
    while p + 8 <= data.len() && p < 48 {
        let x = if p == 0 { n } else if t.bool() { lie(t) } else { t.below(len as u64) };
        data[p..p + 8].copy_from_slice(&n_bytes(x, e));
        p += 8;
    }
    d.push_str(&format!("way {} {:?} count {:#x} input {} bytes {:02x?}", way, e, n, len, &data[..len.min(64)]));
    let mut r = TestReader::new(&data, 0, 0);
    r.budget = 400 + 12 * len as u64;
    let ro = opts(e, n);
    // what cannot fit must fail; (way, bytes per element at least)
    let fits = |per: u128| n as u128 * per <= len as u128;
    let base = mem::start();
    let (ok, io) = {
        macro_rules! go {
            ($e:expr, $must:expr) => {{
                let r = $e;
                let io = match &r {
                    Err(Error::Io(x)) => x.kind() == ErrorKind::UnexpectedEof,
                    _ => false,
                };
                (r.map(drop).is_ok(), if $must { Some(io) } else { None })
            }};
        }
        match way {
            0 => go!(helpers::read_bytes(&mut r, &ro, ()), !fits(1)),
            1 => go!(Vec::<u8>::read_options(&mut r, &ro, ()), !fits(1)),
            2 => go!(Vec::<u64>::read_options(&mut r, &ro, ()), !fits(8)),
            3 => go!(Vec::<[u8; 3]>::read_options(&mut r, &ro, ()), !fits(3)),
            4 => go!(Vec::<(u8, u16)>::read_options(&mut r, &ro, ()), !fits(3)),
            5 => go!(Vec::<NullString>::read_options(&mut r, &ro, ()), !fits(1)),
            6 => go!(Vec::<Box<u32>>::read_options(&mut r, &ro, ()), !fits(4)),
            7 => go!(Vec::<FilePtr<u64, u8>>::read_options(&mut r, &ro, ()), !fits(8)),
            8 => go!(helpers::count::<_, u16, _, Vec<u16>>(n as usize)(&mut r, &ro, ()), !fits(2)),
            9 => go!(Punctuated::<u8, u8>::separated(&mut r, &ro, ()), !fits(1)),
            10 => go!(Punctuated::<u32, u8>::separated_trailing(&mut r, &ro, ()), !fits(4)),
            11 => go!(NullString::read_options(&mut r, &ro, ()), false),
            12 => go!(NullWideString::read_options(&mut r, &ro, ()), false),
            13 => go!(helpers::until_eof::<_, (u8, u32), _, Vec<_>>(&mut r, &ro, ()), false),
            14 => go!(helpers::until::<_, u8, _, _, Vec<u8>>(|_| false)(&mut r, &ro, ()), true),
            15 => go!(r.read_type::<Hostile>(e), len < 8 || !fits(5)),
            16 => go!(r.read_type::<HostileP>(e), len < 8 || !fits(4)),
            17 => go!(r.read_type::<HostilePad>(e), false),
            18 => go!(r.read_type::<HostilePtr>(e), false),
            _ => go!(r.read_type::<HostileEnum>(e), false),
        }
    };
    let used = mem::peak(base);
    if io == Some(false) {
        return Out::Bad(format!("the input is too short, but the outcome is {}", if ok { "a value" } else { "another error" }));
    }
    // a chunk, and a multiple of what is there
    let limit = 4 * CHUNK as usize + 250 * len;
    if used > limit {
        return Out::Bad(format!("{} bytes of memory for an input of {} bytes", used, len));
    }
    Out::Ok(true, mix(mix(way as u64, n), len as u64))
}

fn cursors(t: &mut Tape, d: &mut String) -> Out {
    // the same through the library's own cursor
    let e = order(t);
    let n = lie(t);
    let len = t.below(100) as usize;
    let mut data = fast(t, len);
    if len >= 8 {
        data[..8].copy_from_slice(&n_bytes(n, e));
    }
    if len >= 16 {
        data[8..16].copy_from_slice(&n_bytes(lie(t), e));
    }
    d.push_str(&format!("{:?} {:02x?}", e, data));
    let mut c = Cursor::new(&data[..]);
    let way = t.below(5);
    let base = mem::start();
    let _ = match way {
        0 => c.read_type::<Hostile>(e).is_ok(),
        1 => c.read_type::<HostileP>(e).is_ok(),
        2 => c.read_type::<HostilePad>(e).is_ok(),
        3 => c.read_type::<HostilePtr>(e).is_ok(),
        _ => c.read_type::<HostileEnum>(e).is_ok(),
    };
    let used = mem::peak(base);
    if used > 4 * CHUNK as usize + 250 * len {
        return Out::Bad(format!("{} bytes of memory for an input of {} bytes", used, len));
    }
    Out::Ok(true, mix(mix(way, n), len as u64))
}

pub fn collections() -> Vec<Group> {
    vec![("counted", count_whole, 1.0, true), ("ended", ends_whole, 0.6, true)]
}
pub fn punctuated() -> Vec<Group> {
    vec![("punctuated", punct, 1.0, true)]
}
pub fn hostile() -> Vec<Group> {
    vec![("hostile", hostile_case, 1.0, false), ("hostile cursor", cursors, 0.5, false)]
}
pub fn split() -> Vec<Group> {
    vec![("counted split", count_split, 1.0, true), ("ended split", ends_split, 0.6, true)]
}
