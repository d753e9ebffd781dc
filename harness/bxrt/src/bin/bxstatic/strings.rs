//! C17: null-terminated strings.
use crate::scalars::{denote, order};
use crate::Group;
use binread::io::{Cursor, ErrorKind, Read, Seek, SeekFrom, StreamPosition};
use binread::{BinReaderExt, BinResult, Endian, Error, NullString, NullWideString};
use bx::prop::Out;
use bx::tape::{mix, Rng, Tape};
use bxrt::TestReader;
use core::num::{NonZeroU16, NonZeroU8};

fn units(t: &mut Tape, n: usize, zero_pct: u32) -> Vec<u8> {
    let mode = t.below(4);
    let mut out = vec![];
    let mut fast = Rng::new(t.draw() as u64);
    for i in 0..n {
        let small = n < 200;
        let mut w = |t: &mut Tape, m: u64| if small { t.below(m) } else { fast.next() % m };
        if w(t, 100) >= 100 - zero_pct as u64 {
            out.push(0);
        } else {
            out.push(match mode {
                0 => 1 + w(t, 255) as u8,
                1 => b'a' + w(t, 26) as u8,
                // one byte of each pair is zero
                2 => if i % 2 == 0 { b'a' + w(t, 26) as u8 } else { 0 },
                _ => [0x80u8, 0xc3, 0xa9, 0xf0, 0x9f, 0xd8, 0xdc, 0xff, b'x', 0xfe, 0xef, 0xbb, 0xbf, b' ', b'\n'][w(t, 15) as usize],
            });
        }
    }
    out
}

/// (units, end) or no terminator
fn narrow(d: &[u8], pos: usize) -> Option<(Vec<u16>, usize)> {
    let n = d.get(pos..)?.iter().position(|&b| b == 0)?;
    Some((d[pos..pos + n].iter().map(|&b| b as u16).collect(), pos + n + 1))
}

fn wide(d: &[u8], pos: usize, e: Endian) -> Option<(Vec<u16>, usize)> {
    let mut p = pos;
    let mut out = vec![];
    loop {
        let u = denote(d.get(p..p + 2)?, e) as u16;
        p += 2;
        if u == 0 {
            return Some((out, p));
        }
        out.push(u);
    }
}

fn get<R: Read + Seek>(r: &mut R, kind: usize, e: Endian) -> BinResult<Vec<u16>> {
    Ok(match kind {
        0 => {
            let s: NullString = r.read_type(e)?;
            let v: Vec<u8> = s.into();
            v.into_iter().map(|b| b as u16).collect()
        }
        1 => {
            let s: NullWideString = r.read_type(e)?;
            s.into()
        }
        2 => r.read_type::<Vec<NonZeroU8>>(e)?.into_iter().map(|b| b.get() as u16).collect(),
        _ => r.read_type::<Vec<NonZeroU16>>(e)?.into_iter().map(|b| b.get()).collect(),
    })
}

fn sequence<R: Read + Seek>(r: &mut R, data: &[u8], t: &mut Tape, d: &mut String) -> Out {
    let mut hash = data.iter().fold(data.len() as u64, |h, &b| mix(h, b as u64));
    let mut nt = false;
    for _ in 0..1 + t.below(4) {
        if t.pct(25) {
            let p = t.below(data.len() as u64 + 3);
            r.seek(SeekFrom::Start(p)).unwrap();
        }
        let pos = r.stream_pos().unwrap();
        let kind = t.below(4) as usize;
        let e = order(t);
        d.push_str(&format!(" kind {} {:?} at {}", kind, e, pos));
        hash = mix(hash, mix(pos, kind as u64 * 3 + e as u64));
        let want = if kind % 2 == 0 { narrow(data, pos as usize) } else { wide(data, pos as usize, e) };
        match (get(r, kind, e), want) {
            (Ok(got), Some((u, end))) => {
                if got != u {
                    return Out::Bad(format!("units {:x?}, expected {:x?}", got, u));
                }
                let at = r.stream_pos().unwrap();
                if at != end as u64 {
                    return Out::Bad(format!("reader at {}, expected {}", at, end));
                }
                nt |= !u.is_empty();
            }
            (Err(Error::Io(x)), None) if x.kind() == ErrorKind::UnexpectedEof => {
                nt = true;
                if t.bool() {
                    break;
                }
                let p = t.below(data.len() as u64 + 1);
                r.seek(SeekFrom::Start(p)).unwrap();
            }
            (Ok(got), None) => return Out::Bad(format!("no terminator, but read {:x?}", got)),
            (Err(x), w) => return Out::Bad(format!("{:?}, expected {:x?}", x, w)),
        }
    }
    Out::Ok(nt, hash)
}

fn size(t: &mut Tape) -> usize {
    match t.below(40) {
        0 => 1000 + t.below(200_000) as usize,
        1 | 2 => 200 + t.below(2000) as usize,
        _ => t.below(40) as usize,
    }
}

fn reads(t: &mut Tape, d: &mut String) -> Out {
    let n = size(t);
    let z = if n > 100 { t.below(2) as u32 } else { *t.pick(&[20, 5, 40, 0]) };
    let mut data = units(t, n, z);
    if n > 100 && t.bool() {
        // long, but with an end
        data.extend_from_slice(&[0; 4][..1 + t.below(4) as usize]);
    }
    d.push_str(&format!("{} bytes {:02x?}", data.len(), &data[..data.len().min(60)]));
    match t.below(3) {
        0 => {
            let mut r = Cursor::new(&data[..]);
            sequence(&mut r, &data, t, d)
        }
        k => {
            let mut r = TestReader::new(&data, 0, 0);
            if k == 2 {
                r.split = Some((Rng::new(t.draw() as u64), 1 + t.below(3) as u32, t.below(50) as u32));
                d.push_str(" split");
            }
            sequence(&mut r, &data, t, d)
        }
    }
}

/// Characters some treat as special: marks, blanks, controls, and the ends of ranges.
const ODD: [u32; 28] = [
    0xfeff, 0xfffe, 0xffff, 0xfffd, 0, 1, 9, 0xa, 0xd, 0x20, 0x1a, 0x7f, 0x80, 0x85, 0xa0, 0xad, 0x7ff, 0x800, 0x200b, 0x200d, 0x2028, 0x3000, 0xd7ff, 0xe000,
    0x10000, 0x1f600, 0x10ffff, 0x301,
];

/// text with invalid parts
fn text8(t: &mut Tape) -> Vec<u8> {
    let mut v = vec![];
    let n = if t.below(50) == 49 { t.below(500) } else { t.below(10) };
    for _ in 0..n {
        match t.below(7) {
            5 => {
                let c = char::from_u32(*t.pick(&ODD)).unwrap();
                let mut b = [0; 4];
                v.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            }
            0 => v.push(b'a' + t.below(26) as u8),
            1 => {
                let c = char::from_u32(t.below(0x11_0000) as u32).unwrap_or('\u{20ac}');
                let mut b = [0; 4];
                v.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            }
            2 => v.push(0x80 | t.byte()),
            3 => {
                let c = char::from_u32(0x10000 + t.below(0xf0000) as u32).unwrap();
                let mut b = [0; 4];
                let s = c.encode_utf8(&mut b).len();
                let cut = 1 + t.below(s as u64) as usize;
                v.extend_from_slice(&b[..cut]);
            }
            4 => v.extend_from_slice(*t.pick(&[&[0xc0u8, 0x80][..], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xef, 0xbf, 0xbd], &[b'"', b'\\', b'\n']])),
            _ => v.push(t.byte()),
        }
    }
    v
}

fn text16(t: &mut Tape) -> Vec<u16> {
    let mut v = vec![];
    let n = if t.below(50) == 49 { t.below(500) } else { t.below(10) };
    for _ in 0..n {
        match t.below(6) {
            4 => {
                let c = char::from_u32(*t.pick(&ODD)).unwrap();
                let mut b = [0; 2];
                v.extend_from_slice(c.encode_utf16(&mut b));
            }
            0 => v.push(b'a' as u16 + t.below(26) as u16),
            1 => v.push(0xd800 + t.below(0x400) as u16),
            2 => v.push(0xdc00 + t.below(0x400) as u16),
            3 => {
                let c = char::from_u32(0x10000 + t.below(0xf0000) as u32).unwrap();
                let mut b = [0; 2];
                v.extend_from_slice(c.encode_utf16(&mut b));
            }
            _ => v.push((t.draw() >> 16) as u16),
        }
    }
    v
}

/// another one, or the same
fn near<T: Copy + PartialEq>(t: &mut Tape, v: &[T], x: T) -> Vec<T> {
    let mut w = v.to_vec();
    let i = t.below(w.len() as u64) as usize;
    match t.below(5) {
        0 => w.push(x),
        1 if !w.is_empty() => drop(w.pop()),
        2 if !w.is_empty() => w[i] = x,
        3 if !w.is_empty() => drop(w.remove(i)),
        _ => {}
    }
    w
}

fn text(t: &mut Tape, d: &mut String) -> Out {
    macro_rules! same {
        ($what:expr, $a:expr, $b:expr) => {
            let (a, b) = ($a, $b);
            if a != b {
                return Out::Bad(format!("{}: {:?}, expected {:?}", $what, a, b));
            }
        };
    }
    if t.bool() {
        let v = text8(t);
        d.push_str(&format!("narrow {:02x?}", v));
        let lossy = String::from_utf8_lossy(&v).into_owned();
        let s = NullString(v.clone());
        same!("to_string", s.to_string(), lossy.clone());
        same!("into_string", s.clone().into_string(), lossy.clone());
        same!("lossless", s.clone().into_string_lossless(), String::from_utf8(v.clone()));
        same!("deref", (*s).clone(), v.clone());
        same!("bytes", Vec::<u8>::from(s.clone()), v.clone());
        let dbg = format!("{:?}", s);
        if !dbg.contains(&format!("{:?}", lossy)) {
            return Out::Bad(format!("Debug: {} for {:?}", dbg, lossy));
        }
        let nz: Vec<NonZeroU8> = v.iter().filter_map(|&b| NonZeroU8::new(b)).collect();
        let w: Vec<u8> = v.iter().copied().filter(|&b| b != 0).collect();
        same!("from", NullString::from(nz).0, w);
        let x = t.byte();
        let other = near(t, &v, x);
        same!("equality", s == NullString(other.clone()), v == other);
        let h = v.iter().fold(8, |h, &b| mix(h, b as u64));
        Out::Ok(String::from_utf8(v).is_err() || !lossy.is_ascii(), h)
    } else {
        let v = text16(t);
        d.push_str(&format!("wide {:04x?}", v));
        let lossy: String = char::decode_utf16(v.iter().copied()).map(|c| c.unwrap_or('\u{fffd}')).collect();
        let s = NullWideString(v.clone());
        same!("to_string", s.to_string(), lossy.clone());
        same!("into_string", s.clone().into_string(), lossy.clone());
        same!("lossless", s.clone().into_string_lossless().ok(), String::from_utf16(&v).ok());
        same!("deref", (*s).clone(), v.clone());
        same!("units", Vec::<u16>::from(s.clone()), v.clone());
        let dbg = format!("{:?}", s);
        if !dbg.contains(&format!("{:?}", lossy)) {
            return Out::Bad(format!("Debug: {} for {:?}", dbg, lossy));
        }
        let nz: Vec<NonZeroU16> = v.iter().filter_map(|&b| NonZeroU16::new(b)).collect();
        let w: Vec<u16> = v.iter().copied().filter(|&b| b != 0).collect();
        same!("from", NullWideString::from(nz).0, w);
        let x = (t.draw() >> 16) as u16;
        let other = near(t, &v, x);
        same!("equality", s == NullWideString(other.clone()), v == other);
        let h = v.iter().fold(16, |h, &b| mix(h, b as u64));
        Out::Ok(String::from_utf16(&v).is_err() || !lossy.is_ascii(), h)
    }
}

pub fn groups() -> Vec<Group> {
    vec![("reads", reads, 1.0, true), ("text", text, 0.5, true)]
}
