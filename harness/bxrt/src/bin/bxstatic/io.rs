//! C22: the I/O layer without std, next to the standard library's.
use crate::Group;
use bx::prop::Out;
use bx::tape::{mix, Tape};
use std::io as s;

use binread::io as b;
use binread::io::StreamPosition;

/// (what happened, nothing else)
#[derive(Debug, PartialEq, Clone)]
enum Ev {
    N(u64),
    Bytes(Vec<u8>),
    Err(String),
    End,
}

fn sk(k: s::ErrorKind) -> Ev {
    Ev::Err(format!("{:?}", k))
}
fn bk(k: b::ErrorKind) -> Ev {
    Ev::Err(format!("{:?}", k))
}

fn sfrom(w: usize, x: i64) -> s::SeekFrom {
    match w {
        0 => s::SeekFrom::Start(x as u64),
        1 => s::SeekFrom::Current(x),
        _ => s::SeekFrom::End(x),
    }
}
fn bfrom(w: usize, x: i64) -> b::SeekFrom {
    match w {
        0 => b::SeekFrom::Start(x as u64),
        1 => b::SeekFrom::Current(x),
        _ => b::SeekFrom::End(x),
    }
}

fn amount(t: &mut Tape, len: usize) -> i64 {
    match t.below(9) {
        0 => 0,
        1 | 2 => t.below(len as u64 + 4) as i64,
        3 | 4 => -(t.below(len as u64 + 4) as i64),
        5 => i64::MAX - t.below(3) as i64,
        6 => i64::MIN + t.below(3) as i64,
        7 => t.u64() as i64,
        _ => -1,
    }
}

/// how much to read
fn size(t: &mut Tape, len: usize) -> usize {
    if len < 24 || t.below(3) > 0 { t.below(8) as usize } else { t.below(len as u64 + 4) as usize }
}

macro_rules! ops {
    ($t:ident, $d:ident, $a:ident, $c:ident, $len:expr, $mutate:expr) => {{
        let mut hash = $len as u64;
        let mut nt = false;
        for _ in 0..1 + $t.below(14) {
            let op = $t.below(12);
            let mut resync = false;
            let (x, y): (Ev, Ev) = match op {
                0 | 1 => {
                    let n = size($t, $len);
                    $d.push_str(&format!(" read {}", n));
                    let (mut p, mut q) = (vec![0xEEu8; n], vec![0xEEu8; n]);
                    let x = s::Read::read(&mut $a, &mut p);
                    let y = b::Read::read(&mut $c, &mut q);
                    if p != q {
                        return Out::Bad(format!("read {}: buffer {:?}, expected {:?}", n, &q[..n.min(40)], &p[..n.min(40)]));
                    }
                    (x.map_or_else(|e| sk(e.kind()), |n| Ev::N(n as u64)), y.map_or_else(|e| bk(e.kind()), |n| Ev::N(n as u64)))
                }
                2 | 3 => {
                    let n = size($t, $len);
                    $d.push_str(&format!(" read_exact {}", n));
                    let (mut p, mut q) = (vec![0u8; n], vec![0u8; n]);
                    let x = s::Read::read_exact(&mut $a, &mut p);
                    let y = b::Read::read_exact(&mut $c, &mut q);
                    // where a failed read_exact leaves the reader is not specified
                    resync = x.is_err() || y.is_err();
                    (x.map_or_else(|e| sk(e.kind()), |_| Ev::Bytes(p)), y.map_or_else(|e| bk(e.kind()), |_| Ev::Bytes(q)))
                }
                4 => {
                    let n = size($t, $len);
                    $d.push_str(&format!(" bytes {}", n));
                    let by_ref = $t.bool();
                    let x: Vec<u8> = s::Read::bytes(&mut $a).take(n).map(|x| x.unwrap()).collect();
                    let y: Vec<u8> = if by_ref {
                        b::Read::bytes(b::Read::by_ref(&mut $c)).take(n).map(|x| x.unwrap()).collect()
                    } else {
                        b::Read::bytes(&mut $c).take(n).map(|x| x.unwrap()).collect()
                    };
                    (Ev::Bytes(x), Ev::Bytes(y))
                }
                5 | 6 | 7 => {
                    let w = $t.below(3) as usize;
                    let mut n = amount($t, $len);
                    if w == 0 && n < 0 && $t.bool() {
                        n = n.wrapping_neg() & 0xff;
                    }
                    $d.push_str(&format!(" seek {} {}", ["start", "current", "end"][w], n));
                    let x = s::Seek::seek(&mut $a, sfrom(w, n));
                    let y = if $t.bool() { b::Seek::seek(&mut $c, bfrom(w, n)) } else { b::Seek::seek(&mut &mut $c, bfrom(w, n)) };
                    nt |= x.is_err();
                    (x.map_or_else(|e| sk(e.kind()), Ev::N), y.map_or_else(|e| bk(e.kind()), Ev::N))
                }
                8 => {
                    let p = match $t.below(3) {
                        0 => $t.below($len as u64 + 4),
                        1 => u64::MAX - $t.below(3),
                        _ => $t.u64(),
                    };
                    $d.push_str(&format!(" set_position {}", p));
                    $a.set_position(p);
                    $c.set_position(p);
                    (Ev::End, Ev::End)
                }
                9 => {
                    $d.push_str(" position");
                    let y = if $t.bool() { b::Seek::stream_position(&mut $c).unwrap() } else { $c.stream_pos().unwrap() };
                    (Ev::N(s::Seek::stream_position(&mut $a).unwrap()), Ev::N(y))
                }
                10 => {
                    let m: &dyn Fn(&mut Tape, &mut s::Cursor<_>, &mut b::Cursor<_>, &mut String) = &$mutate;
                    m($t, &mut $a, &mut $c, $d);
                    (Ev::End, Ev::End)
                }
                _ => {
                    $d.push_str(" clone");
                    $a = $a.clone();
                    $c = $c.clone();
                    (Ev::End, Ev::End)
                }
            };
            hash = mix(hash, op);
            if x != y {
                let cut = |e: &Ev| match e {
                    Ev::Bytes(v) => format!("{} bytes {:?}", v.len(), &v[..v.len().min(40)]),
                    e => format!("{:?}", e),
                };
                return Out::Bad(format!("{}, expected {}", cut(&y), cut(&x)));
            }
            nt |= matches!(&x, Ev::Err(_)) || matches!(&x, Ev::Bytes(v) if !v.is_empty());
            if resync {
                let p = $t.below($len as u64 + 3);
                $a.set_position(p);
                $c.set_position(p);
            }
            hash = mix(hash, $a.position());
            if $a.position() != $c.position() {
                return Out::Bad(format!("position {}, expected {}", $c.position(), $a.position()));
            }
            let (p, q): (&[u8], &[u8]) = ($a.get_ref().as_ref(), $c.get_ref().as_ref());
            if p != q {
                return Out::Bad(format!("buffer of {} bytes {:?}, expected {} bytes {:?}", q.len(), &q[..q.len().min(24)], p.len(), &p[..p.len().min(24)]));
            }
        }
        let (p, q) = ($a.into_inner(), $c.into_inner());
        let (p, q): (&[u8], &[u8]) = (p.as_ref(), q.as_ref());
        if p != q {
            return Out::Bad(format!("into_inner {:?}, expected {:?}", q, p));
        }
        Out::Ok(nt, hash)
    }};
}

fn cursor(t: &mut Tape, d: &mut String) -> Out {
    let n = match t.below(400) {
        399 => 65530 + t.below(12) as usize,
        350..=398 => t.below(700) as usize,
        _ => t.below(24) as usize,
    };
    let data: Vec<u8> = if n > 24 {
        (0..n).map(|i| (i ^ i >> 8) as u8).collect()
    } else {
        (0..n).map(|i| if t.pct(10) { t.byte() } else { i as u8 + 1 }).collect()
    };
    d.push_str(&format!("{} bytes of data {:?}:", n, &data[..n.min(24)]));
    match t.below(3) {
        0 => {
            let (mut a, mut c) = (s::Cursor::new(data.clone()), b::Cursor::new(data.clone()));
            ops!(t, d, a, c, data.len(), |t: &mut Tape, a: &mut s::Cursor<Vec<u8>>, c: &mut b::Cursor<Vec<u8>>, d: &mut String| {
                if t.bool() {
                    d.push_str(" truncate");
                    let k = a.get_ref().len() / 2;
                    a.get_mut().truncate(k);
                    c.get_mut().truncate(k);
                } else {
                    d.push_str(" push");
                    let x = t.byte();
                    a.get_mut().push(x);
                    c.get_mut().push(x);
                }
            })
        }
        1 => {
            let (mut a, mut c) = (s::Cursor::new(&data[..]), b::Cursor::new(&data[..]));
            ops!(t, d, a, c, data.len(), |_: &mut Tape, a: &mut s::Cursor<&[u8]>, c: &mut b::Cursor<&[u8]>, d: &mut String| {
                d.push_str(" narrow");
                let k = a.get_ref().len();
                *a.get_mut() = &a.get_ref()[..k - k / 3];
                *c.get_mut() = &c.get_ref()[..k - k / 3];
            })
        }
        _ => {
            let arr = [3u8, 1, 4, 1, 5, 9, 2, 6];
            let (mut a, mut c) = (s::Cursor::new(arr), b::Cursor::new(arr));
            ops!(t, d, a, c, arr.len(), |t: &mut Tape, a: &mut s::Cursor<[u8; 8]>, c: &mut b::Cursor<[u8; 8]>, d: &mut String| {
                d.push_str(" set");
                let i = t.below(8) as usize;
                a.get_mut()[i] = 77;
                c.get_mut()[i] = 77;
            })
        }
    }
}

const KINDS: [(&str, s::ErrorKind, b::ErrorKind); 8] = [
    ("Interrupted", s::ErrorKind::Interrupted, b::ErrorKind::Interrupted),
    ("NotFound", s::ErrorKind::NotFound, b::ErrorKind::NotFound),
    ("WouldBlock", s::ErrorKind::WouldBlock, b::ErrorKind::WouldBlock),
    ("Other", s::ErrorKind::Other, b::ErrorKind::Other),
    ("UnexpectedEof", s::ErrorKind::UnexpectedEof, b::ErrorKind::UnexpectedEof),
    ("TimedOut", s::ErrorKind::TimedOut, b::ErrorKind::TimedOut),
    ("BrokenPipe", s::ErrorKind::BrokenPipe, b::ErrorKind::BrokenPipe),
    ("InvalidInput", s::ErrorKind::InvalidInput, b::ErrorKind::InvalidInput),
];

#[derive(Clone, Copy, Debug)]
enum Step {
    Give(usize),
    Fail(usize),
}

/// A reader with a script. Data are the numbers from 1; `calls` counts the reads.
#[derive(Clone)]
struct Scripted {
    script: Vec<Step>,
    at: usize,
    next: u8,
    calls: usize,
    wrong_len: bool,
    seeks: Vec<String>,
    /// overrides read_exact
    own: bool,
    own_calls: usize,
}
impl Scripted {
    fn new(script: &[Step]) -> Self {
        Scripted { script: script.to_vec(), at: 0, next: 1, calls: 0, wrong_len: false, seeks: vec![], own: false, own_calls: 0 }
    }
    fn step(&mut self, buf: &mut [u8]) -> Result<usize, usize> {
        self.calls += 1;
        let st = match self.script.get(self.at) {
            Some(s) => *s,
            None => return Ok(0),
        };
        self.at += 1;
        match st {
            Step::Fail(k) => Err(k),
            Step::Give(n) => {
                let n = n.min(buf.len());
                for b in &mut buf[..n] {
                    *b = self.next;
                    self.next = self.next.wrapping_add(1);
                }
                Ok(n)
            }
        }
    }
}
impl s::Read for Scripted {
    fn read(&mut self, buf: &mut [u8]) -> s::Result<usize> {
        self.step(buf).map_err(|k| s::Error::new(KINDS[k].1, "script"))
    }
}
#[cfg(not(feature = "std"))]
impl b::Read for Scripted {
    fn read(&mut self, buf: &mut [u8]) -> b::Result<usize> {
        self.step(buf).map_err(|k| b::Error::new(KINDS[k].2, "script"))
    }
}

fn script(t: &mut Tape, d: &mut String) -> Out {
    let n = t.below(12) as usize;
    // now and then many interruptions in a row, or large pieces
    let large = t.below(30) == 29;
    let mut steps: Vec<Step> = vec![];
    for _ in 0..n {
        let s = match t.below(8) {
            0 => Step::Fail(0),
            1 => Step::Fail(1 + t.below(KINDS.len() as u64 - 1) as usize),
            2 => Step::Give(0),
            3 => Step::Give(if large { 5000 } else { 100 }),
            _ => Step::Give(1 + t.below(if large { 700 } else { 4 }) as usize),
        };
        let times = if t.below(60) == 59 { 1 + t.below(300) } else { 1 };
        for _ in 0..times {
            steps.push(s);
        }
    }
    if steps.len() < 20 {
        d.push_str(&format!("{:?}:", steps));
    } else {
        d.push_str(&format!("{} steps {:?}...:", steps.len(), &steps[..20]));
    }
    let (mut a, mut c) = (Scripted::new(&steps), Scripted::new(&steps));
    let mut hash = steps.iter().fold(n as u64, |h, s| mix(h, match s { Step::Give(n) => *n as u64, Step::Fail(k) => 1000 + *k as u64 }));
    let mut nt = false;
    for _ in 0..1 + t.below(5) {
        match t.below(3) {
            0 => {
                let n = t.below(if large { 1000 } else { 7 }) as usize;
                d.push_str(&format!(" read {}", n));
                let (mut p, mut q) = (vec![0; n], vec![0; n]);
                let x = s::Read::read(&mut a, &mut p).map_err(|e| sk(e.kind()));
                let y = b::Read::read(&mut &mut c, &mut q).map_err(|e| bk(e.kind()));
                if x != y || p != q {
                    return Out::Bad(format!("read: {:?} {:?}, expected {:?} {:?}", y, q, x, p));
                }
            }
            1 => {
                let n = t.below(if large { 1000 } else { 9 }) as usize;
                d.push_str(&format!(" read_exact {}", n));
                let (mut p, mut q) = (vec![0; n], vec![0; n]);
                let x = s::Read::read_exact(&mut a, &mut p).map_err(|e| sk(e.kind()));
                let y = match t.below(3) {
                    0 => b::Read::read_exact(&mut c, &mut q),
                    1 => b::Read::read_exact(&mut &mut c, &mut q),
                    _ => b::Read::read_exact(b::Read::by_ref(&mut c), &mut q),
                }
                .map_err(|e| bk(e.kind()));
                hash = mix(hash, n as u64);
                if x != y {
                    return Out::Bad(format!("read_exact {}: {:?}, expected {:?}", n, y, x));
                }
                nt |= n > 0;
                if x.is_err() {
                    return Out::Ok(true, hash);
                }
                if p != q {
                    return Out::Bad(format!("read_exact {}: {:?}, expected {:?}", n, q, p));
                }
            }
            _ => {
                let n = 1 + t.below(if large { 500 } else { 6 }) as usize;
                d.push_str(&format!(" bytes {}", n));
                let x: Vec<Ev> = s::Read::bytes(&mut a).take(n).map(|r| r.map_or_else(|e| sk(e.kind()), |b| Ev::N(b as u64))).collect();
                let y: Vec<Ev> = b::Read::bytes(&mut c).take(n).map(|r| r.map_or_else(|e| bk(e.kind()), |b| Ev::N(b as u64))).collect();
                hash = mix(hash, 100 + n as u64);
                if x != y {
                    return Out::Bad(format!("bytes {}: {:?}, expected {:?}", n, y, x));
                }
                nt |= !x.is_empty();
            }
        }
        if a.at != c.at {
            return Out::Bad(format!("{} steps of the script used, expected {}", c.at, a.at));
        }
    }
    Out::Ok(nt, hash)
}

/// Methods a reader overrides are reached through references
struct Own(Scripted);
impl b::Read for Own {
    fn read(&mut self, buf: &mut [u8]) -> b::Result<usize> {
        self.0.step(buf).map_err(|k| b::Error::new(KINDS[k].2, "script"))
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> b::Result<()> {
        self.0.own_calls += 1;
        for x in buf.iter_mut() {
            *x = 200;
        }
        Ok(())
    }
}
impl b::Seek for Own {
    fn seek(&mut self, to: b::SeekFrom) -> b::Result<u64> {
        self.0.seeks.push(format!("{:?}", to));
        Ok(self.0.seeks.len() as u64 * 1000)
    }
}

fn forward(t: &mut Tape, d: &mut String) -> Out {
    let mut r = Own(Scripted::new(&[Step::Give(3)]));
    let mut want: Vec<String> = vec![];
    let mut exact = 0;
    let mut hash = 0;
    for _ in 0..1 + t.below(6) {
        let op = t.below(5);
        hash = mix(hash, op);
        match op {
            0 => {
                let mut b = [0; 3];
                let mut rr = &mut r;
                b::Read::read_exact(&mut rr, &mut b).unwrap();
                exact += 1;
                if b != [200; 3] || r.0.own_calls != exact {
                    return Out::Bad("read_exact of the reader itself was not used".into());
                }
            }
            1 => {
                let w = t.below(3) as usize;
                let n = amount(t, 5);
                want.push(format!("{:?}", bfrom(w, n)));
                let mut rr = &mut r;
                let p = b::Seek::seek(&mut rr, bfrom(w, n)).unwrap();
                if p != want.len() as u64 * 1000 {
                    return Out::Bad(format!("seek answered {}", p));
                }
            }
            2 => {
                want.push(format!("{:?}", b::SeekFrom::Current(0)));
                let p = b::Seek::stream_position(&mut r).unwrap();
                if p != want.len() as u64 * 1000 {
                    return Out::Bad(format!("position {}", p));
                }
            }
            3 => {
                want.push(format!("{:?}", b::SeekFrom::Current(0)));
                let p = r.stream_pos().unwrap();
                if p != want.len() as u64 * 1000 {
                    return Out::Bad(format!("position {}", p));
                }
            }
            _ => {
                let (k, _, bkind) = KINDS[t.below(KINDS.len() as u64) as usize];
                let e = b::Error::new(bkind, "message");
                if e.kind() != bkind || !format!("{:?}", e).contains(k) {
                    return Out::Bad(format!("error of kind {}: {:?}", k, e));
                }
            }
        }
    }
    d.push_str(&format!("{:?}", r.0.seeks));
    if r.0.seeks != want {
        return Out::Bad(format!("seeks {:?}, expected {:?}", r.0.seeks, want));
    }
    Out::Ok(true, hash)
}

pub fn groups() -> Vec<Group> {
    vec![("cursor", cursor, 1.0, true), ("script", script, 1.0, true), ("forward", forward, 0.1, true)]
}
