//! C29: where the template goes, what it starts with, and that entries stay whole.
use crate::scalars::order;
use crate::Group;
use binread::io::Cursor;
use binread::{binary_template as bt, BinRead, Endian, NullString, ReadOptions};
use bx::model::Tpl;
use bx::prop::Out;
use bx::tape::{mix, Tape};
use bxrt::template;
use std::io::{self, Write};
use std::sync::{Arc, Mutex, Once};

#[derive(BinRead)]
#[allow(dead_code)]
struct Inner {
    x: u8,
    #[br(big)]
    y: i32,
}

#[derive(BinRead)]
#[allow(dead_code)]
struct Outer {
    n: u16,
    inner: Inner,
    #[br(little, count = 2)]
    list: Vec<u16>,
    text: NullString,
}

#[derive(Clone, Default)]
struct Buf(Arc<Mutex<Vec<u8>>>);

impl Write for Buf {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.lock().unwrap().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A place for the text, and the entries it should hold
enum Sink {
    Mem(Buf, Vec<Tpl>),
    File(std::path::PathBuf, Vec<Tpl>),
}

impl Sink {
    fn want(&mut self) -> &mut Vec<Tpl> {
        match self {
            Sink::Mem(_, v) | Sink::File(_, v) => v,
        }
    }
    fn check(&mut self) -> Result<usize, String> {
        let text = match self {
            Sink::Mem(b, _) => String::from_utf8_lossy(&b.0.lock().unwrap()).into_owned(),
            Sink::File(p, _) => std::fs::read_to_string(p).map_err(|e| format!("{:?}", e))?,
        };
        let body = template::header(&text).map_err(|e| format!("{}\n--- output\n{}", e, text))?;
        template::verify(self.want(), body).map_err(|e| format!("{}\n--- output\n{}", e, text))
    }
}

fn entry(pos: u64, e: Endian, ty: &str, count: Option<u64>, name: Option<&str>) -> Tpl {
    let e = match e {
        Endian::Big => 0,
        Endian::Little => 1,
        _ => 2,
    };
    Tpl::Entry { pos, e, ty: ty.into(), exact: true, count, optional: false, name: name.map(Into::into) }
}

fn number(out: &mut Vec<Tpl>, t: u64, pos: u64, e: Endian) {
    out.push(entry(pos, e, ["u8", "i64", "f32"][t as usize], None, None));
}

fn one(t: &mut Tape, want: &mut Vec<Tpl>) -> Result<(), String> {
    let e = order(t);
    let mut ro = ReadOptions::default();
    ro.endian = e;
    let pos = t.below(40);
    let mut data = vec![0u8; 64];
    for b in &mut data {
        *b = 1 + t.below(255) as u8;
    }
    data[63] = 0;
    let mut c = Cursor::new(&data[..]);
    c.set_position(pos);
    let bad = |e: binread::Error| format!("{:?}", e);
    match t.below(6) {
        k @ 0..=2 => {
            number(want, k, pos, e);
            match k {
                0 => u8::read_options(&mut c, &ro, ()).map(drop),
                1 => i64::read_options(&mut c, &ro, ()).map(drop),
                _ => f32::read_options(&mut c, &ro, ()).map(drop),
            }
            .map_err(bad)?
        }
        3 => {
            want.push(entry(pos, e, "u16", Some(3), None));
            <[u16; 3]>::read_options(&mut c, &ro, ()).map_err(bad)?;
        }
        4 => {
            let n = t.below(5);
            ro.count = Some(n as usize);
            want.push(entry(pos, e, "i16", Some(n), None));
            <Vec<i16>>::read_options(&mut c, &ro, ()).map_err(bad)?;
        }
        _ => {
            want.push(Tpl::Start("Outer".into()));
            want.push(entry(pos, e, "u16", None, Some("n")));
            want.push(Tpl::Start("Inner".into()));
            want.push(entry(pos + 2, e, "u8", None, Some("x")));
            want.push(entry(pos + 3, Endian::Big, "i32", None, Some("y")));
            want.push(Tpl::End(Some("inner".into())));
            want.push(entry(pos + 7, Endian::Little, "u16", Some(2), None));
            want.push(entry(pos + 11, e, "string", None, Some("text")));
            let k = [0, 1, 2][[Endian::Big, Endian::Little, Endian::Native].iter().position(|x| *x == e).unwrap()];
            for i in pos + 11..64 {
                want.push(Tpl::Entry { pos: i, e: k, ty: "u8".into(), exact: true, count: None, optional: true, name: None });
            }
            want.push(Tpl::End(Some("root".into())));
            Outer::read_options(&mut c, &ro, ()).map_err(bad)?;
        }
    }
    Ok(())
}

static FIRST: Once = Once::new();

fn scratch() -> std::path::PathBuf {
    std::env::temp_dir().join(format!("bxstatic-{}", std::process::id()))
}

/// The output named by the environment is used until another is chosen
fn environment(t: &mut Tape) -> Result<(), String> {
    std::fs::create_dir_all(scratch()).map_err(|e| format!("{:?}", e))?;
    let p = scratch().join("env.bt");
    std::env::set_var("DEBUG_TEMPLATE", &p);
    let mut s = Sink::File(p.clone(), vec![]);
    for _ in 0..4 {
        one(t, s.want())?;
    }
    bt::unset_output();
    one(t, &mut vec![])?;
    let r = s.check().map(drop).map_err(|e| format!("DEBUG_TEMPLATE: {}", e));
    let _ = std::fs::remove_file(p);
    r
}

fn outputs(t: &mut Tape, d: &mut String) -> Out {
    let mut first = Ok(());
    FIRST.call_once(|| first = environment(t));
    let mut sinks: Vec<Sink> = vec![];
    let mut now: Option<usize> = None;
    bt::unset_output();
    let mut step = |t: &mut Tape, d: &mut String| -> Result<u64, String> {
        first.clone()?;
        for _ in 0..1 + t.below(8) {
            match t.below(8) {
                0 => {
                    d.push_str(" set_output");
                    let b = Buf::default();
                    bt::set_output(b.clone());
                    now = Some(sinks.len());
                    sinks.push(Sink::Mem(b, vec![]));
                }
                1 if t.pct(10) => {
                    d.push_str(" set_output_file");
                    std::fs::create_dir_all(scratch()).map_err(|e| format!("{:?}", e))?;
                    let p = scratch().join(format!("{}.bt", sinks.len()));
                    bt::set_output_file(&p).map_err(|e| format!("{:?}", e))?;
                    now = Some(sinks.len());
                    sinks.push(Sink::File(p, vec![]));
                }
                2 => {
                    d.push_str(" unset_output");
                    bt::unset_output();
                    now = None;
                }
                _ => {
                    d.push_str(" read");
                    let mut none = vec![];
                    one(t, now.map_or(&mut none, |k| sinks[k].want()))?;
                }
            }
        }
        bt::unset_output();
        let mut n = sinks.len() as u64;
        for (i, s) in sinks.iter_mut().enumerate() {
            n = mix(n, s.check().map_err(|e| format!("output {}: {}", i, e))? as u64 + s.want().len() as u64);
        }
        Ok(n)
    };
    let r = step(t, d);
    for s in &sinks {
        if let Sink::File(p, _) = s {
            let _ = std::fs::remove_file(p);
        }
    }
    let _ = std::fs::remove_dir(scratch());
    match r {
        Err(e) => Out::Bad(e),
        Ok(h) => {
            // anything was written or held back
            Out::Ok(!sinks.is_empty(), t.used().iter().fold(h, |h, &x| mix(h, x as u64)))
        }
    }
}

/// Reads from several threads at once: each entry stays in one piece
fn threads(t: &mut Tape, d: &mut String) -> Out {
    let b = Buf::default();
    bt::set_output(b.clone());
    let seed = t.u64();
    let k = 2 + t.below(2);
    d.push_str(&format!("{} threads, {:#x}", k, seed));
    let hs: Vec<_> = (0..k)
        .map(|i| {
            std::thread::spawn(move || {
                let mut w = vec![];
                let mut t = Tape::random(mix(seed, i));
                for _ in 0..30 {
                    let (e, p) = (order(&mut t), t.below(8) * 8 + i);
                    let ty = t.below(3);
                    let mut ro = ReadOptions::default();
                    ro.endian = e;
                    let data = [0u8; 80];
                    let mut c = Cursor::new(&data[..]);
                    c.set_position(p);
                    number(&mut w, ty, p, e);
                    let r = match ty {
                        0 => u8::read_options(&mut c, &ro, ()).map(drop),
                        1 => i64::read_options(&mut c, &ro, ()).map(drop),
                        _ => f32::read_options(&mut c, &ro, ()).map(drop),
                    };
                    r.unwrap();
                }
                w
            })
        })
        .collect();
    let want: Vec<Vec<Tpl>> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    bt::unset_output();
    let text = String::from_utf8_lossy(&b.0.lock().unwrap()).into_owned();
    let r = template::header(&text).and_then(template::parse).and_then(|got| {
        let mut at = vec![0; want.len()];
        let n = got.len();
        for g in &got {
            // the position tells the thread
            let i = match g {
                template::Tok::Entry { pos, .. } => (pos % 8) as usize,
                _ => return Err(format!("{:?}", g)),
            };
            let one = want.get(i).and_then(|w| w.get(at[i])).ok_or_else(|| format!("unexpected {:?}", g))?;
            if !template::matches(one, g) {
                return Err(format!("expected {:?}\n  but found {:?}", one, g));
            }
            at[i] += 1;
        }
        if n != 30 * want.len() {
            return Err(format!("{} entries", n));
        }
        Ok(n)
    });
    match r {
        Err(e) => Out::Bad(format!("{}\n--- output\n{}", e, text)),
        Ok(n) => Out::Ok(true, mix(seed, n as u64)),
    }
}

pub fn groups() -> Vec<Group> {
    vec![("outputs", outputs, 1.0, false), ("threads", threads, 0.1, false)]
}
