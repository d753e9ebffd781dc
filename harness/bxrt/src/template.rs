//! The text written by the `debug_template` feature.
use bx::model::Tpl;
use std::io::{self, Write};
use std::sync::{Arc, Mutex};

#[derive(Clone)]
struct Shared(Arc<Mutex<Vec<u8>>>);

impl Write for Shared {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.lock().unwrap().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub fn capture<T>(f: impl FnOnce() -> T) -> (T, String) {
    let out = Shared(Arc::new(Mutex::new(vec![])));
    binread::binary_template::set_output(out.clone());
    // what set_output itself writes
    let skip = out.0.lock().unwrap().len();
    let x = f();
    binread::binary_template::unset_output();
    let text = out.0.lock().unwrap()[skip..].to_vec();
    (x, String::from_utf8_lossy(&text).into_owned())
}

#[derive(Debug)]
pub enum Tok {
    Start(String),
    End(String),
    Entry { pos: u64, e: u8, ty: String, count: Option<u64>, name: String },
}

pub fn parse(text: &str) -> Result<Vec<Tok>, String> {
    let mut out = vec![];
    // given once, an order stays in effect
    let mut order = 2;
    let mut at: Option<u64> = None;
    for l in text.lines() {
        let l = l.trim();
        if l.starts_with("//") {
            continue;
        }
        if l == "BigEndian();" {
            order = 0;
        } else if l == "LittleEndian();" {
            order = 1;
        } else if let Some(x) = l.strip_prefix("FSeek(0x") {
            let x = x.strip_suffix(");").ok_or_else(|| format!("seek {:?}", l))?;
            at = Some(u64::from_str_radix(x, 16).map_err(|_| format!("seek {:?}", l))?);
        } else if l.is_empty() {
            continue;
        } else if l.starts_with("struct ") && l.ends_with('{') {
            let name = l[7..l.len() - 1].trim().to_string();
            if out.iter().any(|t| matches!(t, Tok::Start(n) if *n == name)) {
                return Err(format!("{:?} names two structures", name));
            }
            out.push(Tok::Start(name));
        } else if let Some(x) = l.strip_prefix('}') {
            out.push(Tok::End(x.trim_end_matches(';').trim().to_string()));
        } else if l.ends_with(">;") {
            let i = l.rfind('<').ok_or_else(|| format!("entry {:?}", l))?;
            let (mut head, mut count) = (l[..i].trim(), None);
            if head.ends_with(']') {
                let j = head.rfind('[').ok_or_else(|| format!("entry {:?}", l))?;
                count = Some(head[j + 1..head.len() - 1].parse().map_err(|_| format!("entry {:?}", l))?);
                head = &head[..j];
            }
            let (ty, name) = head.rsplit_once(' ').ok_or_else(|| format!("entry {:?}", l))?;
            let pos = at.take().ok_or_else(|| format!("entry {:?} without a position", l))?;
            out.push(Tok::Entry { pos, e: order, ty: ty.trim().to_string(), count, name: name.trim().to_string() });
        } else {
            return Err(format!("line {:?}", l));
        }
    }
    Ok(out)
}

pub fn verify(want: &[Tpl], text: &str) -> Result<usize, String> {
    let got = parse(text)?;
    let mut depth = 0i64;
    for t in &got {
        match t {
            Tok::Start(_) => depth += 1,
            Tok::End(_) => depth -= 1,
            _ => {}
        }
        if depth < 0 {
            return Err("a block ends that has not started".into());
        }
    }
    if depth != 0 {
        return Err("a block does not end".into());
    }
    // what is optional may be left out: all the places the text may have reached
    let optional = |w: &Tpl| matches!(w, Tpl::Entry { optional: true, .. });
    let close = |s: Vec<usize>| {
        let mut out = std::collections::BTreeSet::new();
        for mut k in s {
            out.insert(k);
            while k < want.len() && optional(&want[k]) {
                k += 1;
                out.insert(k);
            }
        }
        out
    };
    let mut at = close(vec![0]);
    let mut entries = 0;
    for g in &got {
        let next: Vec<usize> = at.iter().filter(|k| **k < want.len() && matches(&want[**k], g)).map(|k| k + 1).collect();
        if next.is_empty() {
            return Err(match at.iter().last().and_then(|k| want.get(*k)) {
                Some(w) => format!("expected {:?}\n  but found {:?}", w, g),
                None => format!("unexpected {:?}", g),
            });
        }
        entries += matches!(g, Tok::Entry { .. }) as usize;
        at = close(next);
    }
    if !at.contains(&want.len()) {
        return Err(format!("missing {:?}", want[*at.iter().last().unwrap()]));
    }
    Ok(entries)
}

pub fn matches(w: &Tpl, g: &Tok) -> bool {
    match (w, g) {
        (Tpl::Start(a), Tok::Start(b)) => {
            // a number keeps the names apart
            a == b.rsplit_once('_').map_or(b.as_str(), |x| x.0)
        }
        (Tpl::End(a), Tok::End(b)) => a.as_ref().map_or(true, |a| named(a, b)),
        (Tpl::Entry { pos, e, ty, exact, count, name, .. }, Tok::Entry { pos: p, e: o, ty: t, count: c, name: n }) => {
            // the type may be written with its path
            let tail = t.split('<').next().unwrap().rsplit("::").next().unwrap();
            let native = if cfg!(target_endian = "big") { 0 } else { 1 };
            pos == p
                && (e == o || *e == 2 && *o == native)
                && count == c
                && name.as_ref().map_or(true, |a| named(a, n))
                && if *exact { ty == t } else { ty.is_empty() || ty == tail }
        }
        _ => false,
    }
}

/// Raw identifiers may be written either way
fn named(a: &str, b: &str) -> bool {
    a.replace("r#", "") == b.replace("r#", "")
}

/// What an output starts with: the types that entries may have. Gives what follows.
pub fn header(text: &str) -> Result<&str, String> {
    const TYPES: [(&str, &[&str]); 10] = [
        ("i8", &["char", "byte", "CHAR", "BYTE", "int8"]),
        ("u8", &["uchar", "ubyte", "UCHAR", "UBYTE", "uint8"]),
        ("i16", &["short", "int16", "SHORT", "INT16"]),
        ("u16", &["ushort", "uint16", "USHORT", "UINT16", "WORD"]),
        ("i32", &["int", "int32", "long", "INT", "INT32", "LONG"]),
        ("u32", &["uint", "uint32", "ulong", "UINT", "UINT32", "ULONG", "DWORD"]),
        ("i64", &["int64", "quad", "QUAD", "INT64", "__int64"]),
        ("u64", &["uint64", "uquad", "UQUAD", "UINT64", "QWORD", "__uint64"]),
        ("f32", &["float", "FLOAT"]),
        ("f64", &["double", "DOUBLE"]),
    ];
    let mut seen = vec![];
    let mut rest = text;
    loop {
        let (l, r) = rest.split_once('\n').unwrap_or((rest, ""));
        let words: Vec<&str> = l.trim().trim_end_matches(';').split_whitespace().collect();
        match &words[..] {
            ["typedef", ty, name] => {
                let k = TYPES.iter().find(|x| x.0 == *name).ok_or_else(|| format!("type {:?}", name))?;
                if !k.1.contains(ty) {
                    return Err(format!("{} is not a {}", ty, name));
                }
                seen.push(*name);
            }
            ["//", ..] | [] if !rest.is_empty() => {}
            _ => break,
        }
        rest = r;
    }
    match TYPES.iter().find(|x| !seen.contains(&x.0)) {
        Some(x) => Err(format!("no type {}", x.0)),
        None => Ok(rest),
    }
}
