//! Reference interpreter of definitions: what the documentation says a parse does.
use crate::emit::{bs, import_names, Names};
use crate::ir::*;
use crate::tape::Tape;
use crate::val::*;

pub enum Stop {
    Er(Er),
    /// too much work; the case is not run
    Skip,
}
pub type R<T> = Result<T, Stop>;

pub fn io<T>(k: &str) -> R<T> {
    Err(Stop::Er(Er::Io(k.into())))
}

macro_rules! events {
    ($($name:ident),* $(,)?) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy, PartialEq, Debug)]
        pub enum Ev { $($name),* }
        pub const EVENT_NAMES: &[&str] = &[$(stringify!($name)),*];
    };
}
events! {
    magic_ok, magic_bad, assert_ok, assert_fail, pre_fail, try_some, try_none, cond_true, cond_false,
    pad, align, seek, pad_size, restore, ptr, vec_items, helper_items, eof_list_end, later_variant,
    all_variants_failed, repr_ok, repr_bad, magic_enum_ok, magic_enum_bad, map, map_err, eof, io_err,
    custom_err, endian_override, multibyte, args, obs, string, punct, computed, temp, offset, deref_now, alternate_ptr,
    array, hook, tuple, wrapper, fault, bad_seek, cond_endian, after_ptr_fail, nested_fail, unit_variant,
    boxed_ptr, empty_list, moved_back, recursion,
}

#[derive(Clone, Copy, Debug)]
pub struct Cx {
    /// no template entries for scalars: they are part of a list
    pub quiet: bool,
    /// 0 big, 1 little, 2 native
    pub e: u8,
    pub count: Option<u64>,
    pub off: u64,
}

/// What the debug template is expected to hold
#[derive(Clone, Debug, PartialEq)]
pub enum Tpl {
    Start(String),
    Entry { pos: u64, e: u8, ty: String, exact: bool, count: Option<u64>, optional: bool, name: Option<String> },
    /// the name that follows, where it is known
    End(Option<String>),
}

pub const IO_KINDS: [&str; 4] = ["PermissionDenied", "NotFound", "InvalidData", "TimedOut"];

pub struct Fill<'t> {
    pub t: &'t mut Tape,
    pub known: Vec<bool>,
    /// how often magic, discriminants and the like are right, in percent
    pub clean: u32,
    pub hostile: bool,
}

pub struct M<'a, 't> {
    pub prog: &'a Program,
    pub data: Vec<u8>,
    pub base: u64,
    pub pos: u64,
    pub fuel: u64,
    pub fault: Option<(u64, &'static str)>,
    pub ev: u64,
    pub fill: Option<Fill<'t>>,
    pub root_e: u8,
    pub steps: u64,
    depth: u32,
    /// lowest position read from or moved to
    pub low: u64,
    pub tpl: Option<Vec<Tpl>>,
    /// name of the field being read (none: there is no field), where it is known
    pub var: Option<Option<String>>,
}

struct Env {
    v: Vec<V>,
    ty: Vec<Ty>,
    imports: Vec<u64>,
    it: u64,
}

enum Hint<'h> {
    Any,
    Value(u128),
    Ptr(u64),
    Choose(&'h [u128]),
}

fn subst(t: &Ty, p: Option<&Ty>) -> Ty {
    let b = |t: &Ty| Box::new(subst(t, p));
    match t {
        Ty::Param => p.cloned().unwrap_or(Ty::Unit),
        Ty::Tup(v) => Ty::Tup(v.iter().map(|t| subst(t, p)).collect()),
        Ty::Arr(t, n) => Ty::Arr(b(t), *n),
        Ty::Vec(t) => Ty::Vec(b(t)),
        Ty::Deque(t) => Ty::Deque(b(t)),
        Ty::Boxed(t) => Ty::Boxed(b(t)),
        Ty::Opt(t) => Ty::Opt(b(t)),
        Ty::Pos(t) => Ty::Pos(b(t)),
        Ty::Ptr(q, t) => Ty::Ptr(*q, b(t)),
        Ty::Punct(x, y) => Ty::Punct(b(x), b(y)),
        t => t.clone(),
    }
}

pub fn is_eof(e: &Er) -> bool {
    match e {
        Er::Io(k) => k == "UnexpectedEof",
        Er::Enum(_, v) => !v.is_empty() && v.iter().all(|x| is_eof(&x.1)),
        _ => false,
    }
}

pub fn default_of(prog: &Program, t: &Ty) -> V {
    match t {
        Ty::Prim(_) => V::I(0),
        Ty::Opt(_) => V::O(None),
        Ty::NStr => V::B(vec![]),
        Ty::NWide => V::W(vec![]),
        Ty::Unit | Ty::Phantom => V::Unit,
        Ty::Vec(_) | Ty::Deque(_) | Ty::NzV8 | Ty::NzV16 => V::S(vec![]),
        Ty::Tup(ts) => V::S(ts.iter().map(|t| default_of(prog, t)).collect()),
        Ty::Arr(t, n) => V::S(vec![default_of(prog, t); *n]),
        Ty::Boxed(t) => default_of(prog, t),
        Ty::User(i, _) => match &prog.types[*i].kind {
            Kind::Struct(b) => V::S(b.fields.iter().filter(|f| !f.temp).map(|f| default_of(prog, &f.ty)).collect()),
            _ => V::Unit,
        },
        _ => panic!("no default for {:?}", t),
    }
}

pub fn lit_bytes(l: &Lit, e: u8) -> Vec<u8> {
    match l {
        Lit::Str(s) => s.clone(),
        l => enc(l.prim().unwrap(), l.bits(), e),
    }
}

fn enc(p: P, bits: u128, e: u8) -> Vec<u8> {
    let mut b: Vec<u8> = (0..p.size()).map(|i| (bits >> (8 * i)) as u8).collect();
    if e == 0 {
        b.reverse();
    }
    b
}

pub fn found(l: &Lit, bytes: &[u8], bits: u128) -> V {
    match l {
        Lit::Str(_) => V::B(bytes.to_vec()),
        l => V::E(l.prim().unwrap().name().into(), vec![V::I(bits)]),
    }
}

impl<'a, 't> M<'a, 't> {
    pub fn new(prog: &'a Program, data: Vec<u8>, base: u64, pos: u64) -> Self {
        M { prog, data, base, pos, fuel: 4000, fault: None, ev: 0, fill: None, root_e: 2, steps: 0, depth: 0, low: pos, tpl: None, var: Some(None) }
    }

    fn on(&mut self, e: Ev) {
        self.ev |= 1 << (e as u64);
    }

    fn total(&self) -> u64 {
        self.base + self.data.len() as u64
    }

    fn entry(&mut self, e: u8, ty: &str, exact: bool, count: Option<u64>, optional: bool) {
        let pos = self.pos;
        if let Some(t) = &mut self.tpl {
            let name = self.var.clone().flatten();
            t.push(Tpl::Entry { pos, e, ty: ty.into(), exact, count, optional, name });
        }
    }

    fn scalar_entry(&mut self, p: P, cx: Cx) {
        if !cx.quiet {
            // characters are read as bytes
            self.entry(cx.e, if p == P::Char { "u8" } else { p.name() }, true, None, false);
        }
    }

    fn list_entry(&mut self, e: u8, t: &Ty, count: u64) {
        if self.tpl.is_some() {
            let (name, exact) = match t {
                Ty::Ptr(p, _) => (p.name().to_string(), true),
                Ty::Prim(p) => (p.name().to_string(), true),
                Ty::User(i, _) | Ty::Rec(i) => (self.prog.types[*i].name.clone(), false),
                _ => (String::new(), false),
            };
            self.entry(e, &name, exact, Some(count), false);
        }
    }

    fn burn(&mut self, n: u64) -> R<()> {
        self.steps += n;
        if self.fuel < n {
            return Err(Stop::Skip);
        }
        self.fuel -= n;
        Ok(())
    }

    // ---- reader ----

    fn prefill(&mut self, bytes: &[u8]) {
        let (pos, base) = (self.pos, self.base);
        let len = self.data.len();
        if let Some(f) = &mut self.fill {
            for (i, b) in bytes.iter().enumerate() {
                let at = pos.wrapping_add(i as u64);
                if at >= base && ((at - base) as usize) < len {
                    let k = (at - base) as usize;
                    if !f.known[k] {
                        f.known[k] = true;
                        self.data[k] = *b;
                    }
                }
            }
        }
    }

    fn bytes(&mut self, n: u64) -> R<Vec<u8>> {
        self.low = self.low.min(self.pos);
        self.burn(1 + n / 4)?;
        let end = self.pos.saturating_add(n);
        if let Some((f, k)) = self.fault {
            if f >= self.pos && f < end && f < self.total() {
                self.on(Ev::fault);
                return io(k);
            }
        }
        if n > 0 && (end > self.total() || self.pos > self.total()) {
            self.on(Ev::eof);
            return io("UnexpectedEof");
        }
        if self.fill.is_some() {
            let r: Vec<u8> = (0..n).map(|_| self.fill.as_mut().unwrap().t.byte()).collect();
            self.prefill(&r);
        }
        let out = (self.pos..self.pos + n)
            .map(|p| if p < self.base { 0 } else { self.data[(p - self.base) as usize] })
            .collect();
        self.pos = end;
        Ok(out)
    }

    fn prim(&mut self, p: P, e: u8, hint: Hint) -> R<u128> {
        if self.fill.is_some() {
            let total = self.total();
            let f = self.fill.as_mut().unwrap();
            let clean = f.clean;
            let v = match hint {
                Hint::Value(v) if f.t.pct(clean) => v,
                Hint::Choose(vs) if !vs.is_empty() && f.t.pct(clean) => *f.t.pick(vs),
                Hint::Ptr(off) if !(f.hostile && f.t.pct(40)) && f.t.pct(92) => {
                    // somewhere in the data
                    let room = total.saturating_sub(self.base);
                    let at = self.base + f.t.below(room.max(1));
                    at.wrapping_sub(off) as u128
                }
                Hint::Any | Hint::Value(_) | Hint::Choose(_) | Hint::Ptr(_) => match f.t.weighted(if f.hostile { &[25, 15, 20, 40] } else { &[45, 20, 20, 15] }) {
                    0 => f.t.below(9) as u128,
                    1 => f.t.below(256) as u128,
                    2 => f.t.u128(),
                    _ => match f.t.below(6) {
                        0 => u128::MAX,
                        1 => p.mask() >> 1,
                        2 => (p.mask() >> 1) + 1,
                        3 => 0,
                        4 => u128::MAX - f.t.below(9) as u128,
                        _ => 1u128 << f.t.below(p.size() as u64 * 8),
                    },
                },
            };
            let b = enc(p, v & p.mask(), e);
            self.prefill(&b);
        }
        let b = self.bytes(p.size() as u64)?;
        if p.size() > 1 {
            self.on(Ev::multibyte);
            if (e == 0) != (self.root_e == 0) {
                self.on(Ev::endian_override);
            }
        }
        let mut v = 0u128;
        for i in 0..b.len() {
            let x = if e == 0 { b[i] } else { b[b.len() - 1 - i] };
            v = v << 8 | x as u128;
        }
        Ok(v)
    }

    fn seek_by(&mut self, from: u64, d: i64) -> R<()> {
        let to = if d < 0 { from.checked_sub(d.unsigned_abs()) } else { from.checked_add(d as u64) };
        match to {
            Some(p) => {
                if p < self.pos {
                    self.on(Ev::moved_back);
                }
                self.low = self.low.min(p);
                self.pos = p;
                Ok(())
            }
            None => {
                self.low = 0;
                self.on(Ev::bad_seek);
                io("InvalidInput")
            }
        }
    }

    // ---- expressions ----

    fn x(&self, x: &X, env: &Env) -> u64 {
        match x {
            X::C(c) => *c,
            X::F(i) => match (&env.v[*i], &env.ty[*i]) {
                (V::I(b), Ty::Prim(p)) => p.as_u64(*b),
                (v, t) => panic!("F of {:?}: {:?}", v, t),
            },
            X::H(i) => vh(&env.v[*i]),
            X::PosOf(i) => match &env.v[*i] {
                V::At(p, _) => *p,
                v => panic!("PosOf {:?}", v),
            },
            X::PtrOf(i) => match (&env.v[*i], &env.ty[*i]) {
                (V::Ptr(b, _), Ty::Ptr(p, _)) => p.as_u64(*b),
                (v, t) => panic!("PtrOf {:?}: {:?}", v, t),
            },
            X::Imp(i) => env.imports[*i],
            X::Add(a, b) => self.x(a, env).wrapping_add(self.x(b, env)),
            X::Xor(a, b) => self.x(a, env) ^ self.x(b, env),
            X::And(a, b) => self.x(a, env) & self.x(b, env),
            X::Rem(a, m) => self.x(a, env) % m,
            X::It => env.it,
        }
    }

    fn b(&self, b: &B, env: &Env) -> bool {
        match b {
            B::Lit(v) => *v,
            B::Cmp(c, x, y) => {
                let (x, y) = (self.x(x, env), self.x(y, env));
                match c {
                    Cmp::Eq => x == y,
                    Cmp::Ne => x != y,
                    Cmp::Lt => x < y,
                    Cmp::Le => x <= y,
                    Cmp::Gt => x > y,
                    Cmp::Ge => x >= y,
                }
            }
            B::And(x, y) => self.b(x, env) && self.b(y, env),
            B::Or(x, y) => self.b(x, env) || self.b(y, env),
            B::Not(x) => !self.b(x, env),
        }
    }

    fn cast(x: u64, p: P) -> u128 {
        match p {
            P::F32 => (x as f32).to_bits() as u128,
            P::F64 => (x as f64).to_bits() as u128,
            P::Char => x as u8 as u128,
            p => x as u128 & p.mask(),
        }
    }

    fn cv(&self, c: &CV, t: &Ty, env: &Env) -> V {
        match (c, t) {
            (CV::Def, t) => default_of(self.prog, t),
            (CV::Int(p, x), _) => V::I(Self::cast(self.x(x, env), *p)),
            (CV::Tup(v), Ty::Tup(ts)) => V::S(v.iter().zip(ts).map(|(c, t)| self.cv(c, t, env)).collect()),
            (CV::SomeOf(c), Ty::Opt(t)) => V::O(Some(Box::new(self.cv(c, t, env)))),
            (CV::NoneOf, _) => V::O(None),
            (CV::VecOf(v), Ty::Vec(t)) => V::S(v.iter().map(|c| self.cv(c, t, env)).collect()),
            (CV::ArrOf(v), Ty::Arr(t, _)) => V::S(v.iter().map(|c| self.cv(c, t, env)).collect()),
            (CV::BoxOf(c), Ty::Boxed(t)) => self.cv(c, t, env),
            (CV::PtrOf(x, v), Ty::Ptr(p, t)) => {
                V::Ptr(Self::cast(self.x(x, env), *p), v.as_ref().map(|c| Box::new(self.cv(c, t, env))))
            }
            (CV::HookOf(x), _) => V::S(vec![V::I(self.x(x, env) as u8 as u128), V::S(vec![])]),
            (CV::Str(s), _) => V::B(s.clone()),
            (c, t) => panic!("value {:?} of {:?}", c, t),
        }
    }

    fn assert(&mut self, a: &Assert, env: &Env, names: &Names, pos: u64, pre: bool) -> R<()> {
        if self.b(&a.cond, env) {
            self.on(Ev::assert_ok);
            return Ok(());
        }
        self.on(if pre { Ev::pre_fail } else { Ev::assert_fail });
        Err(Stop::Er(match &a.cons {
            Cons::Text => Er::Assert(pos, bs(&a.cond, names, false), true),
            Cons::Msg(m) => Er::Assert(pos, m.clone(), false),
            Cons::Fmt(t, v) => {
                let a: Vec<String> = v.iter().map(|x| self.x(x, env).to_string()).collect();
                Er::Assert(pos, format!("{}{}", t, a.join(" ")), false)
            }
            Cons::Custom(x) => Er::Custom(pos, V::I(self.x(x, env) as u128)),
            Cons::CustomU32(x) => Er::Custom(pos, V::E("u32".into(), vec![V::I(self.x(x, env) as u32 as u128)])),
            Cons::CustomString(x) => {
                Er::Custom(pos, V::E("String".into(), vec![V::B(format!("custom {}", self.x(x, env)).into_bytes())]))
            }
        }))
    }

    fn magic(&mut self, l: &Lit, cx: Cx) -> R<()> {
        let var = self.var.replace(Some("magic".into()));
        let r = self.magic1(l, cx);
        self.var = var;
        r
    }

    fn magic1(&mut self, l: &Lit, cx: Cx) -> R<()> {
        let pos = self.pos;
        let e = cx.e;
        let (ok, f) = match l {
            Lit::Str(s) => {
                if let Some(f) = &mut self.fill {
                    let clean = f.clean;
                    let near = !f.t.pct(clean);
                    let mut b = s.clone();
                    if near && !b.is_empty() && f.t.bool() {
                        let i = f.t.below(b.len() as u64) as usize;
                        b[i] ^= 1 << f.t.below(8);
                        self.prefill(&b);
                    } else if !near {
                        self.prefill(&b);
                    }
                }
                // read byte by byte, as an array
                self.list_entry(e, &Ty::Prim(P::U8), s.len() as u64);
                let mut b = vec![];
                for _ in 0..s.len() {
                    b.push(self.bytes(1)?[0]);
                }
                (b == *s, found(l, &b, 0))
            }
            l => {
                let p = l.prim().unwrap();
                let want = l.bits();
                self.scalar_entry(p, cx);
                let bits = self.prim(p, e, Hint::Value(want))?;
                let ok = match p {
                    P::F32 => f32::from_bits(bits as u32) == f32::from_bits(want as u32),
                    P::F64 => f64::from_bits(bits as u64) == f64::from_bits(want as u64),
                    _ => bits == want,
                };
                (ok, found(l, &[], bits))
            }
        };
        if ok {
            self.on(Ev::magic_ok);
            Ok(())
        } else {
            self.on(Ev::magic_bad);
            Err(Stop::Er(Er::Magic(pos, f)))
        }
    }

    // ---- types ----

    pub fn read(&mut self, t: &Ty, cx: Cx, args: &[u64]) -> R<V> {
        self.burn(1)?;
        let none = Cx { count: None, ..cx };
        Ok(match t {
            Ty::Prim(p) => {
                self.scalar_entry(*p, cx);
                V::I(self.prim(*p, cx.e, Hint::Any)?)
            }
            Ty::Tup(ts) => {
                self.on(Ev::tuple);
                let mut v = vec![];
                for t in ts {
                    v.push(self.read(t, cx, &[])?);
                }
                V::S(v)
            }
            Ty::Arr(t, n) => {
                self.on(Ev::array);
                self.list_entry(cx.e, t, *n as u64);
                let cx = Cx { quiet: true, ..cx };
                let mut v = vec![];
                for _ in 0..*n {
                    v.push(self.read(t, cx, args)?);
                }
                V::S(v)
            }
            Ty::Vec(t) | Ty::Deque(t) => {
                let n = cx.count.expect("count");
                if n > 0 {
                    self.on(Ev::vec_items);
                } else {
                    self.on(Ev::empty_list);
                }
                // vectors are numbered
                let var = self.var.take();
                self.list_entry(cx.e, t, n);
                self.var = var;
                let none = Cx { quiet: true, ..none };
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.read(t, none, args)?);
                }
                V::S(v)
            }
            Ty::Boxed(t) => {
                self.on(Ev::wrapper);
                self.read(t, cx, args)?
            }
            Ty::Opt(t) => {
                self.on(Ev::wrapper);
                V::O(Some(Box::new(self.read(t, cx, args)?)))
            }
            Ty::Pos(t) => {
                self.on(Ev::wrapper);
                let p = self.pos;
                V::At(p, Box::new(self.read(t, cx, args)?))
            }
            Ty::Ptr(p, _) => {
                let var = self.var.clone();
                if let Some(Some(n)) = &mut self.var {
                    *n = format!("ptr_to_{}", n);
                }
                self.entry(cx.e, p.name(), true, None, false);
                self.var = var;
                V::Ptr(self.prim(*p, cx.e, Hint::Ptr(cx.off))?, None)
            }
            Ty::Hook(_) => {
                self.scalar_entry(P::U8, cx);
                V::S(vec![V::I(self.prim(P::U8, cx.e, Hint::Any)?), V::S(vec![])])
            }
            Ty::Punct(..) => panic!("punctuated without parser"),
            Ty::NStr => {
                self.on(Ev::string);
                if !cx.quiet {
                    self.entry(cx.e, "string", true, None, false);
                }
                V::B(self.nstr(cx)?)
            }
            Ty::NzV8 => {
                self.on(Ev::string);
                V::S(self.nstr(cx)?.into_iter().map(|b| V::I(b as u128)).collect())
            }
            Ty::NWide => {
                self.on(Ev::string);
                if !cx.quiet {
                    self.entry(cx.e, "wstring", true, None, false);
                }
                V::W(self.nwide(cx, true)?)
            }
            Ty::NzV16 => {
                self.on(Ev::string);
                V::S(self.nwide(cx, false)?.into_iter().map(|b| V::I(b as u128)).collect())
            }
            Ty::Unit | Ty::Phantom => V::Unit,
            Ty::Obs => panic!("observation without parser"),
            Ty::User(i, p) => self.user(*i, p.as_deref(), cx, args)?,
            Ty::Rec(i) => {
                self.on(Ev::recursion);
                self.user(*i, None, cx, args)?
            }
            Ty::Param => panic!("unbound parameter"),
        })
    }

    fn nstr(&mut self, cx: Cx) -> R<Vec<u8>> {
        if let Some(f) = &mut self.fill {
            let n = f.t.below(6);
            let mut b: Vec<u8> = (0..n).map(|_| f.t.byte().max(1)).collect();
            b.push(0);
            if f.t.pct(90) {
                self.prefill(&b);
            }
        }
        let mut v = vec![];
        loop {
            if !cx.quiet {
                // the string is described as a whole, or not at all
                self.entry(cx.e, "u8", true, None, true);
            }
            let b = self.bytes(1)?[0];
            if b == 0 {
                return Ok(v);
            }
            v.push(b);
        }
    }

    fn nwide(&mut self, cx: Cx, optional: bool) -> R<Vec<u16>> {
        let e = cx.e;
        if let Some(f) = &mut self.fill {
            let n = f.t.below(5);
            let mut b = vec![];
            for _ in 0..n {
                // zero bytes within units are interesting
                let u = match f.t.below(3) {
                    0 => f.t.range(1, 255) as u16,
                    1 => (f.t.range(1, 255) as u16) << 8,
                    _ => f.t.range(1, 65535) as u16,
                };
                b.extend(enc(P::U16, u as u128, e));
            }
            b.extend([0, 0]);
            if f.t.pct(90) {
                self.prefill(&b);
            }
        }
        let mut v = vec![];
        loop {
            if !cx.quiet {
                self.entry(e, "u16", true, None, optional);
            }
            let u = self.prim(P::U16, e, Hint::Any)? as u16;
            if u == 0 {
                return Ok(v);
            }
            v.push(u);
        }
    }

    fn goto_target(&mut self, bits: u128, p: P, off: u64) -> R<()> {
        self.pos = off;
        let d = p.ext(bits) as i64;
        self.seek_by(off, d)
    }

    pub fn after(&mut self, t: &Ty, v: &mut V, cx: Cx, args: &[u64]) -> R<()> {
        let var = self.var.take();
        let r = self.after1(t, v, cx, args);
        self.var = var;
        r
    }

    fn after1(&mut self, t: &Ty, v: &mut V, cx: Cx, args: &[u64]) -> R<()> {
        self.burn(1)?;
        match (t, v) {
            (Ty::Ptr(p, inner), V::Ptr(bits, val)) => {
                let before = self.pos;
                if cx.off != 0 {
                    self.on(Ev::offset);
                }
                self.goto_target(*bits, *p, cx.off)?;
                let r = self.read(inner, cx, args).and_then(|mut x| {
                    self.after(inner, &mut x, cx, args)?;
                    Ok(x)
                });
                match r {
                    Ok(x) => *val = Some(Box::new(x)),
                    Err(e) => {
                        self.on(Ev::after_ptr_fail);
                        return Err(e);
                    }
                }
                self.on(Ev::ptr);
                self.pos = before;
                Ok(())
            }
            (Ty::Hook(_), V::S(vs)) => {
                self.on(Ev::hook);
                if let (V::I(b), V::S(seen)) = (vs[0].clone(), &mut vs[1]) {
                    let mut l = vec![V::I(cx.e as u128), V::I(cx.off as u128)];
                    l.extend(args.iter().map(|a| V::I(*a as u128)));
                    seen.push(V::S(l));
                    if b & 31 == 31 {
                        self.on(Ev::after_ptr_fail);
                        return io("NotFound");
                    }
                }
                Ok(())
            }
            (Ty::Tup(ts), V::S(vs)) => {
                for (t, v) in ts.iter().zip(vs) {
                    self.after(t, v, cx, &[])?;
                }
                Ok(())
            }
            (Ty::Arr(t, _), V::S(vs)) | (Ty::Vec(t), V::S(vs)) => {
                if Program::bare_ptr(t) {
                    for v in vs {
                        self.after(t, v, cx, args)?;
                    }
                }
                Ok(())
            }
            (Ty::Boxed(t), v) => {
                if Program::bare_ptr(t) {
                    self.on(Ev::boxed_ptr);
                }
                self.after(t, v, cx, args)
            }
            (Ty::Opt(t), V::O(Some(v))) => self.after(t, v, cx, args),
            (Ty::Pos(t), V::At(_, v)) => self.after(t, v, cx, args),
            _ => Ok(()),
        }
    }

    /// The root, or what it is wrapped in; `after`: by a reader method, which resolves pointers
    fn top(&mut self, o: &Opts, after: bool) -> R<V> {
        let cx = Cx { quiet: false, e: o.e, count: o.count, off: o.off };
        let prog = self.prog;
        match &prog.top {
            None => self.user(prog.root(), None, cx, &o.args),
            Some(t) if after => self.read_after(t, cx, &o.args),
            Some(t) => self.read(t, cx, &o.args),
        }
    }

    fn read_after(&mut self, t: &Ty, cx: Cx, args: &[u64]) -> R<V> {
        let mut v = self.read(t, cx, args)?;
        self.after(t, &mut v, cx, args)?;
        Ok(v)
    }

    pub fn user(&mut self, i: usize, param: Option<&Ty>, cx: Cx, args: &[u64]) -> R<V> {
        let start = self.pos;
        let prog = self.prog;
        if self.depth > 40 {
            return Err(Stop::Skip);
        }
        self.depth += 1;
        let r = self.user1(&prog.types[i], param, cx, args, start);
        self.depth -= 1;
        if let Err(Stop::Er(_)) = &r {
            if self.pos != start {
                self.on(Ev::nested_fail);
            }
            self.pos = start;
        }
        r
    }

    fn prelude(&mut self, end: Option<End>, magic: Option<&Lit>, cx: Cx) -> R<Cx> {
        let mut cx = cx;
        match end {
            Some(End::Big) => cx.e = 0,
            Some(End::Little) => cx.e = 1,
            None => {}
        }
        if let Some(m) = magic {
            self.magic(m, cx)?;
        }
        Ok(cx)
    }

    fn structure(&mut self, td: &TypeDef, b: &Body, param: Option<&Ty>, cx: Cx, env: Env, names: Names, start: u64) -> R<V> {
        let cx = self.prelude(td.end, td.magic.as_ref(), cx)?;
        for a in &td.pre {
            self.assert(a, &env, &names, start, true)?;
        }
        let (env, names) = self.body(b, param, cx, env, names, start)?;
        for a in &td.asserts {
            self.assert(a, &env, &names, start, false)?;
        }
        Ok(V::S(Self::kept(b, env)))
    }

    fn user1(&mut self, td: &TypeDef, param: Option<&Ty>, cx: Cx, args: &[u64], start: u64) -> R<V> {
        let env = Env { v: vec![], ty: vec![], imports: args.to_vec(), it: 0 };
        let names = Names { fields: vec![], imports: import_names(&td.imports), it: "" };
        match &td.kind {
            Kind::Unit => {
                self.prelude(td.end, td.magic.as_ref(), cx)?;
                for a in &td.pre {
                    self.assert(a, &env, &names, start, true)?;
                }
                for a in &td.asserts {
                    self.assert(a, &env, &names, start, false)?;
                }
                Ok(V::Unit)
            }
            Kind::Struct(b) => {
                if let Some(t) = &mut self.tpl {
                    t.push(Tpl::Start(td.name.clone()));
                }
                let var = self.var.clone();
                let r = self.structure(td, b, param, cx, env, names, start);
                self.var = var.clone();
                if let Some(t) = &mut self.tpl {
                    t.push(Tpl::End(var.map(|n| n.unwrap_or_else(|| "root".into()))));
                }
                r
            }
            Kind::Data { variants, all_errors, .. } => {
                if self.fill.is_some() {
                    // aim for one of the variants
                    let k = self.fill.as_mut().unwrap().t.below(variants.len() as u64 + 1) as usize;
                    if let Some(v) = variants.get(k) {
                        let e = match v.body.end.or(td.end) {
                            Some(End::Big) => 0,
                            Some(End::Little) => 1,
                            None => cx.e,
                        };
                        if let Some(m) = v.body.magic.as_ref().or(td.magic.as_ref()) {
                            let b = lit_bytes(m, e);
                            self.prefill(&b);
                        }
                    }
                }
                let mut errs = vec![];
                for (k, v) in variants.iter().enumerate() {
                    let r = self.variant(td, v, cx, args, start);
                    match r {
                        Ok(x) => {
                            if k > 0 {
                                self.on(Ev::later_variant);
                            }
                            if v.unit {
                                self.on(Ev::unit_variant);
                            }
                            return Ok(x);
                        }
                        Err(Stop::Skip) => return Err(Stop::Skip),
                        Err(Stop::Er(e)) => errs.push((v.name.clone(), e)),
                    }
                    self.pos = start;
                }
                self.on(Ev::all_variants_failed);
                Err(Stop::Er(if *all_errors { Er::Enum(start, errs) } else { Er::NoVar(start) }))
            }
            Kind::Repr(p, _, vs) => {
                let cx = self.prelude(td.end, td.magic.as_ref(), cx)?;
                let vals: Vec<u128> = vs.iter().map(|v| v.value as u128 & p.mask()).collect();
                self.scalar_entry(*p, cx);
                let x = self.prim(*p, cx.e, Hint::Choose(&vals))?;
                match vals.iter().position(|v| *v == x) {
                    Some(k) if vs[k].pre.iter().all(|a| self.b(&a.cond, &env)) => {
                        self.on(Ev::repr_ok);
                        Ok(V::E(vs[k].name.clone(), vec![]))
                    }
                    _ => {
                        self.on(Ev::repr_bad);
                        Err(Stop::Er(Er::NoVar(start)))
                    }
                }
            }
            Kind::MagicEnum(vs) => {
                let cx = self.prelude(td.end, td.magic.as_ref(), cx)?;
                let lits: Vec<&Lit> = vs.iter().filter_map(|v| v.magic.as_ref()).collect();
                let first = lits[0].clone();
                if self.fill.is_some() {
                    let f = self.fill.as_mut().unwrap();
                    let clean = f.clean;
                    if f.t.pct(clean) {
                        let l = (*f.t.pick(&lits)).clone();
                        let b = lit_bytes(&l, cx.e);
                        self.prefill(&b);
                    }
                }
                let (bits, bytes) = match &first {
                    Lit::Str(s) => {
                        self.list_entry(cx.e, &Ty::Prim(P::U8), s.len() as u64);
                        let mut b = vec![];
                        for _ in 0..s.len() {
                            b.push(self.bytes(1)?[0]);
                        }
                        (0, b)
                    }
                    l => {
                        self.scalar_entry(l.prim().unwrap(), cx);
                        (self.prim(l.prim().unwrap(), cx.e, Hint::Any)?, vec![])
                    }
                };
                for v in vs {
                    let m = match &v.magic {
                        None => continue,
                        Some(m) => m,
                    };
                    let eq = match m {
                        Lit::Str(s) => *s == bytes,
                        Lit::F32(w) => f32::from_bits(bits as u32) == f32::from_bits(*w),
                        Lit::F64(w) => f64::from_bits(bits as u64) == f64::from_bits(*w),
                        l => l.bits() == bits,
                    };
                    if eq && v.pre.iter().all(|a| self.b(&a.cond, &env)) {
                        self.on(Ev::magic_enum_ok);
                        return Ok(V::E(v.name.clone(), vec![]));
                    }
                }
                self.on(Ev::magic_enum_bad);
                Err(Stop::Er(Er::NoVar(start)))
            }
            Kind::Mapped { map, en } => {
                let cx = self.prelude(td.end, td.magic.as_ref(), cx)?;
                for a in &td.pre {
                    self.assert(a, &env, &names, start, true)?;
                }
                let x = self.read(&map.input, cx, args)?;
                let h = vh(&x);
                let v = self.map(map, x, &env, start)?;
                Ok(if *en {
                    match v {
                        V::S(xs) => V::E(if h & 1 == 0 { "Even".into() } else { "Odd".into() }, xs),
                        v => v,
                    }
                } else {
                    v
                })
            }
        }
    }

    fn kept(b: &Body, env: Env) -> Vec<V> {
        b.fields.iter().zip(env.v).filter(|(f, _)| !f.temp).map(|x| x.1).collect()
    }

    fn variant(&mut self, td: &TypeDef, v: &Variant, cx: Cx, args: &[u64], start: u64) -> R<V> {
        let env = Env { v: vec![], ty: vec![], imports: args.to_vec(), it: 0 };
        let names = Names { fields: vec![], imports: import_names(&td.imports), it: "" };
        let end = if v.unit { td.end } else { v.body.end.or(td.end) };
        let cx = self.prelude(end, v.body.magic.as_ref().or(td.magic.as_ref()), cx)?;
        for a in td.pre.iter().chain(&v.body.pre) {
            self.assert(a, &env, &names, start, true)?;
        }
        if v.unit {
            return Ok(V::E(v.name.clone(), vec![]));
        }
        let (env, names) = self.body(&v.body, None, cx, env, names, start)?;
        for a in v.body.asserts.iter().chain(&td.asserts) {
            self.assert(a, &env, &names, start, false)?;
        }
        Ok(V::E(v.name.clone(), Self::kept(&v.body, env)))
    }

    fn body(&mut self, b: &Body, param: Option<&Ty>, cx: Cx, mut env: Env, mut names: Names, start: u64) -> R<(Env, Names)> {
        let mut later = vec![];
        for f in &b.fields {
            let (fc, args, active) = self.field(f, param, cx, &mut env, &mut names, start)?;
            later.push((fc, args, active));
        }
        let saved = self.pos;
        for (i, f) in b.fields.iter().enumerate() {
            if !f.has_after() || f.deref_now {
                continue;
            }
            if !later[i].2 {
                // not read, so there is nothing to be resolved
                if Program::bare_ptr(&env.ty[i]) {
                    self.on(Ev::alternate_ptr);
                }
                continue;
            }
            let (mut fc, args) = (later[i].0, later[i].1.clone());
            if let Some(x) = &f.offset_after {
                fc.off = self.x(x, &env);
            }
            let t = env.ty[i].clone();
            let mut v = std::mem::replace(&mut env.v[i], V::Unit);
            let r = self.after(&t, &mut v, fc, &args);
            env.v[i] = v;
            r?;
        }
        self.pos = saved;
        Ok((env, names))
    }

    fn field(&mut self, f: &Field, param: Option<&Ty>, cx: Cx, env: &mut Env, names: &mut Names, start: u64) -> R<(Cx, Vec<u64>, bool)> {
        self.burn(1)?;
        let ty = if param.is_some() { subst(&f.ty, param) } else { f.ty.clone() };
        let args: Vec<u64> = match &f.args {
            Args::None => vec![],
            Args::List(l) | Args::Tuple(l) => {
                self.on(Ev::args);
                l.iter().zip(&f.arg_tys).map(|(x, p)| p.as_u64(self.x(x, env) as u128 & p.mask())).collect()
            }
        };
        let mut c = cx;
        match &f.end {
            FEnd::None => {}
            FEnd::Fixed(End::Big) => c.e = 0,
            FEnd::Fixed(End::Little) => c.e = 1,
            FEnd::Cond(e, b) => {
                self.on(Ev::cond_endian);
                let big = (*e == End::Big) == self.b(b, env);
                c.e = if big { 0 } else { 1 };
            }
        }
        if let Some(x) = &f.offset {
            c.off = self.x(x, env);
        }
        if let Some(x) = &f.count {
            c.count = Some(self.x(x, env));
        }
        if let Some(m) = &f.magic {
            self.magic(m, c)?;
        }
        let saved = self.pos;
        let active = match &f.cond {
            None => true,
            Some((b, _)) => {
                let v = self.b(b, env);
                self.on(if v { Ev::cond_true } else { Ev::cond_false });
                v
            }
        };
        let v = if active {
            self.value(f, &ty, c, &args, env)?
        } else {
            match &f.cond.as_ref().unwrap().1 {
                None => default_of(self.prog, &ty),
                Some(a) => self.cv(a, &ty, env),
            }
        };
        if f.temp {
            self.on(Ev::temp);
        }
        env.v.push(v);
        env.ty.push(ty);
        names.fields.push(f.name.clone());
        for a in &f.asserts {
            self.assert(a, env, names, start, false)?;
        }
        if f.restore {
            if self.pos != saved {
                self.on(Ev::restore);
            }
            self.pos = saved;
        }
        Ok((c, args, active))
    }

    fn amount(&mut self, x: &X, neg: bool, env: &Env) -> i64 {
        let v = self.x(x, env) as i64;
        if neg { v.wrapping_neg() } else { v }
    }

    fn align(&mut self, x: &X, env: &Env) -> R<()> {
        let a = self.x(x, env);
        let past = if a == 0 { 0 } else { self.pos % a };
        if past != 0 {
            self.on(Ev::align);
            self.seek_by(self.pos, (a - past) as i64)?;
        }
        Ok(())
    }

    fn value(&mut self, f: &Field, ty: &Ty, c: Cx, args: &[u64], env: &mut Env) -> R<V> {
        if let Some(s) = &f.seek_before {
            self.on(Ev::seek);
            match s {
                SeekTo::Start(x) => {
                    let to = self.x(x, env);
                    if to < self.pos {
                        self.on(Ev::moved_back);
                    }
                    self.low = self.low.min(to);
                    self.pos = to
                }
                SeekTo::Current(x, n) => {
                    let d = self.amount(x, *n, env);
                    self.seek_by(self.pos, d)?
                }
                SeekTo::End(x, n) => {
                    let d = self.amount(x, *n, env);
                    let t = self.total();
                    self.seek_by(t, d)?
                }
            }
        }
        if let Some((x, n)) = &f.pad_before {
            let d = self.amount(x, *n, env);
            if d != 0 {
                self.on(Ev::pad);
            }
            self.seek_by(self.pos, d)?;
        }
        if let Some(x) = &f.align_before {
            self.align(x, env)?;
        }
        let at = self.pos;
        let mut v = match &f.mode {
            Mode::Default | Mode::Ignore => {
                self.on(Ev::computed);
                default_of(self.prog, ty)
            }
            Mode::Calc(x) => {
                self.on(Ev::computed);
                self.cv(x, ty, env)
            }
            m => {
                let rt = match (&f.map, f.try_, ty) {
                    (Some(m), _, _) => m.input.clone(),
                    (None, true, Ty::Opt(t)) => (**t).clone(),
                    (_, _, t) => t.clone(),
                };
                let var = self.var.take();
                let r = match m {
                    Mode::Parse(p) => self.parser(p, &rt, c, args, env),
                    _ => {
                        self.var = Some(Some(f.name.clone()));
                        self.read(&rt, c, args)
                    }
                };
                self.var = var;
                match r {
                    Ok(v) if f.try_ => {
                        self.on(Ev::try_some);
                        V::O(Some(Box::new(v)))
                    }
                    Ok(v) => v,
                    Err(Stop::Er(_)) if f.try_ => {
                        self.on(Ev::try_none);
                        self.pos = at;
                        V::O(None)
                    }
                    Err(e) => return Err(e),
                }
            }
        };
        if let Some(m) = &f.map {
            v = self.map(m, v, env, at)?;
        }
        if f.deref_now && f.has_after() {
            self.on(Ev::deref_now);
            self.after(ty, &mut v, c, args)?;
        }
        if let Some(x) = &f.pad_size_to {
            let pad = self.x(x, env) as i64 as i128;
            let size = self.pos as i128 - at as i128;
            if size < pad {
                self.on(Ev::pad_size);
                self.seek_by(self.pos, (pad - size).min(i64::MAX as i128) as i64)?;
            }
        }
        if let Some((x, n)) = &f.pad_after {
            let d = self.amount(x, *n, env);
            if d != 0 {
                self.on(Ev::pad);
            }
            self.seek_by(self.pos, d)?;
        }
        if let Some(x) = &f.align_after {
            self.align(x, env)?;
        }
        Ok(v)
    }

    fn map(&mut self, m: &MapD, v: V, env: &Env, pos: u64) -> R<V> {
        self.on(Ev::map);
        let h = vh(&v);
        let e2 = Env { v: env.v.clone(), ty: env.ty.clone(), imports: env.imports.clone(), it: h };
        if let Some((c, e)) = &m.fail {
            if self.b(c, &e2) {
                self.on(Ev::map_err);
                return Err(Stop::Er(match e {
                    MapErr::Custom => Er::Custom(pos, V::I(h as u128)),
                    MapErr::Io(k) => Er::Io(IO_KINDS[*k as usize % 4].into()),
                    MapErr::Str => Er::Custom(pos, V::E("String".into(), vec![V::B(format!("map {}", h).into_bytes())])),
                }));
            }
        }
        Ok(match &m.f {
            MapFn::Hash => V::I(h as u128),
            MapFn::Tag(x) => {
                let c = self.x(x, &e2);
                V::S(vec![v, V::I(c as u128)])
            }
            MapFn::Int(p, q, x) => {
                let bits = match v {
                    V::I(b) => b,
                    v => panic!("integer map of {:?}", v),
                };
                let c = self.x(x, &e2);
                V::I((p.as_u64(bits) ^ c) as u128 & q.mask())
            }
        })
    }

    fn args_hash(args: &[u64]) -> u64 {
        vh(&V::S(args.iter().map(|a| V::I(*a as u128)).collect()))
    }

    fn parser(&mut self, p: &Parser, t: &Ty, cx: Cx, args: &[u64], env: &mut Env) -> R<V> {
        // items are described one by one
        let el_cx = Cx { count: None, quiet: false, ..cx };
        Ok(match p {
            Parser::Obs { count_known, .. } => {
                self.on(Ev::obs);
                let v = self.prim(P::U16, cx.e, Hint::Any)? as u64;
                V::Obs(cx.e, if *count_known { cx.count } else { None }, cx.off, Self::args_hash(args), v)
            }
            Parser::ObsFail(k) => {
                self.on(Ev::obs);
                let pos = self.pos;
                let v = self.prim(P::U16, cx.e, Hint::Any)? as u64;
                if v & k == *k {
                    self.on(Ev::custom_err);
                    return Err(Stop::Er(Er::Custom(pos, V::I(v as u128))));
                }
                V::I(v.wrapping_add(Self::args_hash(args)) as u128)
            }
            Parser::ReadBytes => {
                let n = cx.count.expect("count");
                if n > 0 {
                    self.on(Ev::helper_items);
                } else {
                    self.on(Ev::empty_list);
                }
                // a count beyond the input never needs the work
                if n > self.data.len() as u64 + self.base && self.fault.is_none() {
                    // unless all that lies before the data is to be read first
                    if self.total().saturating_sub(self.pos) > self.fuel {
                        return Err(Stop::Skip);
                    }
                    self.on(Ev::eof);
                    self.burn(1)?;
                    return io("UnexpectedEof");
                }
                V::S(self.bytes(n)?.into_iter().map(|b| V::I(b as u128)).collect())
            }
            Parser::Until(b) | Parser::UntilEx(b) => {
                let t = match t {
                    Ty::Vec(t) | Ty::Deque(t) => t,
                    t => panic!("until of {:?}", t),
                };
                let mut out = vec![];
                loop {
                    let v = self.read_after(t, el_cx, args)?;
                    env.it = vh(&v);
                    let done = self.b(b, env);
                    if done && matches!(p, Parser::UntilEx(_)) {
                        break;
                    }
                    self.on(Ev::helper_items);
                    out.push(v);
                    if done {
                        break;
                    }
                }
                V::S(out)
            }
            Parser::UntilEof => {
                let t = match t {
                    Ty::Vec(t) | Ty::Deque(t) => t,
                    t => panic!("until_eof of {:?}", t),
                };
                let mut out = vec![];
                loop {
                    let at = self.pos;
                    match self.read_after(t, el_cx, args) {
                        Ok(v) => {
                            self.on(Ev::helper_items);
                            out.push(v)
                        }
                        Err(Stop::Er(e)) if is_eof(&e) => {
                            self.on(Ev::eof_list_end);
                            self.pos = at;
                            break;
                        }
                        Err(e) => return Err(e),
                    }
                }
                V::S(out)
            }
            Parser::Count(x) => {
                let t = match t {
                    Ty::Vec(t) | Ty::Deque(t) => t,
                    t => panic!("count of {:?}", t),
                };
                let n = self.x(x, env);
                if n > 0 {
                    self.on(Ev::helper_items);
                } else {
                    self.on(Ev::empty_list);
                }
                let mut out = vec![];
                for _ in 0..n {
                    out.push(self.read_after(t, el_cx, args)?);
                }
                V::S(out)
            }
            Parser::Separated | Parser::SeparatedTrailing => {
                let (t, s) = match t {
                    Ty::Punct(t, s) => (t, s),
                    t => panic!("separated of {:?}", t),
                };
                let n = cx.count.expect("count");
                let trailing = *p == Parser::SeparatedTrailing;
                if n == 0 {
                    self.on(Ev::empty_list);
                }
                if n > 1 {
                    self.on(Ev::punct);
                }
                let (mut a, mut b) = (vec![], vec![]);
                for i in 0..n {
                    a.push(self.read_after(t, cx, args)?);
                    if trailing || i + 1 != n {
                        b.push(self.read_after(s, cx, &[])?);
                    }
                }
                V::Pn(a, b)
            }
            Parser::PtrParse(pp) => {
                self.entry(cx.e, pp.name(), true, None, false);
                let bits = self.prim(*pp, cx.e, Hint::Ptr(cx.off))?;
                let saved = self.pos;
                if cx.off != 0 {
                    self.on(Ev::offset);
                }
                self.goto_target(bits, *pp, cx.off)?;
                let v = self.read_after(t, cx, args)?;
                self.pos = saved;
                self.on(Ev::ptr);
                v
            }
        })
    }
}

/// How the root is read
#[derive(Clone, Debug, PartialEq)]
pub struct Opts {
    pub e: u8,
    pub count: Option<u64>,
    pub off: u64,
    pub args: Vec<u64>,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub res: Result<V, Er>,
    pub pos: u64,
    pub ev: u64,
    pub steps: u64,
    pub low: u64,
}

/// Reads the root. None: too much work
pub fn run(prog: &Program, data: &[u8], base: u64, pos: u64, o: &Opts, after: bool, fault: Option<(u64, &'static str)>) -> Option<Outcome> {
    run_tpl(prog, data, base, pos, o, after, fault, &mut None)
}

/// The same, collecting the expected debug template
pub fn run_tpl(prog: &Program, data: &[u8], base: u64, pos: u64, o: &Opts, after: bool, fault: Option<(u64, &'static str)>, tpl: &mut Option<Vec<Tpl>>) -> Option<Outcome> {
    let mut m = M::new(prog, data.to_vec(), base, pos);
    m.fault = fault;
    m.root_e = o.e;
    m.tpl = tpl.take();
    let r = m.top(o, after);
    *tpl = m.tpl.take();
    match r {
        Ok(v) => Some(Outcome { res: Ok(v), pos: m.pos, ev: m.ev, steps: m.steps, low: m.low }),
        Err(Stop::Er(e)) => Some(Outcome { res: Err(e), pos: m.pos, ev: m.ev, steps: m.steps, low: m.low }),
        Err(Stop::Skip) => None,
    }
}

/// Makes up input while reading it
pub fn fill(prog: &Program, len: usize, base: u64, pos: u64, o: &Opts, t: &mut Tape, clean: u32, hostile: bool) -> Vec<u8> {
    let mut m = M::new(prog, vec![0; len], base, pos);
    m.root_e = o.e;
    m.fill = Some(Fill { t, known: vec![false; len], clean, hostile });
    let _ = m.top(o, true);
    let f = m.fill.take().unwrap();
    let mut data = m.data;
    for i in 0..len {
        if !f.known[i] {
            data[i] = if f.t.pct(30) { f.t.below(8) as u8 } else { f.t.byte() };
        }
    }
    data
}
