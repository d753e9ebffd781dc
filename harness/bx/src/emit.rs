//! Definitions as Rust source.
use crate::ir::*;
use crate::tape::Tape;
use std::fmt::Write;

/// Names that expressions refer to
#[derive(Clone, Default)]
pub struct Names {
    pub fields: Vec<String>,
    pub imports: Vec<String>,
    /// expression for the hash of the closure parameter
    pub it: &'static str,
}

pub fn import_names(i: &Imports) -> Vec<String> {
    match i {
        Imports::None => vec![],
        Imports::List(l) => l.iter().map(|x| x.0.clone()).collect(),
        Imports::Tuple(n, l) => (0..l.len()).map(|i| format!("{}.{}", n, i)).collect(),
    }
}

pub fn xs(x: &X, n: &Names) -> String {
    match x {
        X::C(c) => format!("{}u64", c),
        X::F(i) => format!("({} as u64)", n.fields[*i]),
        X::H(i) => format!("bxrt::h(&{})", n.fields[*i]),
        X::PosOf(i) => format!("{}.pos", n.fields[*i]),
        X::PtrOf(i) => format!("({}.ptr as u64)", n.fields[*i]),
        X::Imp(i) => format!("({} as u64)", n.imports[*i]),
        X::Add(a, b) => format!("{}.wrapping_add({})", xs(a, n), xs(b, n)),
        X::Xor(a, b) => format!("({} ^ {})", xs(a, n), xs(b, n)),
        X::And(a, b) => format!("({} & {})", xs(a, n), xs(b, n)),
        X::Rem(a, m) => format!("({} % {}u64)", xs(a, n), m),
        X::It => n.it.to_string(),
    }
}

/// `sub`: the expression is an operand
pub fn bs(b: &B, n: &Names, sub: bool) -> String {
    let (s, atom) = match b {
        B::Lit(v) => (v.to_string(), true),
        B::Cmp(c, x, y) => {
            let op = match c {
                Cmp::Eq => "==",
                Cmp::Ne => "!=",
                Cmp::Lt => "<",
                Cmp::Le => "<=",
                Cmp::Gt => ">",
                Cmp::Ge => ">=",
            };
            (format!("{} {} {}", xs(x, n), op, xs(y, n)), false)
        }
        B::And(x, y) => (format!("{} && {}", bs(x, n, true), bs(y, n, true)), false),
        B::Or(x, y) => (format!("{} || {}", bs(x, n, true), bs(y, n, true)), false),
        B::Not(x) => (format!("!{}", bs(x, n, true)), true),
    };
    if sub && !atom {
        format!("({})", s)
    } else {
        s
    }
}

pub fn ty(t: &Ty) -> String {
    match t {
        Ty::Prim(p) => p.name().into(),
        Ty::Tup(ts) => {
            let mut s = String::from("(");
            for t in ts {
                s.push_str(&ty(t));
                s.push_str(", ");
            }
            s.push(')');
            s
        }
        Ty::Arr(t, n) => format!("[{}; {}]", ty(t), n),
        Ty::Vec(t) => format!("Vec<{}>", ty(t)),
        Ty::Deque(t) => format!("std::collections::VecDeque<{}>", ty(t)),
        Ty::Boxed(t) => format!("Box<{}>", ty(t)),
        Ty::Opt(t) => format!("Option<{}>", ty(t)),
        Ty::Pos(t) => format!("binread::PosValue<{}>", ty(t)),
        Ty::Ptr(p, t) => format!("binread::FilePtr<{}, {}>", p.name(), ty(t)),
        Ty::Punct(a, b) => format!("binread::punctuated::Punctuated<{}, {}>", ty(a), ty(b)),
        Ty::NStr => "binread::NullString".into(),
        Ty::NWide => "binread::NullWideString".into(),
        Ty::NzV8 => "Vec<core::num::NonZeroU8>".into(),
        Ty::NzV16 => "Vec<core::num::NonZeroU16>".into(),
        Ty::Unit => "()".into(),
        Ty::Phantom => "core::marker::PhantomData<u8>".into(),
        Ty::Obs => "bxrt::Obs".into(),
        Ty::Hook(false) => "bxrt::Hook<()>".into(),
        Ty::Hook(true) => "bxrt::Hook<(u8, u16)>".into(),
        Ty::User(i, None) | Ty::Rec(i) => format!("T{}", i),
        Ty::User(i, Some(p)) => format!("T{}<{}>", i, ty(p)),
        Ty::Param => "TT".into(),
    }
}

fn cv(c: &CV, n: &Names) -> String {
    let list = |v: &[CV]| v.iter().map(|c| cv(c, n)).collect::<Vec<_>>().join(", ");
    match c {
        CV::Int(P::Char, x) => format!("({} as u8) as char", xs(x, n)),
        CV::Int(p, x) => format!("{} as {}", xs(x, n), p.name()),
        CV::Def => "Default::default()".into(),
        CV::Tup(v) => format!("({},)", list(v)),
        CV::SomeOf(c) => format!("Some({})", cv(c, n)),
        CV::NoneOf => "None".into(),
        CV::VecOf(v) => format!("vec![{}]", list(v)),
        CV::ArrOf(v) => format!("[{}]", list(v)),
        CV::BoxOf(c) => format!("Box::new({})", cv(c, n)),
        CV::PtrOf(x, v) => {
            let v = v.as_ref().map_or("None".into(), |v| format!("Some({})", cv(v, n)));
            format!("binread::FilePtr {{ ptr: {} as _, value: {} }}", xs(x, n), v)
        }
        CV::HookOf(x) => format!("bxrt::Hook::made({} as u8)", xs(x, n)),
        CV::Str(s) => format!("binread::NullString(vec!{:?})", s),
    }
}

pub fn lit(l: &Lit) -> String {
    let esc = |b: &u8| -> String {
        match b {
            b'\'' | b'"' | b'\\' => format!("\\{}", *b as char),
            0x20..=0x7e => (*b as char).to_string(),
            _ => format!("\\x{:02x}", b),
        }
    };
    match l {
        Lit::Byte(b) => format!("b'{}'", esc(b)),
        Lit::Str(s) => format!("b\"{}\"", s.iter().map(esc).collect::<String>()),
        Lit::Char(b) if *b > 0x7f => format!("'\\u{{{:x}}}'", b),
        Lit::Char(b) => format!("'{}'", esc(b)),
        Lit::Int(p, v, suf) => {
            let v = v & p.mask();
            let e = p.ext(v);
            if p.signed() && e < 0 {
                return format!("{}{}", e, p.name());
            }
            if *suf { format!("{:#x}{}", v, p.name()) } else { format!("{}", v) }
        }
        Lit::F32(v) => format!("{:?}f32", f32::from_bits(*v)),
        Lit::F64(v) => format!("{:?}f64", f64::from_bits(*v)),
    }
}

fn amount(x: &X, neg: bool, n: &Names) -> String {
    if neg { format!("({} as i64).wrapping_neg()", xs(x, n)) } else { format!("{} as i64", xs(x, n)) }
}

struct Em<'a> {
    st: &'a mut Tape,
    /// functions used by maps
    fns: String,
    nfn: usize,
}

/// A directive: kinds keep their relative order when equal
struct D(&'static str, String);

impl<'a> Em<'a> {
    fn kv(&mut self, k: &'static str, v: String) -> D {
        D(k, if self.st.pct(40) { format!("{}({})", k, v) } else { format!("{} = {}", k, v) })
    }

    fn attrs(&mut self, mut ds: Vec<D>, ind: &str) -> String {
        if ds.is_empty() {
            return if self.st.pct(4) { format!("{}#[br()]\n", ind) } else { String::new() };
        }
        if self.st.pct(60) {
            // a random order, keeping that of equal kinds
            let mut out: Vec<D> = vec![];
            for d in ds {
                let lo = out.iter().rposition(|o| o.0 == d.0).map_or(0, |i| i + 1);
                let at = lo + self.st.below((out.len() - lo + 1) as u64) as usize;
                out.insert(at, d);
            }
            ds = out;
        }
        let split = if self.st.pct(50) { 45 } else { 0 };
        let mut s = String::new();
        let mut cur: Vec<String> = vec![];
        let n = ds.len();
        for (i, d) in ds.into_iter().enumerate() {
            cur.push(d.1);
            if i + 1 == n || self.st.pct(split) {
                let name = if self.st.pct(30) { "binread" } else { "br" };
                let comma = if self.st.pct(20) { "," } else { "" };
                let _ = write!(s, "{}#[{}({}{})]\n", ind, name, cur.join(", "), comma);
                cur.clear();
                if self.st.pct(5) {
                    let _ = write!(s, "{}#[allow(unused)]\n", ind);
                }
            }
        }
        s
    }

    fn assert(&mut self, k: &'static str, a: &Assert, n: &Names) -> D {
        let c = bs(&a.cond, n, false);
        let tc = if self.st.pct(15) { "," } else { "" };
        D(k, match &a.cons {
            Cons::Text => format!("{}({}{})", k, c, tc),
            Cons::Msg(m) => format!("{}({}, {:?}{})", k, c, m, tc),
            Cons::Fmt(t, v) => {
                let f = format!("{}{}", t, vec!["{}"; v.len()].join(" "));
                let a: Vec<String> = v.iter().map(|x| xs(x, n)).collect();
                format!("{}({}, {:?}, {}{})", k, c, f, a.join(", "), tc)
            }
            Cons::Custom(x) => format!("{}({}, bxrt::CErr({}){})", k, c, xs(x, n), tc),
            Cons::CustomU32(x) => format!("{}({}, {} as u32{})", k, c, xs(x, n), tc),
            Cons::CustomString(x) => format!("{}({}, format!(\"custom {{}}\", {}){})", k, c, xs(x, n), tc),
        })
    }

    fn map_body(&self, m: &MapD, out: &dyn Fn(String) -> String, n: &Names) -> String {
        let v = match &m.f {
            MapFn::Tag(c) => xs(c, n),
            MapFn::Int(_, q, c) => format!("((zz as u64) ^ {}) as {}", xs(c, n), q.name()),
            MapFn::Hash => "bxrt::h(&zz)".into(),
        };
        let v = out(v);
        match &m.fail {
            None => v,
            Some((c, e)) => {
                let e = match e {
                    MapErr::Custom => "bxrt::CErr(bxrt::h(&zz))".to_string(),
                    MapErr::Io(k) => format!("bxrt::io_err({})", k),
                    MapErr::Str => "format!(\"map {}\", bxrt::h(&zz))".to_string(),
                };
                format!("if {} {{ Err({}) }} else {{ Ok({}) }}", bs(c, n, false), e, v)
            }
        }
    }

    fn err_ty(m: &MapD) -> &'static str {
        match m.fail.as_ref().map(|f| &f.1) {
            Some(MapErr::Custom) => "bxrt::CErr",
            Some(MapErr::Io(_)) => "binread::io::Error",
            Some(MapErr::Str) => "String",
            None => "()",
        }
    }

    /// `out`: type of the result; `build`: makes it from the value of the map function
    fn map(&mut self, m: &MapD, out: &str, build: &dyn Fn(String) -> String, n: &Names) -> D {
        let n = Names { it: "bxrt::h(&zz)", ..n.clone() };
        let k = if m.fail.is_some() { "try_map" } else { "map" };
        let input = ty(&m.input);
        let body = self.map_body(m, build, &n);
        let ret = if m.fail.is_some() { format!("Result<{}, {}>", out, Self::err_ty(m)) } else { out.to_string() };
        let v = match m.form {
            MapForm::Closure => format!("|zz: {}| {}", input, body),
            MapForm::Capture => format!("|zz: {}| -> {} {{ {} }}", input, ret, body),
            MapForm::Path => {
                self.nfn += 1;
                let _ = write!(self.fns, "pub fn mf_{}(zz: {}) -> {} {{ {} }}\n", self.nfn, input, ret, body);
                format!("mf_{}", self.nfn)
            }
            MapForm::Call => {
                self.nfn += 1;
                // the constant is passed to a function that returns the closure
                let (arg, f) = match &m.f {
                    MapFn::Tag(c) => (xs(c, &n), MapFn::Tag(X::It)),
                    MapFn::Int(p, q, c) => (xs(c, &n), MapFn::Int(*p, *q, X::It)),
                    MapFn::Hash => ("0".into(), MapFn::Hash),
                };
                let k2 = Names { it: "k9", ..n.clone() };
                let inner = MapD { f, fail: None, ..m.clone() };
                let val = self.map_body(&inner, build, &k2);
                let full = match &m.fail {
                    None => val,
                    Some((c, _)) => {
                        let e = match m.fail.as_ref().map(|f| &f.1) {
                            Some(MapErr::Custom) => "bxrt::CErr(bxrt::h(&zz))".to_string(),
                            Some(MapErr::Io(k)) => format!("bxrt::io_err({})", k),
                            _ => "format!(\"map {}\", bxrt::h(&zz))".to_string(),
                        };
                        format!("if {} {{ Err({}) }} else {{ Ok({}) }}", bs(c, &n, false), e, val)
                    }
                };
                let _ = write!(self.fns, "pub fn mc_{}(k9: u64) -> impl Fn({}) -> {} {{ move |zz| {} }}\n", self.nfn, input, ret, full);
                format!("mc_{}({})", self.nfn, arg)
            }
        };
        self.kv(k, v)
    }

    fn field(&mut self, f: &Field, n: &Names, pre_names: &Names) -> String {
        // `pre_names`: the fields before this one; `n`: including it
        let p = pre_names;
        let mut d: Vec<D> = vec![];
        match &f.end {
            FEnd::None => {}
            FEnd::Fixed(End::Big) => d.push(D("end", "big".into())),
            FEnd::Fixed(End::Little) => d.push(D("end", "little".into())),
            FEnd::Cond(End::Big, b) => {
                let v = bs(b, p, false);
                d.push(self.kv("is_big", v))
            }
            FEnd::Cond(End::Little, b) => {
                let v = bs(b, p, false);
                d.push(self.kv("is_little", v))
            }
        }
        if let Some(m) = &f.magic {
            d.push(self.kv("magic", lit(m)));
        }
        let arg = |x: &X, t: &P| format!("{} as {}", xs(x, p), t.name());
        match &f.args {
            Args::None => {}
            Args::List(l) => {
                let a: Vec<String> = l.iter().zip(&f.arg_tys).map(|(x, t)| arg(x, t)).collect();
                let tc = if self.st.pct(15) && !a.is_empty() { "," } else { "" };
                d.push(D("args", format!("args({}{})", a.join(", "), tc)));
            }
            Args::Tuple(l) => {
                let a: Vec<String> = l.iter().zip(&f.arg_tys).map(|(x, t)| arg(x, t)).collect();
                d.push(self.kv("args_tuple", format!("({},)", a.join(", "))));
            }
        }
        match &f.mode {
            Mode::Normal => {}
            Mode::Default => d.push(D("mode", if self.st.pct(30) { "ignore" } else { "default" }.into())),
            Mode::Ignore => d.push(D("mode", if self.st.pct(30) { "default" } else { "ignore" }.into())),
            Mode::Calc(c) => {
                let v = cv(c, p);
                d.push(self.kv("calc", v))
            }
            Mode::Parse(ps) => {
                let inner = if f.try_ { match &f.ty { Ty::Opt(t) => &**t, t => t } } else { &f.ty };
                let el = match inner {
                    Ty::Vec(t) | Ty::Deque(t) => ty(t),
                    _ => String::new(),
                };
                let it = Names { it: "bxrt::h(zz)", ..p.clone() };
                let v = match ps {
                    Parser::Obs { count_known: true, call: false } => "bxrt::obs".into(),
                    Parser::Obs { count_known: false, call: false } => "bxrt::obs_nc".into(),
                    Parser::Obs { count_known, call: true } => format!("bxrt::obs_call({})", count_known),
                    Parser::ObsFail(k) => format!("bxrt::obs_fail({})", k),
                    Parser::ReadBytes => "binread::helpers::read_bytes".into(),
                    Parser::Until(b) => format!("binread::helpers::until(|zz: &{}| {})", el, bs(b, &it, false)),
                    Parser::UntilEx(b) => format!("binread::helpers::until_exclusive(|zz: &{}| {})", el, bs(b, &it, false)),
                    Parser::UntilEof => "binread::helpers::until_eof".into(),
                    Parser::Count(x) => format!("binread::helpers::count({} as usize)", xs(x, p)),
                    Parser::Separated => "binread::punctuated::Punctuated::separated".into(),
                    Parser::SeparatedTrailing => "binread::punctuated::Punctuated::separated_trailing".into(),
                    Parser::PtrParse(pp) => format!("binread::FilePtr::<{}, {}>::parse", pp.name(), ty(inner)),
                };
                d.push(self.kv("parse_with", v));
            }
        }
        if let Some(x) = &f.count {
            let v = xs(x, p);
            d.push(self.kv("count", v));
        }
        if let Some(x) = &f.offset {
            let v = xs(x, p);
            d.push(self.kv("offset", v));
        }
        if let Some(x) = &f.offset_after {
            let v = xs(x, p);
            d.push(self.kv("offset_after", v));
        }
        if let Some((c, alt)) = &f.cond {
            d.push(D("if", match alt {
                None => format!("if({})", bs(c, p, false)),
                Some(a) => format!("if({}, {})", bs(c, p, false), cv(a, p)),
            }));
        }
        if f.deref_now {
            d.push(D("now", if self.st.pct(40) { "postprocess_now" } else { "deref_now" }.into()));
        }
        if f.restore {
            d.push(D("restore", "restore_position".into()));
        }
        if f.try_ {
            d.push(D("try", "try".into()));
        }
        if f.temp {
            d.push(D("temp", "temp".into()));
        }
        if let Some((x, neg)) = &f.pad_before {
            let v = amount(x, *neg, p);
            d.push(self.kv("pad_before", v));
        }
        if let Some((x, neg)) = &f.pad_after {
            let v = amount(x, *neg, p);
            d.push(self.kv("pad_after", v));
        }
        if let Some(x) = &f.align_before {
            let v = xs(x, p);
            d.push(self.kv("align_before", v));
        }
        if let Some(x) = &f.align_after {
            let v = xs(x, p);
            d.push(self.kv("align_after", v));
        }
        if let Some(s) = &f.seek_before {
            let v = match s {
                SeekTo::Start(x) => format!("binread::io::SeekFrom::Start({})", xs(x, p)),
                SeekTo::Current(x, neg) => format!("binread::io::SeekFrom::Current({})", amount(x, *neg, p)),
                SeekTo::End(x, neg) => format!("binread::io::SeekFrom::End({})", amount(x, *neg, p)),
            };
            d.push(self.kv("seek_before", v));
        }
        if let Some(x) = &f.pad_size_to {
            let v = xs(x, p);
            d.push(self.kv("pad_size_to", v));
        }
        if let Some(m) = &f.map {
            let out = ty(&f.ty);
            let b: Box<dyn Fn(String) -> String> = match m.f {
                MapFn::Tag(_) => Box::new(|c| format!("{{ let cc = {}; (zz, cc) }}", c)),
                _ => Box::new(|c| c),
            };
            let x = self.map(m, &out, &*b, p);
            d.push(x);
        }
        for a in &f.asserts {
            let x = self.assert("assert", a, n);
            d.push(x);
        }
        self.attrs(d, "    ")
    }

    fn fields(&mut self, b: &Body, imports: &[String], public: bool) -> String {
        let mut s = String::new();
        let mut p = Names { fields: vec![], imports: imports.to_vec(), it: "" };
        let vis = if public { "pub " } else { "" };
        for f in &b.fields {
            let mut n = p.clone();
            n.fields.push(f.name.clone());
            s.push_str(&self.field(f, &n, &p));
            if b.tuple {
                let _ = write!(s, "    {}{},\n", vis, ty(&f.ty));
            } else {
                let _ = write!(s, "    {}{}: {},\n", vis, f.name, ty(&f.ty));
            }
            p = n;
        }
        s
    }

    fn typedef(&mut self, t: &TypeDef) -> String {
        let imports = import_names(&t.imports);
        let n0 = Names { fields: vec![], imports: imports.clone(), it: "" };
        let mut d: Vec<D> = vec![];
        match t.end {
            Some(End::Big) => d.push(D("end", "big".into())),
            Some(End::Little) => d.push(D("end", "little".into())),
            None => {}
        }
        if let Some(m) = &t.magic {
            d.push(self.kv("magic", lit(m)));
        }
        match &t.imports {
            Imports::None => {}
            Imports::List(l) => {
                let a: Vec<String> = l.iter().map(|(n, p)| format!("{}: {}", n, p.name())).collect();
                let tc = if self.st.pct(15) { "," } else { "" };
                d.push(D("import", format!("import({}{})", a.join(", "), tc)));
            }
            Imports::Tuple(n, l) => {
                let a: Vec<&str> = l.iter().map(|p| p.name()).collect();
                d.push(self.kv("import_tuple", format!("{}: ({},)", n, a.join(", "))));
            }
        }
        for a in &t.pre {
            let x = self.assert("pre_assert", a, &n0);
            d.push(x);
        }
        let g = if t.generic { "<TT: binread::BinRead<Args = ()> + bxrt::ToVal>" } else { "" };
        let ga = if t.generic { "<TT>" } else { "" };
        let mut s = String::new();
        let am = t.attr_macro || self.st.pct(10);
        if am {
            s.push_str(["#[binread::derive_binread]\n", "#[derive_binread]\n"][self.st.below(2) as usize]);
            if t.derive_default {
                s.push_str("#[derive(Default)]\n");
            }
        } else {
            let dd = if t.derive_default { "Default, " } else { "" };
            let _ = write!(s, "#[derive({}{})]\n", dd, ["BinRead", "binread::BinRead"][self.st.below(2) as usize]);
        }
        let mut body = String::new();
        let mut val = String::new();
        match &t.kind {
            Kind::Unit => {
                for a in &t.asserts {
                    let x = self.assert("assert", a, &n0);
                    d.push(x);
                }
                let _ = write!(body, "pub struct {};\n", t.name);
                val.push_str("bxrt::V::Unit");
            }
            Kind::Struct(b) => {
                let all = Names { fields: b.fields.iter().map(|f| f.name.clone()).collect(), imports: imports.clone(), it: "" };
                for a in &t.asserts {
                    let x = self.assert("assert", a, &all);
                    d.push(x);
                }
                let fs = self.fields(b, &imports, true);
                if b.tuple {
                    let _ = write!(body, "pub struct {}{}(\n{});\n", t.name, g, fs);
                } else {
                    let _ = write!(body, "pub struct {}{} {{\n{}}}\n", t.name, g, fs);
                }
                val.push_str("bxrt::V::S(vec![");
                let mut k = 0;
                for f in &b.fields {
                    if f.temp {
                        continue;
                    }
                    if b.tuple {
                        let _ = write!(val, "bxrt::v(&self.{}), ", k);
                        k += 1;
                    } else {
                        let _ = write!(val, "bxrt::v(&self.{}), ", f.name);
                    }
                }
                val.push_str("])");
            }
            Kind::Data { variants, all_errors, explicit } => {
                if !*all_errors {
                    d.push(D("mode", "return_unexpected_error".into()));
                } else if *explicit {
                    d.push(D("mode", "return_all_errors".into()));
                }
                // assertions of the enum refer to nothing but imports
                for a in &t.asserts {
                    let x = self.assert("assert", a, &n0);
                    d.push(x);
                }
                let _ = write!(body, "pub enum {} {{\n", t.name);
                val.push_str("match self { ");
                for v in variants {
                    let mut vd: Vec<D> = vec![];
                    match v.body.end {
                        Some(End::Big) => vd.push(D("end", "big".into())),
                        Some(End::Little) => vd.push(D("end", "little".into())),
                        None => {}
                    }
                    if let Some(m) = &v.body.magic {
                        vd.push(self.kv("magic", lit(m)));
                    }
                    for a in &v.body.pre {
                        let x = self.assert("pre_assert", a, &n0);
                        vd.push(x);
                    }
                    if !v.unit {
                        let all = Names { fields: v.body.fields.iter().map(|f| f.name.clone()).collect(), imports: imports.clone(), it: "" };
                        for a in &v.body.asserts {
                            let x = self.assert("assert", a, &all);
                            vd.push(x);
                        }
                    }
                    let at = self.attrs(vd, "  ");
                    body.push_str(&at);
                    if v.unit {
                        let _ = write!(body, "  {},\n", v.name);
                        let _ = write!(val, "Self::{} => bxrt::V::E({:?}.into(), vec![]), ", v.name, v.name);
                        continue;
                    }
                    let fs = self.fields(&v.body, &imports, false);
                    let kept: Vec<(usize, &Field)> = v.body.fields.iter().filter(|f| !f.temp).enumerate().collect();
                    let outs: Vec<String> = kept.iter().map(|(i, _)| format!("bxrt::v(x{})", i)).collect();
                    if v.body.tuple {
                        let _ = write!(body, "  {}(\n{}  ),\n", v.name, fs);
                        let pats: Vec<String> = kept.iter().map(|(i, _)| format!("x{}", i)).collect();
                        let _ = write!(val, "Self::{}({}) => bxrt::V::E({:?}.into(), vec![{}]), ", v.name, pats.join(", "), v.name, outs.join(", "));
                    } else {
                        let _ = write!(body, "  {} {{\n{}  }},\n", v.name, fs);
                        let pats: Vec<String> = kept.iter().map(|(i, f)| format!("{}: x{}", f.name, i)).collect();
                        let _ = write!(val, "Self::{} {{ {} }} => bxrt::V::E({:?}.into(), vec![{}]), ", v.name, pats.join(", "), v.name, outs.join(", "));
                    }
                }
                body.push_str("}\n");
                val.push('}');
            }
            Kind::Repr(p, native, vs) => {
                d.push(self.kv("repr", p.name().to_string()));
                let need = vs.iter().any(|v| v.value > i32::MAX as i128 || v.value < i32::MIN as i128);
                if *native || need {
                    let r = match p {
                        P::U128 => "u64",
                        P::I128 => "i64",
                        p => p.name(),
                    };
                    let _ = write!(s, "#[repr({})]\n", r);
                }
                let _ = write!(body, "pub enum {} {{\n", t.name);
                val.push_str("match self { ");
                for v in vs {
                    let mut vd: Vec<D> = vec![];
                    for a in &v.pre {
                        let x = self.assert("pre_assert", a, &n0);
                        vd.push(x);
                    }
                    let at = self.attrs(vd, "  ");
                    body.push_str(&at);
                    match v.disc {
                        Some(k) => {
                            let _ = write!(body, "  {} = {},\n", v.name, k);
                        }
                        None => {
                            let _ = write!(body, "  {},\n", v.name);
                        }
                    }
                    let _ = write!(val, "Self::{} => bxrt::V::E({:?}.into(), vec![]), ", v.name, v.name);
                }
                body.push_str("}\n");
                val.push('}');
            }
            Kind::MagicEnum(vs) => {
                let _ = write!(body, "pub enum {} {{\n", t.name);
                val.push_str("match self { ");
                for v in vs {
                    let mut vd: Vec<D> = vec![];
                    if let Some(m) = &v.magic {
                        vd.push(self.kv("magic", lit(m)));
                    }
                    for a in &v.pre {
                        let x = self.assert("pre_assert", a, &n0);
                        vd.push(x);
                    }
                    let at = self.attrs(vd, "  ");
                    body.push_str(&at);
                    let _ = write!(body, "  {},\n", v.name);
                    let _ = write!(val, "Self::{} => bxrt::V::E({:?}.into(), vec![]), ", v.name, v.name);
                }
                body.push_str("}\n");
                val.push('}');
            }
            Kind::Mapped { map, en } => {
                let name = t.name.clone();
                let b: Box<dyn Fn(String) -> String> = if *en {
                    Box::new(move |c| format!("{{ let cc = {}; if bxrt::h(&zz) & 1 == 0 {{ {}::Even(zz, cc) }} else {{ {}::Odd(zz, cc) }} }}", c, name, name))
                } else {
                    Box::new(move |c| format!("{{ let cc = {}; {}(zz, cc) }}", c, name))
                };
                let x = self.map(map, &t.name, &*b, &n0);
                d.push(x);
                let i = ty(&map.input);
                if *en {
                    let _ = write!(body, "pub enum {} {{ Even({}, u64), Odd({}, u64) }}\n", t.name, i, i);
                    val.push_str("match self { Self::Even(x0, x1) => bxrt::V::E(\"Even\".into(), vec![bxrt::v(x0), bxrt::v(x1)]), Self::Odd(x0, x1) => bxrt::V::E(\"Odd\".into(), vec![bxrt::v(x0), bxrt::v(x1)]) }");
                } else {
                    let _ = write!(body, "pub struct {}(pub {}, pub u64);\n", t.name, i);
                    val.push_str("bxrt::V::S(vec![bxrt::v(&self.0), bxrt::v(&self.1)])");
                }
            }
        }
        let at = self.attrs(d, "");
        s.push_str(&at);
        s.push_str(&body);
        let _ = write!(s, "impl{} bxrt::ToVal for {}{} {{ fn v(&self) -> bxrt::V {{ {} }} }}\n\n", g, t.name, ga, val);
        s
    }
}

/// The module of a program
pub fn emit(p: &Program, style: &mut Tape) -> String {
    let mut e = Em { st: style, fns: String::new(), nfn: 0 };
    let mut s = String::from("use binread::{BinRead, derive_binread};\n\n");
    for t in &p.types {
        s.push_str(&e.typedef(t));
    }
    s.push_str(&e.fns);
    let root = &p.types[p.root()];
    let args = root.imports.tys();
    let a: String = args.iter().enumerate().map(|(i, p)| format!("a[{}] as {}, ", i, p.name())).collect();
    let _ = write!(
        s,
        "\npub fn run(r: &mut bxrt::TestReader, c: &bxrt::Call) -> Result<bxrt::V, binread::Error> {{\n    bxrt::root::<{}>(r, c, |a: &[u64]| ({}))\n}}\n",
        p.top.as_ref().map_or(root.name.clone(), ty), a
    );
    s
}
