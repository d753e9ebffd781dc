//! Intermediate representation of generated definitions.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum P { U8, U16, U32, U64, U128, I8, I16, I32, I64, I128, F32, F64, Char }

pub const INTS: [P; 10] = [P::U8, P::U16, P::U32, P::U64, P::I8, P::I16, P::I32, P::I64, P::U128, P::I128];

impl P {
    pub fn name(self) -> &'static str {
        use P::*;
        match self {
            U8 => "u8", U16 => "u16", U32 => "u32", U64 => "u64", U128 => "u128",
            I8 => "i8", I16 => "i16", I32 => "i32", I64 => "i64", I128 => "i128",
            F32 => "f32", F64 => "f64", Char => "char",
        }
    }
    pub fn size(self) -> usize {
        use P::*;
        match self {
            U8 | I8 | Char => 1,
            U16 | I16 => 2,
            U32 | I32 | F32 => 4,
            U64 | I64 | F64 => 8,
            U128 | I128 => 16,
        }
    }
    pub fn signed(self) -> bool {
        matches!(self, P::I8 | P::I16 | P::I32 | P::I64 | P::I128)
    }
    pub fn is_int(self) -> bool {
        !matches!(self, P::F32 | P::F64 | P::Char)
    }
    pub fn mask(self) -> u128 {
        let b = self.size() * 8;
        if b == 128 { u128::MAX } else { (1 << b) - 1 }
    }
    /// Value as `x as i128` (sign-extended) from the masked bits
    pub fn ext(self, bits: u128) -> i128 {
        if self.signed() {
            let sh = 128 - self.size() as u32 * 8;
            ((bits << sh) as i128) >> sh
        } else {
            bits as i128
        }
    }
    /// `x as u64`
    pub fn as_u64(self, bits: u128) -> u64 {
        self.ext(bits) as u64
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Prim(P),
    Tup(Vec<Ty>),
    Arr(Box<Ty>, usize),
    Vec(Box<Ty>),
    Deque(Box<Ty>),
    Boxed(Box<Ty>),
    /// a type whose after_parse records what it is given; true: with arguments
    Hook(bool),
    Opt(Box<Ty>),
    Pos(Box<Ty>),
    Ptr(P, Box<Ty>),
    Punct(Box<Ty>, Box<Ty>),
    NStr,
    NWide,
    NzV8,
    NzV16,
    Unit,
    Phantom,
    Obs,
    User(usize, Option<Box<Ty>>),
    /// the type being defined, again
    Rec(usize),
    Param,
}

/// Integer expressions; evaluate to u64
#[derive(Clone, PartialEq, Debug)]
pub enum X {
    C(u64),
    /// integer field `as u64`
    F(usize),
    /// hash of a field
    H(usize),
    /// `.pos` of a PosValue field
    PosOf(usize),
    /// `.ptr as u64` of a pointer field
    PtrOf(usize),
    Imp(usize),
    Add(Box<X>, Box<X>),
    Xor(Box<X>, Box<X>),
    And(Box<X>, Box<X>),
    Rem(Box<X>, u64),
    /// hash of the closure parameter `x`
    It,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cmp { Eq, Ne, Lt, Le, Gt, Ge }

#[derive(Clone, PartialEq, Debug)]
pub enum B {
    Lit(bool),
    Cmp(Cmp, X, X),
    And(Box<B>, Box<B>),
    Or(Box<B>, Box<B>),
    Not(Box<B>),
}

/// Values written in definitions (calc, alternates)
#[derive(Clone, PartialEq, Debug)]
pub enum CV {
    Int(P, X),
    Def,
    Tup(Vec<CV>),
    SomeOf(Box<CV>),
    NoneOf,
    VecOf(Vec<CV>),
    ArrOf(Vec<CV>),
    BoxOf(Box<CV>),
    /// A pointer that may or may not have its value
    PtrOf(X, Option<Box<CV>>),
    HookOf(X),
    Str(Vec<u8>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End { Big, Little }

#[derive(Clone, PartialEq, Debug)]
pub enum FEnd { None, Fixed(End), Cond(End, B) }

#[derive(Clone, PartialEq, Debug)]
pub enum Lit {
    Byte(u8),
    Str(Vec<u8>),
    Char(u8),
    /// value, suffixed
    Int(P, u128, bool),
    F32(u32),
    F64(u64),
}

impl Lit {
    /// Scalars read to match it
    pub fn prim(&self) -> Option<P> {
        match self {
            Lit::Byte(_) => Some(P::U8),
            Lit::Str(_) => None,
            Lit::Char(_) => Some(P::Char),
            Lit::Int(p, _, _) => Some(*p),
            Lit::F32(_) => Some(P::F32),
            Lit::F64(_) => Some(P::F64),
        }
    }
    pub fn bits(&self) -> u128 {
        match self {
            Lit::Byte(b) | Lit::Char(b) => *b as u128,
            Lit::Str(_) => 0,
            Lit::Int(p, v, _) => v & p.mask(),
            Lit::F32(v) => *v as u128,
            Lit::F64(v) => *v as u128,
        }
    }
    pub fn same_kind(&self, o: &Lit) -> bool {
        match (self, o) {
            (Lit::Str(a), Lit::Str(b)) => a.len() == b.len(),
            (Lit::Int(a, _, s), Lit::Int(b, _, t)) => a == b && s == t,
            _ => self.prim().is_some() && self.prim() == o.prim()
                && !matches!(self, Lit::Int(..)) && !matches!(o, Lit::Int(..)),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Cons {
    Text,
    Msg(String),
    /// format string pieces joined by {}, with arguments
    Fmt(String, Vec<X>),
    Custom(X),
    CustomU32(X),
    CustomString(X),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Assert { pub cond: B, pub cons: Cons }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum MapForm { Closure, Capture, Path, Call }

#[derive(Clone, PartialEq, Debug)]
pub enum MapFn {
    /// `(x, c)`
    Tag(X),
    /// integer to integer: `(x as u64 ^ c) as P`
    Int(P, P, X),
    /// hash
    Hash,
}

#[derive(Clone, PartialEq, Debug)]
pub enum MapErr { Custom, Io(u8), Str }

#[derive(Clone, PartialEq, Debug)]
pub struct MapD {
    pub input: Ty,
    pub f: MapFn,
    pub form: MapForm,
    /// fallible: fails with err if the condition (over the hash of x) holds
    pub fail: Option<(B, MapErr)>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Parser {
    Obs { count_known: bool, call: bool },
    ObsFail(u64),
    ReadBytes,
    Until(B),
    UntilEx(B),
    UntilEof,
    Count(X),
    Separated,
    SeparatedTrailing,
    PtrParse(P),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Mode { Normal, Default, Ignore, Calc(CV), Parse(Parser) }

#[derive(Clone, PartialEq, Debug)]
pub enum SeekTo { Start(X), Current(X, bool), End(X, bool) }

#[derive(Clone, PartialEq, Debug)]
pub enum Args { None, List(Vec<X>), Tuple(Vec<X>) }

#[derive(Clone, PartialEq, Debug)]
pub struct Field {
    pub name: String,
    /// type of the field as declared
    pub ty: Ty,
    pub end: FEnd,
    pub magic: Option<Lit>,
    pub args: Args,
    pub arg_tys: Vec<P>,
    pub mode: Mode,
    pub count: Option<X>,
    pub offset: Option<X>,
    pub offset_after: Option<X>,
    pub cond: Option<(B, Option<CV>)>,
    pub deref_now: bool,
    pub restore: bool,
    pub try_: bool,
    pub temp: bool,
    pub asserts: Vec<Assert>,
    /// amounts as (expression, negated)
    pub pad_before: Option<(X, bool)>,
    pub pad_after: Option<(X, bool)>,
    pub align_before: Option<X>,
    pub align_after: Option<X>,
    pub seek_before: Option<SeekTo>,
    pub pad_size_to: Option<X>,
    pub map: Option<MapD>,
}

impl Field {
    pub fn new(name: String, ty: Ty) -> Self {
        Field {
            name, ty, end: FEnd::None, magic: None, args: Args::None, arg_tys: vec![], mode: Mode::Normal,
            count: None, offset: None, offset_after: None, cond: None, deref_now: false,
            restore: false, try_: false, temp: false, asserts: vec![], pad_before: None,
            pad_after: None, align_before: None, align_after: None, seek_before: None,
            pad_size_to: None, map: None,
        }
    }
    /// Does after_parse run for it?
    pub fn has_after(&self) -> bool {
        matches!(self.mode, Mode::Normal) && self.map.is_none()
    }
    pub fn generated(&self) -> bool {
        matches!(self.mode, Mode::Default | Mode::Ignore | Mode::Calc(_))
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Body {
    pub tuple: bool,
    pub fields: Vec<Field>,
    pub asserts: Vec<Assert>,
    pub pre: Vec<Assert>,
    pub magic: Option<Lit>,
    pub end: Option<End>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Variant {
    pub name: String,
    /// None: unit variant (asserts and end of the body are unused)
    pub unit: bool,
    pub body: Body,
}

#[derive(Clone, PartialEq, Debug)]
pub struct UVariant {
    pub name: String,
    pub disc: Option<i128>,
    pub value: i128,
    pub magic: Option<Lit>,
    pub pre: Vec<Assert>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Kind {
    Unit,
    Struct(Body),
    Data { variants: Vec<Variant>, all_errors: bool, explicit: bool },
    Repr(P, bool, Vec<UVariant>),
    MagicEnum(Vec<UVariant>),
    /// read `map.input`, then construct. The item is a tuple struct, or an enum if `en`
    Mapped { map: MapD, en: bool },
}

#[derive(Clone, PartialEq, Debug)]
pub enum Imports { None, List(Vec<(String, P)>), Tuple(String, Vec<P>) }

impl Imports {
    pub fn tys(&self) -> Vec<P> {
        match self {
            Imports::None => vec![],
            Imports::List(l) => l.iter().map(|x| x.1).collect(),
            Imports::Tuple(_, l) => l.clone(),
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct TypeDef {
    pub name: String,
    pub kind: Kind,
    pub end: Option<End>,
    pub magic: Option<Lit>,
    pub imports: Imports,
    pub asserts: Vec<Assert>,
    pub pre: Vec<Assert>,
    pub generic: bool,
    pub derive_default: bool,
    /// use the attribute macro instead of the derive
    pub attr_macro: bool,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Program {
    /// read instead of the last type, which it holds
    pub top: Option<Ty>,
    pub types: Vec<TypeDef>,
}

impl Program {
    pub fn root(&self) -> usize {
        self.types.len() - 1
    }

    /// Types of the arguments of a type
    pub fn args_of(&self, ty: &Ty) -> Vec<P> {
        match ty {
            Ty::Arr(t, _) | Ty::Vec(t) | Ty::Deque(t) | Ty::Boxed(t) | Ty::Opt(t) | Ty::Pos(t) | Ty::Ptr(_, t) => self.args_of(t),
            Ty::Punct(t, _) => self.args_of(t),
            Ty::User(i, _) | Ty::Rec(i) => self.types[*i].imports.tys(),
            Ty::Hook(true) => vec![P::U8, P::U16],
            _ => vec![],
        }
    }

    pub fn has_default(&self, ty: &Ty) -> bool {
        match ty {
            Ty::Prim(_) | Ty::Opt(_) | Ty::NStr | Ty::NWide | Ty::Unit | Ty::Phantom | Ty::Vec(_) | Ty::Deque(_) | Ty::NzV8 | Ty::NzV16 => true,
            Ty::Tup(ts) => ts.len() <= 12 && ts.iter().all(|t| self.has_default(t)),
            Ty::Arr(t, n) => *n <= 32 && self.has_default(t),
            Ty::Boxed(t) => self.has_default(t),
            Ty::User(i, _) => self.types[*i].derive_default,
            Ty::Pos(_) | Ty::Ptr(..) | Ty::Hook(_) | Ty::Punct(..) | Ty::Obs | Ty::Param | Ty::Rec(_) => false,
        }
    }

    /// Does it hold something for its after_parse to do?
    pub fn bare_ptr(ty: &Ty) -> bool {
        match ty {
            Ty::Ptr(..) | Ty::Hook(_) => true,
            Ty::Arr(t, _) | Ty::Vec(t) | Ty::Deque(t) | Ty::Boxed(t) | Ty::Opt(t) | Ty::Pos(t) => Self::bare_ptr(t),
            Ty::Punct(a, b) => Self::bare_ptr(a) || Self::bare_ptr(b),
            Ty::Tup(ts) => ts.iter().any(Self::bare_ptr),
            _ => false,
        }
    }

    /// Lower bound of the bytes read by a value of this type (0: may be empty)
    pub fn min_size(&self, ty: &Ty) -> usize {
        match ty {
            Ty::Prim(p) | Ty::Ptr(p, _) => p.size(),
            Ty::Tup(ts) => ts.iter().map(|t| self.min_size(t)).sum(),
            Ty::Arr(t, n) => self.min_size(t) * n,
            Ty::Boxed(t) | Ty::Opt(t) | Ty::Pos(t) => self.min_size(t),
            Ty::NStr | Ty::NzV8 | Ty::Hook(_) => 1,
            Ty::NWide | Ty::NzV16 => 2,
            Ty::Obs => 2,
            Ty::User(i, _) => {
                let t = &self.types[*i];
                let m = t.magic.as_ref().map_or(0, |m| match m { Lit::Str(s) => s.len(), m => m.prim().unwrap().size() });
                m + match &t.kind {
                    Kind::Repr(p, _, _) => p.size(),
                    Kind::MagicEnum(v) => v.iter().find_map(|v| v.magic.as_ref()).map_or(0, |m| match m { Lit::Str(s) => s.len(), m => m.prim().unwrap().size() }),
                    Kind::Struct(b) => b.fields.iter().map(|f| {
                        // movements may undo what was read
                        if f.seek_before.is_some() || f.restore || f.pad_before.is_some() || f.pad_after.is_some() { return -(1i64 << 32); }
                        if f.cond.is_some() || f.generated() || f.try_ { return 0; }
                        let t = f.map.as_ref().map_or(&f.ty, |m| &m.input);
                        if matches!(f.mode, Mode::Parse(_)) { return 0; }
                        self.min_size(t) as i64
                    }).sum::<i64>().max(0) as usize,
                    _ => 0,
                }
            }
            _ => 0,
        }
    }
}
