//! How values and errors of the real code look to the model.
use bx::val::{vh, Er, V};
use binread::io::{ErrorKind, Read, Seek, SeekFrom};
use binread::{BinResult, Endian, ReadOptions};

pub trait ToVal {
    fn v(&self) -> V;
}

pub fn v<T: ToVal + ?Sized>(x: &T) -> V {
    x.v()
}

pub fn h<T: ToVal + ?Sized>(x: &T) -> u64 {
    vh(&x.v())
}

macro_rules! ints {
    ($($t:ty as $u:ty),*) => {$(
        impl ToVal for $t { fn v(&self) -> V { V::I(*self as $u as u128) } }
        impl Arg for $t { fn arg(&self) -> u64 { *self as u64 } }
    )*};
}
pub trait Arg {
    fn arg(&self) -> u64;
}
ints!(u8 as u8, u16 as u16, u32 as u32, u64 as u64, u128 as u128, i8 as u8, i16 as u16, i32 as u32, i64 as u64, i128 as u128, usize as u64);

impl ToVal for f32 {
    fn v(&self) -> V { V::I(self.to_bits() as u128) }
}
impl ToVal for f64 {
    fn v(&self) -> V { V::I(self.to_bits() as u128) }
}
impl ToVal for char {
    fn v(&self) -> V { V::I(*self as u128) }
}
impl ToVal for () {
    fn v(&self) -> V { V::Unit }
}
impl ToVal for core::num::NonZeroU8 {
    fn v(&self) -> V { V::I(self.get() as u128) }
}
impl ToVal for core::num::NonZeroU16 {
    fn v(&self) -> V { V::I(self.get() as u128) }
}
impl<T> ToVal for core::marker::PhantomData<T> {
    fn v(&self) -> V { V::Unit }
}
impl<T: ToVal> ToVal for Vec<T> {
    fn v(&self) -> V { V::S(self.iter().map(|x| x.v()).collect()) }
}
impl<T: ToVal> ToVal for std::collections::VecDeque<T> {
    fn v(&self) -> V { V::S(self.iter().map(|x| x.v()).collect()) }
}
impl<T: ToVal, const N: usize> ToVal for [T; N] {
    fn v(&self) -> V { V::S(self.iter().map(|x| x.v()).collect()) }
}
impl<T: ToVal> ToVal for Box<T> {
    fn v(&self) -> V { (**self).v() }
}
impl<T: ToVal> ToVal for Option<T> {
    fn v(&self) -> V { V::O(self.as_ref().map(|x| Box::new(x.v()))) }
}
impl<T: ToVal> ToVal for binread::PosValue<T> {
    fn v(&self) -> V { V::At(self.pos, Box::new((**self).v())) }
}
impl<P: ToVal + binread::BinRead<Args = ()> + binread::file_ptr::IntoSeekFrom, T: binread::BinRead + ToVal> ToVal for binread::FilePtr<P, T> {
    fn v(&self) -> V {
        let p = match self.ptr.v() {
            V::I(p) => p,
            _ => 0,
        };
        V::Ptr(p, self.value.as_ref().map(|x| Box::new(x.v())))
    }
}
impl ToVal for binread::NullString {
    fn v(&self) -> V { V::B(self.0.clone()) }
}
impl ToVal for binread::NullWideString {
    fn v(&self) -> V { V::W(self.0.clone()) }
}
impl<T: binread::BinRead + ToVal, S: binread::BinRead<Args = ()> + ToVal> ToVal for binread::punctuated::Punctuated<T, S> {
    fn v(&self) -> V {
        V::Pn((**self).iter().map(|x| x.v()).collect(), self.seperators.iter().map(|x| x.v()).collect())
    }
}

macro_rules! tuples {
    ($($n:ident)*) => { tuples!(@ [] $($n)*); };
    (@ [$($d:ident)*]) => {};
    (@ [$($d:ident)*] $h:ident $($t:ident)*) => {
        #[allow(non_snake_case)]
        impl<$($d: ToVal,)* $h: ToVal> ToVal for ($($d,)* $h,) {
            fn v(&self) -> V {
                let ($($d,)* $h,) = self;
                V::S(vec![$($d.v(),)* $h.v()])
            }
        }
        tuples!(@ [$($d)* $h] $($t)*);
    };
}
tuples!(A0 A1 A2 A3 A4 A5 A6 A7 A8 A9 A10 A11 A12 A13 A14 A15 A16 A17 A18 A19 A20 A21 A22 A23 A24 A25 A26 A27 A28 A29 A30 A31);

pub trait ArgTuple {
    fn list(&self) -> Vec<V>;
}
impl ArgTuple for () {
    fn list(&self) -> Vec<V> { vec![] }
}
macro_rules! argtuples {
    ($(($($n:ident)*))*) => {$(
        #[allow(non_snake_case)]
        impl<$($n: Arg),*> ArgTuple for ($($n,)*) {
            fn list(&self) -> Vec<V> {
                let ($($n,)*) = self;
                vec![$(V::I($n.arg() as u128)),*]
            }
        }
    )*};
}
argtuples!((A)(A B)(A B C)(A B C D)(A B C D E)(A B C D E F));

// ---- custom parsers ----

#[derive(Clone, Debug)]
pub struct Obs(pub u8, pub Option<u64>, pub u64, pub u64, pub u64);
impl ToVal for Obs {
    fn v(&self) -> V { V::Obs(self.0, self.1, self.2, self.3, self.4) }
}

fn e(e: Endian) -> u8 {
    match e {
        Endian::Big => 0,
        Endian::Little => 1,
        Endian::Native => 2,
    }
}

fn word<R: Read + Seek>(r: &mut R, ro: &ReadOptions) -> BinResult<u64> {
    let mut b = [0; 2];
    r.read_exact(&mut b)?;
    Ok(match ro.endian {
        Endian::Big => u16::from_be_bytes(b),
        Endian::Little => u16::from_le_bytes(b),
        Endian::Native => u16::from_ne_bytes(b),
    } as u64)
}

fn observe<R: Read + Seek, A: ArgTuple>(r: &mut R, ro: &ReadOptions, a: A, count: bool) -> BinResult<Obs> {
    let w = word(r, ro)?;
    Ok(Obs(e(ro.endian), if count { ro.count.map(|c| c as u64) } else { None }, ro.offset, vh(&V::S(a.list())), w))
}

pub fn obs<R: Read + Seek, A: ArgTuple>(r: &mut R, ro: &ReadOptions, a: A) -> BinResult<Obs> {
    observe(r, ro, a, true)
}
pub fn obs_nc<R: Read + Seek, A: ArgTuple>(r: &mut R, ro: &ReadOptions, a: A) -> BinResult<Obs> {
    observe(r, ro, a, false)
}
pub fn obs_call<R: Read + Seek, A: ArgTuple>(count: bool) -> impl Fn(&mut R, &ReadOptions, A) -> BinResult<Obs> {
    move |r, ro, a| observe(r, ro, a, count)
}
pub fn obs_fail<R: Read + Seek, A: ArgTuple>(k: u64) -> impl Fn(&mut R, &ReadOptions, A) -> BinResult<u64> {
    move |r, ro, a| {
        let pos = r.seek(SeekFrom::Current(0))?;
        let w = word(r, ro)?;
        if w & k == k {
            return Err(binread::Error::Custom { pos, err: Box::new(CErr(w)) });
        }
        Ok(w.wrapping_add(vh(&V::S(a.list()))))
    }
}

// ---- errors ----

#[derive(Debug, Clone, PartialEq)]
pub struct CErr(pub u64);
impl From<CErr> for String {
    fn from(c: CErr) -> String { format!("{}", c.0) }
}

pub fn kind(k: &str) -> ErrorKind {
    match k {
        "PermissionDenied" => ErrorKind::PermissionDenied,
        "NotFound" => ErrorKind::NotFound,
        "InvalidData" => ErrorKind::InvalidData,
        "TimedOut" => ErrorKind::TimedOut,
        k => panic!("kind {}", k),
    }
}

pub fn io_err(k: usize) -> binread::io::Error {
    binread::io::Error::new(kind(bx::model::IO_KINDS[k % 4]), "made up")
}

type BoxAny = Box<dyn core::any::Any + Sync + Send>;

fn found(f: &BoxAny) -> V {
    macro_rules! scalar {
        ($($t:ty),*) => { $( if let Some(x) = f.downcast_ref::<$t>() { return V::E(stringify!($t).into(), vec![x.v()]); } )* };
    }
    scalar!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, char);
    macro_rules! arrays {
        ($($n:literal)*) => { $(
            if let Some(x) = f.downcast_ref::<[u8; $n]>() { return V::B(x.to_vec()); }
        )* };
    }
    arrays!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
    V::E("unknown".into(), vec![])
}

fn custom(f: &BoxAny) -> V {
    if let Some(x) = f.downcast_ref::<CErr>() {
        return V::I(x.0 as u128);
    }
    if let Some(x) = f.downcast_ref::<u32>() {
        return V::E("u32".into(), vec![V::I(*x as u128)]);
    }
    if let Some(x) = f.downcast_ref::<String>() {
        return V::E("String".into(), vec![V::B(x.clone().into_bytes())]);
    }
    if f.downcast_ref::<binread::io::Error>().is_some() {
        return V::E("io::Error".into(), vec![]);
    }
    V::E("unknown".into(), vec![])
}

pub fn err(e: &binread::Error) -> Er {
    use binread::Error as E;
    match e {
        E::BadMagic { pos, found: f } => Er::Magic(*pos, found(f)),
        E::AssertFail { pos, message } => Er::Assert(*pos, message.clone(), false),
        E::Io(e) => Er::Io(format!("{:?}", e.kind())),
        E::Custom { pos, err } => Er::Custom(*pos, custom(err)),
        E::NoVariantMatch { pos } => Er::NoVar(*pos),
        E::EnumErrors { pos, variant_errors } => {
            Er::Enum(*pos, variant_errors.iter().map(|(n, e)| (n.to_string(), err(e))).collect())
        }
        e => Er::Unknown(format!("{:?}", e)),
    }
}

// ---- a type that looks at its after_parse ----

pub struct Hook<A>(u8, Vec<V>, core::marker::PhantomData<A>);
impl<A> Hook<A> {
    pub fn made(v: u8) -> Self { Hook(v, vec![], core::marker::PhantomData) }
}
impl<A> ToVal for Hook<A> {
    fn v(&self) -> V { V::S(vec![V::I(self.0 as u128), V::S(self.1.clone())]) }
}
impl<A> Clone for Hook<A> {
    fn clone(&self) -> Self { Hook(self.0, self.1.clone(), core::marker::PhantomData) }
}
impl<A> core::fmt::Debug for Hook<A> {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { write!(f, "Hook({}, {:?})", self.0, self.1) }
}
impl<A: ArgTuple + Copy + 'static> binread::BinRead for Hook<A> {
    type Args = A;
    fn read_options<R: Read + Seek>(r: &mut R, ro: &ReadOptions, _: A) -> BinResult<Self> {
        Ok(Hook(u8::read_options(r, ro, ())?, vec![], core::marker::PhantomData))
    }
    fn after_parse<R: Read + Seek>(&mut self, _: &mut R, ro: &ReadOptions, a: A) -> BinResult<()> {
        let mut l = vec![V::I(e(ro.endian) as u128), V::I(ro.offset as u128)];
        l.extend(a.list());
        self.1.push(V::S(l));
        if self.0 & 31 == 31 {
            return Err(io_err(1).into());
        }
        Ok(())
    }
}
