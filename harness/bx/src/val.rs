//! Values and errors, as observed from the real code and as predicted.

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V {
    Unit,
    /// Integers, floats (bits) and chars, masked to their width
    I(u128),
    S(Vec<V>),
    E(String, Vec<V>),
    O(Option<Box<V>>),
    Ptr(u128, Option<Box<V>>),
    At(u64, Box<V>),
    B(Vec<u8>),
    W(Vec<u16>),
    Pn(Vec<V>, Vec<V>),
    /// Observations of a custom parser: byte order, count, offset, arguments, value
    Obs(u8, Option<u64>, u64, u64, u64),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Er {
    Magic(u64, V),
    /// position, message, compare without whitespace
    Assert(u64, String, bool),
    Io(String),
    Custom(u64, V),
    NoVar(u64),
    Enum(u64, Vec<(String, Er)>),
    Unknown(String),
}

pub fn strip(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// Does the error seen agree with the one predicted?
pub fn er_eq(model: &Er, real: &Er) -> bool {
    match (model, real) {
        (Er::Assert(p, m, ws), Er::Assert(q, n, _)) => {
            p == q && if *ws { strip(m) == strip(n) } else { m == n }
        }
        (Er::Enum(p, a), Er::Enum(q, b)) => {
            p == q
                && a.len() == b.len()
                && a.iter().zip(b).all(|((n, x), (m, y))| n == m && er_eq(x, y))
        }
        (a, b) => a == b,
    }
}

struct Fnv(u64);
impl Fnv {
    fn b(&mut self, x: u8) {
        self.0 = (self.0 ^ x as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    fn u(&mut self, x: u128) {
        // skip the leading zero bytes, so that small values stay cheap
        let n = (128 - x.leading_zeros() + 7) / 8;
        self.b(n as u8);
        for i in 0..n {
            self.b((x >> (8 * i)) as u8);
        }
    }
    fn v(&mut self, v: &V) {
        match v {
            V::Unit => self.b(1),
            V::I(x) => {
                self.b(2);
                self.u(*x)
            }
            V::S(xs) => {
                self.b(3);
                self.u(xs.len() as u128);
                xs.iter().for_each(|x| self.v(x))
            }
            V::E(n, xs) => {
                self.b(4);
                n.bytes().for_each(|x| self.b(x));
                xs.iter().for_each(|x| self.v(x))
            }
            V::O(None) => self.b(5),
            V::O(Some(x)) => {
                self.b(6);
                self.v(x)
            }
            V::Ptr(p, x) => {
                self.b(7);
                self.u(*p);
                match x {
                    None => self.b(0),
                    Some(x) => self.v(x),
                }
            }
            // not of the position: definitions would depend on where they are read
            V::At(_, x) => {
                self.b(8);
                self.v(x)
            }
            V::B(xs) => {
                self.b(9);
                self.u(xs.len() as u128);
                xs.iter().for_each(|&x| self.b(x))
            }
            V::W(xs) => {
                self.b(10);
                self.u(xs.len() as u128);
                xs.iter().for_each(|&x| self.u(x as u128))
            }
            V::Pn(a, b) => {
                self.b(11);
                a.iter().for_each(|x| self.v(x));
                self.b(12);
                b.iter().for_each(|x| self.v(x))
            }
            V::Obs(a, b, c, d, e) => {
                self.b(13);
                self.b(*a);
                self.u(b.map_or(0, |x| x as u128 + 1));
                self.u(*c as u128);
                self.u(*d as u128);
                self.u(*e as u128);
            }
        }
    }
}

/// Hash of a value; folded, so that low bits are usable
pub fn vh(v: &V) -> u64 {
    let mut f = Fnv(0xcbf2_9ce4_8422_2325);
    f.v(v);
    let x = f.0;
    (x ^ (x >> 32) ^ (x >> 13)) & 0xffff
}
