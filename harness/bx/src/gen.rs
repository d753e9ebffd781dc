//! Generation of definitions from a tape.
use crate::ir::*;
use crate::tape::Tape;

/// What to generate: weights and percentages.
#[derive(Clone, Debug)]
pub struct Prof {
    pub types: (u64, u64),
    pub fields: (u64, u64),
    /// kinds: struct, tuple struct, unit struct, data enum, repr enum, magic enum, mapped
    pub kinds: [u32; 7],
    pub root_kinds: [u32; 7],
    pub t_end: u32,
    pub t_magic: u32,
    pub t_imports: u32,
    pub root_imports: u32,
    pub t_assert: u32,
    pub t_pre: u32,
    pub generic: u32,
    pub attr_macro: u32,
    pub v_end: u32,
    pub v_magic: u32,
    pub v_assert: u32,
    pub v_pre: u32,
    pub same_magic: u32,
    /// shapes of fields: plain, counted, helper, custom parser, string, computed, mapped
    pub shapes: [u32; 7],
    pub f_end: u32,
    pub f_magic: u32,
    pub f_offset: u32,
    pub f_offset_after: u32,
    pub f_cond: u32,
    pub f_temp: u32,
    pub f_try: u32,
    pub f_restore: u32,
    pub f_pad: u32,
    pub f_align: u32,
    pub f_seek: u32,
    pub f_padsize: u32,
    pub f_assert: u32,
    pub f_deref: u32,
    /// types: prim, tuple, array, box, option, posvalue, pointer, string, user, unit
    pub tys: [u32; 10],
    /// helpers: read_bytes, until, until_exclusive, until_eof, count, separated, trailing, FilePtr::parse
    pub helpers: [u32; 8],
    pub relocatable: bool,
    pub weird_names: bool,
    pub big_tuple: u32,
    pub try_map: u32,
    /// counts straight from the data
    pub wild_count: u32,
    pub neg_pad: u32,
    /// a magic value on fields with a condition or try
    pub magic_any: bool,
    /// arrays need no Default (const_generics)
    pub any_array: bool,
    /// pointers in fields with try
    pub try_ptr: bool,
    /// reading the last type within others
    pub top: u32,
    /// fields that hold more of the type itself
    pub recursive: u32,
}

impl Prof {
    pub fn base() -> Self {
        Prof {
            types: (2, 4),
            fields: (1, 5),
            kinds: [40, 20, 4, 16, 8, 8, 4],
            root_kinds: [70, 15, 0, 15, 0, 0, 0],
            t_end: 25,
            t_magic: 20,
            t_imports: 25,
            root_imports: 10,
            t_assert: 12,
            t_pre: 8,
            generic: 8,
            attr_macro: 20,
            v_end: 15,
            v_magic: 50,
            v_assert: 12,
            v_pre: 10,
            same_magic: 15,
            shapes: [50, 12, 10, 4, 8, 8, 8],
            f_end: 15,
            f_magic: 8,
            f_offset: 5,
            f_offset_after: 4,
            f_cond: 8,
            f_temp: 25,
            f_try: 6,
            f_restore: 4,
            f_pad: 6,
            f_align: 5,
            f_seek: 3,
            f_padsize: 5,
            f_assert: 10,
            f_deref: 20,
            tys: [60, 8, 8, 4, 4, 4, 8, 6, 25, 2],
            helpers: [10; 8],
            relocatable: false,
            weird_names: true,
            big_tuple: 0,
            try_map: 40,
            wild_count: 15,
            neg_pad: 12,
            magic_any: false,
            any_array: false,
            try_ptr: false,
            top: 10,
            recursive: 3,
        }
    }
    /// No directive beyond those a property turns on
    pub fn plain() -> Self {
        Prof {
            kinds: [45, 25, 4, 10, 6, 6, 0],
            t_end: 10,
            t_magic: 8,
            t_imports: 10,
            root_imports: 5,
            t_assert: 3,
            t_pre: 2,
            v_end: 5,
            v_assert: 3,
            v_pre: 3,
            shapes: [70, 12, 4, 2, 6, 4, 4],
            f_end: 6,
            f_magic: 4,
            f_offset: 0,
            f_offset_after: 0,
            f_cond: 3,
            f_try: 1,
            f_restore: 1,
            f_pad: 1,
            f_align: 1,
            f_seek: 1,
            f_padsize: 1,
            f_assert: 3,
            ..Self::base()
        }
    }

    /// With a `+`: arrays of elements without Default
    pub fn get(id: &str) -> Prof {
        if let Some(id) = id.strip_suffix('+') {
            return Prof { any_array: true, ..Self::get(id) };
        }
        let b = Self::base();
        let p = Self::plain();
        match id {
            "base" => b,
            "C02" => Prof { t_end: 55, v_end: 60, f_end: 45, types: (3, 5), kinds: [35, 15, 5, 20, 10, 10, 10],
                root_kinds: [60, 10, 0, 20, 0, 0, 10], t_magic: 30, f_magic: 15, v_magic: 50,
                shapes: [45, 15, 15, 5, 10, 2, 12], tys: [50, 8, 8, 5, 5, 4, 12, 8, 40, 0], ..p },
            "C03" => Prof { top: 25, tys: [50, 16, 16, 6, 6, 2, 0, 4, 30, 3], big_tuple: 25, generic: 20, types: (2, 5),
                fields: (1, 8), shapes: [70, 20, 2, 0, 4, 2, 2], f_cond: 0, f_pad: 0, f_align: 0, f_seek: 0,
                f_padsize: 0, f_restore: 0, f_try: 0, root_kinds: [55, 25, 2, 18, 0, 0, 0], ..p },
            "C04" => Prof { top: 0, types: (2, 5), t_assert: 20, t_pre: 12, f_assert: 15, f_offset: 8, t_magic: 30, f_try: 3,
                root_kinds: [55, 12, 3, 15, 5, 5, 5], kinds: [35, 15, 5, 20, 8, 8, 9], ..b },
            "C05" => Prof { t_magic: 60, f_magic: 50, v_magic: 75, t_end: 40, f_end: 35, v_end: 35, types: (2, 4),
                kinds: [35, 15, 12, 18, 10, 10, 8], root_kinds: [50, 12, 6, 18, 5, 5, 4], shapes: [60, 5, 4, 2, 4, 15, 10], ..p },
            "C06" => Prof { t_assert: 70, t_pre: 45, f_assert: 55, v_assert: 60, v_pre: 45, t_imports: 50, root_imports: 40,
                kinds: [40, 20, 10, 18, 2, 12, 4], root_kinds: [50, 15, 6, 20, 0, 7, 2], attr_macro: 30, ..p },
            "C07" => Prof { kinds: [15, 8, 4, 60, 6, 6, 1], root_kinds: [10, 4, 0, 86, 0, 0, 0], v_magic: 40, v_assert: 35,
                v_pre: 25, v_end: 20, t_imports: 40, same_magic: 30, t_magic: 25, f_assert: 12, types: (2, 4), fields: (0, 4), f_pad: 5, f_seek: 3, ..p },
            "C08" => Prof { kinds: [10, 5, 0, 5, 40, 40, 0], root_kinds: [15, 5, 0, 5, 37, 38, 0], t_magic: 35, t_end: 45,
                t_imports: 60, root_imports: 60, v_pre: 35, fields: (1, 3), types: (1, 4), same_magic: 30, ..p },
            "C09" => Prof { f_pad: 40, f_align: 35, f_seek: 22, f_padsize: 30, f_restore: 25, f_magic: 5, tys: [60, 6, 6, 3, 3, 4, 4, 6, 25, 2],
                shapes: [60, 12, 8, 3, 8, 4, 5], neg_pad: 20, f_cond: 6, f_try: 5, ..p },
            "C10" => Prof { tys: [55, 8, 8, 4, 6, 4, 16, 6, 25, 2], f_cond: 55, shapes: [50, 10, 6, 3, 5, 30, 8], attr_macro: 55, f_temp: 40, t_imports: 45, root_imports: 35,
                f_pad: 8, f_align: 5, f_seek: 5, f_assert: 10, f_restore: 6, ..p },
            "C11" => Prof { try_ptr: true, f_try: 65, shapes: [50, 18, 14, 8, 10, 2, 5], tys: [40, 16, 16, 5, 4, 5, 4, 10, 40, 0], t_assert: 15, t_magic: 25,
                f_pad: 8, f_align: 4, f_padsize: 6, f_restore: 4, ..p },
            "C12" => Prof { shapes: [20, 4, 2, 1, 3, 4, 75], kinds: [30, 10, 2, 8, 4, 4, 45], root_kinds: [50, 10, 0, 5, 0, 0, 35],
                t_end: 30, f_end: 30, t_magic: 30, t_pre: 20, t_imports: 35, root_imports: 25, try_map: 55, f_pad: 10, f_align: 6, f_seek: 3, f_restore: 6, types: (2, 5), ..p },
            "C13" => Prof { top: 35, t_imports: 85, root_imports: 60, shapes: [45, 15, 14, 25, 2, 5, 5], types: (3, 5), f_end: 25, f_offset: 15,
                t_end: 20, tys: [25, 4, 8, 8, 8, 8, 8, 2, 70, 0], kinds: [40, 20, 4, 20, 3, 10, 8], ..p },
            "C14" => Prof { top: 45, try_ptr: true, f_try: 6, f_cond: 12, tys: [40, 6, 6, 8, 8, 8, 50, 8, 30, 0], f_offset: 30, f_offset_after: 25, f_deref: 40, helpers: [2, 8, 8, 8, 8, 8, 8, 40],
                shapes: [60, 18, 16, 2, 4, 2, 3], f_end: 15, f_restore: 6, f_pad: 5, types: (2, 4), t_imports: 25, ..p },
            "C15" => Prof { shapes: [25, 30, 45, 2, 2, 2, 2], helpers: [14, 20, 20, 20, 20, 2, 2, 2], wild_count: 30, f_offset: 12, f_end: 20,
                tys: [45, 10, 10, 4, 4, 4, 14, 8, 40, 0], t_imports: 30, types: (2, 4), kinds: [35, 15, 4, 26, 8, 8, 4], ..p },
            "C16" => Prof { shapes: [30, 5, 65, 1, 2, 1, 1], helpers: [0, 1, 1, 1, 1, 50, 50, 0], wild_count: 25, f_offset: 12, f_end: 25, t_end: 20,
                tys: [40, 8, 8, 4, 4, 4, 12, 8, 40, 1], t_imports: 30, types: (2, 4), ..p },
            "C17" => Prof { shapes: [18, 8, 14, 2, 56, 1, 1], tys: [14, 6, 6, 4, 4, 4, 8, 60, 20, 0], f_end: 35, t_end: 35, v_end: 30, types: (2, 4), ..p },
            "C18" => Prof { wild_count: 70, f_pad: 14, f_align: 12, f_seek: 10, f_padsize: 12, neg_pad: 35, f_offset: 12, f_offset_after: 6,
                shapes: [40, 20, 20, 3, 10, 4, 4], tys: [55, 6, 6, 5, 4, 4, 18, 8, 25, 1], ..b },
            "C19" => Prof { shapes: [40, 18, 18, 4, 14, 4, 4], ..b },
            "C20" => Prof { top: 0, f_try: 8, shapes: [45, 15, 15, 4, 10, 4, 6], kinds: [38, 18, 3, 22, 8, 8, 4], ..b },
            "C21" | "C31" => Prof { magic_any: true, try_ptr: true, shapes: [45, 16, 14, 4, 10, 5, 6], tys: [50, 12, 16, 6, 5, 4, 8, 8, 25, 2], ..b },
            "C23" => Prof { magic_any: true, try_ptr: true, f_end: 30, f_magic: 15, f_offset: 15, f_offset_after: 10, f_cond: 22, f_try: 15, f_restore: 15, f_pad: 25, f_align: 20,
                f_seek: 12, f_padsize: 20, f_assert: 25, f_deref: 35, t_assert: 25, t_pre: 20, t_imports: 40, root_imports: 25, t_end: 35,
                t_magic: 30, attr_macro: 35, types: (2, 5), fields: (2, 6), shapes: [45, 14, 14, 6, 6, 8, 12], ..b },
            "C25" => Prof { magic_any: true, try_ptr: true, attr_macro: 45, f_temp: 20, f_offset: 10, f_offset_after: 8, f_cond: 12, f_try: 10, f_restore: 10, f_pad: 12, f_align: 10,
                f_padsize: 10, f_assert: 18, f_deref: 40, f_magic: 12, t_assert: 18, t_pre: 15, t_magic: 25, ..b },
            "C26" => Prof { relocatable: true, f_pad: 10, f_padsize: 10, f_restore: 8, f_try: 10, tys: [50, 8, 8, 5, 5, 14, 6, 8, 30, 1],
                helpers: [12, 15, 15, 0, 12, 10, 10, 0], f_offset: 0, f_offset_after: 0, f_align: 0, f_seek: 4, ..b },
            "C27" => Prof { top: 50, tys: [40, 14, 12, 20, 20, 20, 12, 8, 30, 6], shapes: [60, 18, 10, 2, 4, 3, 3], t_imports: 30, ..p },
            "C29" => Prof { top: 0, kinds: [45, 22, 5, 14, 6, 6, 5], root_kinds: [62, 20, 0, 18, 0, 0, 0], tys: [45, 10, 22, 3, 3, 3, 5, 14, 30, 0],
                shapes: [55, 25, 8, 4, 12, 3, 4], f_end: 30, t_end: 30, f_magic: 12, t_magic: 20, f_try: 4, f_pad: 5, f_align: 5, f_seek: 3,
                f_padsize: 3, f_offset: 3, f_offset_after: 0, f_deref: 5, f_restore: 3, f_temp: 10, types: (1, 5), ..p },
            _ => b,
        }
    }
}

const NAMES: [&str; 18] = ["a", "b", "c", "d", "foo", "len", "k", "l", "m", "n", "q", "s", "t", "u", "v", "w", "y", "z"];
const WEIRD: [&str; 34] = [
    "pos", "pad", "size", "align", "value", "error", "reader", "options", "args", "count", "offset", "temp",
    "r#type", "r#fn", "e", "before", "r", "result", "opt", "data", "magic", "ptr", "item", "inner", "r#match",
    "err", "saved_pos", "input", "endian", "past", "skip", "start", "Upper", "r#try",
];

fn unit_name(i: usize) -> String {
    if i < 20 { ((b'A' + i as u8) as char).to_string() } else { format!("V{}", i) }
}

#[derive(Clone, Copy)]
struct TCx {
    args_unit: bool,
    need_default: bool,
    no_ptr: bool,
    depth: u32,
    generic: bool,
}

pub struct Gen<'a> {
    t: &'a mut Tape,
    p: Prof,
    prog: Program,
    used: Vec<bool>,
}

struct Scope {
    imports: Vec<(String, P)>,
    /// (name, type as expressions see it)
    fields: Vec<(String, Ty)>,
    names: Vec<String>,
}

pub fn generate(p: &Prof, t: &mut Tape) -> Program {
    let mut g = Gen { t, p: p.clone(), prog: Program { types: vec![], top: None }, used: vec![] };
    let n = g.t.range(g.p.types.0, g.p.types.1);
    for i in 0..n {
        let td = g.typedef(i as usize, i + 1 == n);
        g.prog.types.push(td);
        g.used.push(false);
    }
    g.prog.top = g.top();
    prune(g.prog)
}

/// Drops the types that the root does not reach
fn prune(p: Program) -> Program {
    let n = p.types.len();
    let mut keep = vec![false; n];
    keep[n - 1] = true;
    for i in (0..n).rev() {
        if keep[i] {
            let mut see = |t: &mut Ty| {
                if let Ty::User(k, _) | Ty::Rec(k) = t {
                    keep[*k] = true
                }
            };
            types_in(&mut p.types[i].clone(), &mut see);
        }
    }
    let mut map = vec![0; n];
    let mut k = 0;
    for i in 0..n {
        map[i] = k;
        k += keep[i] as usize;
    }
    let mut q = Program { types: vec![], top: p.top };
    if let Some(t) = &mut q.top {
        walk(t, &mut |t| {
            if let Ty::User(k, _) | Ty::Rec(k) = t {
                *k = map[*k]
            }
        });
    }
    for (i, mut t) in p.types.into_iter().enumerate() {
        if !keep[i] {
            continue;
        }
        types_in(&mut t, &mut |t| {
            if let Ty::User(k, _) | Ty::Rec(k) = t {
                *k = map[*k]
            }
        });
        t.name = format!("T{}", map[i]);
        q.types.push(t);
    }
    q
}

fn walk(t: &mut Ty, f: &mut dyn FnMut(&mut Ty)) {
    f(t);
    match t {
        Ty::Tup(v) => v.iter_mut().for_each(|t| walk(t, f)),
        Ty::Arr(t, _) | Ty::Vec(t) | Ty::Deque(t) | Ty::Boxed(t) | Ty::Opt(t) | Ty::Pos(t) | Ty::Ptr(_, t) => walk(t, f),
        Ty::Punct(a, b) => {
            walk(a, f);
            walk(b, f)
        }
        Ty::User(_, Some(t)) => walk(t, f),
        _ => {}
    }
}

fn types_in(t: &mut TypeDef, f: &mut dyn FnMut(&mut Ty)) {
    let mut fields = |b: &mut Body, f: &mut dyn FnMut(&mut Ty)| {
        for x in &mut b.fields {
            walk(&mut x.ty, f);
            if let Some(m) = &mut x.map {
                walk(&mut m.input, f);
            }
        }
    };
    match &mut t.kind {
        Kind::Struct(b) => fields(b, f),
        Kind::Data { variants, .. } => variants.iter_mut().for_each(|v| fields(&mut v.body, f)),
        Kind::Mapped { map, .. } => walk(&mut map.input, f),
        _ => {}
    }
}

impl<'a> Gen<'a> {
    /// What is read, if not just the last type
    fn top(&mut self) -> Option<Ty> {
        if !self.t.pct(self.p.top) {
            return None;
        }
        let root = self.prog.root();
        let unit = self.prog.types[root].imports.tys().is_empty();
        let mut t = Ty::User(root, None);
        for _ in 0..self.t.range(1, 3) {
            let ptr = if self.p.relocatable { 0 } else { 45 };
            t = match self.t.weighted(&[15, 12, 12, ptr, 16, if unit { 14 } else { 0 }]) {
                0 => Ty::Boxed(Box::new(t)),
                1 => Ty::Opt(Box::new(t)),
                2 => Ty::Pos(Box::new(t)),
                3 => Ty::Ptr(self.ptr_prim(), Box::new(t)),
                4 => {
                    let el = if self.p.any_array || self.prog.has_default(&t) { t } else { Ty::Opt(Box::new(t)) };
                    Ty::Arr(Box::new(el), self.t.range(0, 3) as usize)
                }
                _ => {
                    let mut l = vec![t];
                    for _ in 0..self.t.below(3) {
                        let x = Ty::Prim(self.prim());
                        let x = if !self.p.relocatable && self.t.bool() { Ty::Ptr(self.ptr_prim(), Box::new(x)) } else { x };
                        let i = self.t.below(l.len() as u64 + 1) as usize;
                        l.insert(i, x);
                    }
                    Ty::Tup(l)
                }
            };
        }
        Some(t)
    }

    fn prim(&mut self) -> P {
        use P::*;
        *self.t.pick(&[U8, U8, U8, U16, U16, U32, U32, U64, I8, I16, I32, I64, U128, I128, F32, F64, Char])
    }
    fn int(&mut self) -> P {
        use P::*;
        *self.t.pick(&[U8, U8, U8, U16, U16, U32, U64, I8, I16, I32, I64, U128, I128])
    }
    fn arg_prim(&mut self) -> P {
        use P::*;
        *self.t.pick(&[U8, U16, U32, U64, I8, I16, I32, I64])
    }

    fn user(&mut self, cx: TCx) -> Option<Ty> {
        let ok: Vec<usize> = (0..self.prog.types.len())
            .filter(|&i| {
                let t = &self.prog.types[i];
                (!cx.args_unit || t.imports.tys().is_empty())
                    && (!cx.need_default || t.derive_default)
                    && !(t.generic && cx.depth == 0)
            })
            .collect();
        if ok.is_empty() {
            return None;
        }
        // prefer types not used yet, and the latest: deeper nesting
        let fresh: Vec<usize> = ok.iter().copied().filter(|i| !self.used[*i]).collect();
        let ok = if !fresh.is_empty() && self.t.pct(75) { fresh } else { ok };
        let k = self.t.below(ok.len() as u64) as usize;
        let i = ok[ok.len() - 1 - k];
        self.used[i] = true;
        let param = if self.prog.types[i].generic {
            Some(Box::new(self.ty(TCx { args_unit: true, need_default: false, no_ptr: true, depth: cx.depth - 1, generic: false })))
        } else {
            None
        };
        Some(Ty::User(i, param))
    }

    /// A type that needs no count
    fn ty(&mut self, cx: TCx) -> Ty {
        let w = self.p.tys;
        let deep = cx.depth > 0;
        let fresh = self.used.iter().any(|u| !u);
        let ws = [
            w[0],
            if deep { w[1] } else { 0 },
            if deep { w[2] } else { 0 },
            if deep { w[3] } else { 0 },
            if deep { w[4] } else { 0 },
            if deep && !cx.need_default { w[5] } else { 0 },
            if deep && !cx.need_default && !cx.no_ptr { w[6] } else { 0 },
            w[7],
            if fresh { w[8] * 3 } else { w[8] },
            w[9],
            if cx.generic && !cx.need_default { 30 } else { 0 },
        ];
        let sub = TCx { depth: cx.depth.saturating_sub(1), ..cx };
        match self.t.weighted(&ws) {
            0 => Ty::Prim(self.prim()),
            1 => {
                let n = if self.t.pct(self.p.big_tuple) && !cx.need_default {
                    self.t.range(7, 32)
                } else if self.t.pct(20) {
                    self.t.range(4, 12)
                } else {
                    self.t.range(1, 4)
                };
                let leaf = TCx { args_unit: true, depth: if n > 4 { 0 } else { sub.depth }, ..sub };
                Ty::Tup((0..n).map(|_| self.ty(leaf)).collect())
            }
            2 => {
                let n = if self.t.pct(20) { self.t.range(0, 32) } else { self.t.range(1, 4) };
                let bare = !cx.no_ptr && !self.p.relocatable && sub.depth > 0 && self.t.pct(self.p.tys[6] / 2);
                let depth = if n > 8 { 0 } else { sub.depth };
                let inner = if bare {
                    let p = self.ptr_prim();
                    let to = self.ty(TCx { need_default: false, depth: 0, ..sub });
                    let ptr = if self.t.pct(22) { self.hook(cx) } else { Ty::Ptr(p, Box::new(to)) };
                    if self.p.any_array && self.t.bool() { ptr } else { Ty::Opt(Box::new(ptr)) }
                } else {
                    self.ty(TCx { need_default: !self.p.any_array, depth, ..sub })
                };
                Ty::Arr(Box::new(inner), n as usize)
            }
            3 => Ty::Boxed(Box::new(self.ty(sub))),
            // the contents need no default
            4 => Ty::Opt(Box::new(self.ty(TCx { need_default: false, ..sub }))),
            5 => Ty::Pos(Box::new(self.ty(sub))),
            6 if self.p.relocatable || self.t.pct(22) => self.hook(cx),
            6 => {
                let p = self.ptr_prim();
                Ty::Ptr(p, Box::new(self.ty(sub)))
            }
            7 => self.string(),
            8 => match self.user(cx) {
                Some(t) => t,
                None => Ty::Prim(self.prim()),
            },
            9 => {
                if self.t.bool() { Ty::Phantom } else { Ty::Unit }
            }
            _ => Ty::Param,
        }
    }

    fn hook(&mut self, cx: TCx) -> Ty {
        Ty::Hook(!cx.args_unit && self.t.pct(40))
    }

    fn ptr_prim(&mut self) -> P {
        use P::*;
        *self.t.pick(&[U8, U8, U16, U32, U64, I8, I16, I32, I64, U128, I128])
    }

    fn string(&mut self) -> Ty {
        [Ty::NStr, Ty::NWide, Ty::NzV8, Ty::NzV16][self.t.weighted(&[50, 30, 10, 10])].clone()
    }

    // ---- expressions ----

    fn has_pos(&self, ty: &Ty) -> bool {
        match ty {
            Ty::Pos(_) => true,
            Ty::Tup(ts) => ts.iter().any(|t| self.has_pos(t)),
            Ty::Arr(t, _) | Ty::Vec(t) | Ty::Deque(t) | Ty::Boxed(t) | Ty::Opt(t) | Ty::Ptr(_, t) => self.has_pos(t),
            Ty::Punct(a, b) => self.has_pos(a) || self.has_pos(b),
            Ty::User(..) | Ty::Param | Ty::Rec(_) => true, // unknown: assume so
            _ => false,
        }
    }

    fn var(&mut self, sc: &Scope) -> Option<X> {
        let mut c: Vec<X> = vec![];
        for (i, (_, ty)) in sc.fields.iter().enumerate() {
            match ty {
                Ty::Prim(p) if p.is_int() => {
                    c.push(X::F(i));
                    c.push(X::F(i));
                }
                Ty::Pos(_) if !self.p.relocatable => c.push(X::PosOf(i)),
                Ty::Ptr(..) => c.push(X::PtrOf(i)),
                _ => {}
            }
            if !(self.p.relocatable && self.has_pos(ty)) {
                c.push(X::H(i));
            }
        }
        for i in 0..sc.imports.len() {
            c.push(X::Imp(i));
            c.push(X::Imp(i));
        }
        if c.is_empty() {
            return None;
        }
        // prefer the most recent
        let k = self.t.below(c.len() as u64) as usize;
        Some(c[c.len() - 1 - k].clone())
    }

    fn small(&mut self, sc: &Scope, mask: u64) -> X {
        if self.t.pct(60) {
            if let Some(v) = self.var(sc) {
                return X::And(Box::new(v), Box::new(X::C(mask)));
            }
        }
        X::C(self.t.below(mask + 2))
    }

    /// where pointers start from
    fn place(&mut self, sc: &Scope) -> X {
        if self.t.pct(88) {
            return self.small(sc, 15);
        }
        let far = *self.t.pick(&[1 << 31, 1 << 32, 1 << 40, 1 << 63, u64::MAX - 60, 1 << 16]);
        X::C(far + self.t.below(40) - 8)
    }

    fn value(&mut self, sc: &Scope) -> X {
        match self.t.below(5) {
            0 => X::C(self.t.below(300)),
            1 => self.var(sc).unwrap_or(X::C(7)),
            2 => {
                let a = self.var(sc).unwrap_or(X::C(3));
                let b = self.var(sc).unwrap_or(X::C(9));
                X::Add(Box::new(a), Box::new(b))
            }
            3 => {
                let a = self.var(sc).unwrap_or(X::C(3));
                X::Xor(Box::new(a), Box::new(X::C(self.t.below(1 << 20))))
            }
            _ => {
                let a = self.var(sc).unwrap_or(X::C(3));
                let m = 1 + self.t.below(250);
                X::Rem(Box::new(a), m)
            }
        }
    }

    fn count(&mut self, sc: &Scope) -> X {
        if self.t.pct(self.p.wild_count) {
            let ints: Vec<usize> = (0..sc.fields.len()).filter(|&i| matches!(&sc.fields[i].1, Ty::Prim(p) if p.is_int())).collect();
            if !ints.is_empty() {
                let k = self.t.below(ints.len() as u64) as usize;
                return X::F(ints[ints.len() - 1 - k]);
            }
        }
        let m = *self.t.pick(&[3, 3, 7, 1]);
        self.small(sc, m)
    }

    /// A condition that holds with roughly the given odds
    fn cond(&mut self, sc: &Scope, likely: bool) -> B {
        let b = self.cond1(sc, likely);
        match self.t.weighted(&[60, 12, 12, 10]) {
            1 => {
                let c = self.cond1(sc, likely);
                B::And(Box::new(b), Box::new(c))
            }
            2 => {
                let c = self.cond1(sc, likely);
                B::Or(Box::new(b), Box::new(c))
            }
            3 => {
                let c = self.cond1(sc, !likely);
                B::Or(Box::new(b), Box::new(B::Not(Box::new(c))))
            }
            _ => b,
        }
    }

    fn cond1(&mut self, sc: &Scope, likely: bool) -> B {
        match self.var(sc) {
            None => {
                if likely { B::Lit(self.t.below(8) != 7) } else { B::Lit(self.t.bool()) }
            }
            Some(v) => {
                if likely {
                    let (m, k) = *self.t.pick(&[(7, 5), (15, 3), (3, 2), (255, 0x41)]);
                    B::Cmp(Cmp::Ne, X::And(Box::new(v), Box::new(X::C(m))), X::C(k))
                } else {
                    match self.t.below(5) {
                        0 => B::Cmp(Cmp::Eq, X::And(Box::new(v), Box::new(X::C(1))), X::C(self.t.below(2))),
                        1 => B::Cmp(Cmp::Lt, X::And(Box::new(v), Box::new(X::C(7))), X::C(4)),
                        2 => B::Cmp(Cmp::Ge, X::Rem(Box::new(v), 5), X::C(2)),
                        3 => B::Cmp(Cmp::Gt, v, X::C(4)),
                        _ => B::Cmp(Cmp::Le, X::And(Box::new(v), Box::new(X::C(3))), X::C(1)),
                    }
                }
            }
        }
    }

    fn assert(&mut self, sc: &Scope) -> Assert {
        let cond = self.cond(sc, true);
        let k = self.t.below(1000);
        let cons = match self.t.weighted(&[30, 15, 25, 15, 8, 7]) {
            0 => Cons::Text,
            1 => Cons::Msg(format!("msg {}", k)),
            2 => {
                let n = self.t.range(1, 3) as usize;
                let xs = (0..n).map(|_| self.value(sc)).collect();
                Cons::Fmt(format!("fail {} at ", k), xs)
            }
            3 => Cons::Custom(self.value(sc)),
            4 => Cons::CustomU32(self.value(sc)),
            _ => Cons::CustomString(self.value(sc)),
        };
        Assert { cond, cons }
    }

    fn asserts(&mut self, sc: &Scope, pct: u32) -> Vec<Assert> {
        let mut v = vec![];
        let mut pct = pct;
        while v.len() < 4 && self.t.pct(pct) {
            v.push(self.assert(sc));
            pct = pct * 2 / 3;
        }
        v
    }

    fn cv(&mut self, sc: &Scope, ty: &Ty) -> Option<CV> {
        let def = self.prog.has_default(ty);
        if def && self.t.pct(15) {
            return Some(CV::Def);
        }
        match ty {
            Ty::Prim(p) => Some(CV::Int(*p, self.value(sc))),
            Ty::Tup(ts) => {
                let vs: Option<Vec<CV>> = ts.iter().map(|t| self.cv(sc, t)).collect();
                vs.map(CV::Tup)
            }
            Ty::Opt(t) => {
                if self.t.bool() {
                    if let Some(v) = self.cv(sc, t) {
                        return Some(CV::SomeOf(Box::new(v)));
                    }
                }
                Some(CV::NoneOf)
            }
            Ty::Boxed(t) => self.cv(sc, t).map(|v| CV::BoxOf(Box::new(v))),
            Ty::Arr(t, n) => {
                let vs: Option<Vec<CV>> = (0..*n).map(|_| self.cv(sc, t)).collect();
                vs.map(CV::ArrOf)
            }
            Ty::Vec(t) => {
                let n = self.t.below(3);
                let vs: Option<Vec<CV>> = (0..n).map(|_| self.cv(sc, t)).collect();
                vs.map(CV::VecOf)
            }
            Ty::Ptr(_, t) => {
                let v = if self.t.bool() { self.cv(sc, t).map(Box::new) } else { None };
                Some(CV::PtrOf(self.value(sc), v))
            }
            Ty::Hook(_) => Some(CV::HookOf(self.value(sc))),
            Ty::NStr => Some(CV::Str((0..self.t.below(4)).map(|i| b'a' + i as u8).collect())),
            _ if def => Some(CV::Def),
            _ => None,
        }
    }

    fn lit(&mut self) -> Lit {
        match self.t.weighted(&[25, 25, 8, 25, 6, 6, 5]) {
            0 => Lit::Byte(self.printable()),
            1 => {
                let n = match self.t.below(40) {
                    0 => 0,
                    1..=4 => self.t.range(7, 32),
                    _ => self.t.range(1, 6),
                };
                Lit::Str((0..n).map(|_| self.printable()).collect())
            }
            2 => Lit::Char(self.printable()),
            3 => {
                let p = self.int();
                let v = self.lit_int(p);
                Lit::Int(p, v, true)
            }
            4 => self.f32_lit(),
            5 => self.f64_lit(),
            _ => Lit::Int(P::I32, self.t.below(0x7fff_ffff) as u128, false),
        }
    }

    // neither zero, which is equal to another value, nor what has no literal
    fn f32_lit(&mut self) -> Lit {
        let v = if self.t.bool() { *self.t.pick(&[0x3f80_0000, 0x4048_0000, 0xbf00_0000, 0x4249_96e5, 0x4000_0000]) } else { self.t.u64() as u32 };
        let x = f32::from_bits(v);
        Lit::F32(if x.is_finite() && x != 0.0 { v } else { 0x3f80_0000 })
    }

    fn f64_lit(&mut self) -> Lit {
        let v = if self.t.bool() { *self.t.pick(&[0x3ff0_0000_0000_0000, 0x4009_0000_0000_0000, 0xc05e_dd2f_1a9f_be77]) } else { self.t.u64() };
        let x = f64::from_bits(v);
        Lit::F64(if x.is_finite() && x != 0.0 { v } else { 0x3ff0_0000_0000_0000 })
    }

    fn lit_int(&mut self, p: P) -> u128 {
        let v = match self.t.below(3) {
            0 => self.t.below(4) as u128,
            1 => self.t.u128() & p.mask(),
            _ => self.t.below(0x1_0000) as u128 & p.mask(),
        };
        // the magnitude of the minimum is not a positive literal; it is emitted as -literal, which is fine
        v & p.mask()
    }

    fn printable(&mut self) -> u8 {
        if self.t.pct(75) { b'A' + self.t.below(26) as u8 } else { self.t.byte() }
    }

    fn lit_like(&mut self, l: &Lit) -> Lit {
        match l {
            Lit::Byte(_) => Lit::Byte(self.printable()),
            Lit::Str(s) => Lit::Str((0..s.len()).map(|_| self.printable()).collect()),
            Lit::Char(_) => Lit::Char(self.printable()),
            Lit::Int(p, _, s) => {
                let v = self.lit_int(*p);
                Lit::Int(*p, if *s { v } else { v & 0x7fff_ffff }, *s)
            }
            Lit::F32(_) => self.f32_lit(),
            Lit::F64(_) => self.f64_lit(),
        }
    }

    fn end(&mut self, pct: u32) -> Option<End> {
        if self.t.pct(pct) {
            Some(if self.t.bool() { End::Little } else { End::Big })
        } else {
            None
        }
    }

    fn fend(&mut self, sc: &Scope) -> FEnd {
        if !self.t.pct(self.p.f_end) {
            return FEnd::None;
        }
        let e = if self.t.bool() { End::Little } else { End::Big };
        if self.t.pct(35) {
            let c = self.cond(sc, false);
            FEnd::Cond(e, c)
        } else {
            FEnd::Fixed(e)
        }
    }

    fn name(&mut self, sc: &mut Scope) -> String {
        let pool: &[&str] = if self.p.weird_names && self.t.pct(40) { &WEIRD } else { &NAMES };
        let mut n = self.t.pick(pool).to_string();
        while sc.names.contains(&n) {
            n.push_str("_1");
        }
        sc.names.push(n.clone());
        n
    }

    fn imports(&mut self, pct: u32, sc: &mut Scope) -> Imports {
        if !self.t.pct(pct) {
            return Imports::None;
        }
        let n = if self.t.pct(3) { self.t.range(4, 12) } else { self.t.range(1, 3) };
        let tys: Vec<P> = (0..n).map(|_| self.arg_prim()).collect();
        if self.t.pct(30) {
            let name = self.name(sc);
            for (i, t) in tys.iter().enumerate() {
                sc.imports.push((format!("{}.{}", name, i), *t));
            }
            Imports::Tuple(name, tys)
        } else {
            let l: Vec<(String, P)> = tys.iter().map(|t| (self.name(sc), *t)).collect();
            sc.imports.extend(l.iter().cloned());
            Imports::List(l)
        }
    }

    // ---- fields ----

    fn map_fn(&mut self, sc: &Scope, input: &Ty) -> (MapFn, Ty) {
        let c = self.value(sc);
        match input {
            Ty::Prim(p) if p.is_int() && self.t.pct(60) => {
                let out = self.int();
                (MapFn::Int(*p, out, c), Ty::Prim(out))
            }
            _ if self.t.pct(40) => (MapFn::Hash, Ty::Prim(P::U64)),
            _ => (MapFn::Tag(c), Ty::Tup(vec![input.clone(), Ty::Prim(P::U64)])),
        }
    }

    fn map_fail(&mut self, try_map: bool) -> Option<(B, MapErr)> {
        if !try_map {
            return None;
        }
        let c = match self.t.below(3) {
            0 => B::Cmp(Cmp::Eq, X::And(Box::new(X::It), Box::new(X::C(3))), X::C(1)),
            1 => B::Cmp(Cmp::Lt, X::And(Box::new(X::It), Box::new(X::C(7))), X::C(2)),
            _ => B::Cmp(Cmp::Eq, X::And(Box::new(X::It), Box::new(X::C(1))), X::C(0)),
        };
        let e = match self.t.weighted(&[50, 35, 15]) {
            0 => MapErr::Custom,
            1 => MapErr::Io(self.t.below(4) as u8),
            _ => MapErr::Str,
        };
        Some((c, e))
    }

    /// A type with a vector that takes the field's count
    fn counted(&mut self, cx: TCx) -> Ty {
        let el = self.ty(TCx { depth: cx.depth.min(2), ..cx });
        let el = if self.prog.min_size(&el) == 0 && self.t.pct(85) { Ty::Prim(self.prim()) } else { el };
        let v = Ty::Vec(Box::new(el.clone()));
        let unit_args = self.prog.args_of(&el).is_empty();
        match self.t.weighted(&[70, 6, 6, if cx.need_default { 0 } else { 6 }, if cx.need_default || cx.no_ptr || self.p.relocatable || Program::bare_ptr(&v) { 0 } else { 8 }, if unit_args { 5 } else { 0 }]) {
            0 => v,
            1 => Ty::Boxed(Box::new(v)),
            2 => Ty::Opt(Box::new(v)),
            3 => Ty::Pos(Box::new(v)),
            4 => Ty::Ptr(self.ptr_prim(), Box::new(v)),
            _ => Ty::Tup(vec![v, Ty::Prim(self.prim())]),
        }
    }

    fn args_for(&mut self, sc: &Scope, tys: &[P]) -> Args {
        if tys.is_empty() {
            // args() and args_tuple = () are also fine, rarely used
            return Args::None;
        }
        let xs: Vec<X> = tys.iter().map(|_| self.value(sc)).collect();
        if self.t.pct(25) { Args::Tuple(xs) } else { Args::List(xs) }
    }

    fn field(&mut self, sc: &mut Scope, cx: TCx, attr_macro: bool, root: bool) -> Field {
        let w = self.p.shapes;
        let name = self.name(sc);
        let mut f = Field::new(name, Ty::Unit);
        let shape = self.t.weighted(&w);
        let want_try = matches!(shape, 0..=4) && self.t.pct(self.p.f_try);
        let want_cond = self.t.pct(self.p.f_cond);
        let cx = TCx { no_ptr: cx.no_ptr || want_try && !self.p.try_ptr, need_default: false, ..cx };
        // the type that is read
        let mut read = Ty::Unit;
        match shape {
            0 => read = self.ty(cx),
            1 => {
                read = self.counted(cx);
                f.count = Some(self.count(sc));
            }
            2 => {
                let el = self.ty(TCx { depth: cx.depth.min(2), ..cx });
                let el = if self.prog.min_size(&el) == 0 { Ty::Prim(self.prim()) } else { el };
                let it = match self.t.below(3) {
                    0 => B::Cmp(Cmp::Eq, X::And(Box::new(X::It), Box::new(X::C(3))), X::C(1)),
                    1 => B::Cmp(Cmp::Lt, X::And(Box::new(X::It), Box::new(X::C(7))), X::C(3)),
                    _ => {
                        let v = self.small(sc, 3);
                        B::Cmp(Cmp::Eq, X::And(Box::new(X::It), Box::new(X::C(3))), v)
                    }
                };
                let mut hw = self.p.helpers;
                if self.p.relocatable || cx.no_ptr {
                    hw[7] = 0;
                }
                if Program::bare_ptr(&el) {
                    hw[7] = 0;
                }
                let h = self.t.weighted(&hw);
                let coll = |g: &mut Self, t: Ty| if g.t.pct(30) { Ty::Deque(Box::new(t)) } else { Ty::Vec(Box::new(t)) };
                match h {
                    0 => {
                        f.mode = Mode::Parse(Parser::ReadBytes);
                        f.count = Some(self.count(sc));
                        read = Ty::Vec(Box::new(Ty::Prim(P::U8)));
                    }
                    1 => {
                        f.mode = Mode::Parse(Parser::Until(it));
                        read = coll(self, el);
                    }
                    2 => {
                        f.mode = Mode::Parse(Parser::UntilEx(it));
                        read = coll(self, el);
                    }
                    3 => {
                        f.mode = Mode::Parse(Parser::UntilEof);
                        read = coll(self, el);
                    }
                    4 => {
                        f.mode = Mode::Parse(Parser::Count(self.count(sc)));
                        read = coll(self, el);
                    }
                    5 | 6 => {
                        let sep = self.ty(TCx { args_unit: true, depth: 1, ..cx });
                        f.mode = Mode::Parse(if h == 5 { Parser::Separated } else { Parser::SeparatedTrailing });
                        f.count = Some(self.count(sc));
                        read = Ty::Punct(Box::new(el), Box::new(sep));
                    }
                    _ => {
                        f.mode = Mode::Parse(Parser::PtrParse(self.ptr_prim()));
                        if self.t.pct(25) {
                            read = Ty::Vec(Box::new(el));
                            f.count = Some(self.count(sc));
                        } else {
                            read = el;
                        }
                    }
                }
            }
            3 => {
                let counted = self.t.pct(40);
                if counted {
                    f.count = Some(self.small(sc, 7));
                }
                if self.t.pct(25) {
                    let k = *self.t.pick(&[1u64, 3, 7]);
                    f.mode = Mode::Parse(Parser::ObsFail(k));
                    read = Ty::Prim(P::U64);
                } else {
                    f.mode = Mode::Parse(Parser::Obs { count_known: counted || root, call: self.t.bool() });
                    read = Ty::Obs;
                }
                let n = self.t.below(4);
                f.arg_tys = (0..n).map(|_| self.arg_prim()).collect();
                let tys = f.arg_tys.clone();
                f.args = self.args_for(sc, &tys);
            }
            4 => read = self.string(),
            5 => {
                let ty = self.ty(TCx { no_ptr: true, depth: cx.depth.min(1), ..cx });
                let def = self.prog.has_default(&ty);
                match self.t.weighted(&[60, if def { 20 } else { 0 }, if def { 20 } else { 0 }]) {
                    1 => {
                        f.mode = Mode::Default;
                        f.ty = ty;
                    }
                    2 => {
                        f.mode = Mode::Ignore;
                        f.ty = ty;
                    }
                    _ => {
                        let (ty, cv) = match self.cv(sc, &ty) {
                            Some(cv) => (ty, cv),
                            None => (Ty::Prim(P::U64), CV::Int(P::U64, self.value(sc))),
                        };
                        f.ty = ty;
                        f.mode = Mode::Calc(cv);
                    }
                }
            }
            _ => {
                let counted = self.t.pct(15);
                let cx = TCx { no_ptr: true, generic: false, ..cx };
                read = if counted { self.counted(cx) } else { self.ty(cx) };
                if counted {
                    f.count = Some(self.count(sc));
                }
                let tm = self.t.pct(self.p.try_map);
                let (mf, out) = self.map_fn(sc, &read);
                let fail = self.map_fail(tm);
                let form = [MapForm::Closure, MapForm::Capture, MapForm::Path, MapForm::Call][self.t.weighted(&[30, 40, 15, 15])];
                // a function has no access to fields
                let mf = if form != MapForm::Path { mf } else {
                    match mf {
                        MapFn::Tag(_) => MapFn::Tag(X::C(5)),
                        MapFn::Int(a, b, _) => MapFn::Int(a, b, X::C(9)),
                        m => m,
                    }
                };
                f.map = Some(MapD { input: read.clone(), f: mf, form, fail });
                f.ty = out;
            }
        }
        if matches!(f.mode, Mode::Parse(Parser::Obs { .. }) | Mode::Parse(Parser::ObsFail(_))) {
        } else if !f.generated() {
            f.arg_tys = self.prog.args_of(&read);
            let tys = f.arg_tys.clone();
            f.args = self.args_for(sc, &tys);
        }
        if shape <= 4 {
            if want_try {
                f.try_ = true;
                f.ty = Ty::Opt(Box::new(read.clone()));
            } else {
                f.ty = read.clone();
            }
        }
        if !f.generated() {
            f.end = self.fend(sc);
            if !self.p.relocatable {
                if self.t.pct(self.p.f_offset) {
                    f.offset = Some(self.place(sc));
                }
                if f.has_after() && Program::bare_ptr(&f.ty) && (!f.try_ || self.p.try_ptr) {
                    if self.t.pct(self.p.f_deref) {
                        f.deref_now = true;
                    } else if self.t.pct(self.p.f_offset_after) {
                        f.offset_after = Some(self.place(sc));
                    }
                }
            }
        }
        if want_cond {
            let alt = if self.prog.has_default(&f.ty) && self.t.pct(45) {
                Some(None)
            } else {
                let ty = f.ty.clone();
                self.cv(sc, &ty).map(Some)
            };
            if let Some(alt) = alt {
                let c = self.cond(sc, false);
                f.cond = Some((c, alt));
            }
        }
        let pos_ok = true;
        if pos_ok {
            if self.t.pct(self.p.f_pad) {
                f.pad_before = Some(self.pad(sc));
            }
            if self.t.pct(self.p.f_pad) {
                f.pad_after = Some(self.pad(sc));
            }
            if !self.p.relocatable {
                if self.t.pct(self.p.f_align) {
                    f.align_before = Some(self.align(sc));
                }
                if self.t.pct(self.p.f_align) {
                    f.align_after = Some(self.align(sc));
                }
            }
            if self.t.pct(self.p.f_seek) {
                f.seek_before = Some(match self.t.weighted(if self.p.relocatable { &[0, 100, 0] } else { &[45, 35, 20] }) {
                    0 => SeekTo::Start(self.small(sc, 31)),
                    1 => {
                        let (x, n) = self.pad(sc);
                        SeekTo::Current(x, n)
                    }
                    _ => {
                        let x = self.small(sc, 15);
                        SeekTo::End(x, self.t.pct(85))
                    }
                });
            }
            if self.t.pct(self.p.f_padsize) {
                f.pad_size_to = Some(if self.t.pct(self.p.wild_count / 2) { self.count(sc) } else if self.t.pct(4) { X::C(self.far()) } else { self.small(sc, 15) });
            }
        }
        let plain_flow = f.cond.is_none() && !f.try_;
        if (plain_flow || self.p.magic_any) && self.t.pct(self.p.f_magic) {
            f.magic = Some(self.lit());
        }
        if self.t.pct(self.p.f_restore) {
            f.restore = true;
        }
        if attr_macro && self.t.pct(self.p.f_temp) {
            f.temp = true;
        }
        sc.fields.push((f.name.clone(), f.ty.clone()));
        let pct = self.p.f_assert;
        f.asserts = self.asserts(sc, pct);
        f
    }

    fn pad(&mut self, sc: &Scope) -> (X, bool) {
        let neg = self.t.pct(self.p.neg_pad);
        if self.t.pct(self.p.wild_count / 4) {
            return (self.count(sc), neg);
        }
        if self.t.pct(4) {
            return (X::C(self.far()), neg);
        }
        (self.small(sc, 7), neg)
    }

    /// well past the end of the input
    fn far(&mut self) -> u64 {
        let near = *self.t.pick(&[127u64, 255, 256, 1000, 32767, 65535, 65536, 1 << 20, i32::MAX as u64, u32::MAX as u64, 1 << 32, 1 << 40]);
        near + self.t.below(3)
    }

    fn align(&mut self, sc: &Scope) -> X {
        if self.t.pct(4) {
            return X::C(*self.t.pick(&[100, 128, 255, 256, 300, 512, 1000, 4096, 1 << 16, 1 << 31, 1 << 32, 3 << 32]));
        }
        if self.t.pct(25) {
            X::Add(Box::new(self.small(sc, 7)), Box::new(X::C(1)))
        } else {
            X::C(*self.t.pick(&[4, 2, 8, 16, 1, 3, 5, 6, 7, 10, 32, 64]))
        }
    }

    /// A field that holds more of the type being defined
    fn rec_field(&mut self, sc: &mut Scope, tys: &[P]) -> Field {
        let me = Box::new(Ty::Rec(self.prog.types.len()));
        let name = self.name(sc);
        let mut f = Field::new(name, Ty::Unit);
        let boxed = Ty::Boxed(me.clone());
        let ptr = if self.p.relocatable { 0 } else { 25 };
        match self.t.weighted(&[30, 30, if self.p.f_try > 0 { 12 } else { 0 }, ptr, 10, if tys.is_empty() { 8 } else { 0 }, ptr / 3]) {
            0 => {
                f.ty = if self.t.pct(70) { Ty::Vec(me) } else { Ty::Boxed(Box::new(Ty::Vec(me))) };
                f.count = Some(self.small(sc, 3));
            }
            1 => {
                f.ty = Ty::Opt(Box::new(boxed));
                f.cond = Some((self.cond(sc, false), None));
            }
            2 => {
                f.ty = Ty::Opt(Box::new(boxed));
                f.try_ = true;
            }
            3 => {
                f.ty = Ty::Opt(Box::new(Ty::Ptr(self.ptr_prim(), Box::new(boxed))));
                f.cond = Some((self.cond(sc, false), None));
            }
            4 => {
                f.ty = if self.t.bool() { Ty::Vec(me) } else { Ty::Deque(me) };
                f.mode = Mode::Parse(Parser::Count(self.small(sc, 3)));
            }
            5 => {
                f.ty = Ty::Punct(me, Box::new(Ty::Prim(self.prim())));
                f.mode = Mode::Parse(if self.t.bool() { Parser::Separated } else { Parser::SeparatedTrailing });
                f.count = Some(self.small(sc, 3));
            }
            _ => {
                f.ty = Ty::Vec(Box::new(Ty::Ptr(self.ptr_prim(), me)));
                f.count = Some(self.small(sc, 3));
            }
        }
        f.arg_tys = tys.to_vec();
        f.args = self.args_for(sc, tys);
        f.end = self.fend(sc);
        if self.t.pct(self.p.f_restore) {
            f.restore = true;
        }
        sc.fields.push((f.name.clone(), f.ty.clone()));
        f
    }

    fn body(&mut self, sc: &mut Scope, tuple: bool, generic: bool, attr_macro: bool, root: bool, min: u64) -> Vec<Field> {
        let n = self.t.range(self.p.fields.0.max(min).min(self.p.fields.1), self.p.fields.1);
        // now and then many
        let n = if n > 2 && self.t.pct(4) { n + if self.t.pct(15) { self.t.range(13, 45) } else { self.t.range(4, 12) } } else { n };
        let mut fs = vec![];
        let mut recursive = false;
        for i in 0..n {
            let cx = TCx { args_unit: false, need_default: false, no_ptr: false, depth: 2, generic };
            let f = if generic && i == 0 {
                let name = self.name(sc);
                let ty = match self.t.below(4) {
                    0 => Ty::Param,
                    1 => Ty::Opt(Box::new(Ty::Param)),
                    2 => Ty::Boxed(Box::new(Ty::Param)),
                    _ => Ty::Pos(Box::new(Ty::Param)),
                };
                let f = Field::new(name.clone(), ty.clone());
                sc.fields.push((name, ty));
                f
            } else if i > 0 && !generic && self.p.recursive > 0 && self.t.pct(self.p.recursive) {
                let tys: Vec<P> = sc.imports.iter().map(|x| x.1).collect();
                recursive = true;
                self.rec_field(sc, &tys)
            } else {
                self.field(sc, cx, attr_macro, root)
            };
            fs.push(f);
        }
        if recursive {
            // what count the type sees is no longer that of its one use
            for f in &mut fs {
                if let Mode::Parse(Parser::Obs { count_known, .. }) = &mut f.mode {
                    *count_known &= f.count.is_some();
                }
            }
        }
        if tuple {
            for (i, f) in fs.iter_mut().enumerate() {
                f.name = format!("self_{}", i);
                sc.fields[i].0 = f.name.clone();
            }
        }
        fs
    }

    fn typedef(&mut self, idx: usize, root: bool) -> TypeDef {
        let w = if root { self.p.root_kinds } else { self.p.kinds };
        let mut k = self.t.weighted(&w);
        let mut sc = Scope { imports: vec![], fields: vec![], names: vec![] };
        let attr_macro = self.t.pct(self.p.attr_macro);
        let mut td = TypeDef {
            name: format!("T{}", idx),
            kind: Kind::Unit,
            end: None,
            magic: None,
            imports: Imports::None,
            asserts: vec![],
            pre: vec![],
            generic: false,
            derive_default: false,
            attr_macro,
        };
        td.end = { let p = self.p.t_end; self.end(p) };
        if self.t.pct(self.p.t_magic) {
            td.magic = Some(self.lit());
        }
        if k == 6 {
            // the arguments of a mapped type are those of what it reads
            let cx = TCx { args_unit: false, need_default: false, no_ptr: true, depth: 2, generic: false };
            let input = self.ty(cx);
            let tys = self.prog.args_of(&input);
            if !tys.is_empty() {
                let l: Vec<(String, P)> = tys.iter().map(|t| (self.name(&mut sc), *t)).collect();
                sc.imports.extend(l.iter().cloned());
                td.imports = Imports::List(l);
            }
            let tm = self.t.pct(self.p.try_map);
            let fail = self.map_fail(tm);
            let form = [MapForm::Closure, MapForm::Path][self.t.weighted(&[70, 30])];
            let c = if form == MapForm::Path { X::C(self.t.below(1000)) } else { self.value(&sc) };
            let pct = self.p.t_pre;
            td.pre = self.asserts(&sc, pct);
            td.kind = Kind::Mapped { map: MapD { input, f: MapFn::Tag(c), form, fail }, en: self.t.pct(30) };
            return td;
        }
        let ip = if root { self.p.root_imports } else { self.p.t_imports };
        td.imports = self.imports(ip, &mut sc);
        match k {
            0 | 1 => {
                let generic = !root && self.t.pct(self.p.generic);
                td.generic = generic;
                let pct = self.p.t_pre;
                td.pre = self.asserts(&sc, pct);
                let fields = self.body(&mut sc, k == 1, generic, attr_macro, root, generic as u64);
                let pct = self.p.t_assert;
                td.asserts = self.asserts(&sc, pct);
                td.derive_default = !generic && fields.iter().all(|f| f.temp || self.prog.has_default(&f.ty)) && self.t.pct(60);
                td.kind = Kind::Struct(Body { tuple: k == 1, fields, asserts: vec![], pre: vec![], magic: None, end: None });
            }
            2 => {
                let pct = self.p.t_pre;
                td.pre = self.asserts(&sc, pct);
                let pct = self.p.t_assert;
                td.asserts = self.asserts(&sc, pct);
                td.derive_default = self.t.bool();
            }
            3 => {
                let pct = self.p.t_pre;
                td.pre = self.asserts(&sc, pct / 2);
                let n = if self.t.pct(5) { if self.t.pct(20) { self.t.range(13, 40) } else { self.t.range(6, 12) } } else { self.t.range(2, 5) } as usize;
                let mut variants: Vec<Variant> = vec![];
                let mut any_unit = false;
                for i in 0..n {
                    let unit = i > 0 && self.t.pct(20);
                    any_unit |= unit;
                    let mut vs = Scope { imports: sc.imports.clone(), fields: vec![], names: sc.names.clone() };
                    let mut b = Body { tuple: false, fields: vec![], asserts: vec![], pre: vec![], magic: None, end: None };
                    if self.t.pct(self.p.v_magic) {
                        let prev = variants.iter().rev().find_map(|v: &Variant| v.body.magic.clone());
                        b.magic = Some(match prev {
                            Some(m) if self.t.pct(70) => {
                                if self.t.pct(self.p.same_magic) { m } else { self.lit_like(&m) }
                            }
                            _ => self.lit(),
                        });
                    }
                    let pct = self.p.v_pre;
                    b.pre = self.asserts(&vs, pct);
                    if !unit {
                        b.end = { let p = self.p.v_end; self.end(p) };
                        b.tuple = self.t.bool();
                        let save = self.p.fields;
                        self.p.fields = (0.max(save.0.min(1)), save.1.min(4));
                        let tuple = b.tuple;
                        b.fields = self.body(&mut vs, tuple, false, attr_macro, root, 0);
                        self.p.fields = save;
                        let pct = self.p.v_assert;
                        b.asserts = self.asserts(&vs, pct);
                    }
                    let name = ["A", "B", "Cc", "D", "Self_", "F", "G", "Hh", "I", "J", "K", "L"].get(i).map_or_else(|| format!("V{}", i), |n| n.to_string());
                    variants.push(Variant { name, unit, body: b });
                }
                if !any_unit {
                    let pct = self.p.t_assert / 2;
                    td.asserts = self.asserts(&sc, pct);
                }
                let all_errors = self.t.pct(70);
                td.kind = Kind::Data { variants, all_errors, explicit: self.t.pct(40) };
            }
            4 => {
                let p = self.int();
                let n = if self.t.pct(5) { if self.t.pct(20) { self.t.range(21, 150) } else { self.t.range(7, 20) } } else { self.t.range(1, 6) } as usize;
                let mut vs: Vec<UVariant> = vec![];
                let (lo, hi) = match p {
                    P::U8 => (0i128, 255i128),
                    P::I8 => (-128, 127),
                    P::U16 => (0, 65535),
                    P::I16 => (-32768, 32767),
                    P::U32 => (0, u32::MAX as i128),
                    P::I32 => (i32::MIN as i128, i32::MAX as i128),
                    p if p.signed() => (i64::MIN as i128, i64::MAX as i128),
                    P::U64 | P::U128 => (0, u64::MAX as i128),
                    _ => (0, i64::MAX as i128),
                };
                let mut next = 0i128;
                for i in 0..n {
                    let explicit = self.t.pct(55) || next > hi || vs.iter().any(|v| v.value == next);
                    let value = if explicit {
                        let mut v = match self.t.below(4) {
                            0 => self.t.below(10) as i128 + lo.max(-5),
                            1 => (self.t.u64() as i128).rem_euclid(hi - lo + 1) + lo,
                            2 => hi - self.t.below(3) as i128,
                            _ => lo + self.t.below(3) as i128,
                        };
                        while vs.iter().any(|u| u.value == v) {
                            v = if v >= hi { lo } else { v + 1 };
                        }
                        v
                    } else {
                        next
                    };
                    next = value + 1;
                    let pct = self.p.v_pre;
                    let pre = self.asserts(&sc, pct);
                    vs.push(UVariant { name: unit_name(i), disc: if explicit { Some(value) } else { None }, value, magic: None, pre });
                }
                td.kind = Kind::Repr(p, self.t.bool(), vs);
            }
            _ => {
                k = 5;
                let _ = k;
                let n = if self.t.pct(5) { if self.t.pct(20) { self.t.range(21, 150) } else { self.t.range(7, 20) } } else { self.t.range(1, 6) } as usize;
                let first = self.lit();
                let mut vs: Vec<UVariant> = vec![];
                for i in 0..n {
                    let magic = if i > 0 && self.t.pct(12) {
                        None
                    } else if i == 0 {
                        Some(first.clone())
                    } else if self.t.pct(self.p.same_magic) {
                        Some(first.clone())
                    } else {
                        Some(self.lit_like(&first))
                    };
                    let pct = self.p.v_pre;
                    let pre = if magic.is_some() { self.asserts(&sc, pct) } else { vec![] };
                    vs.push(UVariant { name: unit_name(i), disc: None, value: i as i128, magic, pre });
                }
                // the first magic decides the type; a variant without one may come first
                if self.t.pct(10) && vs.len() > 1 {
                    vs[0].magic = None;
                    vs[0].pre.clear();
                    if vs.iter().all(|v| v.magic.is_none()) {
                        vs[0].magic = Some(first);
                    }
                }
                td.kind = Kind::MagicEnum(vs);
            }
        }
        td
    }
}
