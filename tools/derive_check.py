"""C24: generated definitions, valid and faulty, given to the compiler."""
import concurrent.futures as cf
import json
import os
import random
import re
import subprocess

from bxlib import BUILD, NCPU, CheckError, Libs, env, fresh

SUPPORT = r'''
pub mod sup {
    pub use binread::{BinRead, BinResult, FilePtr, FilePtr16, FilePtr32, NullString, NullWideString, PosValue, ReadOptions};
    pub use binread::io::{Read, Seek, SeekFrom};
    #[derive(BinRead, Clone, Debug, PartialEq, Default)]
    pub struct Plain { pub p: u8, pub q: u16 }
    #[derive(BinRead, Clone, Debug, PartialEq, Default)]
    #[br(import(x: u8, y: u32))]
    pub struct Two { #[br(calc = x as u32 + y)] pub z: u32, pub w: u8 }
    #[derive(BinRead, Clone, Debug, PartialEq, Default)]
    #[br(import_tuple(t: (u8, u16)))]
    pub struct Tup { #[br(calc = t.0 as u16 + t.1)] pub z: u16 }
    #[derive(BinRead, Clone, Debug, PartialEq)]
    #[br(import(x: u8))]
    pub struct One(#[br(calc = x)] pub u8, pub u8);
    #[derive(Debug)]
    pub struct Problem(pub u32);
    pub fn parse_u16<R: Read + Seek>(r: &mut R, o: &ReadOptions, _: ()) -> BinResult<u16> { u16::read_options(r, o, ()) }
    pub fn parse_add<R: Read + Seek>(r: &mut R, o: &ReadOptions, (a, b): (u8, u32)) -> BinResult<u32> { Ok(u32::read_options(r, o, ())?.wrapping_add(a as u32 + b)) }
    pub fn widen(x: u8) -> u32 { x as u32 }
    pub fn check(x: u8) -> Result<u32, Problem> { if x > 3 { Ok(x as u32) } else { Err(Problem(x as u32)) } }
}
'''

# ------------------------------------------------------------------ definitions

TYPE_NAMES = ["Foo", "Header", "Ok", "Err", "Some", "None", "Option", "Result", "Vec", "Box", "String", "Default", "Clone", "Copy", "Iterator", "From", "Into",
              "Drop", "Fn", "FnMut", "Ord", "Eq", "PartialEq", "Send", "Read", "Seek", "SeekFrom", "BinRead", "BinResult", "Error", "Endian", "ReadOptions",
              "R", "T", "E", "Args", "Reader", "lower", "snake_case", "r#type", "r#struct", "r#match", "Übung", "_Hidden", "_0", "A", "Inner", "Magic", "Assert",
              "ToString", "ToOwned", "AsRef", "Any", "Cursor", "Vec_", "Struct", "Enum", "Core", "StdType", "ident"]
FIELD_NAMES = ["a", "b", "c", "len", "count", "offset", "pos", "size", "pad", "align", "skip", "past", "e", "error", "err", "value", "args", "options", "reader",
               "magic", "big", "little", "temp", "endian", "r#type", "r#match", "r#fn", "r#struct", "r#if", "r#try", "r#in", "r#move", "_x", "_unused", "__a", "x1",
               "self_0", "self_1", "result", "r", "ro", "alloc", "core", "std", "binread", "seek", "read", "import", "repr", "default", "ignore", "calc", "map",
               "try_map", "assert", "pre_assert", "f", "t", "ok", "some", "none", "Upper", "CONST", "größe", "u8_", "i", "n", "test", "after_parse", "read_options",
               "stream_pos", "from_bytes", "union", "auto", "dyn_", "raw", "string", "vec", "message", "format", "temp_", "args_a", "options_a", "position_temp", "error_basket",
               "restore_position", "variable_name", "it", "item", "acc", "data", "buf", "index", "id", "name", "key", "kind", "tag", "flags"]
VARIANT_NAMES = ["A", "B", "C", "Ok", "Err", "Some", "None", "Default", "Self_", "r#type", "r#match", "lower", "X1", "Foo", "Bar", "Unit", "Big", "Little", "Io", "R", "T",
                 "Args", "Error", "Übung", "_A", "Vec", "Option", "Result", "String", "u8_", "Read"]
INTS = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"]
OPT = "::core::option::Option"
VEC = "::std::vec::Vec"


class El:
    """Something attributes can be put on: the type, a variant, a field."""

    def __init__(self, kind, head, tail=""):
        self.kind = kind        # struct ustruct denum uenum vdata vunit field union
        self.attrs = []         # whole attributes
        self.head = head        # list of lines
        self.tail = tail
        self.kids = []
        self.fault = None
        self.call_site = False
        self.stage = None
        self.each = []          # faulty attributes, each of which must be reported

    def copy(self):
        e = El(self.kind, self.head, self.tail)
        e.attrs = list(self.attrs)
        e.kids = [k.copy() for k in self.kids]
        e.fault, e.call_site, e.stage = self.fault, self.call_site, self.stage
        e.each = list(self.each)
        return e

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()


class Def:
    def __init__(self, top, macro):
        self.top = top
        self.macro = macro      # "derive" or "attr"
        self.items = []         # further items beside the definition

    def copy(self):
        d = Def(self.top.copy(), self.macro)
        d.items = list(self.items)
        return d

    def faulty(self):
        return [e for e in self.top.walk() if e.fault]

    def render(self, name, first):
        """Lines of the module, and (element, first, last) ranges, 1-based"""
        out = ["pub mod %s {" % name, "    use super::sup::*;"]
        out += ["    " + l for l in self.items]
        ranges = []
        start = first + len(out)
        if self.macro == "attr":
            out.append("    #[binread::derive_binread]")
        else:
            out.append("    #[derive(binread::BinRead)]")
        derive_line = first + len(out) - 1

        def rec(e, ind):
            lo = first + len(out)
            each = []
            for a in e.attrs:
                if a in e.each:
                    each.append((first + len(out), a))
                for l in a.split("\n"):
                    out.append(ind + l)
            for h in e.head:
                out.append(ind + h)
            hi = first + len(out) - 1
            ranges.append((e, lo, hi, each))
            for k in e.kids:
                rec(k, ind + "    ")
            if e.tail:
                out.append(ind + e.tail)

        rec(self.top, "    ")
        end = first + len(out) - 1
        out.append("}")
        return out, ranges, derive_line, (start, end)


def attrs(r, dirs):
    """Distributes directives over attributes"""
    out = []
    dirs = list(dirs)
    while dirs:
        k = r.randint(1, len(dirs))
        part, dirs = dirs[:k], dirs[k:]
        out.append("#[%s(%s%s)]" % (r.choice(["br", "br", "binread"]), ", ".join(part), "," if r.random() < .15 else ""))
    if r.random() < .03:
        out.append("#[br()]")
    if r.random() < .06:
        out.insert(r.randint(0, len(out)), r.choice(["/// Documentation", "#[doc = \"text\"]", "#[allow(dead_code)]", "#[cfg(not(never_set))]", "#[cfg_attr(all(), allow(unused))]"]))
    return out


def kv(r, k, v):
    return "%s = %s" % (k, v) if r.random() < .6 else "%s(%s)" % (k, v)


class Gen:
    """A valid definition"""

    def __init__(self, r):
        self.r = r

    def pick(self, p):
        return self.r.random() < p

    def names(self, pool, n, avoid=()):
        # raw and plain spellings are the same name
        return self.r.sample([x for x in pool if x not in avoid], n)

    def num(self, ty="u64"):
        r = self.r
        c = ["%d" % r.choice([0, 1, 2, 3, 4, 8, 16]), "1 + %d" % r.randint(0, 9), "{ let q = 2; q * 2 }", "if true { 1 } else { 2 }", "(2)", "4 / 2",
             "match 1 { 1 => 4, _ => 2 }", "0x10", "(|| 3)()"]
        if self.vars:
            v = r.choice(self.vars)
            c += ["%s as %s" % (v, ty), "(%s) as %s" % (v, ty), "%s as %s + 1" % (v, ty), "<%s>::from(%s as u8 as i8 as u8)" % ("u64", v) + " as %s" % ty,
                  "if %s == 0 { 1 } else { %s as %s }" % (v, v, ty)] * 2
        return r.choice(c)

    def cond(self):
        r = self.r
        c = ["true", "1 < 2", "!false", "matches!(3, 1..=4)", "(|| true)()", "{ true }", "if true { true } else { false }", "true || false"]
        if self.vars:
            v = r.choice(self.vars)
            c += ["%s == 1" % v, "%s < 9 && %s != 3" % (v, v), "%s & 1 == 0 || false" % v, "matches!(%s, 1..=4)" % v, "[1, 2].contains(&%s)" % v,
                  "!(%s == 0)" % v, "if let 3 = %s { true } else { false }" % v] * 2
        return r.choice(c)

    def asserts(self, kw, n=2):
        r = self.r
        out = []
        for _ in range(r.choice([0, 0, 1, 1, n])):
            c = [self.cond()]
            k = r.random()
            if k < .25:
                c.append('"message"')
            elif k < .45:
                c += ['"{} {{}} {:?}"', "1", self.num()]
            elif k < .6:
                c.append("Problem(%s)" % self.num("u32"))
            elif k < .65:
                c.append("{ let e = Problem(3); e }")
            out.append("%s(%s%s)" % (kw, ", ".join(c), "," if r.random() < .15 else ""))
        return out

    def endian(self, cond):
        r = self.r
        c = ["big", "little"]
        if cond:
            c += [kv(r, "is_big", self.cond()), kv(r, "is_little", self.cond())]
        return [r.choice(c)]

    def magic(self):
        return kv(self.r, "magic", self.r.choice(['b"AB"', 'b"\\x00\\xff"', "1u8", "0xffu16", "b'x'", "'c'", "1.5f32", "-2i16", "300u32", "7u64", "1u128", 'b"a"', "-1.0f64", 'br"\\x"']))

    def field(self, name, tuple_, vis, attr_macro, mapped=False):
        """(element, usable as a number)"""
        r = self.r
        d = []
        numeric = False
        shape = r.choice(["int"] * 8 + ["vec"] * 4 + ["opt", "try", "ptr", "args", "tup", "calc", "default", "parse", "map", "other", "other", "cond", "punct"])
        ty = r.choice(INTS)
        readable = True
        moves = True
        if shape == "int":
            numeric = True
        elif shape == "cond":
            numeric = True
            d.append("if(%s%s%s)" % (self.cond(), r.choice(["", ", 3", ", %s" % self.num(ty)]), "," if r.random() < .1 else ""))
        elif shape == "vec":
            inner = r.choice(INTS + ["Plain", "[u8; 2]", "(u8, u16)"])
            ty = "%s<%s>" % (VEC, inner)
            d.append(kv(r, "count", self.num("usize")))
            if self.pick(.2):
                d.append("args()")
            elif self.pick(.15):
                ty = "%s<Two>" % VEC
                d.append(r.choice(["args(1, %s)" % self.num("u32"), kv(r, "args_tuple", "(1, 2)")]))
        elif shape == "opt":
            d.append("if(%s)" % self.cond())
            ty = "%s<%s>" % (OPT, r.choice(INTS + ["Plain"]))
        elif shape == "try":
            d.append("try")
            ty = "%s<%s>" % (OPT, r.choice(INTS + ["Plain", "NullString"]))
            if self.pick(.2):
                ty = "%s<%s<u8>>" % (OPT, VEC)
                d.append(kv(r, "count", self.num("usize")))
        elif shape == "ptr":
            inner = r.choice(["u8", "u32", "Plain", "NullString"])
            ty = r.choice(["FilePtr32<%s>", "FilePtr16<%s>", "FilePtr<u64, %s>"]) % inner
            k = r.random()
            if k < .3:
                d.append(r.choice(["deref_now", "postprocess_now"]))
            elif k < .6:
                d.append(kv(r, "offset_after", self.num("u64")))
            if self.pick(.4):
                d.append(kv(r, "offset", self.num("u64")))
            if self.pick(.2):
                ty = "FilePtr32<%s<u8>>" % VEC
                d.append(kv(r, "count", self.num("usize")))
        elif shape == "args":
            ty = "Two"
            d.append(r.choice(["args(1, 2)", "args(%s, %s)" % (self.num("u8"), self.num("u32")), kv(r, "args_tuple", "(1, 2)"), "args(1, 2,)",
                               kv(r, "args_tuple", "{ let z = (1, 2); z }")]))
        elif shape == "tup":
            ty = "Tup"
            d.append(r.choice(["args(1, 2)", kv(r, "args_tuple", "(1, 2)")]))
        elif shape == "calc":
            numeric = True
            d.append(kv(r, "calc", self.num(ty)))
        elif shape == "default":
            ty = r.choice(INTS + ["%s<u8>" % VEC, "Plain", "%s<NotReadable>" % OPT])
            ty = ty.replace("NotReadable", "::std::string::String")
            numeric = ty in INTS
            d.append(r.choice(["default", "ignore"]))
        elif shape == "parse":
            if self.pick(.5):
                ty, numeric = "u16", True
                d.append(kv(r, "parse_with", r.choice(["parse_u16", "self::parse_u16", "super::sup::parse_u16"])))
            else:
                ty, numeric = "u32", True
                d.append(kv(r, "parse_with", "parse_add"))
                d.append(r.choice(["args(1, 2)", kv(r, "args_tuple", "(3, 4)")]))
            if self.pick(.15):
                ty, numeric = "u8", False
                d = [kv(r, "parse_with", "FilePtr32::parse")]
        elif shape == "map":
            ty, numeric = "u32", True
            k = r.random()
            if k < .5:
                d.append(kv(r, "map", r.choice(["widen", "|x: u8| x as u32", "|x: u16| { let y = x; y as u32 }", "|(a, b): (u8, u8)| (a as u32) << 8 | b as u32", "::core::convert::From::<u8>::from",
                                                "|x: Plain| x.q as u32"]).replace("::core::convert::From::<u8>::from", "<u32 as ::core::convert::From<u16>>::from")))
                if self.vars and self.pick(.4):
                    d = [kv(r, "map", "|x: u8| x as u32 + %s as u32" % r.choice(self.vars))]
            else:
                d.append(kv(r, "try_map", r.choice(["check", "|x: u8| check(x)", "|x: u8| if x > 1 { ::core::result::Result::Ok(x as u32) } else { ::core::result::Result::Err(Problem(1)) }",
                                                    "|x: i64| <u32 as ::core::convert::TryFrom<i64>>::try_from(x)"])))
        elif shape == "other":
            ty = r.choice(["f32", "f64", "char", "()", "[u8; 3]", "[u16; 4]", "(u8, u16, [u8; 2])", "::std::boxed::Box<u16>", "PosValue<u32>", "NullString", "NullWideString", "Plain",
                           "::core::marker::PhantomData<u8>", "[Plain; 2]", "(Plain, u8)", "::std::boxed::Box<[u8; 2]>"])
        elif shape == "punct":
            ty = "::binread::punctuated::Punctuated<u8, u16>"
            d = [kv(r, "count", self.num("usize")), kv(r, "parse_with", r.choice(["::binread::punctuated::Punctuated::separated", "::binread::punctuated::Punctuated::separated_trailing"]))]
        if self.pick(.25):
            d += self.endian(True)
        if self.pick(.12):
            d.append(self.magic())
        if self.pick(.15):
            d.append(kv(r, r.choice(["pad_before", "pad_after"]), self.num("i64")))
        if self.pick(.15):
            d.append(kv(r, r.choice(["align_before", "align_after"]), self.num("u64")))
        if self.pick(.08):
            d.append(kv(r, "pad_size_to", self.num("u64")))
        if self.pick(.1):
            d.append(kv(r, "seek_before", "::binread::io::SeekFrom::%s" % r.choice(["Start(%s)" % self.num("u64"), "Current(%s)" % self.num("i64"), "End(-1)"])))
        if self.pick(.1):
            d.append("restore_position")
        if attr_macro and self.pick(.25):
            d.append("temp")
        temp = "temp" in d
        r.shuffle(d)
        el = El("field", [])
        # a field hides an import of its name
        self.vars = [v for v in self.vars if v != name]
        if numeric:
            self.vars.append(name)
        if self.pick(.25):
            d += self.asserts("assert")
        el.attrs = attrs(r, d)
        el.head = ["%s%s," % (vis(), ty)] if tuple_ else ["%s%s: %s," % (vis(), name, ty)]
        el.temp = temp
        return el

    def body(self, tuple_, n, attr_macro, variant):
        r = self.r
        names = ["self_%d" % i for i in range(n)] if tuple_ else self.names(FIELD_NAMES, n)
        vis = (lambda: "") if variant else (lambda: r.choice(["", "", "pub ", "pub(crate) ", "pub(super) ", "pub(in super) "]))
        return [self.field(x, tuple_, vis, attr_macro) for x in names]

    def make(self):
        r = self.r
        self.vars = []
        attr_macro = self.pick(.3)
        name = r.choice(TYPE_NAMES)
        kind = r.choice(["named"] * 6 + ["tuple"] * 3 + ["unit", "data", "data", "data", "repr", "magic", "mapped"])
        vis = r.choice(["", "pub ", "pub(crate) ", "pub(super) "])
        top = []
        items = []
        generics, where = "", ""
        if kind != "mapped" and self.pick(.25):
            params = self.names(["P", "Q", "R", "T", "Args", "Reader", "E", "Self_", "F", "S"], r.randint(1, 2), avoid=(name,))
            lf = r.choice(["", "", "'a, ", "'a, 'b: 'a, "])
            mode = r.random()
            marker = "::core::marker::PhantomData<(%s%s)>" % (", ".join("&'%s u8" % x for x in ("a", "b") if "'%s" % x in lf) + (", " if lf else ""), ", ".join(params) + ",")
            if lf or mode < .4:
                generics = "<%s%s>" % (lf, ", ".join(params))
                where = " where %s" % ", ".join("%s: 'static" % p for p in params) if self.pick(.3) else ""
                extra = "    #[br(default)] marker_: %s," % marker
                extra_t = "#[br(default)] %s," % marker
            elif mode < .7:
                generics = "<%s>" % ", ".join("%s: BinRead<Args = ()>" % p for p in params)
                if name == "BinRead":
                    generics = generics.replace("BinRead", "::binread::BinRead")
                extra = " ".join("generic_%d: %s," % (i, p) for i, p in enumerate(params))
                extra_t = " ".join("%s," % p for p in params)
            else:
                generics = "<%s, const N: usize>" % ", ".join(params)
                where = " where " + ", ".join("%s: ::binread::BinRead<Args = ()> + ::core::marker::Copy" % p for p in params)
                extra = "#[br(count = N)] generic_v: %s<u8>, " % VEC + " ".join("generic_%d: %s," % (i, p) for i, p in enumerate(params))
                extra_t = "#[br(count = N)] %s<u8>, " % VEC + " ".join("%s," % p for p in params)
        else:
            extra = extra_t = ""
        if kind in ("repr", "magic", "unit") and generics:
            generics = where = extra = extra_t = ""

        def imports():
            if kind == "mapped" or self.pick(.75):
                return
            k = r.random()
            if k < .6:
                ns = self.names(["imp", "r#ref", "x", "len", "value", "e", "pos", "mode"], r.randint(0, 3))
                top.append("import(%s%s)" % (", ".join("%s: %s" % (x, r.choice(["u8", "u32", "usize"])) for x in ns), "," if ns and r.random() < .2 else ""))
                self.vars += ns
            else:
                top.append(kv(r, "import_tuple", "tup: (u8, u32)"))
                self.vars += ["tup.0", "tup.1"]

        if self.pick(.3):
            top += self.endian(False)
        imports()
        if self.pick(.25) and kind != "magic":
            top.append(self.magic())
        if kind in ("named", "tuple"):
            top += self.asserts("pre_assert")
            before = list(self.vars)
            el = El("struct", [])
            n = r.randint(0, 5)
            el.kids = self.body(kind == "tuple", n, attr_macro, False)
            if n == 0 and not extra and kind == "named":
                pass
            top += self.asserts("assert")
            if kind == "named":
                el.head = ["%sstruct %s%s%s {%s" % (vis, name, generics, where, extra)]
                el.tail = "}"
            else:
                el.head = ["%sstruct %s%s(%s" % (vis, name, generics, "")]
                el.tail = "%s)%s;" % (extra_t, where)
        elif kind == "unit":
            top += self.asserts("pre_assert") + self.asserts("assert")
            el = El("ustruct", ["%sstruct %s;" % (vis, name)])
        elif kind == "data":
            top += self.asserts("pre_assert")
            if self.pick(.4):
                top.append(r.choice(["return_all_errors", "return_unexpected_error"]))
            base = list(self.vars)
            el = El("denum", ["%senum %s%s%s {" % (vis, name, generics, where)], "}")
            names = self.names(VARIANT_NAMES, r.randint(1, 4))
            for i, v in enumerate(names):
                self.vars = list(base)
                unit = i > 0 and self.pick(.25)
                d = []
                if self.pick(.4):
                    d.append(self.magic())
                d += self.asserts("pre_assert", 1)
                if unit:
                    k = El("vunit", ["%s," % v])
                else:
                    if self.pick(.3):
                        d += self.endian(False)
                    tuple_ = self.pick(.5)
                    k = El("vdata", [])
                    k.kids = self.body(tuple_, r.randint(0 if i else 1, 3), attr_macro, True)
                    if i == 0 and extra:
                        e = El("field", [(extra_t if tuple_ else extra)])
                        e.plain = True
                        k.kids.append(e)
                    d += self.asserts("assert", 1)
                    k.head = ["%s%s" % (v, "(" if tuple_ else " {")]
                    k.tail = ")," if tuple_ else "},"
                k.attrs = attrs(r, d)
                el.kids.append(k)
            self.vars = base
        elif kind == "repr":
            ty = r.choice(INTS[:4] + INTS[5:9])
            top.append(kv(r, "repr", ty))
            el = El("uenum", ["%senum %s {" % (vis, name)], "}")
            for i, v in enumerate(self.names(VARIANT_NAMES, r.randint(1, 5))):
                k = El("vunit", ["%s%s," % (v, " = %d" % (10 * i) if self.pick(.4) else "")])
                k.attrs = attrs(r, self.asserts("pre_assert", 1)) if self.pick(.3) else []
                el.kids.append(k)
        elif kind == "magic":
            if self.pick(.25):
                top.append(self.magic())
            m = r.choice([["1u8", "2u8", "0xffu8"], ["b'a'", "1u8"], ["1u32", "70000u32"], ['b"ab"', 'b"cd"', 'b"\\x00\\x01"'], ["'a'", "'b'"], ["-1i16", "5i16"], ["1u128", "2u128"]])
            el = El("uenum", ["%senum %s {" % (vis, name)], "}")
            for i, v in enumerate(self.names(VARIANT_NAMES, r.randint(1, 4))):
                k = El("vunit", ["%s%s," % (v, " = %d" % (7 * i) if self.pick(.2) else "")])
                k.attrs = attrs(r, ([kv(r, "magic", r.choice(m))] + self.asserts("pre_assert", 1)) if i == 0 or self.pick(.85) else [])
                el.kids.append(k)
        else:
            attr_macro = False
            top += self.asserts("pre_assert")
            el = El("struct", [])
            if self.pick(.6):
                top.append(kv(r, "map", r.choice(["|x: u16| Self { inner: x as u32 }", "Self::build", "|x: (u8, u8)| Self::build(x.0 as u16)"])))
            else:
                top.append(kv(r, "try_map", r.choice(["|x: u16| if x > 3 { ::core::result::Result::Ok(Self { inner: 1 }) } else { ::core::result::Result::Err(Problem(1)) }", "Self::attempt"])))
            el.head = ["%sstruct %s { inner: u32 }" % (vis, name)]
            items.append("impl %s { fn build(x: u16) -> Self { Self { inner: x as u32 } } fn attempt(x: u16) -> ::core::result::Result<Self, Problem> { if x == 0 { ::core::result::Result::Err(Problem(0)) } else { ::core::result::Result::Ok(Self::build(x)) } } }" % name)
        r.shuffle(top)
        el.attrs = attrs(r, top)
        d = Def(el, "attr" if attr_macro else "derive")
        d.items = items
        if self.pick(.15):
            d.top.attrs.insert(0, "#[derive(Debug)]") if attr_macro and False else None
        return d


# ------------------------------------------------------------------ faults

VALUES = {  # directive: sample values
    "align_after": ["4"], "align_before": ["4"], "count": ["1"], "offset": ["1"], "offset_after": ["1"], "pad_after": ["1"], "pad_before": ["1"], "pad_size_to": ["1"],
    "seek_before": ["SeekFrom::Start(1)"], "calc": ["1"], "is_big": ["true"], "is_little": ["true"], "map": ["widen"], "try_map": ["check"], "parse_with": ["parse_u16"],
    "args_tuple": ["(1,)"], "magic": ["1u8", "b\"a\""], "repr": ["u8"], "import_tuple": ["t: (u8,)"],
}
FLAGS = ["big", "little", "default", "ignore", "deref_now", "postprocess_now", "restore_position", "temp", "try", "return_all_errors", "return_unexpected_error"]
LISTS = {"args": "1", "import": "a: u8", "assert": "true", "pre_assert": "true", "if": "true"}
FIELD_ONLY = ["align_after", "align_before", "args", "args_tuple", "calc", "count", "default", "deref_now", "if", "ignore", "is_big", "is_little", "offset", "offset_after",
              "pad_after", "pad_before", "pad_size_to", "parse_with", "postprocess_now", "restore_position", "seek_before", "temp", "try"]
# the "Supports" column of the list of directives
SUPPORTS = {
    "field": set(FIELD_ONLY) | {"assert", "big", "little", "magic", "map", "try_map"},
    "struct": {"assert", "pre_assert", "big", "little", "magic", "map", "try_map", "import", "import_tuple"},
    "denum": {"assert", "pre_assert", "big", "little", "magic", "map", "try_map", "import", "import_tuple", "return_all_errors", "return_unexpected_error"},
    "uenum": {"big", "little", "magic", "map", "try_map", "import", "import_tuple", "repr"},
    "vunit": {"magic", "pre_assert"},
    # not said of data variants: pre_assert; of what `args` there means
    "vdata": {"assert", "big", "little", "magic", "map", "try_map", "pre_assert", "args", "args_tuple"},
}
SUPPORTS["ustruct"] = SUPPORTS["struct"]
ALL = sorted(set(VALUES) | set(FLAGS) | set(LISTS))
GROUPS = [["big", "little"], ["big", "little", "is_big", "is_little"], ["map", "try_map"], ["args", "args_tuple"], ["calc", "default", "ignore", "parse_with"],
          ["import", "import_tuple"], ["return_all_errors", "return_unexpected_error"], ["deref_now", "postprocess_now"]]
# accepted today, and without effect: see known_findings.txt
TOLERATED = {("vdata", "import"), ("vdata", "import_tuple")}


def directive(r, k):
    if k in FLAGS:
        return k
    if k in LISTS:
        return "%s(%s)" % (k, LISTS[k])
    return kv(r, k, r.choice(VALUES[k]))


def wrap(r, parts):
    """One attribute or several"""
    if len(parts) > 1 and r.random() < .5:
        return ["#[br(%s)]" % p for p in parts]
    return ["#[%s(%s)]" % (r.choice(["br", "binread"]), ", ".join(parts))]


def misspell(r, k):
    for _ in range(50):
        i = r.randrange(len(k))
        w = r.choice([k[:i] + k[i + 1:], k[:i] + k[i] + k[i:], k[:i].upper() + k[i:], k.upper(), k.title(), k + "_", "_" + k, k + "s", k.replace("_", ""), k[:i] + "x" + k[i + 1:]])
        if re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", w) and w not in ALL and w not in ("as", "fn", "in", "r", "_", "mat", "is"):
            return w
    return "bogus"


def element_fault(r, e):
    """(name, attributes, may be reported at the derive line)"""
    sup = SUPPORTS[e.kind]
    kind = r.choice(["unknown", "misplaced", "misplaced", "conflict", "repeat", "malformed", "malformed", "malformed", "shape"])
    if kind == "unknown":
        w = r.choice(["bogus", "bogus", misspell(r, r.choice(ALL)), misspell(r, r.choice(ALL))])
        v = r.choice([w, "%s = 1" % w, "%s(1)" % w, "%s()" % w, "%s(a: u8)" % w, "\"%s\"" % w, "%s::%s" % (w, w), "1", "!", "#", "%s = " % w, ",", "r#%s" % r.choice(["big", "count", "magic", "try"])])
        if "r#" in v and v[2:] in sup and v != "r#try":
            v = w
        if r.random() < .3 and v != ",":
            k = [x for x in sup if x not in ("import", "import_tuple")]
            other = directive(r, r.choice(sorted(k)))
            v = "%s, %s" % (other, v)
        return "unknown " + v, wrap(r, [v]), False
    if kind == "misplaced":
        bad = [k for k in ALL if k not in sup and (e.kind, k) not in TOLERATED and k not in ("args", "args_tuple")]
        k = r.choice(bad)
        return "misplaced " + k, wrap(r, [directive(r, k)]), False
    if kind == "conflict":
        gs = [[k for k in g if k in sup] for g in GROUPS]
        gs = [g for g in gs if len(g) > 1]
        if e.kind == "field" and r.random() < .12:
            p = [r.choice(["deref_now", "postprocess_now"]), directive(r, "offset_after")]
            r.shuffle(p)
            return "conflict " + "+".join(p), wrap(r, p), False
        if gs:
            g = r.choice(gs)
            ks = r.sample(g, 2)
            return "conflict " + "+".join(ks), wrap(r, [directive(r, k) for k in ks]), False
        kind = "repeat"
    if kind == "repeat":
        ks = [k for k in sorted(sup) if k not in ("assert", "pre_assert") and not (e.kind == "vdata" and k in ("args", "args_tuple"))]
        k = r.choice(ks)
        return "repeat " + k, wrap(r, [directive(r, k), directive(r, k)]), False
    if kind == "malformed":
        ks = [k for k in sorted(sup) if not (e.kind == "vdata" and k in ("args", "args_tuple"))]
        k = r.choice(ks)
        if k == "try":
            forms = ["try = 1", "try(u8)", "try true"]
        elif k in FLAGS:
            forms = ["%s = 1", "%s(1)", "%s()", "%s = true", "%s %s", "%s: 1", "%s;"]
        elif k in ("assert", "pre_assert"):
            forms = ["%s", "%s = true", "%s()", "%s(true, Problem(1), 1)", "%s(true, Problem(1), 1, 2, 3)", "%s(true 1)", "%s(true,, 1)", "%s(,)", "%s[true]", "%s{true}", "%s(let)"]
        elif k == "if":
            forms = ["%s", "%s()", "%s(true, 1, 2)", "%s(true, 1, 2, 3)", "%s(true 1)", "%s(,)", "%s true", "%s[true]"]
        elif k == "args":
            forms = ["%s", "%s = 1", "%s(1 2)", "%s(,)", "%s[1]"]
        elif k == "import":
            forms = ["%s", "%s = 1", "%s(a)", "%s(a: u8 b: u8)", "%s(1)", "%s(a: 1)", "%s(a:)", "%s(: u8)", "%s((a, b): (u8, u8))", "%s(a: u8,, b: u8)", "%s(mut a: u8)", "%s(a = u8)"]
        elif k == "import_tuple":
            forms = ["%s", "%s = a", "%s(a)", "%s(a: u8, b: u8)", "%s = (u8, u8)", "%s()", "%s(1: u8)"]
        elif k == "magic":
            forms = ["%s", "%s =", "%s()", "%s = \"str\"", "%s(\"str\")", "%s = true", "%s = CONST", "%s = 1u8 + 1", "%s(1u8, 2u8)", "%s = [1u8]", "%s: 1u8", "%s = r\"raw\"", "%s = &b\"a\"", "%s = false"]
        elif k == "repr":
            forms = ["%s", "%s =", "%s = 5", "%s()", "%s(u8, u16)", "%s = \"u8\"", "%s u8"]
        else:
            forms = ["%s", "%s =", "%s()", "%s(1 2)", "%s = 1 2", "%s: 1", "%s == 1", "%s = = 1", "%s(1, 2)", "%s[1]", "%s{1}", "%s = 1; big", "%s = ,", "%s = let", "%s += 1"]
        f = r.choice(forms)
        f = f.replace("%s", k)
        if r.random() < .2:
            o = directive(r, r.choice([x for x in ("magic", "pre_assert") if x in sup] or ["assert"]))
            if o.split("(")[0].split(" ")[0] != k:
                f = r.choice(["%s, %s" % (o, f)])
        return "malformed " + f, wrap(r, [f]), False
    f = r.choice(["#[br]", "#[binread]", "#[br = \"big\"]", "#[br = 1]", "#[br{big}]", "#[br[big]]", "#[br[]]", "#[br(big little)]" if "big" in sup else "#[br(pre_assert)]", "#[br((big))]", "#[br({})]",
                  "#[br(big;)]", "#[br(; )]", "#[br(..)]", "#[br(=)]", "#[br(= 3)]", "#[br(())]"])
    return "attribute " + f, [f], f in ("#[br]", "#[binread]")


def inject(r, d):
    """A faulty copy: faults on one to four elements, or one fault of the whole."""
    d = d.copy()
    els = [e for e in d.top.walk() if e.kind in SUPPORTS]
    k = r.random()
    if k < .08 and d.top.kind == "uenum":
        # the whole enum
        w = r.choice(["bare", "repr+magic", "kinds"])
        for e in d.top.kids:
            e.attrs = []
        if w == "bare":
            d.top.attrs = []
            d.top.call_site = True
        elif w == "repr+magic":
            d.top.attrs = ["#[br(repr = u8)]"]
            e = r.choice(d.top.kids)
            e.attrs = ["#[br(magic = 1u8)]"]
            d.top.fault = w
        else:
            while len(d.top.kids) < 2:
                d.top.kids.append(El("vunit", ["Zz,"]))
            d.top.attrs = []
            a, b = r.sample(["1u8", "1u16", "1i8", "b\"ab\"", "b\"abc\"", "'c'", "1.5f32", "1.5f64", "7"], 2)
            i, j = sorted(r.sample(range(len(d.top.kids)), 2))
            d.top.kids[i].attrs = ["#[br(magic = %s)]" % a]
            d.top.kids[j].attrs = ["#[br(magic = %s)]" % b]
        d.top.fault = w
        d.top.stage = "whole"
        return d
    if k < .03:
        w = r.choice(["union", "empty enum"])
        n = r.choice(["Foo", "R", "r#type"])
        if w == "union":
            d.top = El("union", ["union %s { a: u8, b: u32 }" % n] if r.random() < .5 else ["pub union %s {" % n, "#[br(big)] a: u8,", "b: u32 }"])
        else:
            d.top = El("denum", ["enum %s {}" % n])
            d.top.attrs = r.choice([[], ["#[br(big)]"], ["#[br(repr = u8)]"], ["#[br(return_all_errors)]"]])
        d.items = []
        d.top.fault = w
        d.top.stage = "whole"
        d.macro = "derive"
        return d
    if k < .12:
        wrongly_typed(r, d)
        if d.top.stage == "type":
            return d
    n = min(len(els), r.choice([1, 1, 2, 2, 3, 4, 6]))
    for e in r.sample(els, n):
        name, a, cs = element_fault(r, e)
        e.fault, e.call_site = name, cs
        if r.random() < .7:
            e.attrs = [x for x in e.attrs if r.random() < .5]
        if r.random() < .35:
            # several, all to be reported
            k = r.randint(2, 4)
            got = []
            for _ in range(40):
                name, a, cs = element_fault(r, e)
                if len(a) == 1 and not cs and name.split(" ")[0] in ("unknown", "misplaced", "malformed", "attribute") and a[0] not in e.attrs and "\n" not in a[0]:
                    got.append((name, a[0]))
                    if len(got) == k:
                        break
            e.fault, e.call_site = "several: " + "; ".join(x[0] for x in got), False
            e.each = [x[1] for x in got]
            a = e.each
        for x in a:
            e.attrs.insert(r.randint(0, len(e.attrs)), x)
    return d


def wrongly_typed(r, d):
    """A directive whose value has the wrong type or names nothing, alone in a simple definition"""
    faults = {
        "assert not bool": "#[br(assert(5))] a: u8", "assert string": "#[br(assert(\"x\"))] a: u8", "if not bool": "#[br(if(5))] a: u8",
        "if alternate": "#[br(if(true, \"x\"))] a: u8", "map not a function": "#[br(map = 5)] a: u8", "map result": "#[br(map = |x: u8| \"x\")] a: u8",
        "try_map not a result": "#[br(try_map = |x: u8| x)] a: u8", "parse_with not a function": "#[br(parse_with = 5)] a: u8", "parse_with result": "#[br(parse_with = parse_u16)] a: u8",
        "count string": "#[br(count = \"5\")] a: ::std::vec::Vec<u8>", "offset string": "#[br(offset = \"5\")] a: FilePtr32<u8>", "offset_after bool": "#[br(offset_after = true)] a: FilePtr32<u8>",
        "pad string": "#[br(pad_before = \"5\")] a: u8", "align string": "#[br(align_before = \"5\")] a: u8", "seek number": "#[br(seek_before = 5)] a: u8",
        "pad_size_to string": "#[br(pad_size_to = \"5\")] a: u8", "is_big number": "#[br(is_big = 5)] a: u16", "calc type": "#[br(calc = \"5\")] a: u8", "unknown variable": "#[br(count = nothing)] a: ::std::vec::Vec<u8>",
        "later field": "#[br(calc = b)] a: u8, b: u8", "missing arguments": "a: Two", "too few arguments": "#[br(args(1))] a: Two", "too many arguments": "#[br(args(1, 2, 3))] a: Two",
        "argument type": "#[br(args(\"x\", 2))] a: Two", "arguments for none": "#[br(args(1))] a: u8", "args_tuple type": "#[br(args_tuple = 1)] a: Tup", "not readable": "a: ::std::string::String",
        "not readable inside": "#[br(count = 1)] a: ::std::vec::Vec<::std::string::String>", "try not an option": "#[br(try)] a: u8", "temp in a derive": "#[br(temp)] a: u8",
        "default without Default": "#[br(default)] a: One", "if without Default": "#[br(if(true), args(1))] a: One", "map argument": "#[br(map = |x: ::std::string::String| 3u8)] a: u8",
        "two fields": "#[br(assert(a == b, \"{}\", c))] a: u8, b: u8",
    }
    name = r.choice(sorted(faults))
    if d.top.kind in ("struct", "denum") and not d.items:
        tops = {
            "type assert": "#[br(assert(5))]", "type pre_assert": "#[br(pre_assert(\"x\"))]", "type pre_assert of a field": "#[br(pre_assert(a == 1))]", "type assert unknown": "#[br(assert(nothing == 1))]",
            "type map": "#[br(map = 5)]", "type map result": "#[br(map = |x: u8| x)]", "type import": "#[br(import(x: Nothing))]",
        }
        el = El("struct", ["struct Foo {", "    %s," % faults[name], "}"])
        if r.random() < .2:
            name = r.choice(sorted(tops))
            el = El("struct", ["struct Foo {", "    a: u8,", "}"])
            el.attrs = [tops[name]]
        elif r.random() < .3:
            el = El("denum", ["enum Foo {", "    X { %s }," % faults[name], "    Y(u8),", "}"])
        d.top = el
        d.macro = "derive"
        el.fault, el.stage, el.call_site = name, "type", True


TOKENS = (ALL + ["=", "=", "=", ",", ",", ",", "(", "(", "[", "{", ":", "::", "1", "0u8", "\"s\"", "b\"x\"", "'c'", "true", "|x: u8| x", "a", "u8", "self", "Self", "&", "*", "!", "#", "?", "..", "=>", "->", ";",
                 "fn", "if", "match", "struct", "let", "1.5", "b'x'", "-", "r#type", "'a", "<", ">", "_", "$x", "@", "mut", "async", "dyn", "r\"raw\"", "u8: u8", "\"{}\"", "1u9", "0xffu128", "1_000", "1e400f64"])


def garbage(r, d):
    d = d.copy()
    els = [e for e in d.top.walk() if e.kind in SUPPORTS]

    def toks(n, depth):
        out = []
        for _ in range(n):
            t = r.choice(TOKENS)
            if t in "([{":
                out.append(t + (toks(r.randint(0, 4), depth + 1) if depth < 3 else "") + {"(": ")", "[": "]", "{": "}"}[t])
            else:
                out.append(t)
        return " ".join(out)

    for e in r.sample(els, min(len(els), r.randint(1, 2))):
        e.fault = "garbage"
        if r.random() < .5 and e.attrs:
            # change an attribute that is there
            i = r.randrange(len(e.attrs))
            a = e.attrs[i]
            m = re.fullmatch(r"#\[(br|binread)\((.*)\)\]", a, re.S)
            if m:
                parts = re.findall(r"\w+|\"(?:[^\"\\]|\\.)*\"|[^\w\s]", m.group(2))
                flat = [p for p in parts]
                for _ in range(r.randint(1, 3)):
                    if not flat:
                        break
                    j = r.randrange(len(flat))
                    if flat[j] in "()[]{}'\\" or "'" in flat[j]:
                        continue
                    k = r.random()
                    if k < .4:
                        del flat[j]
                    elif k < .7:
                        flat.insert(j, r.choice([t for t in TOKENS if t not in "([{"]))
                    else:
                        flat[j] = r.choice([t for t in TOKENS if t not in "([{"])
                if "'" not in m.group(2) and "\\" not in m.group(2):
                    e.attrs[i] = "#[br(%s)]" % " ".join(flat)
                continue
        e.attrs.insert(r.randint(0, len(e.attrs)), "#[br(%s)]" % toks(r.randint(0, 8), 0) if r.random() < .9 else "#[br %s]" % r.choice(["[%s]", "{%s}", "= %s"]) % (toks(3, 1) or "1"))
    return d


# ------------------------------------------------------------------ compiling

class Compiler:
    def __init__(self, feat):
        self.libs = Libs(feat)
        self.dir = fresh(os.path.join(BUILD, "w", "derive-%s-%d" % (feat, os.getpid())))
        self.runs = 0

    def close(self):
        subprocess.run(["rm", "-rf", self.dir])

    def rustc(self, text, tag):
        src = os.path.join(self.dir, tag + ".rs")
        with open(src, "w") as f:
            f.write(text)
        l = self.libs
        self.runs += 1
        try:
            p = subprocess.run(["rustc", "--edition", "2018", "--crate-type", "lib", "--crate-name", "derive_" + tag, "--emit", "metadata=" + src + ".rmeta", "--error-format=json", "--cap-lints", "allow",
                                "--extern", "binread=" + l.binread, "-L", "dependency=" + l.deps, "-C", "debuginfo=0", src],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env(), errors="replace", timeout=300, cwd=self.dir)
        except subprocess.TimeoutExpired:
            return None, "no answer within 300 s"
        errs = []
        for line in p.stderr.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if not m.get("level", "").startswith("error"):
                continue
            lines = []
            for s in m.get("spans", []):
                if not s["is_primary"]:
                    continue
                while s:
                    if s["file_name"] == src:
                        lines.append((s["line_start"], s["line_end"]))
                    s = (s.get("expansion") or {}).get("span")
            if not lines and (m["message"].startswith("aborting") or m["message"].startswith("could not compile")):
                continue
            errs.append((m["message"], lines, m.get("rendered") or m["message"]))
        return p.returncode, errs if p.returncode in (0, 1) else p.stderr[-3000:]


def assemble(defs):
    lines = ["extern crate alloc as alloc_;" if False else "#![allow(warnings)]"] + SUPPORT.strip("\n").split("\n")
    marks = []
    for i, d in enumerate(defs):
        text, ranges, dl, span = d.render("m%d" % i, len(lines) + 1)
        lines += text
        marks.append((ranges, dl, span))
    return "\n".join(lines) + "\n", marks


def judge(what, d, mark, errs):
    """None, or what is wrong. errs: the errors in this definition."""
    ranges, dl, span = mark
    for msg, _, rend in errs:
        if "panicked" in msg:
            return "the macro panicked:\n" + rend
    if what == "valid":
        if errs:
            return "a valid definition is rejected:\n" + "\n".join(e[2] for e in errs[:3])
        return None
    if what == "garbage":
        return None
    hit = lambda lo, hi: any(a <= hi and b >= lo for _, ls, _ in errs for a, b in ls)
    for e, lo, hi, each in ranges:
        if not e.fault:
            continue
        if e.stage:
            if not hit(*span) and not hit(dl, dl):
                return "`%s` is not reported" % e.fault
        elif not hit(lo, hi) and not (e.call_site and hit(dl, dl)):
            return "`%s` on the element in lines %d to %d is not reported there" % (e.fault, lo, hi)
        for at, a in each:
            if not hit(at, at):
                return "the faulty attribute `%s` is not reported" % a
    return None


def compile_batch(c, what, defs, tag):
    """[(def, complaint)]"""
    text, marks = assemble(defs)
    rc, errs = c.rustc(text, tag)
    if isinstance(errs, str):
        if len(defs) == 1:
            if what != "garbage":
                return [(defs[0], "the compiler fell over (%s):\n%s" % (rc, errs))]
            return []
        h = len(defs) // 2
        return compile_batch(c, what, defs[:h], tag) + compile_batch(c, what, defs[h:], tag)
    mine = [[] for _ in defs]
    stray = []
    for e in errs:
        who = [i for i, m in enumerate(marks) if any(a <= m[2][1] and b >= m[2][0] for a, b in e[1])]
        if not who:
            stray.append(e)
        for i in who:
            mine[i].append(e)
    if stray:
        if len(defs) == 1:
            return [(defs[0], "an error does not point into the definition:\n" + stray[0][2])]
        h = len(defs) // 2
        return compile_batch(c, what, defs[:h], tag) + compile_batch(c, what, defs[h:], tag)
    out = []
    for d, m, e in zip(defs, marks, mine):
        w = judge(what, d, m, e)
        if w:
            out.append((d, w))
    return out


def same_kind(a, b):
    norm = lambda w: [re.sub("`[^`]*`", "", l) for l in w.split("\n")[:2]]
    return b is not None and norm(a)[:2 if a.startswith("a valid") else 1] == norm(b)[:2 if a.startswith("a valid") else 1]


def shrink(c, what, d, why, budget=70):
    """Smaller definitions that fail in the same way"""
    def test(x):
        r = compile_batch(c, what, [x], "shrink")
        return r[0][1] if r and same_kind(why, r[0][1]) else None

    changed = True
    while changed and budget > 0:
        changed = False
        cands = []
        for i, e in enumerate(d.top.walk()):
            for j in range(len(e.kids)):
                cands.append(("kid", i, j))
            for j in range(len(e.attrs)):
                cands.append(("attr", i, j))
            if e.fault and sum(1 for x in d.top.walk() if x.fault) > 1:
                cands.append(("fault", i, 0))
        for how, i, j in cands:
            if budget <= 0:
                break
            x = d.copy()
            e = list(x.top.walk())[i]
            if how == "kid":
                if j >= len(e.kids):
                    continue
                del e.kids[j]
            elif how == "attr":
                if j >= len(e.attrs) or what == "faulty" and e.fault and len(e.each) < 2:
                    continue
                e.each = [a for a in e.each if a != e.attrs[j]]
                del e.attrs[j]
            else:
                e.attrs, e.fault, e.each = [], None, []
            if what == "faulty" and not x.faulty():
                continue
            budget -= 1
            w = test(x)
            if w:
                d, why = x, w
                changed = True
                break
    return d, why


def chunk(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def check(run, part):
    c = Compiler(part["feat"])
    quick = run.quick
    n = {k: v[0 if quick else 1] for k, v in part["n"].items()}
    seed = run.seed * 7919 + part.get("salt", 0)
    try:
        for what in ("valid", "faulty", "typed", "garbage"):
            total, samples, kinds, seen, npos = 0, [], {}, set(), 0
            rounds = chunk(range(n[what]), 6400)
            for rnd in rounds:
                defs = []
                for i in rnd:
                    r = random.Random("%d/%s/%d" % (seed, what, i))
                    d = Gen(r).make()
                    if what == "faulty":
                        for _ in range(20):
                            x = inject(r, d)
                            if x.top.stage != "type":
                                break
                        d = x
                    elif what == "typed":
                        x = d
                        while x.top.stage != "type":
                            x = Gen(r).make()
                            wrongly_typed(r, x)
                        d = x
                    elif what == "garbage":
                        d = garbage(r, d)
                    defs.append(d)
                mode = "faulty" if what == "typed" else what
                # wrongly typed ones alone: errors of one phase hide those of the next
                size = {"valid": 40, "faulty": 40, "typed": 1, "garbage": 20}[what]
                jobs = chunk(defs, size)
                with cf.ThreadPoolExecutor(NCPU) as ex:
                    res = list(ex.map(lambda ij: compile_batch(c, mode, ij[1], "%s%d" % (what[0], ij[0])), enumerate(jobs)))
                # alone: errors in one definition may hide others
                bad = []
                for d, _ in [x for y in res for x in y][:40]:
                    alone = compile_batch(c, mode, [d], "alone")
                    if alone:
                        bad.append(alone[0])
                for d in defs:
                    total += 1
                    f = [e.fault for e in d.top.walk() if e.fault]
                    key = "\n".join(d.render("m", 1)[0])
                    nt = len(f) > 0 if what != "valid" else "br(" in key or "binread(" in key
                    if nt and key not in seen:
                        seen.add(key)
                    for x in f:
                        w = x.split(" ")[0] if what == "faulty" and not d.top.stage else ("whole: " if what == "faulty" else "") + x
                        kinds[w] = kinds.get(w, 0) + 1
                    if len(samples) < 2:
                        samples.append({"what": what, "definition": key, "faults": f})
                if bad:
                    bad.sort(key=lambda x: len(x[0].render("m", 1)[0]))
                    d, why = shrink(c, mode, bad[0][0], bad[0][1])
                    text, marks = assemble([d])
                    rng = [(e.fault, lo, hi, bool(e.stage), e.call_site, each) for e, lo, hi, each in marks[0][0] if e.fault]
                    body = "\n".join(d.render("m0", 1)[0])
                    run.violation({"kind": "derive", "feat": part["feat"], "what": mode, "source": text, "faults": rng, "derive_line": marks[0][1], "span": marks[0][2], "failing_definitions": len(bad)},
                                  "features %s; a definition (%s):\n%s\n%s" % (part["feat"], what, body, why))
                    break
            run.part("definitions/%s/%s" % (what, part["feat"]), total, len(seen), samples, features=part["feat"], faults=kinds, compilations=c.runs)
            if run.violations:
                return
    finally:
        c.close()


class Mark:
    def __init__(self, f):
        self.fault, self.stage, self.call_site = f[0], f[3], f[4]


def replay(o):
    c = Compiler(o["feat"])
    try:
        rc, errs = c.rustc(o["source"], "replay")
        print("\n".join("%4d %s" % (i + 1, l) for i, l in enumerate(o["source"].split("\n")) if i + 1 >= o["span"][0] - 3))
        if isinstance(errs, str):
            print(errs)
            return o["what"] != "garbage"
        for e in errs:
            print(e[2])
        lo, hi = o["span"]
        stray = [e for e in errs if not any(a <= hi and b >= lo for a, b in e[1])]
        if stray:
            return True
        w = judge(o["what"], None, ([(Mark(f), f[1], f[2], f[5]) for f in o["faults"]], o["derive_line"], (lo, hi)), errs)
        print(w or "as expected")
        return w is not None
    finally:
        c.close()
