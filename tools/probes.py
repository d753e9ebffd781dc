"""One probe for each finding that is not repaired: does it still fail as recorded?"""
import os
import subprocess

from bxlib import BUILD, CheckError, Libs, env, fresh


def runs(src):
    """The output of a program, or None if it does not compile"""
    libs = Libs("std")
    d = fresh(os.path.join(BUILD, "w", "probe-%d" % os.getpid()))
    try:
        f = os.path.join(d, "probe.rs")
        open(f, "w").write(src)
        p = subprocess.run(libs.rustc(f, os.path.join(d, "probe")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env())
        if p.returncode != 0:
            return None
        p = subprocess.run([os.path.join(d, "probe")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
        return p.stdout
    finally:
        subprocess.run(["rm", "-rf", d])


HEAD = "use binread::{BinRead, io::Cursor};\n"


def enum_assert_unit_variant():
    return runs(HEAD + """
#[derive(BinRead, Debug)] #[br(assert(false))]
enum E { #[br(magic = 1u8)] A(u8), B }
fn main() { println!("{:?}", E::read(&mut Cursor::new([0u8])).is_ok()); }
""") == "true\n"


def variant_map_ignored():
    return runs(HEAD + """
#[derive(BinRead, Debug, PartialEq)]
enum E { #[br(map = |_: u32| E::A(9))] A(u8) }
fn main() { println!("{:?}", E::read(&mut Cursor::new([1u8])).map_err(drop)); }
""") == "Ok(A(1))\n"


def variant_import_ignored():
    return runs(HEAD + """
#[derive(BinRead, Debug, PartialEq)]
enum E { #[br(import(x: u8))] A(u8) }
fn main() { println!("{:?}", E::read(&mut Cursor::new([1u8])).map_err(drop)); }
""") == "Ok(A(1))\n"


PROBES = {f.__name__: f for f in (enum_assert_unit_variant, variant_map_ignored, variant_import_ignored)}
