"""What each check runs, and what it counts."""
import derive_check
import differential
import probes


def prog(feat, programs, cases, **more):
    return dict(kind="programs", feat=feat, programs=programs, cases=cases, **more)


def static(feat, n, **more):
    return dict(kind="static", feat=feat, n=n, bin="bxstatic", **more)


GEN = ("Each case is a generated definition (derive input drawn from a grammar of the directives, biased to this property) "
       "compiled against the library, and an input made up while interpreting the definition, then damaged or not; "
       "value or error, and final position, must equal those of an interpreter of the documentation. ")
TRUST = ["rustc and the host are trusted", "the interpreter in harness/bx/src/model.rs states the documented behaviour"]


def plan(rule, *parts, **more):
    return dict(rule=rule, parts=list(parts), assumptions=more.pop("assumptions", TRUST), **more)


def both(programs, cases, **more):
    """std, and half as many with all features (arrays of any type)"""
    return [prog("std", programs, cases, **more), prog("all", (programs[0] // 2, programs[1] // 2), cases, salt=1, plus=True, **more)]


STATIC = ("Each case draws a type, entry point, position, byte order and history of reads; values, errors and positions must equal those of a direct "
          "computation on the bytes. ")
Q = (2000, 12000)
C = (700, 3000)

PLANS = {
    "C01": plan(STATIC + "Non-trivial: a multi-byte scalar was read, or one was cut short.", static("std", (400000, 6000000)),
                static("all", (150000, 2000000), salt=1), static("nostd", (200000, 3000000), salt=2)),
    "C02": plan(GEN + "Non-trivial: a multi-byte value was read in a byte order other than the caller's.", prog("std", Q, C)),
    "C03": plan(GEN + "Non-trivial: a tuple, array, list or multi-byte value was read.", *both(Q, C)),
    "C04": plan(GEN + "Every input is also cut at every length, and read again after each failure. Non-trivial: the read failed after the reader had moved.",
                static("std", (100000, 1000000)), static("nostd", (50000, 500000), salt=2), prog("std", Q, (120, 500), need=["reread_after_failure"]),
                prog("nostd", (700, 4000), (120, 500), salt=4)),
    "C05": plan(GEN + "Non-trivial: a magic value was compared.", prog("std", Q, C)),
    "C06": plan(GEN + "Non-trivial: an assertion was evaluated.", static("std", (20000, 100000)), prog("std", Q, C)),
    "C07": plan(GEN + "Non-trivial: a variant other than the first was returned, or none.", prog("std", Q, C)),
    "C08": plan(GEN + "Non-trivial: an enum of unit variants was read, from a known or unknown value.", prog("std", Q, C)),
    "C09": plan(GEN + "Non-trivial: the reader was moved by a directive.", prog("std", Q, C)),
    "C10": plan(GEN + "Non-trivial: a field was skipped, computed or temporary.", prog("std", Q, C, need=["alternate_ptr"])),
    "C11": plan(GEN + "Non-trivial: a `try` field was read.", prog("std", Q, C, need=["try_none", "try_some"])),
    "C12": plan(GEN + "Non-trivial: a map ran.", prog("std", Q, C, need=["map_err"]),
                prog("nostd", (700, 4000), C, salt=4)),
    "C13": plan(GEN + "Non-trivial: arguments were passed, or options observed by a custom parser.", static("std", (60000, 400000)), prog("std", Q, C)),
    "C14": plan(GEN + "Non-trivial: a pointer was followed, or its target failed.", static("std", (30000, 300000)), *both(Q, C),
                prog("nostd", (700, 4000), C, salt=4)),
    "C15": plan(GEN + "Non-trivial: a list with elements was read.", static("std", (16000, 200000)), *both(Q, C)),
    "C16": plan(GEN + "Non-trivial: a punctuated list of at least two elements was read.", static("std", (16000, 200000)), prog("std", Q, C)),
    "C17": plan(STATIC + GEN + "Non-trivial: a string of at least one unit was read, or a terminator was missing; text that is not ASCII was converted.",
                static("std", (150000, 1500000)), static("nostd", (100000, 1000000), salt=2), prog("std", (1000, 6000), C),
                prog("nostd", (700, 4000), C, salt=4)),
    "C18": plan(GEN + "Counts, offsets and paddings come from the input; inputs are hostile. The read must not panic, must stay within a number of reader "
                "operations and an amount of memory proportional to the model's work, and fail as the model does. Non-trivial: every case.", static("std", (16000, 200000)), *both(Q, C),
                prog("nostd", (700, 4000), C, salt=4)),
    "C19": plan(GEN + "The same input is then delivered in pieces and with interruptions. Non-trivial: a read was split or interrupted, or a multi-byte value, string or list was read.",
                static("std", (16000, 200000)), prog("std", Q, (200, 800), need=["interruptions", "split_reads"]),
                prog("nostd", (1000, 6000), (200, 800), salt=4, need=["interruptions", "split_reads"])),
    "C20": plan(GEN + "Then an error is injected at bytes and at operations of the run; it must surface, and be the error reported unless something recovers from errors. "
                "Non-trivial: the injected error was reached.", prog("std", Q, (40, 160), need=["byte_faults", "operation_faults"]),
                prog("nostd", (1000, 6000), (40, 160), salt=4, need=["byte_faults", "operation_faults"]), level="fault_enumeration"),
    "C21": plan("Each case is a generated definition and input, read in several builds of the library: with std, with std, const_generics and "
                "debug_template, and without std; others with and without debug_template alone, and (with arrays of any type) with const_generics alone. Value or error, and final position, must be the same. Non-trivial: every case.",
                dict(kind="diff", run=differential.check, feats=["std", "all", "nostd"], programs=(1200, 6000), cases=(500, 2000)),
                dict(kind="diff", run=differential.check, feats=["std", "tpl"], programs=(400, 2000), cases=(300, 1000), salt=1),
                dict(kind="diff", run=differential.check, feats=["all", "cg"], profile="C21+", programs=(400, 2000), cases=(300, 1000), salt=2),
                technique="property-based differential testing of generated definitions across feature sets, with shrinking"),
    "C24": plan("Each case is a generated definition given to the compiler: a valid one (documented directives in documented places; names, raw identifiers, visibilities, generics, where "
                "clauses, other attributes, both macros), which must compile; one with one to six faulty elements (unknown, misplaced, conflicting, repeated, malformed directives; "
                "unsupported items), each of which must have an error in its lines; one with a wrongly typed directive, which must be rejected; or one with random tokens in "
                "its attributes, on which the macro must not panic or report errors elsewhere. Non-trivial: it has directives, or a fault.",
                dict(kind="derive", run=derive_check.check, feat="std", n=dict(valid=(10000, 120000), faulty=(20000, 300000), typed=(800, 6000), garbage=(10000, 150000))),
                dict(kind="derive", run=derive_check.check, feat="all", salt=1, n=dict(valid=(3000, 30000), faulty=(3000, 60000), typed=(100, 1000), garbage=(2000, 30000))),
                technique="grammar-based fuzzing of the derive macro with valid and fault-injected definitions, with shrinking",
                assumptions=["rustc reports every error of a crate's macro expansions", "the Supports column of the list of directives in binread/src/attribute.rs is the specification"]),
    "C25": plan("Each case is a generated definition written in five spellings (attribute names, value forms, attribute splitting and order, aliases, commas, "
                "derive or attribute macro) and an input. Value or error, and final position, must be the same. Non-trivial: every case.",
                dict(kind="diff", run=differential.check, feats=["std"], styles=5, programs=(700, 3500), cases=(300, 1000)),
                technique="property-based metamorphic testing: respelled generated definitions must parse alike, with shrinking"),
    "C22": plan("Each case is a sequence of operations on a buffer or a scripted reader, done on the library's types built without std and on the standard library's; "
                "answers, buffers, positions and error kinds must be the same (where the standard library does not say where a failed read_exact leaves the reader, "
                "both are moved to the same place). Non-trivial: bytes were read or an operation failed.",
                static("nostd", (600000, 10000000)), assumptions=["the standard library is the reference"],
                technique="property-based differential testing of operation histories against std::io, with shrinking"),
    "C28": plan("Each case reads a container, array, tuple, derived type or helper of elements that count their constructions and drops, from bytes that make elements fail or panic "
                "before or after construction or in after_parse, from a reader that may fail or panic at an operation. Every live element must be one the value holds, every held "
                "element must be live, and after the drop none may be. Non-trivial: an element was constructed, and the read failed or gave two.",
                static("std", (300000, 6000000)), static("all", (300000, 6000000), salt=1), static("cg", (100000, 2000000), salt=2),
                assumptions=["the registry of elements in harness/bxrt/src/bin/bxstatic/life.rs"], level="fault_enumeration",
                technique="property-based testing with drop-counting elements and injected faults, with shrinking"),
    "C23": plan(GEN + "Non-trivial: every case; fields carry several directives.", prog("std", Q, C)),
    "C26": plan(GEN + "Then the definition is read again from the same reader, from data with bytes before the start, and from data with bytes after the end. "
                "Non-trivial: such a changed input was read.", prog("std", Q, (300, 1200), need=["shifted", "extended"]),
                prog("nostd", (700, 4000), (300, 1200), salt=4)),
    "C27": plan(GEN + "Non-trivial: a value behind Box, Option or PosValue was read.", static("std", (60000, 600000)), *both(Q, C)),
    "C29": plan(GEN + "The text written by the debug_template feature is parsed and compared, entry by entry, with the reads of the model. Non-trivial: it holds at least one entry. "
                "Histories of reads and changes of the output (in memory, a file, one named by the environment, none) must leave in each output the types, and the entries of the reads made while it was set; "
                "entries of reads in several threads must stay whole.",
                static("all", (6000, 100000)), prog("all", Q, (200, 1000), need=["template_entries"], plus=True),
                prog("tpl", (800, 5000), (200, 1000), need=["template_entries"], salt=3)),
    "C31": plan(GEN + "Then it is read again with other reads (of other input of the same definition, and of a fixed type, each with its own expected outcome) done within it, at chosen operations of "
                "its reader; after a read that was made to fail or panic; and in four threads at once. Non-trivial: another read was done within, before or beside it.",
                prog("std", Q, (120, 500), need=["nested_reads", "reads_after_failures", "threads"]),
                prog("all", (1000, 6000), (120, 500), salt=1, plus=True, need=["nested_reads", "reads_after_failures", "threads"])),
    "C30": plan("Each case reads a wrapper of a value made from bytes, or makes a read fail, and compares what the wrapper or error gives access to, its comparisons and its texts "
                "with the values computed from the bytes. Non-trivial: a wrapper was read, an error came up, or an error was converted.",
                static("std", (300000, 3000000)), static("all", (100000, 1000000), salt=1), static("nostd", (100000, 1000000), salt=2)),
}

PROBES = probes.PROBES


def replay(o):
    if o["kind"] in ("diff", "diff-compile"):
        return differential.replay(o)
    if o["kind"] == "derive":
        return derive_check.replay(o)
    raise SystemExit("unknown kind of replay: %s" % o["kind"])

TECHNIQUE = "property-based testing: generated definitions and inputs against a reference interpreter, with shrinking"
NOTE = ("Exploration: a fixed number of generated definitions and inputs per seed; no absence proof. Trusts rustc, the generator's "
        "domain (only documented constructs) and the interpreter in harness/bx/src/model.rs.")
NOT_APPLICABLE = {}
