"""Which analyses decide which property."""
import concurrent.futures
import json
import os
import subprocess


class Result:
    def __init__(self):
        self.violations = []
        self.coverage = {}
        self.assumptions = []
        self.inconclusive = []
        self.missing = []
        self.summary = ""


# The subject crate's feature that each target needs.
FEATURE = {
    "classifier": "classifier",
    "parser": "parser",
    "chunk-streams": "streams",
    "char-streams": "streams",
    "string-streams": "streams",
    "text-streams": "streams",
    "slots": "supply",
    "bindings": "supply",
    "collect": "collect",
    "texts": "texts",
    "text-pairs": "texts",
    "datums": "datums",
    "refs": "datums",
    "drops": "datums",
}

PARSER = ("Abstract interpretation of the parser's MIR, instantiated with an abstract source "
          "stream, classifier, text, allocator and bindings, from every reachable state of its "
          "iterator; each loop and recursion is run to a fixpoint. A character-driven "
          "specification of the grammar runs alongside and states an obligation at each call of "
          "the bindings, of a combiner and at each return. ")

# What all parser-based properties need to have been exercised.
PARSER_FLOOR = {
    "class start": 1, "class end": 1, "class escape": 1, "class whitespace": 1, "class other": 1,
    "head bound as app": 1, "head bound as opv": 1, "head bound as unb": 1,
    "returns end": 1, "returns form": 1,
}

LATER = "later step"

STREAMS = ("Abstract interpretation of the MIR of every source stream (over string slices, over "
           "the six kinds of shared strings, over iterators of characters, over iterators of "
           "shared strings, and over the chunks of a text), driven by a most general client that "
           "peeks, advances plainly or accumulating and finishes accumulations in any order, "
           "over sources of any length, from every reachable state. ")

STREAM_FLOOR = {f"{op} {w}": 1 for op in ("peek", "next", "next_accum") for w in ("item", "end")}
ACCUM_FLOOR = {"accumulated": 1, "accumulated nothing": 1}
PIECES_FLOOR = {"accumulated over pieces": 1, "empty piece": 1,
                "peek item of a later piece": 1, "next item of a later piece": 1,
                "next_accum item of a later piece": 1}
STREAM_EACH = {
    "chunk-streams": STREAM_FLOOR, "char-streams": STREAM_FLOOR,
    "string-streams": {**STREAM_FLOOR, **PIECES_FLOOR},
    "text-streams": {**STREAM_FLOOR, **PIECES_FLOOR},
}
# The number of stream types per target.
STREAM_KINDS = {"chunk-streams": 7, "char-streams": 6, "string-streams": 6, "text-streams": 1}

SLOTS = ("Abstract interpretation of the slice allocator's MIR over a slice of any length, driven "
         "by a most general client that allocates or asks for the remainder in any order; the "
         "slots given out are a ghost set of index intervals. ")
BINDINGS = ("Abstract interpretation of the MIR of each kind of operator bindings, over pair lists of "
            "any length with unknown keys; what a comparison tells about a key is recorded. Maps "
            "are asked through the standard library's interface. ")
COLLECT = ("Abstract interpretation of the MIR of the parse-everything functions, with a parse "
           "iterator that returns any number of datums and then ends or fails. ")

DATUMS = ("Abstract interpretation of the operations on datums and references to them, for datums "
          "of any shape: each is any variant when it is looked at, with leaves of which nothing is "
          "known; equality of sub-datums is assumed right for them, by induction over the size. ")
DROPS = ("Abstract interpretation of dropping references to datums of any shape: each datum is any "
         "variant when it is looked at, each counted node has any numbers of strong and weak "
         "references, both branches may be the same datum, and sub-trees that are out of sight are "
         "any again. ")
TEXTS = ("Abstract interpretation of the MIR of both text types over texts of any number of chunks "
         "with any number of characters each; a text is what concatenating, making from a chunk "
         "and making empty can give, and which of its chunks can be empty is decided first. ")
TEXT_KINDS = {"texts": 20, "text-pairs": 30}

# Per property: the targets with the rules that count for it (None: all; a pair
# (rule, phase) counts in that phase only), and what has to be reached at least
# (rule or reach label -> number).
ENGINE = {
    "C01": {
        "targets": {"parser": ["characters", "operative-text", "text-complete",
                               "one-form-per-step", "end-of-source", "result-returned",
                               "call-after-end", "nest-complete"]},
        "floor": {**PARSER_FLOOR, "characters": 100, "operative-text": 10},
        "explain": PARSER + "Every form handed on or returned has to hold exactly the "
                   "characters that the grammar assigns to it, in order.",
    },
    "C02": {
        "targets": {"parser": ["unbalanced-end", "missing-end", "nest-complete", "end-of-source",
                               "result-tree", "applicative-operands", "one-form-per-step",
                               "result-returned", "text-complete", "operative-text",
                               "call-after-end", "lookup-head", "no-spurious-error",
                               "combiner-called"]},
        "floor": {**PARSER_FLOOR, "returns failure unbalanced": 1, "returns failure missing": 1,
                  "unbalanced-end": 2, "missing-end": 2},
        "explain": PARSER + "Nests have to match the balanced delimiters and the delimiter "
                   "errors have to be exact.",
    },
    "C03": {
        "targets": {"parser": ["lookup-head", "lookup-once", "call-after-end", "call-bound",
                               "call-head", "operative-text", "applicative-operands",
                               "combiner-called", "result-tree", "result-returned",
                               "nest-complete"]},
        "floor": {**PARSER_FLOOR, "combiner result": 1, "combiner removes": 1,
                  "lookup-head": 10, "call-head": 10},
        "explain": PARSER + "Lookups and combiner calls have to be those of the grammar, with "
                   "its heads and operands, and the tree has to be the specified one.",
    },
    "C04": {
        "targets": {"parser": ["failure-reported", "stop-after-failure", "no-spurious-error"],
                    **{t: ["failure-reported", "no-spurious-error"]
                       for t in ("string-streams", "text-streams")}},
        "kinds": {t: STREAM_KINDS[t] for t in ("string-streams", "text-streams")},
        "each": {t: STREAM_EACH[t] for t in ("string-streams", "text-streams")},
        "floor": {**PARSER_FLOOR, "failing accumulation": 1, "failing allocation": 1,
                  "failing concatenation": 1, "failing end of accumulation": 1,
                  "failing mutable access": 1, "combiner fails": 1, "failure-reported": 10,
                  "returns failure alloc": 1, "returns failure comb": 1,
                  "returns failure mutfail": 1},
        "explain": PARSER + "Every fallible operation fails on some path, at every place where "
                   "it occurs, and the step has to stop and to return that failure. The streams "
                   "that concatenate while accumulating have to report a failure of it too.",
    },
    "C05": {
        "targets": {"parser": ["stop-after-failure", "one-form-per-step", "end-of-source",
                               "text-complete", "result-returned"] + [
            (r, LATER) for r in (
                "characters", "operative-text", "unbalanced-end", "missing-end", "nest-complete",
                "result-tree", "applicative-operands", "call-after-end", "lookup-head",
                "lookup-once", "call-bound", "call-head", "combiner-called", "failure-reported",
                "no-spurious-error", "no-panic")]},
        "floor": {**PARSER_FLOOR, "returns failure missing": 1, "returns failure unbalanced": 1,
                  "returns failure comb": 1},
        "explain": PARSER + "The states left behind by every kind of result are where further "
                   "steps start from, until no new state appears.",
    },
    "C06": {
        "targets": {t: ["stream-items", "stream-end", "no-spurious-error", "failure-reported",
                        "empty", "no-panic"] for t in STREAM_KINDS},
        "kinds": STREAM_KINDS,
        "each": STREAM_EACH,
        "floor": {"stream-items": 1000, "stream-end": 1000},
        "explain": STREAMS + "Each item and each end has to be the one that the source has at "
                   "that place.",
    },
    "C07": {
        "targets": {t: ["accumulated", "failure-reported", "no-spurious-error", "no-panic"]
                    for t in STREAM_KINDS},
        "kinds": STREAM_KINDS,
        "each": {t: {**f, **ACCUM_FLOOR} for t, f in STREAM_EACH.items()},
        "floor": {"accumulated": 1000},
        "explain": STREAMS + "Each finished accumulation has to hold exactly the characters "
                   "passed by accumulating advances since the last finish or plain advance.",
    },
    "C08": {
        "targets": {t: ["item-position", "chunk-position", "no-panic"] for t in STREAM_KINDS},
        "kinds": STREAM_KINDS,
        "each": STREAM_EACH,
        "floor": {"item-position": 1000, "chunk-position": 1000, "stream over a part": 6,
                  "stream over a copy": 6},
        "explain": STREAMS + "Positions are linear expressions over the numbers of characters "
                   "and bytes passed, and have to be equal to the specified ones.",
    },
    "C09": {
        "targets": {t: ["zero-copy", "accumulated", "no-panic"]
                    for t in ("chunk-streams", "string-streams", "text-streams")},
        "kinds": {k: n for k, n in STREAM_KINDS.items() if k != "char-streams"},
        "each": {t: {**f, **ACCUM_FLOOR} for t, f in STREAM_EACH.items() if t != "char-streams"},
        "floor": {"zero-copy": 1000, "stream over a part": 6},
        "explain": STREAMS + "Each accumulated chunk has to refer to the source's own storage, "
                   "with the range of the accumulated characters; no copy of it may be made.",
    },
    "C10": {
        "targets": {"texts": ["content", "order", "no-spurious-error", "emptiness", "iteration",
                              "characters"],
                    "chunk-streams": ["empty"]},
        "kinds": {"texts": 20, "chunk-streams": 7},
        "floor": {"content": 20, "order": 20, "concatenated": 6, "empty part": 4, "made": 6,
                  "allocation fails": 1, "empty": 2, "not empty": 2, "emptiness": 4,
                  "visited": 4, "all visited": 2, "iteration": 6,
                  "shown": 4, "all shown": 2, "characters": 6},
        "explain": TEXTS + "The chunks of a concatenation have to be those of its parts, in order; "
                   "visiting the chunks has to give each of them once, in order; and a text or "
                   "chunk has to be empty exactly when it has no characters.",
    },
    "C11": {
        "targets": {"text-pairs": ["equality", "ordering", "no-panic"],
                    "texts": ["fed", "no-panic"]},
        "kinds": TEXT_KINDS,
        "floor": {"equality": 1000, "ordering": 1000, "equal": 100, "not equal": 100, "less": 100,
                  "greater": 100, "fed": 50, "hashed": 12},
        "explain": TEXTS + "For each pair of text types, the result of comparing has to be the one "
                   "for the character sequences, whatever the chunks' boundaries are; what is fed "
                   "to a hasher has to be a function of the character sequence alone.",
    },
    "C12": {
        "targets": {"texts": ["place", "prefix", "complete", "longest", "no-panic"]},
        "kinds": {"texts": 20},
        "floor": {"place": 40, "prefix": 40, "complete": 20, "longest": 20, "all fits": 20,
                  "not all fits": 20},
        "explain": TEXTS + "The encoder writes characters of 1 to 4 bytes into a buffer of any "
                   "size: each has to go to the end of what was written before, all that fit have "
                   "to be written, and the remainder has to be reported.",
    },
    "C13": {
        "targets": {"datums": ["equality", "stack", "progress", "no-panic"]},
        "kinds": {"datums": 17},
        "floor": {"equality": 10, "stack": 24, "recursion": 8, "equal": 4, "not equal": 4},
        "graph": True,
        "explain": DATUMS + "Datums of two different reference, text and extra types are compared, "
                   "and errors of two different position and payload types: what is told to be "
                   "equal must have had every part compared and found equal, what is told to "
                   "differ must have a part that does. A comparison of the rest of a list or of an "
                   "operator may not be a call.",
    },
    "C14": {
        "targets": {"datums": ["same-data", "as-datum", "no-panic"]},
        "kinds": {"datums": 17},
        "floor": {"same-data": 12, "as-datum": 20, "hashed": 10},
        "explain": DATUMS + "What the hasher is fed may consist of constants that follow from the "
                   "variants and of what the parts feed, never of addresses or counts, and has to "
                   "be the same on all paths that an equal datum could take. The four reference "
                   "types have to feed and compare exactly as the datum.",
    },
    "C15": {
        "targets": {"drops": ["no-recursion", "terminates", "freed", "progress", "no-panic"]},
        "kinds": {"drops": 4},
        "each": {"drops": {"no-recursion": 40, "taken": 20, "freed": 40}},
        "floor": {"same datum twice": 12, "shared": 100, "terminates": 1},
        "graph": True,
        "explain": DROPS + "A node that the reference dropped is the only one of must not be a "
                   "branch then; between two drops of references no node but one may be taken "
                   "over twice; nothing may be forgotten.",
    },
    "C16": {
        "targets": {"drops": ["respects-sharing", "weak-iterative", "no-panic"],
                    "refs": ["takes-exclusive", "takes-content", "replaced", "failed-unchanged",
                             "no-panic"]},
        "kinds": {"drops": 4, "refs": 25},
        "floor": {"respects-sharing": 100, "takes-exclusive": 9,
                  "failed-unchanged": 12, "replaced": 8, "shared": 100, "took": 8,
                  "did not take": 6, "taken despite weak references": 1},
        "explain": DROPS + "Only nodes without another strong reference may be taken over, weak "
                   "references or not; failing has to leave node, counts and given datum as they "
                   "were. For the atomically counted type this is also done with counts that "
                   "others may change between any two accesses.",
    },
    "C17": {
        "targets": {"refs": ["allocated", "refers", "exclusive", "unchanged", "no-panic"]},
        "kinds": {"refs": 25},
        "floor": {"allocated": 10, "refers": 10, "exclusive": 10, "unchanged": 14, "cloned": 2,
                  "mutable access": 4, "no mutable access": 6},
        "explain": DATUMS + "Allocating, dereferencing, mutable access and cloning are done for "
                   "every combination of one or more strong and none or more weak references; the "
                   "result has to refer to exactly the datum.",
    },
    "C18": {
        "targets": {"slots": ["slot", "distinct", "content", "other-slots", "all-slots", "unused",
                              "no-panic"]},
        "floor": {"allocated": 1, "exhausted": 1, "unused": 1, "slot": 2, "distinct": 1,
                  "content": 1, "all-slots": 1},
        "explain": SLOTS + "Each allocated slot has to lie in the slice, outside the set of those "
                   "given out, and hold the given datum; exhaustion needs that set to be the "
                   "whole slice; the remainder has to be its complement.",
    },
    "C19": {
        "targets": {"bindings": ["none-bound", "equal-key", "first-pair", "right-key",
                                 "no-panic"]},
        "kinds": {"bindings": 6},
        "each": {"bindings": {"not found": 1, "none-bound": 1}},
        "floor": {"compared": 20, "found": 20, "equal-key": 20, "first-pair": 20, "right-key": 2,
                  "asked": 2},
        "explain": BINDINGS + "The returned combiner has to be the one paired with the key that "
                   "compared equal, with all keys before it unequal; nothing may be returned only "
                   "after all keys compared unequal.",
    },
    "C20": {
        "targets": {"collect": ["after-error", "all-forms", "bindings", "parser-parts", "input",
                                "one-at-a-time", "results", "no-panic"]},
        "kinds": {"collect": 6},
        "each": {"collect": {"after-error": 1, "all-forms": 1, "results": 1, "input": 1}},
        "floor": {"end": 4, "error": 4, "form": 2, "nothing left": 2, "string": 2,
                  "strings end": 2},
        "explain": COLLECT + "The list, or the sequence of results, has to hold exactly what the "
                   "parse iterator returned, in order, up to the end or the first error, after "
                   "which nothing may be asked of it.",
    },
    "C21": {
        "targets": {"parser": ["no-panic"], "classifier": ["no-panic"], "slots": ["no-panic"],
                    "bindings": ["no-panic"], "collect": ["no-panic"], "datums": ["no-panic"],
                    "refs": ["no-panic"], "drops": ["no-panic"],
                    **{t: ["no-panic"] for t in (*STREAM_KINDS, *TEXT_KINDS)}},
        "kinds": {**STREAM_KINDS, **TEXT_KINDS, "bindings": 6, "collect": 6, "datums": 17,
                  "refs": 25, "drops": 4},
        "each": STREAM_EACH,
        "floor": {**PARSER_FLOOR, "allocated": 1, "exhausted": 1, "found": 20, "not found": 6,
                  "end": 4, "error": 4},
        "panics": True,
        "explain": PARSER + STREAMS + SLOTS + BINDINGS + COLLECT + TEXTS
                   + DROPS + "No assertion, unwrap, overflow check or diverging call may be "
                   "reachable.",
    },
    "C23": {
        "targets": {"classifier": ["class-exact", "no-panic"]},
        "floor": {"class-exact": 8},
        "explain": "Abstract interpretation of the four classifier methods for an arbitrary "
                   "character: every path's set of characters is compared with the specified "
                   "class.",
    },
    "C25": {
        "targets": {t: ["progress"] for t in ("parser", "datums", "collect", "bindings",
                                              *STREAM_KINDS, *TEXT_KINDS)},
        "kinds": {**STREAM_KINDS, **TEXT_KINDS, "bindings": 6, "collect": 6, "datums": 17},
        "each": STREAM_EACH,
        "floor": {**PARSER_FLOOR},
        "graph": True,
        "explain": PARSER + STREAMS + TEXTS + DATUMS + COLLECT + BINDINGS
                   + "The graph of abstract states may have no cycle along which nothing "
                   "is consumed.",
    },
}

ASSUME = [
    "The compiler's MIR is what is compiled, and library functions outside the repository behave "
    "as documented.",
    "Sums of lengths and positions stay below the size of the address space.",
    "What is reported as inconclusive was not decided.",
]

# Properties without a check, with the reason.
NOT_APPLICABLE = {}


def survey(pid, tmp, ck, res):
    """C22: what the crates consist of and depend on."""
    env = ck.env_base()
    env["LD_LIBRARY_PATH"] = os.path.join(ck.sysroot(), "lib")
    env["KULV_SURVEY"] = "1"
    env["RUSTFLAGS"] = "--cap-lints=allow"
    drv = ck.driver()
    # The probe has one of each.
    out = os.path.join(tmp, "probe")
    r = subprocess.run(
        [drv, "rustc", "--crate-name", "kulv_probe", "--crate-type", "lib", "--edition", "2021",
         "--emit=metadata", "--cap-lints=allow", "--out-dir", tmp,
         os.path.join(ck.VERIF, "probes", "unsafe.rs")],
        env={**env, "KULV_OUT": out}, capture_output=True, text=True)
    if r.returncode or not os.path.exists(out + ".kulv_probe"):
        raise ck.NoAnswer("the probe was not surveyed: " + r.stderr[-2000:])
    with open(out + ".kulv_probe") as f:
        probe = json.load(f)
    kinds = {u[0] for u in probe["unsafe"]}
    need = {"unsafe block", "unsafe function", "unsafe impl", "unsafe trait", "foreign items",
            "unsafe code in a macro"}
    if not need <= kinds or "alloc" not in probe["crates"] or \
            {"alloc", "std"} - {e[0] for e in probe["externs"]} or \
            sum(u[0] == "unsafe block" for u in probe["unsafe"]) < 4:
        raise ck.NoAnswer(f"the survey does not find what is in the probe: {probe}")
    # The crates, with and without debug assertions.
    found = []
    for profile in ("dev", "release"):
        out = os.path.join(tmp, profile)
        e = dict(env, KULV_OUT=out, RUSTC_WRAPPER=drv,
                 CARGO_TARGET_DIR=os.path.join(tmp, "target-" + profile))
        r = subprocess.run(
            ["cargo", "check", "--offline", "--quiet", "--locked", "--profile", profile],
            cwd=os.path.join(ck.VERIF, "subject"), env=e, capture_output=True, text=True)
        if r.returncode:
            raise ck.NoAnswer("the crates do not compile: " + r.stderr[-2000:])
        for c in ("kul", "kul_core"):
            with open(out + "." + c) as f:
                found.append((profile, json.load(f)))
    seen = set()

    def violation(rule, where, detail, site=""):
        key = f"{rule}@{where}"
        if (key, site) not in seen:
            seen.add((key, site))
            res.violations.append({"key": key, "rule": rule, "site": site, "detail": detail})

    for profile, c in found:
        for what, site in c["unsafe"]:
            violation("unsafe", site.rsplit(":", 2)[0], f"{what} in the crate {c['crate']}", site)
        if c["crate"] == "kul_core":
            for x in c["crates"]:
                if x not in ("core", "compiler_builtins"):
                    violation("core-only", x, f"the core crate needs the crate {x} ({profile})")
            for x, site in c["externs"]:
                if x not in ("core", "self"):
                    violation("core-only", x, f"the core crate needs the crate {x}", site)
        for p in c["problems"]:
            res.inconclusive.append(p)
        lim = {"kul": (100, 60, 8), "kul_core": (100, 60, 8)}[c["crate"]]
        if c["items"] < lim[0] or c["bodies"] < lim[1] or c["files"] < lim[2]:
            res.missing.append(f"{c['crate']}: only {c['items']} items, {c['bodies']} bodies")
    r = subprocess.run(
        ["cargo", "metadata", "--offline", "--locked", "--format-version", "1"],
        cwd=os.path.join(ck.VERIF, "subject"), env=env, capture_output=True, text=True)
    if r.returncode:
        raise ck.NoAnswer("no metadata: " + r.stderr[-2000:])
    deps, pkgs = [], 0
    for p in json.loads(r.stdout)["packages"]:
        if p["name"] not in ("kul", "kul_core"):
            continue
        pkgs += 1
        for d in p["dependencies"]:
            deps.append(f"{p['name']} -> {d['name']} ({d['kind'] or 'normal'})")
            own = d["name"] == "kul_core" and p["name"] == "kul" and d["source"] is None
            if d["kind"] != "dev" and not own:
                violation("no-third-party", f"{p['name']}->{d['name']}",
                          f"{p['name']} depends on {d['name']}")
    if pkgs < 2:
        res.missing.append("the packages kul and kul_core")
    res.coverage.update({
        "explanation": "A survey of both crates' HIR, in the dev and release profiles, and of "
                       "the syntax trees of all their source files (for what is not configured "
                       "in) looks for unsafe blocks, functions, traits, impls, foreign items and "
                       "macros; the set of crates that the compiler loaded for the core crate, "
                       "and the packages' dependencies, are compared with what is allowed.",
        "crates": [{"profile": p, **{k: c[k] for k in (
            "crate", "items", "bodies", "blocks", "files", "file_items", "crates")}}
            for p, c in found],
        "dependencies": deps,
        "probe_found": sorted(kinds),
        "inconclusive_paths": res.inconclusive,
    })
    res.summary = (f"items={sum(c['items'] for _, c in found)} "
                   f"bodies={sum(c['bodies'] for _, c in found)} "
                   f"blocks={sum(c['blocks'] for _, c in found)} dependencies={len(deps)}")


def witnesses(pid, tmp, ck, res):
    """C24: programs that the compiler has to accept or to reject."""
    env = ck.env_base()
    env["RUSTFLAGS"] = "--cap-lints=allow"
    env["CARGO_TARGET_DIR"] = os.path.join(tmp, "target")
    r = subprocess.run(
        ["cargo", "check", "--offline", "--quiet", "--locked", "--message-format=json"],
        cwd=os.path.join(ck.VERIF, "subject"), env=env, capture_output=True, text=True)
    if r.returncode:
        raise ck.NoAnswer("the crates do not compile: " + r.stderr[-2000:])
    lib, dirs = None, set()
    for line in r.stdout.splitlines():
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith(".rmeta"):
                    dirs.add(os.path.dirname(f))
                    lib = f if m["target"]["name"] == "kul" else lib
    if not lib:
        raise ck.NoAnswer("no compiled kul crate")
    with open(os.path.join(ck.VERIF, "witnesses", "prelude.rs")) as f:
        prelude = f.read()
    cases = []
    with open(os.path.join(ck.VERIF, "witnesses", "cases.rs")) as f:
        for part in f.read().split("//# ")[1:]:
            head, body = part.split("\n", 1)
            name, codes = head.rsplit(":", 1)
            cases.append((name, codes.split(), body))

    def compile_(job):
        n, bad = job
        src = os.path.join(tmp, f"w{n}{'b' if bad else 'g'}.rs")
        with open(src, "w") as f:
            f.write(prelude + cases[n][2])
        r = subprocess.run(
            ["rustc", "--edition", "2021", "--crate-type", "lib", "--emit=metadata",
             "--error-format=json", "--extern", "kul=" + lib, "--check-cfg=cfg(bad)"]
            + [x for d in sorted(dirs) for x in ("-L", "dependency=" + d)]
            + (["--cfg", "bad"] if bad else []) + ["-o", src + ".rmeta", src],
            env=env, capture_output=True, text=True)
        errs = []
        for line in r.stderr.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("level") != "error" or m["message"].startswith("aborting due"):
                continue
            code = (m.get("code") or {}).get("code")
            if code is None and "lifetime may not live" in m["message"]:
                code = "lifetime"
            errs.append((code or "?", m["message"]))
        if bool(r.returncode) != bool(errs):
            raise ck.NoAnswer("the compiler failed: " + r.stderr[-1000:])
        return errs

    jobs = [(n, bad) for n, c in enumerate(cases) for bad in (False, True)
            if not bad or c[1] != ["ok"]]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        out = dict(zip(jobs, ex.map(compile_, jobs)))
    rejected = accepted = 0
    table = []
    for n, (name, codes, _) in enumerate(cases):
        good = out[(n, False)]
        if codes == ["ok"]:
            if not good:
                accepted += 1
            elif all(c == "E0277" for c, _ in good):
                res.violations.append({
                    "key": "must-compile@" + name.replace(" ", "-"), "rule": "must-compile",
                    "site": name, "detail": "rejected: " + good[0][1]})
            else:
                res.inconclusive.append(f"{name}: {good[0][0]} {good[0][1]}")
            continue
        bad = out[(n, True)]
        if good:
            res.inconclusive.append(f"{name}: the permitted twin: {good[0][0]} {good[0][1]}")
        elif not bad:
            res.violations.append({
                "key": "must-not-compile@" + name.replace(" ", "-"), "rule": "must-not-compile",
                "site": name, "detail": "the compiler accepts a program in which: " + name})
        elif all(c in codes for c, _ in bad):
            rejected += 1
            table.append(name + ": " + ",".join(sorted({c for c, _ in bad})))
        else:
            res.inconclusive.append(f"{name}: {bad[0][0]} {bad[0][1]}")
    done = rejected + accepted + len(res.violations)
    if done == 0:
        raise ck.NoAnswer("no witness was decided: " + "; ".join(res.inconclusive[:3]))
    if not res.inconclusive and len(cases) < 85:
        res.missing.append(f"only {len(cases)} witnesses")
    res.coverage.update({
        "explanation": "Each witness is a program against the current public interface, given "
                       "to the compiler's type and borrow checking only. A misuse has to be "
                       "rejected with one of the expected error codes, while its twin without "
                       "the misuse compiles; the usable-across-threads witnesses have to "
                       "compile.",
        "witnesses": len(cases),
        "rejected_with_expected_code": rejected,
        "accepted": accepted,
        "compilations": len(jobs),
        "rejections": table,
        "inconclusive_paths": res.inconclusive,
    })
    res.summary = f"witnesses={len(cases)} rejected={rejected} accepted={accepted}"


# Properties decided by something other than the abstract interpreter.
OTHER = {"C22": survey, "C24": witnesses}

# Technique and note on the level, per property (None: the others).
TECHNIQUE = {
    None: ("abstract interpretation of MIR against a ghost specification",
           "Static: path-sensitive dataflow to a fixpoint over abstract states, with linear "
           "constraints on lengths and positions; covers all inputs within the stated "
           "assumptions. Constructs that cannot be followed are reported as inconclusive."),
    "C24": ("type checking of accept/reject witness programs",
            "Static: type and borrow checking only, against the crates as they are now."),
    "C22": ("survey of HIR, syntax trees and the crate graph",
            "Static: everything that is compiled is visited in resolved form, and all source "
            "files as syntax trees."),
}


def counts(rules, rule, phase):
    return rules is None or rule in rules or (rule, phase) in rules


def short(fn):
    """A function's path without the type arguments."""
    out, d = "", 0
    for i, c in enumerate(fn):
        if c == "<":
            d += 1
        elif c == ">" and fn[i - 1] != "-":
            d -= 1
        elif d == 0:
            out += c
    return out.replace("::::", "::").strip(": ")


def engine(pid, tmp, ck, res):
    spec = ENGINE[pid]
    by_feature = {}
    for t in spec["targets"]:
        by_feature.setdefault(FEATURE[t], []).append(t)
    reports = []
    for feat, ts in sorted(by_feature.items()):
        reports += ck.analyse(ts, tmp, feat)
    funcs, loops = set(), set()
    tot = {"states": 0, "paths": 0, "steps": 0, "call_sites": 0}
    checks, sites, reach = {}, {}, {}
    for r in reports:
        base = r["target"].split("/")[0]
        rules = spec["targets"][base]
        for v in r["violations"]:
            if counts(rules, v["rule"], v["phase"]):
                res.violations.append({
                    "key": f"{v['rule']}@{short(v['fn'])}", "rule": v["rule"], "function": v["fn"],
                    "site": v["site"], "detail": v["detail"], "trace": v["trace"],
                    "target": r["target"]})
        if r["stuck"] and (rules is None or "progress" in rules):
            res.violations.append({
                "key": "progress@" + r["stuck"][0].rsplit(" ", 1)[0], "rule": "progress",
                "function": r["stuck"][0], "site": "",
                "detail": "a cycle that consumes nothing: " + " -> ".join(r["stuck"]),
                "target": r["target"]})
        for u, n in r["unknowns"].items():
            if u.startswith("progress not decided") and rules is not None and "progress" not in rules:
                continue
            res.inconclusive.append(f"{r['target']}: {u} ({n} paths)")
        for f in r["functions"]:
            funcs.add(tuple(f))
        loops |= set(r["loops"])
        for k in tot:
            tot[k] += r[k]
        for k, n in r["checks"].items():
            if rules is None or k in rules or (k, LATER) in rules:
                checks[k] = checks.get(k, 0) + n
        for k, n in r["check_sites"].items():
            if rules is None or k in rules or (k, LATER) in rules:
                sites[k] = sites.get(k, 0) + n
        for k, n in r["reach"].items():
            reach[k] = reach.get(k, 0) + n
    lack = []
    for t, n in spec.get("kinds", {}).items():
        got = sum(r["target"].split("/")[0] == t for r in reports)
        if got < n:
            lack.append(f"{t}: {got} of at least {n} types")
    for r in reports:
        for k, n in spec.get("each", {}).get(r["target"].split("/")[0], {}).items():
            got = r["checks"].get(k, r["reach"].get(k, 0))
            if got < n:
                lack.append(f"{r['target']}: {k}: {got} of at least {n}")
    if not funcs or not any(r["checks"] or r["reach"] for r in reports):
        res.missing.append("nothing was analysed")
    for k, n in spec.get("floor", {}).items():
        got = checks.get(k, reach.get(k, 0))
        if got < n:
            lack.append(f"{k}: {got} of at least {n}")
    # With constructs that cannot be followed it is incomplete anyway.
    (res.inconclusive if res.inconclusive else res.missing).extend(lack)
    res.coverage.update({
        "explanation": spec["explain"],
        "functions_analysed": sorted(f"{f[0]} ({f[1]})" for f in funcs),
        "loops_with_fixpoint": sorted(loops),
        "abstract_states": tot["states"],
        "paths_closed": tot["paths"],
        "transfer_steps": tot["steps"],
        "call_sites_of_repo_functions": tot["call_sites"],
        "obligations_by_rule": checks,
        "program_points_by_rule": sites,
        "situations_reached": reach,
        "inconclusive_paths": res.inconclusive,
    })
    ob = sum(checks.values())
    if spec.get("panics"):
        asserts = {(r["target"].split("/")[0], a) for r in reports for a in r["assert_sites"]}
        calls = {(r["target"].split("/")[0], a) for r in reports for a in r["panic_sites"]}
        ob += len(asserts) + len(calls)
        res.coverage["checked_operations"] = sorted(f"{t}: {a}" for t, a in asserts)
        res.coverage["panicking_calls_reached"] = sorted(f"{t}: {a}" for t, a in calls)
    if spec.get("graph"):
        ob += sum(r["progress_nodes"] for r in reports)
        res.coverage["progress_graph_nodes"] = sum(r["progress_nodes"] for r in reports)
        res.coverage["edges_without_progress"] = sum(r["stall_edges"] for r in reports)
    res.summary = (f"functions={len(funcs)} states={tot['states']} paths={tot['paths']} "
                   f"obligations={ob} inconclusive={len(res.inconclusive)}")


def decide(pid, tmp, ck):
    res = Result()
    res.assumptions += ASSUME
    if pid in OTHER:
        OTHER[pid](pid, tmp, ck, res)
    elif pid in ENGINE:
        engine(pid, tmp, ck, res)
    else:
        raise ck.NoAnswer("no check for " + pid)
    return res
