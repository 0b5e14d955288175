"""Which test binaries decide which property."""


def simple(pkg, **kw):
    return {"stages": [dict(pkg="./checks/" + pkg, **kw)]}


def conc(pid, pkgs, instr_os=False, sched_shards=7, race=True, sched=True, race_shards=3, **kw):
    """Checks of concurrent code: an instrumented build run under generated
    schedules, then real threads under the race detector."""
    st = []
    if sched:
        st.append(dict(pkg="./checks/conc", instr=pkgs, instr_os=instr_os, run="^Test%s_Sched" % pid,
                       shards={"quick": sched_shards, "thorough": 8}, **dict(dict(scale=5), **kw)))
    if race:
        st.append(dict(pkg="./checks/conc", race=True, run="^Test%s_Race" % pid,
                       shards={"quick": race_shards, "thorough": 8}, **dict(dict(scale=4), **kw)))
    return {"stages": st}


MAP = ["./gogenerics/gconcurrent/sync"]

MR = ["./gogenerics/gconcurrent/mr"]

CHECKS = {
    "C01": simple("conc"),
    "C02": conc("C02", MAP, scale=4),
    "C03": conc("C03", MAP, scale=4),
    "C04": conc("C04", MR, scale=8),
    "C05": conc("C05", MR, scale=8),
    "C06": conc("C06", MR, scale=8),
    "C07": simple("ds"),
    "C08": simple("ds"),
    "C41": simple("ds"),
    "C42": {"stages": [dict(pkg="./checks/shared", race=True, run="^TestC42_Race"),
                       dict(pkg="./checks/shared", run="^TestC42_Copies", shards={"quick": 2, "thorough": 4})]},
    "C43": simple("shared", race=True),
    "C44": simple("shared", race=True),
    "C45": conc("C45", ["./library/cachex"]),
    "C09": simple("ds"),
    "C10": simple("containers"),
    "C11": simple("containers"),
    "C12": simple("containers"),
    "C13": simple("containers"),
    "C14": simple("containers"),
    "C15": simple("containers"),
    "C16": simple("containers"),
    "C17": simple("containers"),
    "C18": {"stages": simple("containers")["stages"] + conc("C18", ["./gogenerics/gcontainers/gpool"])["stages"]},
    "C19": simple("rnd"),
    "C20": simple("rnd"),
    "C21": simple("containers"),
    "C22": simple("cachex"),
    "C23": conc("C23", ["./library/cachex"]),
    "C24": simple("cachex", unpriv=True, scale=12),
    "C25": simple("cachex", unpriv=True, scale=8),
    "C46": simple("cachex", unpriv=True, scale=3),
    "C47": simple("cachex", unpriv=True, scale=10),
    "C49": simple("flow"),
    "C50": simple("flow"),
    "C52": simple("flow"),
    "C51": simple("flow"),
    "C53": simple("cachex", unpriv=True),
    "C48": simple("cachex", unpriv=True, scale=12),
    "C26": conc("C26", ["./library/cachex"], instr_os=True, unpriv=True, race_shards=6, scale=3),
    "C27": simple("cachex"),
    "C28": simple("cachex"),
    "C29": simple("library"),
    "C30": conc("C30", ["./library/bitset"]),
    "C31": simple("library"),
    "C32": simple("library"),
    "C33": simple("library", race=True),
    "C34": simple("library"),
    "C35": simple("library"),
    "C36": simple("library"),
    "C37": simple("library"),
    "C38": simple("library"),
    "C39": conc("C39", ["./gogenerics/gconstraints"]),
    "C40": simple("containers"),
}

# The same tests as a 32-bit program: other sizes of int, uint and uintptr, other
# code in the standard library.
for _id in "C01 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C24 C25 C27 C28 C29 C31 C32 C33 C34 C35 C36 C37 C38 C40 C41 C42 C46 C47 C48 C49 C50 C52 C53".split():
    _st = dict(CHECKS[_id]["stages"][1 if _id == "C42" else 0])
    _st.pop("race", None)
    _st.update(goarch="386", first_shard=100, shards={"quick": 0 if _id == "C41" else 2, "thorough": 4}, scale=max(1, _st.get("scale", 20) // 5))
    CHECKS[_id]["stages"].append(_st)

_SCHED = "generated schedules of the instrumented code (deterministic, shrinking) and race-detector runs, histories decided by porcupine"

TECHNIQUE = {
    "default": "model-based property testing (rapid): generated operation sequences or inputs against a reference model",
    "C02": _SCHED, "C03": _SCHED, "C23": _SCHED, "C26": _SCHED, "C30": _SCHED, "C39": _SCHED,
    "C04": "generated MapReduce runs under generated schedules in virtual time, exact accounting of items, values and workers; race-detector runs",
    "C05": "generated cancels, errors and context ends under generated schedules in virtual time, admissible results computed from event times; race-detector runs",
    "C06": "generated panics, cancels and context ends under generated schedules in virtual time, goroutine-leak oracle; race-detector runs",
    "C09": "generated histories; tree shape rebuilt from observed search paths, colours and comparison counts",
    "C10": "generated push/pop histories, multiset and minimality invariants",
    "C15": "generated map pairs against direct definitions, metamorphic relations and argument snapshots",
    "C16": "generated aliased slices against direct definitions, with guards around the arguments",
    "C17": "generated collections against direct definitions",
    "C18": "model-based property testing, generated schedules and race-detector runs with an exclusive-ownership oracle",
    "C19": "generated bounds and adversarial source words, range and coverage invariants",
    "C20": "generated bounds on a seeded uniform source, chi-square oracle with a 9-sigma threshold",
    "C21": "generated byte strings, content and aliasing invariants",
    "C22": "model-based property testing under virtual time against an ordered-list model",
    "C24": "model-based property testing under virtual time on a real directory",
    "C25": "generated damage and foreign files in generated histories, one-error model and directory snapshots",
    "C27": "model-based property testing with injected level failures",
    "C31": "differential testing against an independent implementation, both directions, with guarded buffers",
    "C32": "generated hostile ciphertexts, differential accept/reject and plaintext oracle",
    "C33": "differential testing against streaming digests, concurrently under the race detector",
    "C34": "generated passwords and flags against the direct definition",
    "C35": "generated byte strings, decode round trip and output scans",
    "C36": "generated texts and identifiers, round-trip and invariant oracles",
    "C37": "generated texts, reference scanner and distribution over pieces",
    "C38": "generated texts, lexer and un-indent oracles",
    "C40": "generated values against direct definitions",
    "C41": "generated histories; levels read from the rendering, steps counted, times compared with a walk",
    "C42": "generated calls from many goroutines under the race detector; bounds and no-repetition invariants",
    "C43": "metamorphic testing: the same generated calls alone and from many goroutines on shared arguments, under the race detector",
    "C44": "metamorphic testing: the same generated queries alone and from many goroutines, under the race detector",
    "C46": "model-based property testing under virtual time, entry files inspected after each step",
    "C47": "generated histories with injected refusals (permissions, file size limit, no descriptors) against a model with doubt",
    "C48": "generated histories over several real processes with kills at drawn moments, against a model with doubt",
    "C49": "generated pipelines in virtual time, progress and bound invariants at every instant of rest",
    "C53": "stateful generation of cache calls under generated contexts against levels that record what they are given, and a map with doubt",
    "C52": "generated calls that fail at drawn moments in virtual time, counts of items begun afterwards against a bound",
    "C50": "generated histories, weak references counted after garbage collection",
    "C51": "generated contents at two sizes, metamorphic comparison of CPU time per operation; counted comparisons",
    "C45": "generated schedules of the instrumented code (deterministic, shrinking) and race-detector runs; per-key provenance of values and exact answers for keys nobody writes",
}

_BASE = ("Generated-input search: no violation among the cases of this run, all drawn from VERIF_SEED; it can show a defect, "
         "not prove its absence. Trusts the oracle in /verif/checks, rapid and the Go toolchain. ")
_CONC = (_BASE + "Interleavings are explored at statement granularity under sequential consistency; weaker memory effects only by the "
         "race detector on real threads. Trusts porcupine and the lock shim in /verif/instr/shim. ")

NOTE = {
    "default": _BASE,
    "C02": _CONC + "2 to 4 workers, up to 14 keys.",
    "C03": _CONC + "2 to 4 workers, up to 14 keys.",
    "C04": _CONC + "Up to 40 items and 50 workers under schedules, 1500 and 1000 on real threads.",
    "C05": _CONC + "Times are virtual, with an hour of slack against sleeps of several hours.",
    "C06": _CONC + "User functions that call Goexit or panic(nil) are not generated.",
    "C18": _CONC,
    "C20": _BASE + "The bounded generators are enumerated exactly for many bounds; elsewhere a bias below about 2 % of a cell is not seen.",
    "C23": _CONC + "2 to 4 workers, capacity up to 3.",
    "C24": _BASE + "Values that JSON represents exactly.",
    "C25": _BASE + "Damage means truncation or content that is no entry; the file system itself works.",
    "C26": _CONC + "File reads and writes are split into steps; batches are not atomic across keys.",
    "C30": _CONC + "2 to 4 workers, up to 3 shared sets.",
    "C39": _CONC,
    "C41": _BASE + "The time bound is generous (20 times the usual); the levels are only checked as long as the rendering can be read.",
    "C42": _BASE + "Real threads only.",
    "C43": _BASE + "Real threads only.",
    "C44": _BASE + "Real threads only; the internals of the ring's zero value and of the heap are left out.",
    "C46": _BASE + "Whole seconds of tolerance around the moment cleaning is due.",
    "C47": _BASE + "Refusals by permissions, file size limit and lack of descriptors; other kinds of failing system calls are not made.",
    "C48": _BASE + "Kills of the process, not of the machine; their moments are chosen but not exactly repeatable.",
    "C49": _BASE + "Virtual time only, without generated interleavings within an instant (C04 to C06 have those).",
    "C53": _BASE + "Nil contexts are not generated; which calls refuse an ended context is left open.",
    "C52": _BASE + "Virtual time only; up to the worker count plus 40 items (plus 2 after a panic) may still begin.",
    "C50": _BASE + "Bounds are generous (four times the largest content plus 16).",
    "C51": _BASE + "Generous factors (12 for constant, 8 for linear cost, over a growth of 40) so that noise cannot raise an alarm.",
    "C45": _CONC + "2 to 4 workers, up to 4 levels.",
}
