"""Which legs decide which property."""
import decl, legs


class Leg:
    """A leg whose run decides the property; a secondary leg (primary=False)
    can refute it but its being inconclusive is only recorded."""

    def __init__(self, fn, primary=True):
        self.fn, self.primary = fn, primary

    def run(self, prop, seed, tier):
        return self.fn(prop, seed, tier)


def core(profile, budget=(20, 400), primary=True, binary="hcore", shards=1, scale=8, phase=None):
    def f(prop, seed, tier):
        b = budget[tier == "thorough"]
        return legs.native(prop, "core", profile, binary, seed, tier, b, 2 * b + 400, shards, scale, phase)
    return Leg(f, primary)


def expo(profile="dev", budget=(25, 500), primary=True, shards=1, scale=1):
    def f(prop, seed, tier):
        b = budget[tier == "thorough"]
        return legs.native(prop, "expo", profile, "hexpo", seed, tier, b, 2 * b + 400, shards, scale)
    return Leg(f, primary)


def miri(limit=(60, 600), seeds=(2, 40), flags=""):
    def f(prop, seed, tier):
        t = tier == "thorough"
        return legs.miri(prop, seed, tier, limit[t], seeds[t], flags)
    return Leg(f, primary=False)


def asan(budget=(10, 120)):
    def f(prop, seed, tier):
        b = budget[tier == "thorough"]
        return legs.asan(prop, seed, tier, b, 3 * b + 300)
    return Leg(f, primary=False)


def tsan(budget=(10, 120)):
    def f(prop, seed, tier):
        b = budget[tier == "thorough"]
        return legs.tsan(prop, seed, tier, b, 3 * b + 300)
    return Leg(f, primary=False)


class Spec:
    def __init__(self, rule, quick, thorough=None, level="exploration", assumptions=()):
        self.rule, self.level, self.assumptions = rule, level, list(assumptions)
        self._quick, self._thorough = quick, thorough or quick

    def legs(self, tier):
        return self._thorough if tier == "thorough" else self._quick


BOTH = [core("release"), core("dev")]

RACES = ("Schedules are sampled: what the operating system, injected yields, lockstep starts and (in the "
         "interpreter) random preemption produced.")
TRUST = "The histogram crate's bucket layout is taken as specified in its documentation."
X86 = "Native runs see the memory ordering of x86-64; weaker orderings are sampled only in the interpreter leg."

REGISTER = ("Random operation mixes with edge operands from VERIF_SEED: sequential against a model, short "
            "concurrent histories checked for linearizability, long contended histories checked as one "
            "path of previous values, every pair of operations in lockstep. Distinct: different operation "
            "sequences, observed orders and outcomes; trivial repetitions hash alike.")

PLAN = {
    "C01": Spec(REGISTER, BOTH + [miri()], BOTH + [miri()], assumptions=[RACES, X86]),
    "C02": Spec(REGISTER, BOTH + [miri()], BOTH + [miri()], assumptions=[RACES, X86]),
    "C03": Spec("Every grouping power and a spread of ranges; for each the values at all bucket edges, powers of two, "
                "the range limit and random ones, against a bucket index computed from the definition; threads racing "
                "on the first recordings of a fresh histogram; recorders racing loads with per-bucket begun/ended "
                "tallies; one bucket hit more than 2^32 times. Distinct: (configuration, value class, observed counts "
                "or race outcome).",
                BOTH + [core("release", phase="many", primary=False), miri()],
                BOTH + [core("release", phase="many", primary=False), miri(), tsan()], assumptions=[RACES, X86, TRUST]),
    "C04": Spec("Random accepted and wrongly sized updates against a model; short histories of racing updates and "
                "loads checked for linearizability; stress with one identifiable fill per update so that a mixture "
                "shows in a single load. Distinct: (configuration, observed history).",
                BOTH + [miri()], BOTH + [miri(), tsan()], assumptions=[RACES, X86]),
    "C05": Spec("Random sequences of forcing and observing operations on lazies with counting initialisers (also "
                "panicking ones), static and dynamic, listed and not; threads racing the first access and observing "
                "meanwhile. Distinct: (sequence of operations, initialisation point, race outcome).",
                BOTH + [miri()], BOTH + [miri(), tsan()], assumptions=[RACES]),
    "C06": Spec("Random sequences of build, pin, register, re-register, move, send, unregister and drop against a "
                "model of the live set, compared with the whole listing after each step; large crowds; threads doing "
                "the same with a stamped log of begin and end of every call, checked offline for presence, absence "
                "and exactly-once in every listing; metrics owned by threads that end; registrations and drops that wait many seconds for an open listing. "
                "Distinct: operation sequences and listings seen.",
                BOTH + [core("dev", binary="hcore-nostatics", scale=1, budget=(10, 100)), miri()],
                BOTH + [core("dev", binary="hcore-nostatics", scale=1), miri(), tsan()], assumptions=[RACES]),
    "C07": Spec("Metrics with canaries whose destructors poison them and look for themselves in the listing; owners "
                "dropping while listings are held and read, for seconds on end too; the type-level promises that keep a registered metric in "
                "place probed with trait tests and with pairs of a sound and an unsound program of which the "
                "compiler must refuse the second; the same workloads under Miri, AddressSanitizer and "
                "ThreadSanitizer. Distinct: (held entries, drop order, overlap observed).",
                BOTH + [miri(), asan(), tsan(), Leg(decl.soundness, primary=False)], assumptions=[RACES]),
    "C08": Spec("Programs of several crates generated from VERIF_SEED with declarations in every place a static can "
                "stand, all metric types, all argument combinations and spellings; built with /repo, run, and the "
                "listing each prints compared with what was declared. Distinct: form of a declaration (type, place, "
                "arguments and their order, number of metadata pairs, attribute path, visibility).",
                [Leg(decl.listing)], assumptions=["Linking by the installed linker on x86-64 Linux."]),
    "C09": Spec("Random drivers of the iterators (next, next_back, nth, nth_back, size_hint, len, count, last, fold, "
                "rfold, rev, skip, step_by, by_ref mixtures) against a double-ended queue holding the reference "
                "sequence, on populations of 0 to some dozens, with and without static metrics in the program. "
                "Distinct: (population, driver script).",
                BOTH + [core("dev", binary="hcore-nostatics")], BOTH + [core("dev", binary="hcore-nostatics"), miri()]),
    "C10": Spec("Random builders with awkward strings, repeated keys and descriptions, read back in all ways through "
                "the metric, the entry and clones, next to other live metrics. Distinct: (strings, call sequence).",
                BOTH + [miri()], BOTH + [miri()]),
    "C11": Spec("Metrics that follow a random script of provide calls over a family of types close to one another, "
                "requested for every type and kind with counting closures; with and without attached data; boxed, "
                "pinned, static. Distinct: (script, attachments, request).",
                BOTH + [miri()], BOTH + [miri()]),
    "C12": Spec("Random names, metadata and formatters for static and dynamic metrics; custom formatters record "
                "entry and format they were called with; default Prometheus output is parsed by an independent "
                "parser and compared as a map. Distinct: (name, metadata, formatter).", BOTH),
    "C13": Spec("Every pair of metric kinds, random populations with each entry tried against each instance, equal "
                "twins, lazies before and after initialisation, a wrapper and its first field at one address. "
                "Distinct: (kinds, state, relation).", BOTH + [miri()], BOTH + [miri()]),
    "C14": Spec("Random populations of all kinds of metrics (boxed, pinned, static, lazy, custom), filters and "
                "snapshotters, each snapshot compared as a multiset with the records computed from the model; the "
                "population changes between snapshots of one snapshotter. Distinct: (expected records, filter).",
                [expo(shards=4, scale=4)], [expo(shards=6, scale=2)]),
    "C15": Spec("Snapshots taken by several threads amid updates (bounds from begun/ended tallies, per-metric floors) "
                "and amid registration and dropping (stamped lifetimes checked offline), with delays injected through "
                "the filter. Distinct: observed readings and memberships.",
                [expo(shards=1, scale=10)], [expo(shards=2, scale=3)], assumptions=[RACES]),
    "C16": Spec("Random snapshots of both versions with edge numbers, odd strings and histogram shapes, single and in "
                "streams, through msgpack and JSON and back; compared field by field. Distinct: snapshot contents.",
                [expo(shards=4)], [expo(shards=6)]),
    "C17": Spec("Random snapshot sequences in which metrics come, go and change, converted by four interfaces under "
                "random options; the file is read back and every cell compared. Distinct: (sequence, options).",
                [expo(shards=6)], [expo(shards=7)],
                assumptions=["The arrow/parquet reader is trusted to read what is in the file."]),
    "C18": Spec("As C17, comparing schema, column and file metadata, row groups and compression of the file. "
                "Distinct: (sequence, options).", [expo(shards=6)], [expo(shards=7)],
                assumptions=["The arrow/parquet reader is trusted to read what is in the file."]),
    "C19": Spec("Random label sets, permuted insertion orders, siblings that differ in one contributing label; column "
                "names compared with a reference function and across repeated conversions. Distinct: label sets.",
                [expo(shards=6)], [expo(shards=7)]),
    "C20": Spec("Inputs cut at every byte, each byte corrupted, records spliced, garbage; readers and writers failing "
                "at every call or filling up, short reads and writes, failing paths. Success is accepted only if the "
                "output holds exactly what an independent decoder finds in the input. Distinct: (input, fault).",
                [expo(shards=6)], [expo(shards=7)], level="fault_enumeration"),
    "C21": Spec("Recorders that must finish while listings or snapshots are held open in mid-iteration with "
                "registrations and drops pending; mixtures of all operations. A watchdog recognises states in which "
                "every thread sleeps for good. Distinct: (pending operations, position, outcome).",
                BOTH + [expo(scale=4)], BOTH + [expo(scale=2), tsan(), miri()], assumptions=[RACES]),
    "C22": Spec("Metrics, filters, formatters and attached data that panic in each callback at each position, alone "
                "and on several threads; afterwards the listing and a snapshot are compared with the live set. "
                "Distinct: (sequence of faults and operations).",
                BOTH + [expo(scale=6), miri()], BOTH + [expo(scale=4), miri()]),
    "C23": Spec("Well-formed declarations in random form, and all arguments in every order, must compile; each random "
                "single mutation of one that makes it malformed must be refused. Distinct: (mutation, shape).",
                [Leg(decl.compile_time)],
                assumptions=["The execution observed is that of the attribute macro inside the compiler."]),
    "C24": Spec("Random populations of metrics (static, boxed, pinned; small, over-aligned, zero-sized) whose enabled "
                "state, object and value are set independently, changed between and during listings and asked for "
                "through the entry in random order; the library's own metric types; entries without a metric; answers "
                "that move on one thread while others ask. Distinct: (type, owner, answers) of a population.",
                BOTH + [miri()], BOTH + [miri()], assumptions=[RACES]),
    "C25": Spec("Recordings of changing random populations (static, boxed, pinned, lazy, custom metrics; re-registered, "
                "dropped, coming back) by one snapshotter, carried as objects, msgpack or JSON and converted by every "
                "interface under random options; every cell, column and file metadata compared with what the metrics "
                "held at each snapshot; a recorder beside updating threads. Distinct: (histories, filter).",
                [expo(shards=4, scale=3)], [expo(shards=6, scale=2)],
                assumptions=["The arrow/parquet reader is trusted to read what is in the file."]),
    "C26": Spec("Random lives of builders, entries, metrics (boxed, pinned, lazy; re-registered, moved, sent to another "
                "thread, with panicking destructors) and of values provided to requests, inputs and outputs handed to "
                "conversions (also failing ones), every piece a token that counts its destructions; the same making "
                "and disposing of repeated 64 times under other names with the allocated bytes read at 8, 16, 32 and "
                "64 rounds, and on to 1024 while they grow; open files counted around conversions. Distinct: "
                "sequences of operations, scripts, (workload, seed).",
                BOTH + [expo(), miri()], BOTH + [expo(), expo("release"), miri(), asan()], assumptions=[RACES]),
}
