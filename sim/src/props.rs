//! The table of scenarios.

use crate::ctx::{Ctx, Res};

pub struct Prop {
    pub id: &'static str,
    /// needs the stepped build
    pub stepped: bool,
    pub run: fn(&Ctx) -> Res,
    pub quick_runs: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        stepped: false,
        run: crate::c01::run,
        quick_runs: 360_000,
        level: "exploration",
        rule: "one run = one generated value (parsed, built or edited) written in several styles to simulated destinations that fill up, refuse or panic at drawn places; non-trivial: at least one destination fault fired; distinct: different event log",
        real: &["value writer", "string encoder and decoder", "parser", "documents"],
        stubs: &["destination (fmt::Write)"],
    },
    Prop {
        id: "C02",
        stepped: false,
        run: crate::c02::run,
        quick_runs: 1_200_000,
        level: "exploration",
        rule: "one run = one generated payload (one in four damaged) parsed into node storage of drawn capacity or into simulated storage that refuses or panics at a drawn insertion; non-trivial: at least one fault fired; distinct: different event log",
        real: &["parser", "documents", "bounded heapless storage", "Vec storage"],
        stubs: &["failing node storage (NodeCollection)"],
    },
    Prop {
        id: "C03",
        stepped: false,
        run: crate::c03::run,
        quick_runs: 800_000,
        level: "exploration",
        rule: "one run = one generated payload (one in four damaged) parsed several times with a simulated event consumer that fails or panics at a drawn event; non-trivial: at least one fault fired; distinct: different event log",
        real: &["parser"],
        stubs: &["event consumer (ParseDelegate)"],
    },
    Prop {
        id: "C04",
        stepped: false,
        run: crate::c04::run,
        quick_runs: 600_000,
        level: "exploration",
        rule: "one run = one payload put through a drawn sequence of storage and transport faults and read at every entry point after each; non-trivial: at least one fault fired; distinct: different event log",
        real: &["all reading entry points"],
        stubs: &["storage and transport delivering the payload"],
    },
    Prop {
        id: "C05",
        stepped: false,
        run: crate::c05::run,
        quick_runs: 450_000,
        level: "exploration",
        rule: "one run = a history of edits, lookups, checkpoints, crashes and hand-overs of documents kept by simulated nodes whose storage tears, loses and mixes writes; non-trivial: at least one fault fired; distinct: different event log",
        real: &["value API", "objects", "value writer", "parser", "documents"],
        stubs: &["checkpoint storage", "transport between nodes"],
    },
    Prop {
        id: "C09",
        stepped: false,
        run: crate::c09::run,
        quick_runs: 800_000,
        level: "exploration",
        rule: "one run = one to three token readers on one intact or damaged input, stepped in a drawn order with look-ahead; non-trivial: at least one fault fired or more than one reader; distinct: different event log",
        real: &["tokenizer"],
        stubs: &["storage and transport delivering the input"],
    },
    Prop {
        id: "C10",
        stepped: false,
        run: crate::c10::run,
        quick_runs: 1_400_000,
        level: "exploration",
        rule: "one run = one document walked by up to six readers that step, read values, skip, are copied and abandoned in a drawn order; non-trivial: every run (each has several readers or a drawn schedule of steps); distinct: different event log",
        real: &["document readers", "value conversion", "parser"],
        stubs: &["scheduling of the readers", "node storage in part of the runs"],
    },
    Prop {
        id: "C08",
        stepped: false,
        run: crate::c08::run,
        quick_runs: 2_000_000,
        level: "exploration",
        rule: "one run = up to eight similar texts delivered in different encodings, late, twice and out of order, to hash tables with four hashers, an ordered table and an object that are lost and rebuilt; non-trivial: at least one fault fired; distinct: different event log",
        real: &["string comparison and hashing", "string encoder and decoder", "objects", "parser"],
        stubs: &["transport of the deliveries", "hashers", "storage of the table"],
    },
    Prop {
        id: "C11",
        stepped: false,
        run: crate::c11::run,
        quick_runs: 2_000_000,
        level: "exploration",
        rule: "one run = one string, delivered in a drawn way, streamed by several consumers that read, copy, crash, resume and print into failing destinations in a drawn order; non-trivial: every run (each has a drawn schedule of interruptions); distinct: different event log",
        real: &["string encoder and decoder streams", "parser"],
        stubs: &["consumers", "destination (fmt::Write)"],
    },
    Prop {
        id: "C07",
        stepped: false,
        run: crate::c07::run,
        quick_runs: 900_000,
        level: "exploration",
        rule: "one run = one payload or value read, walked, compared or written with no memory at all, or with drawn allocations failing and then a retry; non-trivial: at least one fault fired; distinct: different event log",
        real: &["parser", "tokenizer", "documents", "bounded heapless storage", "strings", "objects", "value writer", "system heap when it answers"],
        stubs: &["heap (global allocator deciding which requests fail)", "destination (fmt::Write)"],
    },
    Prop {
        id: "C06",
        stepped: true,
        run: crate::c06::run,
        quick_runs: 160_000,
        level: "exploration",
        rule: "one run = two to four tasks under a seeded scheduler (or one), each with one to four operations on shared payloads, values, documents and strings, interleaved at every callback, memory request and step, with operations started inside the callbacks of others and some cancelled; non-trivial: at least one switch or nested operation; distinct: different event log",
        real: &["parser", "tokenizer", "documents", "strings", "value writer"],
        stubs: &["scheduler", "event consumer", "node storage", "destination", "hasher", "heap (as a source of scheduling points)"],
    },
    Prop {
        id: "C12",
        stepped: false,
        run: crate::c12::run,
        quick_runs: 600_000,
        level: "exploration",
        rule: "one run = one payload that is deep, wide, or one huge token, often cut or damaged, read, walked, compared, written, copied and released under a stack budget that depends on nesting alone and a heap budget that depends on size alone; every run is non-trivial; distinct: different event log",
        real: &["parser", "tokenizer", "documents", "bounded heapless storage", "strings", "numbers", "value writer", "values (copy, comparison, release)"],
        stubs: &["stack (measured) and heap (budget enforced by the allocator)", "storage and transport of the payload", "event consumer", "destination"],
    },
    Prop {
        id: "C13",
        stepped: true,
        run: crate::c12::run_work,
        quick_runs: 300_000,
        level: "exploration",
        rule: "one run = one hostile payload (deep, wide, one huge token, junk; one in three damaged) read, walked, looked up, compared, written and released, every operation under a budget of ticks of the simulated clock that is linear in the bytes that go in and out; non-trivial: always (the budget); distinct: different event log",
        real: &["parser", "values", "documents", "value writer", "strings", "numbers"],
        stubs: &["clock (one tick per basic block)", "consumer", "destination"],
    },
];
