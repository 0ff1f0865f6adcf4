//! The properties and the scenarios that decide them.
mod cursors;
mod groups;
mod hist;
mod life;
mod libs;
mod meth;
#[cfg(feature = "gen")]
mod publish;
mod share;
mod store;
mod text;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    pub quick_runs: u64,
    /// What makes a run non-trivial.
    pub rule: &'static str,
    /// What the distinctness measure counts.
    pub shape: &'static str,
    /// Probes and faults that a healthy batch should have hit.
    pub expect: &'static [&'static str],
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

const REAL_LIFE: &str = "bellframe (method_lib, place_not, row, block, stage, ...), serde, serde_json, std::fs, std::env, dirs/dirs-sys, hashbrown/std HashMap: compiled from source and run unmodified";
const STUB_LIFE: &str = "kernel file system, page cache and crash semantics, environment, passwd database, process ids, clocks, random bytes, thread scheduling (simulated behind the libc symbols); reqwest replaced by a stub with the same blocking API whose transport is the simulated network";
const ASSUME_LIFE: &[&str] = &[
    "the simulated POSIX file system (page cache, durable image, torn/lost/partial writes on power loss, rename atomicity) stands in for real ones",
    "reqwest is replaced by a stub that delivers, truncates, delays or fails whole responses; TLS, redirects and decompression are not simulated",
    "cached documents and editions are generated libraries with titles unique within a library",
];
const SHAPE_LIFE: &str = "hash of the sequence of (process, system call) pairs and of every context switch";

const REAL_HIST: &str = "bellframe (row, block, mask, place_not, stage, bell, utils): compiled from source and run unmodified; std collections";
const STUB_HIST: &str = "the caller: its iterators, closures, conversions, clones and annotations are the simulator's and panic, misstate their length or change their answers as the seed decides";
const ASSUME_HIST: &[&str] = &[
    "callers use safe functions only; callers' callbacks fail by panicking (unwinding), not by aborting",
    "values of up to 40 bells and histories of up to 30 calls",
];
const SHAPE_HIST: &str = "hash of the sequence of (call, outcome) pairs";

pub fn all() -> &'static [Prop] {
    static ALL: &[Prop] = &[
        Prop { id: "C01", run: life::c01, quick_runs: 40000, rule: "at least one fault fired or one damaged or hostile document was loaded", shape: SHAPE_LIFE,
            expect: &["process-kill", "power-loss", "http-error-page", "captive-portal-or-unloadable-document", "connection-reset-mid-body", "disk-full-on-write", "loaded a damaged document", "damaged document still loads"],
            real: REAL_LIFE, stub: STUB_LIFE, assumptions: ASSUME_LIFE },
        Prop { id: "C02", run: life::c02, quick_runs: 20000, rule: "at least two acquisitions returned, or a fault fired before one returned", shape: SHAPE_LIFE,
            expect: &["process-kill", "power-loss", "new-edition-published", "short-read", "short-write", "torn-write", "stale-cdn-node"], real: REAL_LIFE, stub: STUB_LIFE, assumptions: ASSUME_LIFE },
        Prop { id: "C03", run: life::c03, quick_runs: 40000, rule: "a valid cache was read at least once", shape: SHAPE_LIFE,
            expect: &["network-down", "clock-skew", "short-read", "eintr-on-read", "new-edition-published"], real: REAL_LIFE, stub: STUB_LIFE, assumptions: ASSUME_LIFE },
        Prop { id: "C04", run: life::c04, quick_runs: 40000, rule: "the cache file was written, or a faulty download was offered", shape: SHAPE_LIFE,
            expect: &["process-kill", "killed while saving", "body-silently-truncated", "http-error-page", "disk-full-on-write", "short-write", "write-failed", "cache file replaced"], real: REAL_LIFE, stub: STUB_LIFE, assumptions: ASSUME_LIFE },
        Prop { id: "C05", run: life::c05, quick_runs: 20000, rule: "an acquisition that downloaded was followed by a later acquisition", shape: SHAPE_LIFE,
            expect: &["process-kill", "network-down", "offline acquisition after a download"], real: REAL_LIFE, stub: STUB_LIFE, assumptions: ASSUME_LIFE },
        Prop { id: "C06", run: life::c06, quick_runs: 20000, rule: "the cache was unusable, missing or damaged, or a fault fired", shape: SHAPE_LIFE,
            expect: &["process-kill", "power-loss", "bit-rot", "open-failed", "read-failed", "rename-failed", "recovered and then offline"], real: REAL_LIFE, stub: STUB_LIFE, assumptions: ASSUME_LIFE },
        Prop { id: "C07", run: libs::c07, quick_runs: 20000, rule: "a library with at least three methods went through a save and a load", shape: "hash of the saved documents' sizes, generations and damage",
            expect: &["torn-write", "power-loss", "short-write", "damaged save rejected", "save survived the crash whole"], real: REAL_LIFE, stub: STUB_LIFE, assumptions: ASSUME_LIFE },
        Prop { id: "C08", run: libs::c08, quick_runs: 20000, rule: "suggestions were asked of a library with at least three methods", shape: "hash of library size, number asked and distances returned",
            expect: &["zero suggestions asked", "more suggestions asked than stored", "tie at the cut", "preempted-at-allocation"], real: REAL_LIFE, stub: STUB_LIFE, assumptions: ASSUME_LIFE },
        Prop { id: "C09", run: libs::c09, quick_runs: 20000, rule: "at least three stored titles were looked up", shape: "hash of the looked-up stages, classes and outcomes",
            expect: &["invalid notation looked up", "implicit title looked up", "absent title looked up"], real: REAL_LIFE, stub: STUB_LIFE, assumptions: ASSUME_LIFE },
        Prop { id: "C10", run: share::c10, quick_runs: 40000, rule: "at least three calls were made by at least two threads sharing values", shape: "hash of every call made and every context switch",
            expect: &["preempted-at-allocation", "preempted-at-basic-block", "sink-refused", "sink-panicked", "sink-stalled", "blocked on a futex"], real: "bellframe (all modules except parse_cc_lib), serde_json: compiled from source and run unmodified on real threads", stub: "thread scheduling (seeded, one thread at a time, pre-emption at every n-th basic block, allocation or futex call); text sinks", assumptions: &[
                "threads interleave at basic-block granularity under sequential consistency; weak-memory reorderings are not simulated",
            ] },
        Prop { id: "C11", run: hist::c11, quick_runs: 120000, rule: "at least three calls were made on live values", shape: SHAPE_HIST,
            expect: &["caller-panic", "iterator-misstates-its-length", "changing-iterator-offered", "wrong-stage-in-the-stream", "bells-that-are-no-row", "a call panicked", "a call returned an error"], real: REAL_HIST, stub: STUB_HIST, assumptions: ASSUME_HIST },
        Prop { id: "C12", run: hist::c12, quick_runs: 120000, rule: "at least three calls were made, of which at least one failed", shape: SHAPE_HIST,
            expect: &["caller-panic", "wrong-stage-in-the-stream", "a call returned an error"], real: REAL_HIST, stub: STUB_HIST, assumptions: ASSUME_HIST },
        Prop { id: "C13", run: hist::c13, quick_runs: 120000, rule: "at least three calls were made on live values", shape: SHAPE_HIST,
            expect: &["caller-panic", "iterator-misstates-its-length", "wrong-stage-in-the-stream", "a call panicked", "a call returned an error"], real: REAL_HIST, stub: STUB_HIST, assumptions: ASSUME_HIST },
        Prop { id: "C14", run: hist::c14, quick_runs: 120000, rule: "at least three calls were made on live values", shape: SHAPE_HIST,
            expect: &["caller-panic", "a call panicked", "a call returned an error"], real: REAL_HIST, stub: STUB_HIST, assumptions: ASSUME_HIST },
        Prop { id: "C15", run: cursors::c15, quick_runs: 100000, rule: "at least three steps of cursors were taken", shape: "hash of the sizes, of the sequence of calls and of every context switch",
            expect: &["caller-panic", "wrong-stage-start-row", "a-buffer-of-another-stage", "an empty block was repeated", "repeated past the end of the block", "a cursor was copied half-way", "cursors on several threads"],
            real: "bellframe (row collections, blocks and their iterators): compiled from source and run unmodified on real threads; std iterator adapters", stub: "the caller's closures (which panic as the seed decides) and buffers; thread scheduling", assumptions: &[
                "rows of up to 40 bells, up to 8 rows and 8 live cursors per thread",
            ] },
        Prop { id: "C16", run: hist::c16, quick_runs: 120000, rule: "at least three calls were made on live values", shape: SHAPE_HIST,
            expect: &["caller-panic", "bells-that-are-no-row", "a buffer of another stage was re-used", "a call returned an error"], real: REAL_HIST, stub: STUB_HIST, assumptions: ASSUME_HIST },
        Prop { id: "C17", run: groups::c17, quick_runs: 30000, rule: "the rows are not all rounds", shape: "hash of the stage, the questions asked by every process, the sizes of the answers and every context switch",
            expect: &["caller-panic", "changing-iterator-offered", "wrong-stage-in-the-stream", "iterator-misstates-its-length", "a process with hash seeds of its own", "a group of more than two rows", "a group was tested", "something that is not a group was tested", "products listed", "stages mixed", "refused a changing iterator", "answered in spite of a changing iterator"],
            real: "bellframe (row), std HashMap/HashSet with std's RandomState: compiled from source and run unmodified on real threads", stub: "random bytes behind the hash seeds, thread scheduling, the caller's iterators and conversions", assumptions: &[
                "rows of up to 20 bells; groups of up to 800 rows",
                "no order of the cartesian products is documented: they are compared as a multiset, and their order only between processes",
            ] },
        Prop { id: "C18", run: hist::c18, quick_runs: 120000, rule: "at least three calls were made on live values", shape: SHAPE_HIST,
            expect: &["caller-panic", "a call returned an error", "a bell took the place of another", "a matching row", "a row that does not match"], real: REAL_HIST, stub: STUB_HIST, assumptions: ASSUME_HIST },
        Prop { id: "C19", run: meth::c19, quick_runs: 40000, rule: "at least two label changes were made, or threads shared a method", shape: "hash of the methods' sizes, the sequence of calls, the number of leads and every context switch",
            expect: &["label-out-of-range", "lock-poisoned", "a course of several leads", "a label was listed", "a method was copied", "a call was made", "a method shared by threads"],
            real: "bellframe (method, class, call, place_not, block): compiled from source and run unmodified on real threads; std RwLock", stub: "thread scheduling (seeded, pre-emption at basic blocks, allocations and futex calls)", assumptions: &[
                "leads start from rounds and have at least one row; stages of up to 33 bells; leads of up to about 60 rows",
            ] },
        Prop { id: "C20", run: text::c20, quick_runs: 100000, rule: "at least two texts were written or read, or a fault fired", shape: "hash of the kinds and lengths of the texts, of the sinks, and of every system call",
            expect: &["sink-full", "sink-refused-once", "sink-panicked", "sink-took-a-part", "interrupted-write", "short-write", "short-read", "power-loss", "process-kill", "disk-full-on-write", "stored-text-damaged", "a text that can be read", "a text that cannot be read", "a value read back"],
            real: "bellframe (all Display/Debug implementations and parsers): compiled from source and run unmodified; std formatting, io adapters, std::fs", stub: "text and byte sinks; kernel file system and crash semantics behind the libc symbols", assumptions: &[
                "formatting flags such as width and fill are not varied",
                "reading is judged by independent models of the documented formats; which error is reported is not",
            ] },
        Prop { id: "C21", run: store::c21, quick_runs: 100000, rule: "every run serialises or deserialises at least two values", shape: "hash of the documents' sizes, formats and kinds, and of every system call",
            expect: &["sink-full", "sink-refused-once", "sink-took-a-part", "interrupted-write", "interrupted-read", "source-failed", "source-gave-a-part", "source-ended-early", "short-write", "short-read", "power-loss", "process-kill", "stored-text-damaged", "a value read back", "a document that means something", "a document that means nothing", "a value of another type was handed over"],
            real: "bellframe (bell, stage with the serde feature), serde, serde_json, bincode, ciborium, std::fs: compiled from source and run unmodified", stub: "byte sinks and sources; kernel file system and crash semantics behind the libc symbols", assumptions: &[
                "formats: JSON (plain and pretty), bincode 1, CBOR, and serde's primitive deserialisers; 64-bit platform",
            ] },
        #[cfg(feature = "gen")]
        Prop { id: "C22", run: publish::c22, quick_runs: 12000, rule: "a collection of at least three methods was published", shape: "hash of the sizes of the collections that were read and of every system call",
            expect: &["short-write", "short-read", "read-failed", "write-failed", "disk-full-on-write", "power-loss", "process-kill", "stdout-refused", "stdout-took-a-part", "eintr-on-stdout", "a collection was turned into a library", "a damaged collection was rejected", "the edition reached a client"],
            real: "bellframe with the cc_lib_gen feature (method_lib, parse_cc_lib, place_not, block, row), minidom, quick-xml, serde, serde_json, std::fs, std's stdout: compiled from source and run unmodified", stub: "kernel file system and crash semantics, stdout, thread scheduling, hash seeds behind the libc symbols", assumptions: &[
                "collections use the Council's schema with the default namespace; titles unique, without control characters or outer spaces; no jump methods (the schema's reader has none)",
            ] },
    ];
    ALL
}
pub fn find(id: &str) -> Option<&'static Prop> {
    all().iter().find(|p| p.id == id)
}
