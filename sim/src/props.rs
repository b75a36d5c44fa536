//! What a simulated run of each property does.
use crate::runner::Prop;
use crate::asy;
use crate::cmds;
use crate::conc;
use crate::conv;
use crate::files;
use crate::fk;
use crate::mig;
use crate::pg;
use crate::pool;
use crate::solo;
use crate::tur;

const SQLITE_REAL: &[&str] = &[
    "butane and butane_core as built from /repo (model code from the proc macro included)",
    "rusqlite and the system SQLite library",
];
const SQLITE_STUB: &[&str] = &[
    "disk and file locks (simulated SQLite VFS)",
    "clock and sleeping (simulated)",
    "SQLite's randomness (seeded)",
];
const SQLITE_ASSUMES: &[&str] = &[
    "a file's creation, deletion and name are durable at once; data is durable after fsync",
    "bugs of SQLite itself are out of scope",
];

const ASYNC_REAL: &[&str] = &[
    "butane and butane_core as built from /repo (async adapter and its worker thread included)",
    "tokio runtime, crossbeam channels, std threads and locks",
    "rusqlite and the system SQLite library",
];
const POOL_REAL: &[&str] = &[
    "butane and butane_core as built from /repo (async adapter and its worker thread included)",
    "r2d2 with its threads, deadpool, tokio runtime, crossbeam channels, std threads and locks",
    "rusqlite and the system SQLite library",
];
const ASYNC_STUB: &[&str] = &[
    "thread scheduling, futexes, clock and sleeping (simulated libc calls)",
    "disk and file locks (simulated SQLite VFS)",
    "SQLite's randomness (seeded)",
];

const FILES_REAL: &[&str] = &[
    "butane_core as built from /repo: model code generation, migration files, their locks",
    "the kernel's file system (a scratch directory in memory) and flock",
];
const FILES_STUB: &[&str] = &[
    "libc's file calls: order between processes, errors, short writes, full disk, death of a process (simulated)",
    "thread scheduling, clock, process ids, order of directory entries (simulated)",
];
const CMD_REAL: &[&str] = &[
    "butane_cli (the commands' functions), butane_core migrations and their file system layer",
    "butane_core SQLite backend and SQLite itself",
    "std file calls, down to the libc calls",
];
const CMD_STUB: &[&str] = &[
    "the disk under the database (simulated), faults and death at libc file calls, process ids, clock, argument parsing",
];
const PG_REAL: &[&str] = &[
    "butane and butane_core as built from /repo (PostgreSQL backend, async adapter and its worker thread included)",
    "tokio runtime and its reactor, tokio-postgres",
    "a PostgreSQL server: a process of its own, driven in lock step, one whole request at a time",
];
const PG_STUB: &[&str] = &[
    "the network (simulated connect(), socket pairs carried by the simulation), connection set-up messages",
    "thread scheduling, futexes, epoll's waiting, clock and sleeping (simulated libc calls)",
    "the end of a server session on a lost connection (its backend rolls back and serves another)",
];
const PG_ASSUMES: &[&str] = &[
    "bugs of PostgreSQL itself are out of scope; the server does not lose what it has committed",
    "a request is executed as a whole or not at all; concurrency between server sessions is not explored",
];
const TURSO_REAL: &[&str] = &[
    "butane and butane_core as built from /repo (Turso backend)",
    "Turso 0.3, tokio runtime, the kernel's file system (a scratch directory in memory)",
    "SQLite, which reads the file back",
];
const TURSO_STUB: &[&str] = &[
    "libc's file calls: errors, short writes, full disk, death of the process (simulated)",
    "clock, randomness; the executor that polls and abandons operations; mimalloc",
];
const TURSO_ASSUMES: &[&str] = &[
    "what a process has written before it dies stays (no loss of power); a write is not cut in two by the death of the process",
    "fsync does not fail (Turso ends the process if it does)",
    "bugs of Turso itself are out of scope: pages lost by a failed insert, deleted rows counted twice",
];
const FILES_ASSUMES: &[&str] = &["what a process has written before it dies stays (no loss of power)"];

pub static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        run: solo::c01,
        quick: 30_000,
        thorough: 3_000_000,
        rule: "A case is a random session (transactions, statements, bad statements) with a random fault plan on one SQLite \
connection, compared step by step with a reference model and the disk; non-trivial = at least one transaction wrote something.",
        real: SQLITE_REAL,
        stub: SQLITE_STUB,
        assumes: SQLITE_ASSUMES,
    },
    Prop {
        id: "C02",
        run: solo::c02,
        quick: 30_000,
        thorough: 3_000_000,
        rule: "A case is a random session killed or powered off at a random disk operation, reopened and continued, up to four \
times; non-trivial = at least one crash struck.",
        real: SQLITE_REAL,
        stub: SQLITE_STUB,
        assumes: SQLITE_ASSUMES,
    },
    Prop {
        id: "C03",
        run: conc::c03,
        quick: 30_000,
        thorough: 3_000_000,
        rule: "A case is two or three clients (own processes and connections) with random scripts of autocommitted operations and transactions, interleaved at every disk operation, with crashes, restarts and I/O errors; the history must have a serial order. Non-trivial = at least two operations or transactions had an outcome.",
        real: SQLITE_REAL,
        stub: SQLITE_STUB,
        assumes: SQLITE_ASSUMES,
    },
    Prop {
        id: "C04",
        run: solo::c04,
        quick: 30_000,
        thorough: 3_000_000,
        rule: "A case is a random sequence of saves, gets, updates, deletes and queries with random faults, compared with a map \
model; non-trivial = at least three operations had an effect or a fault struck.",
        real: SQLITE_REAL,
        stub: SQLITE_STUB,
        assumes: SQLITE_ASSUMES,
    },
    Prop {
        id: "C05",
        run: solo::c05,
        quick: 30_000,
        thorough: 3_000_000,
        rule: "A case is a random sequence of edits, saves, replacements and clears of many-to-many fields of several owners with \
random faults, compared with a set-per-owner model; non-trivial = a many-to-many field was written.",
        real: SQLITE_REAL,
        stub: SQLITE_STUB,
        assumes: SQLITE_ASSUMES,
    },
    Prop {
        id: "C06",
        run: fk::c06,
        quick: 50_000,
        thorough: 3_000_000,
        rule: "Half the cases are one-client sessions on linked objects with dangling references and deletions of referenced \
objects; in the other half two or three threads use one shared foreign key and many-to-many field while another connection changes \
or deletes the referents. Non-trivial = the session had at least three effects, or a shared reference was used.",
        real: SQLITE_REAL,
        stub: SQLITE_STUB,
        assumes: SQLITE_ASSUMES,
    },
    Prop {
        id: "C07",
        run: mig::c07,
        quick: 30_000,
        thorough: 1_000_000,
        rule: "A case is a random chain of 2 to 6 migrations generated by butane from random schemas, with hand-written statements spliced in (some fail until data is mended), applied whole, in part or one by one on a synchronous or asynchronous connection under crashes, I/O errors and unreadable migrations; after every call and crash schema, record and data are compared with a model of the boundaries. Non-trivial = at least two calls changed the schema.",
        real: SQLITE_REAL,
        stub: SQLITE_STUB,
        assumes: SQLITE_ASSUMES,
    },
    Prop {
        id: "C08",
        run: mig::c08,
        quick: 30_000,
        thorough: 1_000_000,
        rule: "As C07, with mostly rolling back (all, or the last one) and migrating again from every point. Non-trivial = at least two calls changed the schema.",
        real: SQLITE_REAL,
        stub: SQLITE_STUB,
        assumes: SQLITE_ASSUMES,
    },
    Prop {
        id: "C09",
        run: mig::c09,
        quick: 30_000,
        thorough: 1_000_000,
        rule: "A case is a random chain of larger schema changes with rows written, deleted and read through butane at every boundary, and fewer interruptions; every row, value, default and constraint is compared with a model computed from the declared schemas alone. Non-trivial = at least two calls changed the schema.",
        real: SQLITE_REAL,
        stub: SQLITE_STUB,
        assumes: SQLITE_ASSUMES,
    },
    Prop {
        id: "C10",
        run: mig::c10,
        quick: 30_000,
        thorough: 1_000_000,
        rule: "A case is two or three processes that migrate one database at once, some with a shorter chain, one by one or asynchronously, interleaved at every disk operation, with crashes, restarts and I/O errors, and a watcher; the database is at a boundary whenever it is looked at, never goes back, and holds what a migrator that reports success asked for. Non-trivial = at least two calls reported success.",
        real: SQLITE_REAL,
        stub: SQLITE_STUB,
        assumes: SQLITE_ASSUMES,
    },
    Prop {
        id: "C11",
        run: files::c11,
        quick: 20_000,
        thorough: 3_000_000,
        rule: "A case is a random project of models and types whose records and migrations are written to a migrations directory, each file operation being a place where an error, a full disk, a short write or the death of the process may strike; after every call the directory is read back and compared with the same calls in memory, and the call is made again until it is done. Non-trivial = at least two calls.",
        real: FILES_REAL,
        stub: FILES_STUB,
        assumes: FILES_ASSUMES,
    },
    Prop {
        id: "C12",
        run: files::c12,
        quick: 20_000,
        thorough: 3_000_000,
        rule: "A case is two to four processes that record models and types of one project in one directory at the same time, and up to two that read it, interleaved at every file and lock operation; a quarter of the cases kill some of them. Non-trivial = something new was recorded.",
        real: FILES_REAL,
        stub: FILES_STUB,
        assumes: FILES_ASSUMES,
    },
    Prop {
        id: "C18",
        run: tur::c18,
        quick: 20_000,
        thorough: 2_000_000,
        rule: "A case is a history on one Turso connection (sometimes reopened): either twenty-odd saves, queries, deletes and \
transactions with a second connection that takes the write lock or commits in between, failing statements, up to six I/O \
faults or up to four process kills, or a pipeline of operations which are abandoned at drawn await points, across up to three \
reopenings. After every step that reports an ending the file is read back with SQLite and compared with the model. \
Non-trivial = more than three operations.",
        real: TURSO_REAL,
        stub: TURSO_STUB,
        assumes: TURSO_ASSUMES,
    },
    Prop {
        id: "C19",
        run: cmds::c19,
        quick: 12_000,
        thorough: 2_000_000,
        rule: "A case is a project with a chain of migrations and a database with rows, on which two to eight commands of the butane tool run, each a process of its own: make, detach, migrate, unmigrate, embed, add and remove a backend, regenerate, collapse, clear data, delete table, init, list. Each is interrupted by a fault or kill at a drawn file or disk operation, examined, and run again until it is complete. Non-trivial = two commands completed.",
        real: CMD_REAL,
        stub: CMD_STUB,
        assumes: FILES_ASSUMES,
    },
    Prop {
        id: "C13",
        run: asy::c13,
        quick: 20_000,
        thorough: 3_000_000,
        rule: "A case is an asynchronous connection with its worker thread, both scheduled by the simulator: either a random session compared with the reference model (as C01, C04, C05), or groups of operations issued at once on one handle and judged in order of issue, or two to three asynchronous clients whose history must have a serial order. Non-trivial = operations took effect.",
        real: ASYNC_REAL,
        stub: ASYNC_STUB,
        assumes: SQLITE_ASSUMES,
    },
    Prop {
        id: "C14",
        run: asy::c14,
        quick: 20_000,
        thorough: 3_000_000,
        rule: "A case is an asynchronous connection on which operations, also connect, begin, commit and rollback, are abandoned after a random number of polls and of scheduling steps of the worker; the set of states the database may be in is tracked and every later result and the stored data must fit one of them. Non-trivial = every case.",
        real: ASYNC_REAL,
        stub: ASYNC_STUB,
        assumes: SQLITE_ASSUMES,
    },
    Prop {
        id: "C15",
        run: conv::c15,
        quick: 30_000,
        thorough: 3_000_000,
        rule: "A case is one connection that is turned from synchronous to asynchronous and back up to four times and runs random closures (which may fail, panic, or lose their caller) between random operations and transactions; a temporary table marks the connection, and the history of all operations must have a serial order. Non-trivial = at least two operations had an outcome.",
        real: ASYNC_REAL,
        stub: ASYNC_STUB,
        assumes: SQLITE_ASSUMES,
    },
    Prop {
        id: "C16",
        run: pool::c16,
        quick: 12_000,
        thorough: 800_000,
        rule: "A case is one to three users of a real r2d2 or deadpool pool over SQLite (a quarter of them beside a second process), \
taking connections, saving, reading, ending transactions in six ways, panicking, abandoning futures and spoiling connections with \
panicking closures, under disk, lock and connection faults; non-trivial = more than three acknowledged writes.",
        real: POOL_REAL,
        stub: ASYNC_STUB,
        assumes: SQLITE_ASSUMES,
    },
    Prop {
        id: "C17",
        run: pg::c17,
        quick: 8_000,
        thorough: 300_000,
        rule: "A case is a session of one client on a synchronous or asynchronous PostgreSQL connection, with and without \
transactions, some in pipelined groups or abandoned in the middle, over a network of one of four latency profiles that cuts \
requests and answers in pieces, stalls, refuses connections and loses them before, within or after an answer, and a server that \
fails statements and commits; non-trivial = more than three operations.",
        real: PG_REAL,
        stub: PG_STUB,
        assumes: PG_ASSUMES,
    },
    Prop {
        id: "C21",
        run: mig::c21,
        quick: 3_000,
        thorough: 300_000,
        rule: "A case is a chain of two to five generated migrations on PostgreSQL, applied and rolled back, all or one by one, over a \
synchronous or asynchronous connection, with rows coming and going, hand-written statements that fail until data is mended, \
unreadable migrations, connections lost before, within or after an answer, and statements and commits that the server fails; \
non-trivial = more than one successful change of the schema.",
        real: PG_REAL,
        stub: PG_STUB,
        assumes: PG_ASSUMES,
    },
    Prop {
        id: "C20",
        run: pool::c20,
        quick: 10_000,
        thorough: 600_000,
        rule: "A case is two or three processes with kept or pooled, synchronous or asynchronous connections under a burst of up to \
23 faults (crashes of whole processes included); after its end every surviving handle and pool in turn has to work at the first \
attempt; non-trivial = more than three acknowledged writes.",
        real: POOL_REAL,
        stub: ASYNC_STUB,
        assumes: SQLITE_ASSUMES,
    },
];

pub fn find(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no check for {id}"))
}
