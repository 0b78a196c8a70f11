#![allow(dead_code)]
mod app;
mod check;
mod col;
mod core;
mod dynread;
mod eng;
mod io;
mod rootr;
mod sched;

#[allow(dead_code)]
mod rootw;

use crate::core::*;

#[global_allocator]
static ALLOC: sched::Alloc = sched::Alloc;

fn engines() -> Vec<Engine> {
    let d = Engine {
        id: "",
        run: |_| {},
        hang_s: 120,
        mem_mb: 4000,
        workers: 8,
        what: "",
        assumptions: &[],
        budget_s: (400, 800),
    };
    macro_rules! e {
        ($id:literal, $m:ident, $what:literal, $ass:expr) => {
            Engine { id: $id, run: eng::$m::run, what: $what, assumptions: &$ass, ..d }
        };
    }
    vec![
        e!("C01", c01, "each case writes one fixed-size column with the real writer and reads it back with the real reader; the reference is the written byte sequence; states are distinct (type, unit count, contents) columns, transitions the values written and read", ["file system behaves as POSIX", "array lengths limited to the instantiated set"]),
        e!("C02", c02, "each case writes one variable-length column with the real writer and reads it back with the real reader; the reference is the written sequence; states are distinct sequences, transitions the values written and read", ["file system behaves as POSIX"]),
        e!("C03", c03, "each case writes one tree with several columns and reads every column back; states are (type, length) tuples", ["file system behaves as POSIX"]),
        e!("C04", c04, "each case is one history of tree writes replayed on the real file and on a reference map from names to versions; keys, versions, lookups (also of absent names) and contents compared; states are the reachable reference states", ["file system behaves as POSIX"]),
        e!("C05", c05, "each case is one writer program; the resulting bytes are decoded by the independent decoder and compared with the reference; transitions are structural facts and entries checked", ["the independent decoder (harness/src/rootr.rs) is right; it is validated on all ROOT-produced sample files by C20"]),
        e!("C06", c06, "each case records the system-call history of a writer program and examines one file image per crash point, torn write length or truncation length with the real reader; states are the images", ["a crash leaves a prefix of the issued writes, the last one possibly partial (process crash, or storage that keeps write order); reordering of writes by a power failure is outside the property"]),
        e!("C07", c07, "each case replays a writer program once per (operation, fault) pair with the C library calls replaced; states are the fault plans, transitions the system calls executed", ["the writer reaches the file through the intercepted C library calls (checked: every planned fault must fire)"]),
        e!("C08", c08, "each case replays a reader program once per (operation, fault) pair with the C library calls replaced; the reference is the same program without faults; states are the fault plans", ["the reader reaches the file through the intercepted C library calls (checked: every planned fault must fire)"]),
        e!("C09", c09, "each case writes files with an independent writer of the format, one per layout (split into units, embedded unit, codec, compression blocks, class versions, pointer width), and reads every column with the real reader; states are the layouts", ["the independent writer follows the ROOT format (cross-checked: the harness's strict parser, itself run over every ROOT-written sample, decodes its files to the same values)"]),
        e!("C10", c10, "each case requests one stored column as every Rust type of a table of about 180 and compares acceptance with the stored type; states are the (type, name, position, size) combinations, transitions the requests", ["a Rust type the harness does not instantiate behaves like its generic neighbours"]),
        e!("C11", c11, "each case runs all interleavings (or all operation sequences to a depth) of a set of iterators over one file, each replayed from the start on the real reader; states are the schedules, transitions the iterator operations", ["iterators are driven from one thread (C16 covers several)"]),
        e!("C14", c14, "each case writes trees with every length profile, callback count and registration place, logging every callback and provider request; states are the distinct event traces, transitions the events", ["callbacks and providers observe the writer only through their own calls"]),
        e!("C15", c15, "each case performs decoding operations on byte strings (every operation at every position of every enumerated string; every sequence of operations to a depth on one buffer) and compares value, new position and acceptance with an independent interpretation; states are the strings and (position, operation) pairs, transitions the operations", ["byte strings longer than the enumerated ones only matter through the lengths and values sampled at every encoding threshold"]),
        e!("C16", c16, "each case runs one program after every history of operations in the same process, or several programs in real threads under every schedule of a bounded class (scheduler with hand-over at file operations, provider requests, calls and, for one switch, every allocation); results are compared with the program run alone in a fresh process; states are histories and schedules, transitions operations and scheduling points passed", ["instructions between two scheduling points are executed without switching", "one-time initialisation of the library takes place before threads are scheduled"]),
        e!("C17", c17, "each case runs the two command-line tools, built from the working tree, on one file and compares everything they print with the contents of the file (or checks that they fail with a message); states are the files, transitions the printed entries compared", ["values of foreign files are those the library reads (decided by C09 and C20)"]),
        e!("C18", c18, "each case writes trees whose names, column names or path have one form, and reads everything back: names listed, found under their own name and version and only there, contents, and the structure of the file read by the independent decoder; names with signs the format uses itself may be refused with an error instead; states are the sets of names", ["file names are those the file system accepts"]),
        Engine { mem_mb: 24000, ..e!("C19", c19, "each case lets one particular byte of the output of a program (or the end of the file) fall on a size limit, on a file whose filling is kept as holes; the finished file is reopened and compared value by value, and examined by the independent decoder; states are (limit, program, record, byte), transitions the facts and values compared", ["the file system keeps holes; single records stay below two gigabytes"]) },
        e!("C20", c20, "each case decodes a column of a file written by ROOT (or a stretch of it laid out anew by an independent writer) with the independent decoder and compares names, nesting, types and every value the library yields; states are columns and layouts, transitions the values compared", ["columns of user-defined classes that are not split are not read by the library"]),
        e!("C21", c21, "each case composes names by every sequence of operations of a class and compares every name obtained, at once and again after it was used further, with a reference made of three strings; states are the distinct reference values, transitions the operations", ["names are fixed strings of a small alphabet"]),
        e!("C22", c22, "each case encodes graphs of objects with an independent encoder, one tree for each graph, and compares every element, name, text and key the library reaches from the trees with the model, with columns read besides; states are the distinct graphs, transitions the objects compared", ["no object contains itself; keys of maps are strings and differ within a map"]),
        e!("C23", c23, "each case replays every sequence of file operations of a class on real handles and files beside a reference state machine, which says what must be accepted and refused; at the end files are compared byte by byte with files written without the refused operations, trees obtained are read, and trees refused are written elsewhere; states are reference states", ["one thread; a file is not created anew while it is read"]),
        e!("C24", c24, "each case damages a sound file in every way of a class (fields of every width overwritten at every place with every value of a set, pieces missing, doubled or cleared, records exchanged, two fields at once) and lets the real reader open, list and read all of it; it must come to an end (with values, an error or a panic), within time and memory limits; states are the places, transitions the damaged files", ["a process may use four gigabytes of address space","at most 32 MB of memory are needed at once for files of a few kilobytes"]),
        e!("C25", c25, "each case writes files with a column split into parts (of every kind, nested, with their own units) with an independent writer and reads the column as a whole with the real reader; the bytes handed out for each entry are compared with those of the parts; states are the layouts, transitions the entries", ["all parts have the same number of entries"]),
        e!("C26", c26, "each case reads or writes columns of growing numbers of units under a meter of the memory held and of the bytes read and written, or replays every history of operations of a class with the descriptors counted after each; states are (kind, units) and the histories, transitions the entries and operations", ["memory is what the program requests from the allocator", "a unit and what is made of it may be held several times over; the bound is that this does not grow with the number of units"]),
    ]
}

fn main() {
    app::main(engines())
}
