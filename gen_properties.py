#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

S="oxyroot/src/"
p("C01","Fixed-size columns read back exactly what was written",
 "For every sequence of values of a fixed-size type (each integer width and signedness, both floats, booleans, and fixed-length arrays of them) written to a column of a tree, reopening the file and iterating that column yields exactly the same values, bit for bit, in the same order and number. The column also reports the same number of entries and a type that the matching Rust type is accepted for. This holds for every entry count, in particular where the data ends just before, at, or just after an internal storage boundary.",
 ["inputs","histories"],
 "all fixed-size element types x all entry counts up to a bound and all counts around every storage-unit boundary x all single-bit/extreme bit patterns of the element x array lengths",
 "The tests write a handful of sequences (mostly 0..N of small positive numbers) per type, so bit patterns, entry counts at storage boundaries and most array shapes are never reached.",
 [S+"rtree/branch/wbranch.rs",S+"rtree/wbasket.rs",S+"rbytes/mod.rs",S+"rbytes/wbuffer.rs",S+"rbytes/rbuffer.rs",S+"rtree/branch/tbranch.rs",S+"rtree/leaf.rs",S+"rtree/basket.rs"],
 [("basket filling and rollover","WBranch::write / WBasket::write_to_file"),("value encoding","impl_marshalers_primitive!"),("basket decoding","TBranch::get_baskets_buffer, Branch::get_basket")],
 [("basket table","file offset, length and first entry of each flushed basket","TBranch.basket_seek/basket_bytes/basket_entry")],
 ["WriterTree::new_branch/write, RootFile::close, Branch::as_iter, Branch::entries"])
p("C02","Variable-length columns read back exactly what was written",
 "For every sequence of strings or of vectors of fixed-size elements written to a column, reopening the file and iterating yields exactly the same entries in the same order and number, including empty entries, entries around every length-encoding threshold, and non-ASCII text. Entry boundaries never move: no entry absorbs, loses or borrows bytes of its neighbours. This holds however long individual entries are and however many of them share a storage unit.",
 ["inputs","histories"],
 "all sequences of entry lengths up to a depth over a length alphabet containing every encoding threshold; all entry counts around offset-table growth and storage-unit boundaries, for strings and every vector element type",
 "Tests use a few hundred short strings/vectors; table growth, very long entries, length-prefix thresholds and mixtures are not sampled.",
 [S+"rtree/branch/wbranch.rs",S+"rtree/wbasket.rs",S+"rtree/basket.rs",S+"rtree/branch/tbranch_element.rs",S+"rtree/streamer_type.rs",S+"rbytes/mod.rs",S+"rbytes/rbuffer.rs",S+"rbytes/wbuffer.rs",S+"rtree/leaf.rs"],
 [("entry offset table","WBasket::update / Basket::raw_data"),("per-entry header","LeafElement::write_to_buffer / RBuffer::do_skip_header"),("string length prefix","WBuffer::write_string / RBuffer::read_string")],
 [("offset table","start of every variable-length entry in the unit","Basket.offsets, nev_size, nev_buf")],
 ["Branch::as_iter::<String|Vec<T>>"])
p("C03","Columns of one tree do not influence each other",
 "In a tree with several columns of arbitrary types, each column reads back exactly its own sequence, no matter which other columns exist, in which order they were declared, or how their lengths differ. The tree lists exactly the declared columns in declaration order, and its entry count equals the length of the longest column.",
 ["inputs","programs"],
 "all combinations (with order and repetition) of a set of column shapes up to a number of columns, with all length profiles over a small domain including zero and storage-boundary lengths",
 "Tests write one or a few columns with equal lengths; combinations of types, orders and unequal lengths are not covered.",
 [S+"rtree/tree/writer.rs",S+"rtree/branch/wbranch.rs",S+"rtree/tree/reader.rs",S+"rtree/tree/base.rs",S+"rcont/objarray.rs",S+"rbytes/wbuffer.rs"],
 [("round-robin writing","WriterTree::write"),("object references and class tags","WBuffer::write_object_any / RBuffer::read_object_any")],
 None,["ReaderTree::branches/entries/branch, Branch::as_iter"])
p("C04","A file is a faithful container of all the trees put into it",
 "After any sequence of tree writes to one file followed by close, reopening lists one key per written tree, in order, with the given name and with versions numbered upwards among equal names; looking a name up yields the most recent tree of that name with its own columns and data, and a name never written is reported as missing by an error. A refused write (illegal name, or a version number beyond the 32767 a key can hold) leaves every other tree intact.",
 ["histories","inputs"],
 "all sequences up to a depth of writes of trees with names from a small colliding alphabet (equal, prefix, illegal, absent) and differing contents, then all lookups",
 "Tests write one tree per file, so name collisions, ordering and lookups after several writes are not exercised.",
 [S+"riofs/file.rs",S+"riofs/dir.rs",S+"riofs/key.rs",S+"rtree/tree/writer.rs"],
 [("cycle numbering and key append","RootFile::put"),("key table written at close","TDirectoryFile::close/save_keys"),("lookup","TDirectoryFile::get_object")],
 [("key table","list of keys of the directory","TDirectoryFile.keys")],["RootFile::keys/keys_name/get_tree"])
p("C05","Written files are well-formed ROOT files",
 "Every file the library finishes writing is a structurally valid ROOT file as an independent decoder sees it: the header is consistent with the file size, the records tile the file without gaps or overlaps, every pointer (directory, key table, schema record, free list, data units) designates a record of the expected kind and exact length, and entry counts agree between tree, columns and data units. The independent decoder recovers exactly the written values from it, and the schema record describes every container type used.",
 ["inputs","histories"],
 "all files produced by the enumerated writer programs of the other properties (types x counts x combinations x tree sequences x name lengths)",
 "The library's own reader ignores most redundancy in the format, so a round trip cannot notice malformed files that other ROOT software would reject; the tests that compare with ROOT need a ROOT installation.",
 [S+"riofs/file.rs",S+"riofs/dir.rs",S+"riofs/key.rs",S+"riofs/blocks.rs",S+"rtree/wbasket.rs",S+"rtree/branch/tbranch.rs",S+"rtree/branch/tbranch_element.rs",S+"rtree/leaf.rs",S+"rtree/tree/writer.rs",S+"rdict/mod.rs",S+"rcont/list.rs",S+"rcont/objarray.rs"],
 [("record allocation at end of file","Key::new*, RootFile::set_end"),("key length computation","key_len_for"),("marshalling of every class","Marshaler impls")],
 [("end pointer and free list","next free byte","RootFileHeader.end, FreeList")],["bytes of the closed file"])
p("C06","Interrupted or truncated files are never mistaken for other data",
 "If writing is interrupted at any point, or a finished file is cut off at any length, then opening and reading it either fails or yields exactly a tree that was completely written, never missing, extra or altered entries. Once closing the file has reported success the complete file is visible to any other reader, even while the writing handle is still alive.",
 ["crash_points","histories"],
 "every prefix of the write history of enumerated writer programs, with every torn last write, and every truncation length of finished files; close observed before the handle is dropped",
 "No test interrupts a write, truncates a file, or inspects the file before the handle is dropped.",
 [S+"riofs/file.rs",S+"riofs/dir.rs",S+"riofs/key.rs",S+"rtree/wbasket.rs",S+"rtree/tree/writer.rs"],
 [("write order: data, keys, schema, free list, header last","RootFile::close"),("length-checked reads","RootFileReader::read_at")],
 None,["contents of the file on disk after each system call; RootFile::open + reads of it"])
p("C07","A write failure is reported, never swallowed",
 "If the operating system refuses or shortens any write while a file is produced, then either the library retries so that the finished file is identical, or some call (create, tree write or close) reports the failure. When create, every tree write and close all report success, the file on disk is complete and correct.",
 ["fault_sequences"],
 "every position of a failing, interrupted or short write/seek in the system-call sequence of enumerated writer programs, singly and in pairs, for several error codes",
 "Tests never see a failing disk.",
 [S+"riofs/file.rs",S+"riofs/key.rs",S+"rtree/wbasket.rs",S+"rtree/tree/writer.rs",S+"riofs/dir.rs"],
 [("error propagation","RootFileWriter::write_at and its callers"),("buffered writer flushing","RootFile::close")],
 None,["results of RootFile::create, WriterTree::write, RootFile::close and bytes on disk"])
p("C08","Read failures and short reads never change the data",
 "If reads of the underlying file are interrupted or return fewer bytes than requested, the values obtained are the same as without that; if a read or seek fails or hits a premature end, opening or iterating fails visibly and never yields altered values, and never silently ends a column early.",
 ["fault_sequences"],
 "every position of a short, interrupted, failing or end-of-file read in the system-call sequence of enumerated reader programs, singly and in pairs",
 "Tests only read healthy local files in which every read succeeds at once.",
 [S+"riofs/file.rs",S+"riofs/key.rs",S+"rtree/branch/tbranch.rs",S+"rtree/branch/tbranch_element.rs",S+"rtree/basket.rs"],
 [("exact-length reads","RootFileReader::read_at"),("failure handling in iteration","get_baskets_buffer")],
 None,["RootFile::open/get_tree, Branch::as_iter"])
p("C09","Storage layout does not change what is read",
 "The values of a column depend only on what was stored, not on how: for the same logical entries, every partition of the entries into data units, every placement of the last unit (separate record or inside the tree record), every compression algorithm (none, zlib, LZMA, LZ4) and every split of a compressed unit into blocks, and whether the units are in the file of the tree or in one the column names, gives the same sequence of values. This includes variable-length array columns written by other ROOT programs.",
 ["configurations","inputs"],
 "all compositions of up to N entries into units x codec x block partitions x element type x small and 64-bit record formats, for fixed-size, string, vector and variable-length array columns",
 "Tests read a few fixed sample files, one layout each; multi-block compression and most partitions occur in none of them.",
 [S+"rcompress.rs",S+"riofs/key.rs",S+"rtree/basket.rs",S+"rtree/branch/tbranch.rs",S+"rtree/branch/tbranch_element.rs",S+"rtree/branch/mod.rs"],
 [("decompression","rcompress::decompress"),("basket interpretation","Basket::raw_data, get_baskets_buffer")],
 None,["Branch::as_iter on crafted files"])
p("C10","A column is only readable as its own type",
 "Asking for a column with a Rust type succeeds exactly when that type is one of those corresponding to the stored type (same width, signedness, float/integer class, scalar/array/vector/string shape, and array length), and otherwise reports a type mismatch error instead of handing out reinterpreted bytes. The type name a column reports determines this, and the Rust type suggested for it is accepted.",
 ["configurations","inputs"],
 "the full matrix of stored column types x requested Rust types, for every writable type and array length in a set, under every column name class and position in the tree",
 "Tests request the right type nearly everywhere; the matrix of wrong requests is not tested.",
 [S+"rtree/branch/mod.rs",S+"rtree/branch/tbranch.rs",S+"rtree/branch/tbranch_element.rs",S+"rtree/streamer_type.rs",S+"rtree/leaf.rs",S+"rbytes/mod.rs"],
 [("type check","Branch::as_iter"),("stored type name","item_type_name, Leaf::type_name, clean_type_name"),("suggested type","type_name_cpp_to_rust")],
 None,["Branch::as_iter result, item_type_name, interpretation"])
p("C11","Readers are independent of each other and of order",
 "Any interleaving of operations on any number of iterators over the same or different columns, trees and handles of the same file yields, for each iterator, exactly the values it would yield alone; partially consumed and dropped iterators leave no trace, and iterating again gives the same values. An exhausted iterator stays exhausted.",
 ["schedules","histories"],
 "all interleavings up to a depth of create/advance/drop operations on several iterators over columns of different storage kinds, on one or two handles",
 "Tests consume each iterator once from start to end, alone.",
 [S+"rtree/branch/mod.rs",S+"rtree/branch/tbranch.rs",S+"rtree/branch/tbranch_element.rs",S+"riofs/file.rs",S+"rtree/tree/reader.rs"],
 [("per-unit private reader","RootFileReader::clone, get_baskets_buffer")],
 [("file position","shared by nobody","RootFileReader.reader")],["Branch::as_iter iterators"])
p("C12","Derived readers assemble rows from the right columns",
 "A struct with derived reading yields, row by row, exactly the values of the columns its field names and naming attributes designate (plain name, renamed, prefixed, absolute, nested struct, variable slices), each field from its own column at the same entry index. The number of rows is that of its shortest column, and a missing or differently typed column is reported rather than replaced.",
 ["programs","inputs"],
 "all struct programs over the naming-attribute grammar up to two nesting levels, against trees holding every decoy column name, with all length profiles over a small domain",
 "Tests contain a few structs with one attribute each; combinations and decoys are not covered.",
 ["oxyroot_derive/src/lib.rs",S+"rtree/tree/branch_name.rs",S+"rtree/tree/traits.rs"],
 [("generated reader","derive(ReadFromTree)"),("name composition","BranchName")],None,["ReadFromTree::from_tree iterator"])
p("C13","Derived writers store every field of every row",
 "Writing a sequence of structs with derived writing creates exactly one column per field, named after it, and row i of the columns is exactly struct i for every sequence length; reading the tree back with the derived reader gives the same sequence of structs. Several such sequences and ordinary columns can share a tree.",
 ["programs","inputs"],
 "all struct shapes over the supported field types up to a number of fields x all sequence lengths over a domain containing zero and storage boundaries x extra columns",
 "Tests write a couple of structs with a few rows.",
 ["oxyroot_derive/src/lib.rs",S+"rtree/tree/traits.rs",S+"rtree/tree/writer.rs"],
 [("generated writer","derive(WriteToTree)"),("row distribution by the per-entry callback","WriterTree::write callbacks")],None,["WriteToTree::to_tree then Branch::as_iter"])
p("C14","The writer consumes providers and calls back in a fixed order",
 "While a tree is written, for each entry every registered callback is told the entry starts, then, for each column in declaration order, every callback is told that column is next before exactly that column's provider is asked for exactly one value; every value a provider returns before its first end is stored exactly once and in order. Providers are not touched before writing begins.",
 ["histories","programs"],
 "all trees up to three columns with all length profiles up to a bound and up to two callbacks, traced event by event, including providers that would resume after ending",
 "Tests only look at the resulting values, never at the order of effects.",
 [S+"rtree/tree/writer.rs",S+"rtree/branch/wbranch.rs"],
 [("write loop","WriterTree::write")],None,["events seen by user callbacks and provider iterators"])
p("C15","Byte-level decoding is exact and never reads past its input",
 "Decoding any value from a byte sequence at any position yields exactly the big-endian, length-prefixed interpretation of those bytes, advances by exactly the bytes of that value, and changes nothing else. A value that does not fit in the remaining bytes is refused with an error, never a value made of other bytes.",
 ["inputs","histories"],
 "all sequences up to a depth of decoding operations over all small buffers built from a byte alphabet, all positions, all length prefixes around thresholds, every element type and container nesting up to two",
 "Tests decode whole well-formed files only.",
 [S+"rbytes/rbuffer.rs",S+"rbytes/mod.rs",S+"rusty/containers.rs",S+"rbytes/wbuffer.rs"],
 [("cursor reads","RBuffer::read_*"),("header skipping","RBuffer::do_skip_header"),("container decoding","Unmarshaler impls")],
 [("cursor","position in the buffer","RBuffer position/skip header")],["RBuffer and Unmarshaler public API"])
p("C16","Concurrent writers and readers do not affect each other",
 "Threads that write distinct files, read distinct files, or read the same finished file, produce exactly the files and values they would produce alone, under every interleaving of their steps. In particular the bytes of a written file depend only on what was written, not on what else the process has done.",
 ["schedules"],
 "all interleavings (bounded preemptions at every file-system call, provider and callback step) of two to three threads each running a small writer or reader program, compared byte for byte with the sequential result; plus all sequential orders",
 "Tests run concurrently only by accident of the test runner and compare nothing across threads.",
 [S+"riofs/file.rs",S+"rdict/mod.rs",S+"rdict/streamers/db.rs",S+"rtypes/factory.rs",S+"rtree/tree/writer.rs",S+"rbytes/wbuffer.rs"],
 [("process-wide id counter used as object identity","rdict id generator"),("lazily built global tables","FACTORY, streamer db, lazy_static regexes")],
 [("process-wide tables","shared by all files","rtypes::FACTORY, rdict::streamers::db")],["bytes of files and values read per thread"])
p("C17","The command-line tools report what the file contains",
 "For every tree of the file given with -f, the listing tool prints the keys of the file (class, name, title) and for each tree its columns with their types, in the order of the file; the dumping tool prints for each tree, entry by entry, the values of its columns, with None past the end of a shorter column. Objects that are not trees are passed over. An unreadable file ends with a visible failure.",
 ["inputs","configurations"],
 "both tools over a set of enumerated files (column types x counts x names x other objects) compared with the values written, and over damaged and missing files",
 "The tools have no tests.",
 ["oxyroot-ls/src/main.rs","oxyroot-dump/src/main.rs",S+"rtree/tree/reader.rs"],
 [("printing","main of each tool, ReaderTree::show")],None,["stdout and exit status of the tools"])
p("C18","Names of any admissible form survive",
 "Tree and column names of any admissible length and content, and any file path, are preserved exactly: the reopened file lists them unchanged, each column is found under its own name and only there, and its data is intact, whatever other names exist beside it.",
 ["inputs"],
 "all name lengths from 1 to beyond every length-encoding threshold for tree, column and path; an alphabet of special characters at every position of short names; pairs of names that are prefixes or extensions of each other",
 "Tests use short ASCII identifiers.",
 [S+"riofs/key.rs",S+"riofs/dir.rs",S+"riofs/file.rs",S+"rbase/named.rs",S+"rtree/tree/reader.rs",S+"rtree/branch/mod.rs",S+"rtree/leaf.rs"],
 [("key length computation","key_len_for, tstring_sizeof"),("string length prefix","WBuffer::write_string"),("lookup","ReaderTree::branch, decode_name_cycle")],None,["RootFile::keys_name, ReaderTree::branches/branch"])
p("C19","Files beyond the 32-bit size limit stay readable",
 "When the data written takes the file past two gigabytes, at whatever record the limit is crossed, the finished file reopens and every tree, column and entry reads back exactly; files below the limit use the compact record form. A column may have any number of storage units. An entry whose size cannot be stored (a string or vector of two gigabytes or more) is refused with an error; it is never stored as something else, and entries of different columns do not influence each other's limits.",
 ["inputs","histories"],
 "every kind of record (data unit, tree, key table, schema, free list) placed to cross the size limit, with entries before and after it, on a sparse storage stand-in",
 "No test writes more than a few megabytes.",
 [S+"riofs/file.rs",S+"riofs/key.rs",S+"riofs/dir.rs",S+"riofs/blocks.rs",S+"rtree/wbasket.rs"],
 [("64-bit record forms","is_big_file, rvers+1000"),("offset adjustment","WBasket::write_to_file adjust")],None,["RootFile::open + reads of the large file"])
p("C20","Files produced by ROOT decode to the stored values",
 "For every tree of every file produced by ROOT that the library claims to read, each readable column yields exactly as many values as it has entries, and these are the values an independent decoder of the ROOT format finds, whatever the compression the file was written with. The column structure reported equals the one stored.",
 ["inputs","configurations"],
 "every column of every tree of every bundled ROOT file (all compression settings, streamer-based, split and unsplit, nested containers), every entry, and every re-encoding of the same data with other layouts",
 "Tests check selected columns of these files, often only with formulae for a few entries.",
 [S+"rtree/branch/tbranch.rs",S+"rtree/branch/tbranch_element.rs",S+"rtree/streamer_type.rs",S+"rdict/mod.rs",S+"rdict/streamers/streamer_types.rs",S+"rtree/leaf.rs",S+"rtree/tree/reader.rs",S+"rcompress.rs"],
 [("schema-driven interpretation","streamer_type, header_bytes_from_type"),("record decoding","Unmarshaler impls")],None,["ReaderTree::branches_r, Branch::as_iter"])
p("C21","Column-name composition follows one rule",
 "The column name obtained by composing named parts, prefixes, absolute names and unnamed parts is, for every sequence of such compositions, the one given by the documented rule: children are joined to their parent with a dot, a prefix is put before the last part, an absolute part discards its parents, and unnamed parts add nothing. Composing never changes an already obtained name.",
 ["histories","inputs"],
 "all sequences of composition operations up to a depth over a small alphabet of names, prefixes and absolute names, compared with a reference model",
 "Tests contain a few examples of composition.",
 [S+"rtree/tree/branch_name.rs"],
 [("composition","BranchName::make_child/with_prefix/prefix")],None,["BranchName public API"])
p("C22","Containers of objects stored in files are recovered exactly",
 "Lists, maps, object arrays and strings attached to a tree (its user information) are recovered with exactly their elements, order, names and texts, whatever their nesting, their class versions and how often an object is shared or referred to again; the columns of the tree stay readable beside them.",
 ["inputs"],
 "all object graphs (lists, maps, arrays, strings, empty and nested, with references to earlier objects) up to a size bound, encoded by an independent encoder, in all class versions, with all lengths of texts, names and options",
 "One sample file with one user-info list is tested.",
 [S+"rcont/list.rs",S+"rcont/tmap.rs",S+"rcont/objarray.rs",S+"rbase/objstring.rs",S+"rbase/named.rs",S+"rbase/object.rs",S+"rbytes/rbuffer.rs",S+"rtree/tree/reader.rs"],
 [("object decoding with class tags and references","RBuffer::read_object_any")],None,["ReaderTree::user_info, RBuffer::read_object_into"])
p("C23","Operations in the wrong mode or state are refused without damage",
 "Reading operations on a file being written and writing operations on a file being read are refused with an error; no sequence of permitted and refused operations changes what the permitted ones alone would have produced.",
 ["histories"],
 "all sequences up to a depth of file operations (create, open, write tree, read tree, close) on one or two handles, compared with a reference state machine",
 "Tests only perform operations in the right order.",
 [S+"riofs/file.rs",S+"riofs/error.rs",S+"rtree/tree/writer.rs"],
 [("mode check","RootFile::reader/writer")],[("mode","reader, writer or neither","RootFileInner")],["results of RootFile and WriterTree operations; final file"])
p("C24","Reading a damaged file always comes to an end",
 "Whatever bytes a file holds, opening it, listing it, looking trees up and reading columns and user information comes to an end, with values, an error or a panic that unwinds: no endless loop, no abort, no exhausted stack (objects that contain themselves or are nested without end included), and no memory reserved for data that the file announces but does not hold.",
 ["inputs"],
 "all single-field overwrites (every width, place and value of a set) of sound files of every layout, all pieces missing, doubled or cleared, all records exchanged, pairs of fields at the beginning of records, and objects nested to any depth",
 "Tests read sound files only.",
 [S+"riofs/file.rs",S+"riofs/key.rs",S+"riofs/dir.rs",S+"riofs/blocks.rs",S+"rbytes/rbuffer.rs",S+"rbytes/mod.rs",S+"rcompress.rs",S+"rtree/basket.rs",S+"rtree/branch/tbranch.rs",S+"rtree/branch/mod.rs",S+"rtree/tree/reader.rs",S+"rcont/list.rs",S+"rcont/objarray.rs",S+"rcont/tmap.rs"],
 [("reading a stretch of the file","RootFileReader::read_at"),("decompression","rcompress::decompress"),("counts found in the file","RBuffer::count_left"),("references among objects","RBuffer::read_object_any_into / read_shared_object_any_into")],
 None,["RootFile::open/keys/get_tree, ReaderTree::branches_r/user_info, Branch::as_iter"])
p("C25","A split column read as a whole yields its parts entry by entry",
 "Reading a column that is split into parts as a whole hands out, for every entry, exactly the bytes of that entry of its parts, in the order of the parts (for a part that is itself split, those of its own parts), as many entries as the parts have, however the entries of each part are grouped into data units and wherever these are stored. A column with a part for which this is not possible (entries of varying length) is refused visibly, never handed out as other bytes.",
 ["inputs"],
 "all splits of the entries of each part into units, independently for each part, for all kinds and combinations of parts and all nestings of them",
 "Tests read one split column of one bundled file, whose parts are laid out alike.",
 [S+"rtree/branch/mod.rs",S+"rtree/branch/tbranch.rs",S+"rtree/basket.rs"],
 [("assembly of the parts","ZiperBranches"),("units of one part","TBranch::get_baskets_buffer"),("reading as a whole","Branch::get_basket")],
 None,["Branch::get_basket on a column with sub-columns"])
p("C26","Reading and writing stream through bounded resources, and give them back",
 "Reading a column entry by entry (or rows) holds in memory, and has read from the file, at any moment no more than a fixed number of the column's data units beyond the entries handed out so far, however many units the column has; writing holds no more than a fixed number of units per column, the full ones being in the file while the providers still run. The number of open file descriptors never exceeds the number of files, trees and column iterators alive (and two for a moment), however many columns a tree has; all are given back when these are dropped, whether used up, in part, not at all, or after a failure; and repeating any sequence of operations, all objects dropped in between or the same ones left alive (other than writing further trees into a file), does not make the process hold more and more memory.",
 ["inputs","histories"],
 "all sequences of open, look up, iterate, step, drop, create, write, close and failing operations to a depth; all column types and kinds times numbers of units; all numbers of columns",
 "Tests read and write small files once; they cannot see memory, descriptors or the moment at which bytes are read.",
 [S+"rtree/branch/tbranch.rs",S+"rtree/branch/wbranch.rs",S+"rtree/branch/mod.rs",S+"rtree/basket.rs",S+"rtree/tree/reader.rs",S+"rtree/tree/writer.rs",S+"riofs/file.rs"],
 [("units fetched one by one","Branch::get_basket / TBranch::get_baskets_buffer"),("units flushed when full","WBranch::write/flush"),("descriptor of each reader","RootFileReader::clone/read_at")],
 None,["heap held by the process, reads of the file, open descriptors, size of the file while providers run"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
