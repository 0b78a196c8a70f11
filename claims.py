c("C01","exhaustive enumeration of bounded writer/reader histories on the real code against a reference sequence","Holds for every enumerated column (all types, all counts to a bound and around every storage-unit boundary, all bit patterns of 8/16-bit types, single-bit and extreme patterns of wider ones); values outside the alphabet and array lengths not instantiated are not covered.")
c("C02","exhaustive enumeration of bounded sequences of variable-length entries through the real writer and reader against a reference sequence","All sequences over a length alphabet to a depth, all lengths around each encoding and storage threshold, all small vectors of each element type; longer mixes of lengths are covered only at the boundaries.")
c("C03","exhaustive enumeration of bounded column combinations (types x lengths x order) on the real code against a reference","All pairs and bounded tuples of column types with all length combinations of an alphabet.")
c("C04","explicit-state exploration of all bounded histories of tree writes on the real code, each replayed against a reference map of names to versions","All histories over a name alphabet to a depth, plus long histories; other names are covered by C18.")
c("C05","exhaustive enumeration of bounded writer programs; every produced file is decoded by an independent decoder and compared with the reference","Trusts the independent decoder, which is itself checked on every ROOT-produced sample file.")
c("C06","exhaustive enumeration of every crash point of bounded writer histories: every prefix of the recorded write sequence, every byte cut of the last write and every truncation length, each image reopened by the real reader","Process-crash model plus truncations; images are built from the write log of the real code.")
c("C07","exhaustive fault injection: every write-side system call of bounded writer programs answered with every fault of an alphabet (errors, short writes), singly and in bounded pairs","Faults are injected at the libc boundary of the real code.")
c("C08","exhaustive fault injection: every read-side system call of bounded reader programs answered with every fault of an alphabet (errors, short reads, premature end), singly and in bounded pairs, against the fault-free reading","Faults are injected at the libc boundary of the real code.")
c("C09","exhaustive enumeration of storage layouts (all splits into units up to a bound x embedded last unit x codec x block structure x class versions x pointer width) of every column kind; each layout is generated by an independent writer bound to the strict parser and read by the real reader","Codecs zlib, lzma, lz4 and none (the library supports no other); columns with several leaves or generated offsets are refused by the library and not covered.")
c("C10","exhaustive enumeration of the stored-type x requested-type matrix on the real reader against the reference correspondence","All writable types and array lengths, all foreign column kinds of C09 and all columns of the bundled ROOT files against about 180 requested types; types outside the table are not requested.")
c("C11","stateless exploration of all interleavings of iterator operations on the real reader up to a depth, each compared with the iterator run alone","All pairs of sources with full interleavings, triples with shorter ones, all operation sequences to a depth with two iterators and handle operations; one thread.")
c("C12","exhaustive enumeration of all struct programs of a naming-attribute grammar (to two nesting levels, slices included), run on the real generated readers against a reference naming rule over trees holding every decoy name, and of all length profiles","About a thousand derived structs; attribute tokens are fixed strings; field types beyond those instantiated are covered by C10 only.")
c("C13","exhaustive enumeration of struct shapes, sequence lengths and companions written by the real generated writers, compared with the sequence of structs","All pairs and triples over small type sets, nested shapes to three levels, arrangements with other sequences and columns over a length domain.")
c("C14","exhaustive enumeration of bounded writer programs (column counts, types, length profiles, callbacks and places of registration, providers that go on after their end) on the real writer; the full trace of callbacks and provider requests is compared with the specified one","All length profiles to a bound for up to three (four) columns and two (three) callbacks; the values stored are re-read.")
c("C15","exhaustive enumeration on the real decoder: every byte string to a length over an alphabet, every announced element count, every sample encoding cut at every byte, every sequence of decoding operations to a depth on one buffer; each operation compared with an independent interpretation of the bytes","Alphabet of ten byte values for arbitrary strings; containers with headers inside maps are covered by C09 and C20.")
c("C16","stateless exploration of thread schedules on the real code: all histories to a depth in one process; all schedules with one switch at any file operation, provider request, call or allocation; bounded schedules with two and three switches, alternations and three threads; each result compared with the program run alone in a fresh process","Instructions between two scheduling points are atomic for the exploration; first-use initialisation is not raced.")
c("C17","exhaustive enumeration of bounded files (column types, counts, names, trees, other objects, damage) given to the real tools; the whole output and the exit status are compared with a reference listing of what was written","The tools have one option each, the file; every column kind the tools can print and those they announce as unsupported are covered.")
c("C18","exhaustive enumeration on the real code of names by length (around every length encoding), by sign (every printable ASCII sign and twenty others at every place), of all short words over the signs with a meaning in the format, and of all pairs and triples of related names, each compared after reopening with what was written","Names of trees, columns and files; the contents beside them are small.")
c("C20","exhaustive comparison of the real reader with an independent decoder on every entry of every column of every bundled file written by ROOT, and on all layouts within bounds (units, embedded unit, codecs, blocks, class versions, pointer widths) of stretches of their contents, written by an independent writer","The files are the bundled ones; columns of unsplit user classes are not read by the library; stretches of 12 (40) entries are laid out anew.")
c("C21","explicit-state enumeration of all sequences of composition operations to a depth, and of all ways to derive several names from one another, on the real type against a reference model of three strings","Alphabets of twelve operations (chains) and five to eight (several values); longer chains only periodic.")
c("C22","explicit-state enumeration of all object graphs to a size (lists, maps, arrays, strings, references to earlier objects, empty places), each encoded by an independent encoder and decoded by the real code, compared element by element","Graphs of up to five (six) objects exhaustively, larger ones by depth and width; no cycles; other classes are refused by the library and not covered.")
c("C23","explicit-state enumeration of all sequences of file operations to a depth on one and two handles, replayed on the real code beside a reference state machine; final files compared byte by byte with those of the permitted operations alone","Sequences to five (seven) operations on one handle, four (five) on two; the contents are small trees.")
c("C19","exhaustive enumeration of the places at which bounded writer programs cross the 32-bit limits (every byte offset of every record near its boundaries, every limit), of entry sizes around the 32-bit limits and of numbers of units, on the real code over a file kept as holes, against the reference sequence and the independent decoder","Programs of a few small trees; between record boundaries only offsets near them are taken, as the library compares positions at record boundaries only.")
c("C24","exhaustive enumeration of damage to sound files (every field width at every place with every value of a set, every piece missing, doubled or cleared, every record in the place of another, pairs of fields), each damaged file read completely by the real reader under limits of time, memory and stack","Fourteen files at most, of 1 to 8 kB; damage to one place, and to two within a record's beginning; arithmetic as in a release build.")
c("C25","exhaustive enumeration of the layouts of split columns (kinds, number and nesting of parts; every split of the entries of each part into units, last unit embedded or not, codecs) written by an independent writer, each read as a whole by the real reader and compared byte by byte with the parts","Up to five (six) parts, four entries; with three or more parts the layouts are complete for each pair of parts; longer columns with regular units only.")
c("C26","exhaustive enumeration on the real code of histories of operations to a depth (descriptors counted after every operation, memory after every repetition) and of column types and kinds, numbers of units and numbers of columns; every allocation, every read of the file and every file operation is observed","Histories of five (six) operations on one file read and one written; up to 40 (80) units and 1100 (3000) columns; a growth of the memory held with the number of units of less than 400 bytes a unit (the tables of the units) is permitted.")
