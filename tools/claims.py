claim("C01","fault_enumeration","exhaustive enumeration of streams and read splits against a reference scanner","Every stream over a marker alphabet up to a bounded length, every read chunking/fault position in the bound, on the real scanner; assumes streams outside the alphabet behave like those in it.")
claim("C02","exploration","exhaustive enumeration of documents within stated bounds on the real encoder and decoder","Every document of the bounded space goes through the real encoder and decoder; values outside the per-type alphabets are not explored.")
claim("C03","exploration","exhaustive enumeration of documents and output forms, judged by an independent RDF reader and a reference encoder","Every document of the bounded space is written by the real encoder and read by an independent RDF/XML reader; the expected properties come from a reference encoder over a golden schema.")
claim("C04","exploration","exhaustive enumeration of serialization forms (bounded products of nine dimensions) read by the real decoder","An independent RDF/XML writer renders every document of the bounded space in every form; all forms must decode to the document the first form decodes to.")
claim("C05","exploration","exhaustive enumeration of unknown content at every place of a document, judged by an independent RDF reader","Unknown values of twenty shapes are put at every place the bounded space of documents offers and must survive decode and encode, or be refused inside known structures.")
claim("C06","exploration","exhaustive enumeration of documents and JSON serializations, compared with the XML trip by independent readers","Every document of the bounded space is taken through JSON in six serializations and compared with the XML trip (itself decided by C02-C05).")
claim("C07","exploration","exhaustive enumeration of documents, listing compared with a reference lister, read back and rebuilt","Every document of the bounded space is listed by the real code; the expected list comes from a reference lister over the golden schema, and every listed path is read back and set on an empty document.")
claim("C08","exploration","exhaustive enumeration of path, state, value and flags against the documented flag table, and breadth-first exploration of update sequences","Every single-valued path of every model is set in every state to every text of its alphabet under all flag combinations on the real code; sequences over groups of related paths are explored to a bounded depth against a map.")
claim("C09","exploration","breadth-first exploration of update sequences on every list path against a reference list","Every list path of every model (and user-defined, unknown and extension lists) is explored on the real code under every update sequence up to a bounded depth and list length, beside a plain list.")
claim("C10","exploration","breadth-first exploration of operation histories of every array type against a list; exhaustive enumeration of small language alternatives","Every operation sequence up to a bounded depth and length runs on the real types beside a plain list; alternatives of up to four items are built and decoded in every way.")
claim("C11","exploration","exhaustive enumeration of source state, destination state, flags and converters, and of merged document pairs, against the documented flag table","All pairs of paths of every kind are synchronized on the real code in all states under all 64 flag sets; every pair of small documents is merged and compared path by path with what the flags allow.")
claim("C12","exploration","breadth-first exploration of operation sequences on a document against a reference list; exhaustive enumeration of filter expressions and registration sequences","Every sequence of name space operations up to a bounded depth runs on real documents beside a list; every filter of up to two terms over all groups and names is applied; every bounded sequence of registrations is looked up.")
claim("C13","fault_enumeration","exhaustive enumeration of size limits and of writer faults at every byte of every output, in every encoding mode","Every limit around the size and every failing or short write position is injected into the real encoder for a family of documents; delivered bytes are compared with the full output.")
claim("C14","fault_enumeration","exhaustive enumeration of deliveries (cuts, pairs of cuts, steps), truncations and reader failures at every byte; exhaustive enumeration of small element trees","Every document of a family is delivered to the real decoder in every chunking, cut short and failed at every byte; every element tree up to a bounded size is accepted exactly when a reference says it is an XMP document.")
claim("C18", "exploration", "Bounded exhaustive enumeration on the real code: every value of a grid of every scalar type through every channel (text, JSON, element, attribute, document JSON, path) and every text of a bounded edit space, against independent readings of each text form.", "about 5 million evaluations quick, 19 million thorough")
claim("C15", "exploration", "Bounded exhaustive enumeration on the real code: all texts of an edit space per scalar type, all small element trees and JSON values in every property type, all single-byte edits of sample documents, all short paths, filters, flags, tags and nesting depths, each in a contained process with panic, crash, hang and memory detection and a canary document.", "about 420,000 inputs quick")
claim("C19", "exploration", "Bounded exhaustive enumeration on the real code: all pairs and triples of a version grid, all short version texts, every form of version flag on every kind of field under every selected version, all pairs of same-named fields, a registered nested model and all built-in models, against a component-wise reference.", "about 72,000 evaluations quick, 620,000 thorough")
claim("C17", "exploration", "Bounded exhaustive enumeration on the real code: all sequences of operations on two documents up to a depth, each compared with the documents' own histories run in isolation; all copies of all properties of all models under in-place edits, closing and node reuse; all short sequences of documents through one encoder or decoder.", "about 70,000 sequences and copies quick, 1 million thorough")
claim("C22", "exploration", "Bounded exhaustive enumeration on the real code: all value and presence patterns of every pair of linked properties, of every two pairs and every two models that share one, and of full models with each property left out, in both model orders, synchronized directly, by writing, listing and reading, against a reference interpreter of a table of the links; models recording their calls in every order and with every error.", "about 470,000 evaluations quick")
claim("C21", "exploration", "Bounded exhaustive enumeration on the real code: every sequence of observing operations over a corpus of documents covering every property and shape of unknown content, compared with the settled document, and every sequence of formats written and read again up to a length.", "about 530,000 evaluations quick")
claim("C20", "exploration", "Exhaustive enumeration of (model, native tag, text, prior state), of pairs of tags, of all strings in the neighbourhood of the tags and of tag histories on the real code; every result is compared with a golden table of tags and an independent reading of the property's type.", "Bounded by the text alphabet per type, histories of 2 tags (3-4 for unknown tags) and three prior states per tag.")
claim("C23", "exploration", "Bounded exhaustive enumeration on the real code: every kind of field (scalars, lists, structures, pointers, interfaces, custom marshalers with value and pointer receivers) under every combination of tag flags with every value of an alphabet, every ordered pair of nested field definitions in structures built at run time, all embedding forms, failing marshalers at every place and native tags, written and read in XML and JSON and compared with a reference reading of the tags.", "about 78,000 evaluations quick, 234,000 thorough")
claim("C24", "exploration", "Bounded exhaustive exploration of the real code under a controlled source of nondeterminism: the library is rebuilt with every map iteration (found by type, at check time) asking the explorer for its order; every order of small maps, for all iterations together, for all at one place and for single ones, over scenarios of decoding, encoding, merging, editing, filtering and synchronizing, and every order of the members of JSON objects; results compared with the canonical order's.", "about 320,000 runs, 20 million ordered iterations quick")
claim("C16", "model_checking", "Stateless model checking of the real code: the library is rebuilt with a decision point before every statement that touches mutable package-level state, channels or sync (found by type, at check time); every schedule of every pair and of triples of 20 kinds of work on independent documents up to a preemption bound is executed, results compared with the sequential ones, each execution watched by a happens-before race detector that does not see the scheduler's handovers, with deadlock detection (writer-preferring locks).", "about 370,000 schedules quick (bound 2 for short pairs, 1 otherwise and for short triples), 3 preemptions for short pairs thorough. Trusts the Go race detector and the instrumenter.")
claim("C25", "model_checking", "Breadth-first exploration of the real code: every sequence of media management operations (version and instance ids, recorded changes, versions and events by hand, self references, pantry copies, changes of the copied document, XML and JSON trips) up to a depth, compared after every operation with a plain record of what was recorded.", "about 326,000 transitions and 112,000 states quick")
