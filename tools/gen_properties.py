#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or [], "hook_needed": hook}})

RF = "matchit/src/searchable/readfallbackit.rs"; SI = "matchit/src/searchable/searchit.rs"; GR = "matchit/src/searchable/grepit.rs"
LIB = "matchit/src/lib.rs"; V1 = "rapiddlt/src/dlt_v1.rs"; BUF = "rapiddlt/src/dltbuffer.rs"; RIP = "ripdlt/src/main.rs"; DD = "dd_dlt/src/main.rs"

p("C01", "Sequential reading recovers exactly the intact messages of any byte stream",
  "Reading a buffer sequentially yields, in file order and each exactly once, every DLT message that starts with a marker outside the previously yielded message and whose announced length is at least its header and fits in the buffer; bytes before, between and behind such messages (garbage, partial markers, messages with a corrupt or truncated header) are skipped and never cost a later intact message. "
  "Each yielded message carries its true offset and refers to exactly its own bytes of the buffer. Reading starts at any requested offset, always ends, never crashes, and once it has ended stays ended.",
  ["inputs"], "every byte stream (any arrangement of valid, nested, overlapping, truncated and corrupt messages and garbage) and every start offset",
  "The tests read a handful of clean files, one file with three text lines of garbage in it and one buffer without any message; they never place a corrupt length, a partial marker or a truncated message in front of a good one.",
  [RF, V1, LIB], [("ReadFallbackIterator::next", RF), ("try_read / DltEntry::try_read length checks", V1), ("dltit, dltit_offset", V1)],
  [{"name": "offset", "meaning": "read cursor in the buffer", "where": RF}], ["Iterator::next of dltit / dltit_offset / ReadFallbackIterator"])
p("C02", "Forward marker search finds every message a sequential reader finds",
  "The forward searching reader, started at any offset of any buffer, yields exactly the non-overlapping valid messages in file order with their true offsets, resuming behind each yielded message and behind each marker that does not start a valid message. It always ends in time proportional to the data, never crashes, and once ended stays ended.",
  ["inputs"], "every byte stream and every start offset",
  "Tests use four repetitions of one clean 8- to 16-byte pattern; no invalid marker, no long marker-free stretch and no call after the end.",
  [SI], [("SearchIterator::next / search", SI)], [{"name": "offset", "meaning": "search cursor", "where": SI}], ["Iterator::next of SearchIterator"])
p("C03", "Backward marker search lists every valid marker position, last to first",
  "The backward searching reader, started at any offset of any buffer, yields every position before that offset where a complete marker starts a valid message, from the last to the first, each once, including messages nested in the payload of others. It always ends, never crashes, and once ended stays ended.",
  ["inputs"], "every byte stream and every start offset",
  "Tests use four repetitions of one clean pattern started at the buffer end, and never call next after the end.",
  [SI], [("RevSearchIterator::next / search", SI)], [{"name": "offset", "meaning": "exclusive upper bound of the search; usize::MAX means exhausted", "where": SI}], ["Iterator::next of RevSearchIterator"])
p("C04", "Optional header fields and payload are decoded at their exact positions",
  "For every message, the ECU id, timestamp, extended header and payload are taken from exactly the bytes that the header-type flags assign to them (optional fields in the order ECU id, session id, timestamp, extended header; multi-byte numbers big-endian), never from outside the message. A field whose flag is off, or that the message is too short to hold, is reported as absent; asking for any field never crashes.",
  ["inputs"], "all 256 header types x all message lengths around every field boundary x all alignments and trailing bytes, and field values",
  "Two concrete messages are decoded in the tests, both with timestamp and extended header and without ECU or session id; no short message is.",
  [V1], [("DltEntry::ecu_id / timestamp / extended_header / payload", V1), ("DltHTyp flag accessors", V1)], None, ["DltEntry accessors"])
p("C05", "Message info byte encodes and decodes every log/trace/network/control type",
  "Decoding the message-info byte gives its lowest bit as verbosity, the next three bits as message type and the upper four bits as type-specific info, with no result for a type or info value that the DLT standard does not define. Creating a message info for any verbosity and any defined type and info gives the byte that decodes back to exactly these values.",
  ["inputs"], "all 256 byte values and all verbosity x type x info combinations",
  "No test decodes or creates a message info at all.",
  [V1], [("MessageType::message_type / is_verbose / info", V1), ("MessageType::create_message_type", V1), ("DltMessageInfoMask", V1)], None, ["MessageType API and its serialised byte"])
p("C06", "Headers built by the library serialise to the DLT wire format and read back",
  "A storage header, standard header, header type or extended header built from any field values serialises to the DLT v1 byte layout (storage header times little-endian, standard header length big-endian, flags and version in their bits), and a message assembled from such headers reads back with exactly the field values, length and payload it was built from.",
  ["inputs"], "all header-type flag and version combinations, all 65536 lengths, all counters, boundary values of times and ids",
  "No test builds a header and reads it back.",
  [V1], [("DltHTyp::new", V1), ("DltStorageHeader::new / DltStandardHeader::new / DltExtendedHeader::new", V1), ("repr(C) byte layout", V1)], None, ["as_bytes of the headers, DltStorageEntry::try_read"])
p("C07", "Partitioning a buffer loses, duplicates and reorders no byte",
  "For every buffer and every requested number of partitions of at least one, the partitions in order are contiguous and together are exactly the whole buffer, none of them empty. Partitioning always ends, in reasonable time even when messages embed other messages, and never crashes.",
  ["inputs"], "every byte stream and every partition count >= 1, including counts larger than the number of messages or bytes and messages larger than a partition",
  "Tests check the summed length for one 4.4 GB file of tiny messages with 215 partitions; no message is ever larger than a partition, no remainder is left at the end, no embedded message crosses its container's end.",
  [LIB, BUF], [("partition_from", LIB), ("ContainedBySearch::contained_by", LIB), ("DltBuffer::partition", BUF)], [{"name": "candidate", "meaning": "start and tentative end of the next partition", "where": LIB}], ["DltBuffer::partition / partition_from result"])
p("C08", "No message spans two partitions: reading the parts equals reading the whole",
  "For every buffer and every partition count, reading the partitions one after the other sequentially yields exactly the messages, at the same absolute offsets and in the same order, that reading the whole buffer yields. In particular no partition boundary falls inside a message, and no message embedded in another one's payload is surfaced by partitioning.",
  ["inputs"], "every byte stream (clean, garbage, nested and overlapping messages, maximum-size messages) and every partition count",
  "Tests compare only the number of messages for two generated files and two partition counts.",
  [LIB, BUF, V1], [("partition_from", LIB), ("ContainedBySearch::contained_by", LIB), ("max_len look-back window", V1)], None, ["partition result read with dltit"])
p("C09", "Partitioning delivers the requested number of parts when messages are small",
  "Whenever every message is small compared with a partition, the buffer is divided into exactly the requested number of partitions, and every partition but the last has the requested size up to one message length. Parallel processing therefore really gets the slices it asked for.",
  ["inputs"], "all streams of small messages and all partition counts for which count x (longest message + 1) is at most a quarter of the partition size",
  "No test looks at the number or the size of the partitions.",
  [LIB], [("partition_from step and stop rule", LIB)], None, ["partition_from result"])
p("C10", "The containing message of a byte range is found exactly, at any nesting",
  "For every buffer and byte range, the containment query returns the outermost message, as sequential reading from the start of the buffer would delimit it, that starts before the range and includes all of it, and returns nothing if there is none. It ends in reasonable time for any nesting or chain of overlapping embedded messages and never crashes.",
  ["inputs"], "every byte stream, in particular recursively nested and overlapping messages and messages of maximum length, and every byte range",
  "It is only exercised through partition counts of two files whose embedded messages all end inside their containers.",
  [LIB, V1], [("ContainedBySearch::contained_by", LIB), ("max_len", V1)], None, ["ContainedBySearch::contained_by"])
p("C11", "Pattern search over raw data reports each matching message exactly once",
  "Searching a buffer whose messages embed no further markers for a pattern reports, in file order and each exactly once, precisely the messages that contain a match lying entirely within the message behind its marker (and behind the start offset); matches in garbage or reaching over a message end add nothing and hide nothing. The search always ends, for every pattern including one that matches the empty string.",
  ["inputs"], "every stream of messages, garbage and corrupt headers without nested markers, every start offset, literal and greedy patterns",
  "Tests count one literal in a real file and in two tiny buffers; no match crosses a message boundary and no greedy pattern is used there.",
  [GR, SI], [("GrepIterator::search / next", GR), ("RevSearchIterator::search", SI)], [{"name": "offset", "meaning": "end of the last reported message", "where": GR}], ["Iterator::next of GrepIterator / DltGrepIterator"])
p("C12", "Capture search reports one capture per matching message and skips none",
  "Searching a buffer without nested markers with a capturing pattern reports, for each message containing a match, in file order and exactly once, the message offset together with the absolute byte range of the first capture group of the first match inside that message; a message whose first match leaves the group out is not reported. It always ends and never skips a later matching message.",
  ["inputs"], "every stream without nested markers, every start offset, capturing patterns, also such whose first group need not take part in the match",
  "No test uses the capturing search.",
  [GR], [("RegExMatcherIterator::capture / next", GR)], [{"name": "offset", "meaning": "where the next match is searched", "where": GR}], ["Iterator::next of RegExMatcherIterator"])
p("C13", "Grouping splits any sequence into its maximal runs of related neighbours",
  "Grouping a sequence by a relation yields, in order, one (first, last) pair per maximal run of consecutive elements in which each element is related to its successor; a run of a single element is yielded if and only if the element is related to itself. No element is dropped or used twice, whatever the relation (reflexive or not, symmetric or not, transitive or not).",
  ["inputs", "histories"], "every relation and every input sequence",
  "Tests count the groups of one ten-element sequence under one reflexive relation.",
  ["matchit/src/generator/groupby.rs"], [("GroupBy::adapt / finalize", "matchit/src/generator/groupby.rs")], [{"name": "GroupByState", "meaning": "no, one, or first and last element of the open run", "where": "matchit/src/generator/groupby.rs"}], ["Generator::groupby, FromAdaptFnCall::groupby"])
p("C14", "Merging leaves nothing mergeable and is independent of arrival order",
  "After merging a sequence of values, no two remaining values can be merged any further, every input is covered by a remaining value, and nothing remains that is not built from inputs; for overlapping intervals the result is exactly the set of connected unions whatever the order in which the intervals arrive. The results are delivered once each, in key order.",
  ["inputs", "histories"], "every sequence (hence every order) of intervals and of keyed values",
  "The two tests that use merge only print the result.",
  ["matchit/src/generator/groupby.rs"], [("Merge::adapt / finalize", "matchit/src/generator/groupby.rs")], [{"name": "map of merged values", "meaning": "current set of merged values by key", "where": "matchit/src/generator/groupby.rs"}], ["Generator::merge(..).collect()"])
p("C15", "Every adapter and reducer pipeline computes the composition of its stages",
  "Feeding any sequence through any chain of filter, map, groupby and merge stages into any reducer (fold, count, sum, collect, split by key, fork, and nestings of them) and finalising gives exactly what applying the stages one after the other to the whole list and then reducing gives: every element reaches every stage and reducer exactly once, in order, including those that stages release only at finalisation.",
  ["inputs", "histories", "programs"], "every pipeline shape and every input sequence",
  "Tests run a dozen fixed one- or two-stage pipelines on one input each; none chains two stages that release elements at finalisation.",
  ["matchit/src/generator/adapter.rs", "matchit/src/generator/reducer.rs", "matchit/src/generator/generator.rs", "matchit/src/generator/groupby.rs"],
  [("Adapter::adapt / finalize", "matchit/src/generator/adapter.rs"), ("Reducer::next / finalize, Split, Fork, Fold", "matchit/src/generator/reducer.rs")], None, ["ReducerTrait::finalize"])
p("C16", "Pull-based adapters give the same results as push-based ones",
  "Attaching a grouping, merging, filtering or mapping stage to an iterator yields lazily exactly the elements, in the same order, that pushing the same input through the same stage yields, including those released at the end of the input; splitting an iterator by key gives the same map as the push-based split. After the last element the iterator keeps reporting the end.",
  ["inputs", "histories"], "every input sequence, relation, key function and stage chain",
  "One test counts the groups of one sequence.",
  ["matchit/src/fromgenerator.rs"], [("FromAdaptFn::next", "matchit/src/fromgenerator.rs"), ("FromAdaptFnCall::groupby / split", "matchit/src/fromgenerator.rs")], None, ["FromAdaptFn iterator, FromAdaptFnCall::split"])
p("C17", "Memory-mapped and buffered access expose identical, complete file contents",
  "Opening any regular file, the empty one included, by memory mapping and by reading gives buffers with the same length and bytes, equal to the contents the file has when it is opened, whatever was opened or done to files of this name before and however often files are opened; a buffer keeps its contents when the file is later replaced or deleted, and dropping it releases what it used; a file that cannot be opened gives an error, from both. A pipe or a file of /proc, which does not tell its length, gives everything that can be read from it.",
  ["inputs", "configurations", "histories"], "every file size around page and buffer boundaries (0, 1, 4095..4097, 8191..8193, ...) and contents, both access methods, every sequence of changes of a file and openings",
  "Tests compare the length of one 4.4 GB file for both methods.",
  [BUF], [("DltBuffer::mmap_file / read_file / len / as_slice", BUF)], None, ["DltBuffer"])
p("C18", "A buffered read returns the whole file or an error, whatever the read calls do",
  "When the operating system delivers a file in short pieces or interrupts the reads, reading it still returns the complete contents; when any read fails, opening the buffer reports the error instead of returning a truncated buffer as if it were the file.",
  ["fault_sequences"], "every sequence of read outcomes (full, short, interrupted, failing) at every read call of the load",
  "No test injects a read fault; the file system always delivers everything.",
  [BUF], [("DltBuffer::read_file", BUF)], None, ["DltBuffer::read_file result; ripdlt read ..."])
p("C19", "ripdlt counts and size/type histograms are exact",
  "For every DLT file, by either access method, the message count, the payload-size, message-size and message-type histograms printed by ripdlt are exactly the numbers that follow from the intact messages in the file: each message (with an extended header, for the type histogram) is counted in exactly one bucket, and per-bucket and total sizes are the sums of the sizes counted.",
  ["inputs", "configurations"], "every sequence of messages of every kind, with garbage, and both access methods",
  "The binary's tests call one lifecycle function on one file and an inline copy of the substring search; no histogram is tested.",
  [RIP], [("count, histogram_payload, histogram_message, mstp_info_histogram", RIP), ("main printing", RIP)], None, ["stdout of ripdlt"])
p("C20", "ripdlt lifecycle and timestamp statistics are exact",
  "For every DLT file, the lifecycle and timestamp statistics printed by ripdlt are those that follow from its intact messages: maximal runs of non-decreasing timestamps (per stored ECU id where the command says so, and merged where storage-time periods of one ECU overlap) counted in the bucket of their duration, with the number of messages per ECU; long-run counts use the 1800 s threshold inclusively.",
  ["inputs", "histories"], "every sequence of messages over several ECUs with equal, rising and falling timestamps, with and without optional fields, around bucket and threshold boundaries",
  "One test checks one number for one file.",
  [RIP], [("lifecycle_histogram, lifecycle_splitit, timestamp_splitit, continuous_timestamp_histogram, lifecycle_iter, lifecycle_itertools", RIP)], None, ["stdout of ripdlt"])
p("C21", "ripdlt hello-world searches find exactly the matching messages",
  "For every DLT file whose messages embed no further markers, the payload search prints the number of messages whose payload contains 'Hello World', the pattern search the number of messages containing a match of 'H.* World' behind their marker, the raw search the number of non-overlapping raw occurrences in the file, and the offset histogram puts each matching message in the 100-million-byte bucket of its offset.",
  ["inputs"], "every sequence of messages whose contents hold full, partial, split and repeated occurrences, garbage with occurrences, and offsets around bucket boundaries",
  "The test counts another phrase in one file with its own copy of the search.",
  [RIP, GR], [("count_hello_world, count_hello_world_grepit, count_hello_world_raw, histogram_hello_world", RIP), ("GrepIterator", GR)], None, ["stdout of ripdlt"])
p("C22", "Parallel ripdlt commands equal the sequential ones for every split and schedule",
  "For every file, number of processors and scheduling of the parallel work, the parallel count and hello-world commands print the same result as their sequential counterparts (the pattern search where messages contain no further marker, the raw search unless an occurrence lies across the end of a message or in garbage at a partition boundary), the parallel lifecycle command prints the sequential line of every partition, and the parallel timestamp statistics print exactly the sum of the sequential statistics of the partitions, with every ECU's message total equal to the sequential total. The result never depends on which worker runs which slice or in what order results are combined.",
  ["schedules", "inputs", "configurations"], "every file, every processor count, every work-splitting and execution order of the slices",
  "No test runs any parallel command.",
  [RIP, LIB, BUF], [("multithreaded, par_continuous_timestamp_histogram, par_timestamp_splitit", RIP), ("partition_from", LIB)], None, ["stdout of ripdlt par_*"])
p("C23", "ripdlt never crashes on a file, however malformed its messages are",
  "For every readable file, every ripdlt command by either access method ends normally with its report: messages too short for the fields their flags announce, non-text ECU ids, undefined message types, truncated or empty files are reported on or skipped, never a crash or a hang.",
  ["inputs", "configurations"], "every stream over malformed messages, every command, both access methods",
  "All test files are well-formed and non-empty.",
  [RIP, V1], [("all command functions and their unwrap/expect calls", RIP), ("DltEntry accessors", V1)], None, ["exit status and stdout of ripdlt"])
p("C24", "dd_dlt wraps its input into a valid DLT stream that reads back unchanged",
  "For every input and every payload size that fits a DLT message, the output of dd_dlt is a sequence of well-formed DLT messages whose payloads, concatenated, are the input up to its last full block, of type verbose log info in little-endian order, with the given ids, consecutive message counters and timestamps advancing 10 ms per message, however the bytes look and even if they are DLT data themselves. A payload size that cannot be encoded in a DLT message is refused without writing anything, and so is an id that is not four bytes long; with arguments missing the program writes nothing and does not crash.",
  ["inputs", "configurations"], "every input (newlines, embedded DLT messages, any length) and payload sizes 1..65517; refusal of 0 and above",
  "dd_dlt has no tests; the generated files use three sizes and newline-free text.",
  [DD, V1], [("main copy loop", DD), ("header constructors", V1)], None, ["stdout and exit status of dd_dlt"])
p("C25", "dd_dlt delivers all its output or fails, whatever the read and write calls do",
  "When input arrives in pieces, output is accepted in pieces or calls are interrupted, the output of dd_dlt is byte for byte the same; when a read or write fails (at any point, the final flush included), dd_dlt exits unsuccessfully and what it has written is a prefix of the correct output.",
  ["fault_sequences"], "every sequence of read and write outcomes (full, short, interrupted, failing) at every call",
  "dd_dlt has no tests and nothing injects faults.",
  [DD], [("main copy loop: read_exact, writes, exit flush", DD)], None, ["stdout and exit status of dd_dlt under fault injection"])
p("C26", "Strict reading yields the longest run of adjacent valid values and stops",
  "The strict sequential reader, started at any offset, yields exactly the adjacent valid values from that offset on, with their true offsets, and ends at the first position that does not hold a valid value; it skips nothing, invents nothing, never crashes and stays ended.",
  ["inputs"], "every byte stream and start offset, for messages with and without storage header",
  "No test uses the strict reader (the tests named readit_* use the robust one).",
  ["matchit/src/readit.rs", V1], [("ReadIterator::next", "matchit/src/readit.rs"), ("DltEntry::try_read, DltStorageEntry::try_read", V1)], None, ["Iterator::next of ReadIterator"])

p("C27", "Single reads and searches return exactly the message at the right place",
  "Searching for the first or last marker of a slice gives the first or last position at which the complete marker occurs, or nothing. A single forward search from an offset returns the message at the first marker at or behind the offset if it is valid, and a single backward search the message at the last complete marker in front of the offset if it is valid, each with its true offset, and nothing otherwise. Reading a message directly from a slice succeeds exactly if the slice starts with a valid message (for stored messages: with the marker), and its reported length is the announced one, never beyond the slice nor the stated maximum. None of these crashes for any input.",
  ["inputs"], "every byte slice and every offset, for messages with and without storage header",
  "Tests call the search functions only through clean files, and never at an offset inside a marker, behind the end or in front of a corrupt message.",
  [SI, V1, "matchit/src/searchable/mod.rs"], [("SearchIterator::search / RevSearchIterator::search", SI), ("search_marker, search_last_marker", "matchit/src/searchable/mod.rs"), ("DltStorageEntry::try_read / try_read_valid_marker, DltEntry::try_read, max_len", V1)], None, ["results of these functions"])
p("C28", "ripdlt delivers its complete report or exits unsuccessfully",
  "Whatever the write calls on its output do (accept only a part, be interrupted, fail), ripdlt either writes exactly the report it writes without faults and exits successfully, or exits unsuccessfully after having written a beginning of it: a truncated report never passes for a complete one. A file that cannot be opened or read, an unknown access method or an unknown command give an unsuccessful exit and no report; with arguments missing it prints its usage.",
  ["fault_sequences", "inputs"], "every sequence of read and write outcomes at every call, every command, both access methods; unusable files and arguments",
  "No test runs the program, and nothing injects faults.",
  [RIP, BUF], [("main: printing of each command, opening of the file, choice of command", RIP), ("DltBuffer::read_file / mmap_file", BUF)], None, ["stdout and exit status of ripdlt under fault injection"])
p("C29", "Readers, searches and pipelines are independent of each other and of threads",
  "Every reader, search, pattern search, field access, partition, merge and pipeline gives the results it gives alone, whatever other readers, searches and pipelines (of the same or other buffers, patterns and types) exist, have existed or are advanced between its steps, in which thread it runs or to which thread it is moved between two steps, and whatever the memory of its buffer held before; asking one object repeatedly, in any order, gives the same answers.",
  ["schedules", "histories"], "every pair and triple of uses, every interleaving of their steps, every assignment of steps to threads",
  "Every test runs one reader at a time, on one thread, from start to end.",
  [RF, SI, GR, "matchit/src/generator/adapter.rs", LIB], [("iterator state (offset, regex matcher) held per value", GR), ("Adapter/Reducer state held per value", "matchit/src/generator/adapter.rs"), ("readers as independent values", RF)], None, ["items of concurrently used iterators and pipelines"])
p("C30", "The iterators of the library honour the whole Iterator interface",
  "Every iterator of the library is its sequence of items, whichever methods of Iterator it is consumed with, in whatever order: nth, skip, take, step_by, find, fold, count, last, collect and the others give what they give on the list of its items, size_hint never contradicts what follows, no method loses or repeats an item for the methods called after it, and none crashes, also behind the end.",
  ["histories", "inputs"], "every sequence of Iterator operations on every reader and search, on every stream of small fragments",
  "Tests consume iterators with for loops and count only.",
  [RF, SI, GR, LIB, "matchit/src/readit.rs", "matchit/src/fromgenerator.rs"], [("impl Iterator for ReadFallbackIterator", RF), ("impl Iterator for SearchIterator, RevSearchIterator", SI), ("impl Iterator for GrepIterator, RegExMatcherIterator", GR), ("impl Iterator for NoOffsetIterator", LIB), ("impl Iterator for FromAdaptFn", "matchit/src/fromgenerator.rs")], None, ["Iterator methods"])
p("C31", "Pipelines are streams: each function sees each item once and at once",
  "In every pipeline, pushed or pulled, each user function is called exactly once for each item that reaches its stage, in order, as soon as the item reaches it and before the next input is taken; a pulled pipeline takes no input before it is asked for an item and no more than it needs to give one; items that no stage needs any more are not kept, and after the pipeline is finished or dropped none is.",
  ["histories", "inputs"], "every chain of stages up to a length and every input sequence up to a length, pushed and pulled",
  "Tests compare final results only; calling a function twice, early, late, or holding on to all items goes unnoticed.",
  ["matchit/src/generator/adapter.rs", "matchit/src/generator/reducer.rs", "matchit/src/generator/groupby.rs", "matchit/src/fromgenerator.rs"], [("MapAdapter/FilterAdapter::adapt", "matchit/src/generator/adapter.rs"), ("GroupBy, Merge", "matchit/src/generator/groupby.rs"), ("FromAdaptFn::next", "matchit/src/fromgenerator.rs")], None, ["calls of the user functions, drops of items"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, s)
    print("valid", len(P))
except ImportError:
    print("written", len(P))
