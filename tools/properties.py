#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays readable)."""
import json, os
MAIN = "src/main.rs"
SC, PA, AS = ("src/assembler/%s.rs" % n for n in ("scanner", "parser", "assembler"))
INS, DIR, OPC = ("src/assembler/%s.rs" % n for n in ("instruction", "directive", "opcode"))
DR, HEX, LOC = ("src/assembler/%s.rs" % n for n in ("data_range", "ihex_writer", "source_file_location"))
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
UNIT = "The 92 unit tests call scanner, parser, encoder and writer functions on literal strings; none runs the program, opens a file or fails an I/O call."

p("C01", "Exit status 0 means the complete, correct object is at the destination",
  "Whenever an assembly run exits with status 0, its destination (the file named by -o, a.hex by default, or standard output for '-o -') holds exactly one complete Intel I8HEX object, ended by its end-of-file record, whose decoded addresses and bytes are exactly those the documented language assigns to the whole source text. A source the language rejects never yields exit status 0. This holds whatever calls were interrupted, shortened, delayed or failed on the way.",
  ["inputs", "fault_sequences", "schedules", "configurations"],
  "every source text, every sequence of interrupted, short, failing or stalled system calls on input, output and streams, every destination kind and prior content of the destination",
  UNIT + " The end-to-end claim spans reading, two assembly passes, overlap check, hex writing and output I/O, for every input and every I/O outcome.",
  [MAIN, SC, PA, AS, INS, DIR, OPC, DR, HEX],
  [("read_to_string + write_all, every Result ends in process::exit(1)", "src/main.rs: assemble_file"),
   ("two-pass assembly", "src/assembler/assembler.rs: define_labels, emit_data_ranges"),
   ("I8HEX records with checksum and EOF record", "src/assembler/ihex_writer.rs")],
  ["exit status", "content of the output path when the process exits", "bytes delivered to stdout"])
p("C02", "Benign I/O conditions never change the outcome",
  "Interrupted calls, reads and writes that transfer fewer bytes than asked, slow calls, a source that is a pipe, FIFO or symbolic link, a wrong or unavailable file size, and missing optional kernel services are invisible. Under any such conditions a source the language accepts is assembled with exit status 0 to the same bytes as on an ideal system, and a rejected source is rejected with the same messages and exit status.",
  ["fault_sequences", "inputs", "configurations"],
  "every placement of EINTR, every partition of reads and writes into pieces (multi-byte characters split anywhere), any reported size, FIFO/pipe/stdin input, statx or getrandom missing",
  UNIT + " A short read in the middle of a UTF-8 sequence or a two-byte write never occurs in a test.",
  [MAIN],
  [("read_to_string retries EINTR and reads to EOF irrespective of metadata", "src/main.rs: assemble_file"),
   ("write_all retries EINTR and short writes", "src/main.rs: assemble_file")],
  ["exit status", "stdout", "output bytes"])
p("C03", "An I/O failure is never silent: nonzero exit naming the file",
  "If the input cannot be opened or read to its end, or the output cannot be created or written in full (missing, permission, full or failing device, broken pipe, a write that accepts nothing), the run ends with a nonzero exit status and a message that names the file concerned. The only alternative is that the run recovered and the destination is complete and correct.",
  ["fault_sequences", "inputs", "configurations"],
  "every failing call (open, read, create, write) at every ordinal, every errno, one-off or persistent, with or without partial transfer, any full-disk threshold",
  UNIT + " No test makes an I/O call fail.",
  [MAIN],
  [("unwrap_or_else on open, read, create and write_all: message and process::exit(1)", "src/main.rs: assemble_file"),
   ("the write is unbuffered, so errors surface before exit", "src/main.rs: assemble_file")],
  ["exit status", "stdout and stderr", "output path after exit"])
p("C04", "A rejected or unreadable source never touches the output",
  "A run whose source is rejected by the language, or cannot be read in full, leaves the output path exactly as it was, existing content or absence included, and puts no object records on standard output. An accepted source's run does not touch the output before the whole source has been read. A run killed before that point therefore leaves the output untouched as well.",
  ["inputs", "crash_points", "fault_sequences", "histories"],
  "every rejected source and rejection reason (encoding, syntax, semantics, overlap), every read failure, every kill point, any previous output content",
  UNIT + " The order 'decide first, create the output afterwards' is visible only to a program run against a file system.",
  [MAIN],
  [("File::create comes after parse, assemble and the overlap check", "src/main.rs: assemble_file")],
  ["mutations of the output path, step by step", "stdout"])
p("C05", "At every instant the output is the old content or a prefix of the object",
  "From start to end of a run, and at any point where it is killed or fails, the output path holds either its previous content unchanged or some prefix of the complete new object; never a mixture of old and new, never bytes out of order. Hence an end-of-file record appears there only when the object is complete, so truncation is always detectable.",
  ["crash_points", "fault_sequences", "inputs", "schedules"],
  "every crash point between and inside output calls, every short or failing write, every instant at which another process looks, any previous content (longer, shorter, itself a valid object)",
  UNIT + " Intermediate file states are not observable from unit tests.",
  [MAIN, HEX],
  [("File::create truncates before the first byte is written", "src/main.rs: assemble_file"),
   ("the whole object is built in memory and written front to back", "src/main.rs: assemble_file")],
  ["content of the output path after every simulated call"])
p("C06", "The same source gives the same bytes on every machine and every run",
  "The object, the messages and the exit status depend only on the source text and the command line. They are identical byte for byte whatever the hash seed entropy, clock, environment variables, process and user id, host, heap layout, I/O chunking, prior output content, working directory contents or build profile, and the object is the same whether written to a file or to standard output.",
  ["configurations", "inputs", "schedules"],
  "every value of entropy, clock, environment, identity, heap placement, chunking; debug and release builds; any prior directory content",
  UNIT + " Tests run once, in one environment, in one build profile; hash maps are seeded differently on each run and tests do not compare runs.",
  [MAIN, AS, DR, HEX],
  [("label map is only looked up, never iterated for output", "src/assembler/assembler.rs"),
   ("ranges are emitted in source order", "src/assembler/assembler.rs: emit_data_ranges"),
   ("checked 12-bit arithmetic", "twelve_bit U12 in assembler.rs and data_range.rs")],
  ["exit status, stdout, stderr and output bytes across runs"])
p("C07", "Concurrent runs with different outputs do not affect each other",
  "Any number of simultaneous runs that write to different outputs, in the same directory or sharing the same input, each end exactly as if run alone: same exit status, same messages, same output bytes. This holds for every interleaving of their steps and also when some of them are killed or fail midway.",
  ["schedules", "crash_points", "inputs"],
  "every interleaving of the system calls of 2 to 4 runs, shared or distinct inputs, kills and failures of the others at any step",
  UNIT + " No test runs two assemblies at once; parallel builds (make -j) do.",
  [MAIN],
  [("no shared state: no temporary, lock or cache files", "src/main.rs: assemble_file")],
  ["per-process exit status, stdout, output bytes versus a solo run"])
p("C08", "A run assembles one consistent read of its input",
  "When the input is modified, truncated, appended to or replaced while a run reads it, the result is exactly what the language assigns to the sequence of bytes one front-to-back read of the file delivered to that run: the corresponding object with exit status 0, or a rejection. No result ever combines two different reads of the input.",
  ["schedules", "inputs", "histories"],
  "every interleaving of in-place edits, appends, truncations, replacements and removals with the reads of the run",
  UNIT + " Tests pass in-memory strings; a file that changes between two passes does not exist there.",
  [MAIN, SC],
  [("the file is opened once and read once into one buffer; both passes use the buffer", "src/main.rs: assemble_file")],
  ["bytes delivered by reads", "exit status", "output bytes"])
p("C09", "Every run ends, in an orderly way, within bounded work",
  "For any input bytes whatever (empty, binary, huge, deeply repetitive) and any I/O failures, as long as messages can be delivered and memory is available, a run ends by itself with exit status 0 or 1: no panic, abort, signal or endless loop. The number of system calls it makes is bounded by a small multiple of the bytes to be transferred.",
  ["inputs", "fault_sequences"],
  "all byte strings as input (structured, mutated, random; lists and lines of tens of thousands of items), all failure sequences, both build profiles",
  UNIT + " They sample a few hundred short strings; stack depth, slicing at non-character boundaries and arithmetic overflow are input-dependent.",
  [MAIN, SC, PA, AS, INS, DIR, DR, HEX, LOC],
  [("errors are values up to main, then process::exit(1)", "src/main.rs"),
   ("regular-expression scanner advances by at least one character", "src/assembler/scanner.rs"),
   ("list rules are loops", "src/assembler/parser.rs: parse_literal_list, parse_field_list")],
  ["exit status or signal", "stderr", "number of simulated calls"])
p("C10", "A rejection is reported in full, at the right place",
  "A rejected source ends with exit status 1 and a message; for every lexical, syntactic or semantic error in a line the message starts with the input path as given and the 1-based line and column of the first offending construct, counted in characters. The message arrives complete however the output stream splits or interrupts its writes, and if it cannot be delivered the exit status is still nonzero.",
  ["inputs", "fault_sequences"],
  "every rejected source, every split/interruption of stdout writes, every stdout failure point",
  UNIT + " They check locations on single short lines and never write a message to a stream.",
  [MAIN, SC, PA, AS, LOC],
  [("SourceFileLocation carried by every token and node", "src/assembler/source_file_location.rs"),
   ("errors formatted once and printed by main", "src/main.rs; parser.rs; assembler.rs")],
  ["stdout bytes", "exit status"])
p("C11", "No history of runs, edits and crashes spoils the next run",
  "After any sequence of source edits, successful, rejected and failed runs and crashes, a run under good conditions gives exactly the result it would give in a fresh directory: for an accepted source the complete object and nothing of any earlier output, for a rejected one the rejection with the output left as it was. No recovery step or manual cleanup is ever needed.",
  ["histories", "crash_points", "fault_sequences"],
  "all sequences of edits and runs (up to eight in a history), with crashes, full disks and errors at any step of the earlier ones",
  UNIT + " A history needs a file system that survives between runs.",
  [MAIN],
  [("File::create truncates; no state is kept between runs", "src/main.rs: assemble_file")],
  ["output path after the last run versus a fresh world"])
p("C12", "'-o -' streams exactly the object, and only to standard output",
  "With '-o -' standard output carries the complete object of an accepted source and nothing else, and no file is created or changed. Whatever way the consumer takes it (in small pieces, with interruptions, slowly) the bytes are the same; if the consumer goes away or its device fails before everything was taken, the exit status is nonzero and what it received is a prefix of the object.",
  ["inputs", "fault_sequences", "configurations"],
  "every accepted source, every split/interruption/failure point of stdout writes",
  UNIT + " No test writes to standard output.",
  [MAIN],
  [("stdout is used as the output file through Box<Write>", "src/main.rs: assemble_file"),
   ("log_program_error and error prints happen only on failure", "src/main.rs")],
  ["stdout bytes", "exit status", "file system mutations"])
p("C13", "A run changes nothing but its output file",
  "A run never modifies, truncates, renames or removes its input or any other existing file, not even temporarily, and after it has ended in an orderly way no new file exists except the output it was asked for. If input and output are the same file, its content stays intact unless the source was accepted.",
  ["inputs", "fault_sequences", "crash_points", "configurations"],
  "every source, command line, directory content, alias between input and output (same path, symbolic link), failure and kill point",
  UNIT + " File-system effects are outside their reach.",
  [MAIN],
  [("File::open read-only for the input, a single File::create for the output", "src/main.rs: assemble_file")],
  ["every file-system mutation of the process", "disk before and after"])
p("C14", "Running out of memory never yields a wrong or damaged result",
  "If any memory allocation fails at any point of a run, the run either still succeeds with the complete correct object or ends unsuccessfully; the input stays intact, and the output path holds its previous content or a prefix of the correct object. Exit status 0 is never reported for anything else.",
  ["fault_sequences", "crash_points", "inputs"],
  "every allocation ordinal, one-off or persistent failure, every source",
  UNIT + " Tests never fail an allocation.",
  [MAIN],
  [("the output is created only after all work that allocates proportionally to the input", "src/main.rs: assemble_file"),
   ("Rust aborts on allocation failure; read_to_string reports it", "std")],
  ["exit status", "content of input and output paths"])
p("C15", "Command lines that ask for no assembly touch no files",
  "Help, version and erroneous command lines (unknown option, missing or extra input, missing option argument) never read, create or change any file. Help and version end with exit status 0 exactly when their text was delivered in full; erroneous command lines print a message and end with a nonzero exit status, never in a panic.",
  ["configurations", "fault_sequences"],
  "every command line of options, operands and their order, every split or failure of stdout writes",
  UNIT + " Option processing in main is not tested.",
  [MAIN],
  [("option checks precede assemble_file", "src/main.rs: main")],
  ["stdout", "exit status", "file-system calls"])

# Pure functions of the source text: true of c8s, but with no schedule, clock, fault or interleaving in them.
PURE = "The tests check the examples written in them, one value or one boundary at a time."
p("C16", "Every documented instruction assembles to its documented opcode",
  "For every mnemonic and operand combination of the README's table, with every register and every in-range value, the assembled word is the documented opcode, most significant byte first; combinations outside the table are rejected.",
  ["programs"], "all mnemonics x operand values", PURE, [INS, OPC, AS],
  [("pattern match on mnemonic and fields", INS), ("opcode packing", OPC)], ["object bytes"])
p("C17", "Literals denote their value in every base or are rejected",
  "A decimal, hexadecimal or binary literal denotes its mathematical value if it fits the place it is used in (12-bit address, 8-bit byte, 4-bit nibble), and is rejected otherwise, for any number of digits.",
  ["inputs"], "all digit strings", PURE, [SC, INS, DIR],
  [("checked conversion", "src/assembler/scanner.rs")], ["object bytes", "rejection"])
p("C18", "Labels resolve to their address from before and after their definition",
  "A reference to a label yields the address of its definition, or its .equ constant, whether the definition precedes or follows the reference; undefined or doubly defined labels are rejected.",
  ["programs"], "all programs", PURE, [AS],
  [("define_labels before emission", AS)], ["object bytes", "rejection"])
p("C19", "Code and data never leave the 12-bit address space",
  "A program whose address counter would pass $FFF is rejected; no object byte ever has an address outside $000 to $FFF.",
  ["programs"], "all programs", PURE, [AS, DR], [("checked_add on U12", AS)], ["object addresses", "rejection"])
p("C20", "Overlapping sections are always detected",
  "If two sections of a program would place bytes at the same address the program is rejected, and sections that merely touch are not.",
  ["programs"], "all programs", PURE, [DR, MAIN], [("pairwise intersection", DR)], ["rejection"])
p("C21", "Mnemonics, directives and hexadecimal digits are case-insensitive",
  "Changing the case of mnemonics, directive names or hexadecimal digits, or of whole register names, does not change the object.",
  ["programs"], "all programs and case changes", PURE, [SC, PA, INS, DIR], [("lowercasing and two-case patterns", INS)], ["object bytes"])

p("C22", "The object goes to whatever the output path denotes",
  "An accepted source is written to the thing that -o names, under any benign I/O conditions: a symbolic link is followed and stays a link (also if its target does not exist yet), a file with several names shows the new object under all of them, a FIFO or a device such as /dev/stdout receives exactly the object once from front to back, and an existing file needs only its own write permission, not that of its directory. An existing file keeps its permissions; a new one gets those of an ordinary file under the umask.",
  ["configurations", "fault_sequences", "inputs"],
  "every accepted source, kind of destination, umask and pattern of interrupted or short writes",
  UNIT + " No test creates an output.",
  [MAIN],
  [("File::create: open with O_CREAT|O_TRUNC and mode 0666, no rename, no seek", "src/main.rs: assemble_file"),
   ("one front-to-back write_all", "src/main.rs: assemble_file")],
  ["exit status", "bytes received by file, FIFO or device", "kind, identity and permissions of the files involved"])
p("C23", "Racing runs of one source into one output converge",
  "If several runs of the same source are started at the same time with the same output, however their steps interleave and however their transfers are split or interrupted, each of them succeeds, and when all have ended the output is the complete object; if the source is rejected, each of them reports that and the output is as before.",
  ["schedules", "fault_sequences", "inputs"],
  "every interleaving of 2 to 4 runs, every benign fault, spellings of the same path",
  UNIT + " No test runs two assemblers at once.",
  [MAIN],
  [("every run truncates and then writes the same bytes at its own offset from 0", "src/main.rs: assemble_file"),
   ("no temporary, lock or exclusive file is involved", "src/main.rs: assemble_file")],
  ["exit status and messages of each run", "final output bytes"])
p("C24", "A run reads its input and nothing else",
  "A run takes nothing from standard input and never waits for it, unless the input names it (/dev/stdin), so that whoever shares standard input (a shell loop, a terminal) finds it untouched; and it opens no file for reading other than its input. This holds for every command line, source, environment and failure.",
  ["configurations", "inputs", "fault_sequences"],
  "every command line, source, directory content, environment, terminal or pipe on standard input, failing call",
  UNIT + " Standard input does not exist in them.",
  [MAIN],
  [("File::open(input_path) is the only source of bytes", "src/main.rs: assemble_file")],
  ["reads of standard input", "files opened for reading"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
