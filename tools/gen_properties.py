#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it stays readable)."""
import json, os
def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}
L = []
L.append(P("C01", "A reported assembly success means the exact, complete image",
 "Whenever the assemble command exits with status 0 and prints its OK line, the output file holds exactly the bytes that the sources denote (every included text, byte, header, icon and sprite file taken in full) and the byte count in the OK line is the length of that file. This holds however the operating system splits, interrupts or fails the reads and writes on the way: such a fault may turn the run into a reported failure, never into a successful run with a different, shorter or stale image.",
 ["inputs", "fault_sequences"], "every well-formed multi-file project, every sequence of short or interrupted reads and writes, I/O errors, descriptor or memory exhaustion, full disks",
 "The end-to-end test assembles two fixed sample projects on a healthy disk; no test ever sees a short read, an interrupted call, an I/O error or a full disk.",
 ["src/asm.rs", "src/files.rs", "src/lib.rs", "src/img.rs", "src/instruction.rs", "src/parser.rs", "src/cheader.rs"],
 [("whole-file reads propagated as errors", "src/files.rs load_bytes/load_file"), ("one full write of the finished image", "src/asm.rs assemble_cmd"), ("image fully computed in memory first", "src/asm.rs assemble")],
 [("output image", "bytes written to the -o file", "src/asm.rs assemble_cmd")], ["output file, exit status and OK line after each run"]))
L.append(P("C02", "A failed assembly leaves the existing output alone and says so",
 "If an assemble run fails for any reason other than writing the output file itself - a bad source, an unreadable, missing or non-text input, a broken image, a failing system call - the file named as output is byte for byte what it was before, and is not created if it did not exist. Such a run ends with a non-zero status, names the failure on standard error and never prints the OK line.",
 ["inputs", "fault_sequences"], "every project, valid or with an error at any depth of inclusion, and every input-side fault at any point of the run, with the output file present or absent beforehand",
 "Tests only assemble correct sources into fresh temporary files; none looks at the old output after a failure or makes a read fail half way.",
 ["src/asm.rs", "src/lib.rs", "src/files.rs"], [("output created only after assembly succeeded", "src/asm.rs assemble_cmd"), ("error path prints and exits 1", "src/lib.rs run_command")], None, ["output file before and after, exit status, standard error"]))
L.append(P("C03", "No command reports success after losing output",
 "Whenever a command that produces data (assemble, disassemble, expand, icon, image, vmi) exits with status 0, everything it had to produce has been accepted by its output, whether that is a file or standard output. If any part of that output could not be written (disk full, quota, I/O error, closed pipe) the command ends with a non-zero status; partial acceptance of a write is never mistaken for completion.",
 ["fault_sequences", "inputs"], "every data-producing command with output to a file or to standard output, and every pattern of short, interrupted or failing writes including a disk that fills up after any number of bytes",
 "No test runs any command against an output that fails or accepts only part of a write; icon, image, vmi, expand and disassemble have no command-level test at all.",
 ["src/lib.rs", "src/asm.rs", "src/disasm.rs"], [("write errors turned into a failing status", "src/lib.rs run_command"), ("full writes", "src/asm.rs, src/disasm.rs, src/lib.rs output code")], None, ["bytes accepted by the output, exit status"]))
L.append(P("C04", "The result depends only on the inputs",
 "For the same source files and the same command line, the assembled image, the expanded listing apart from generated label names, the disassembly, the converted image text and the VMI file apart from its time stamp are byte for byte the same on every run. The random numbers and hash seeds handed to the process, the clock, unrelated environment variables, the previous contents of the output file, and whether the same files are reached through a different working directory or a different spelling of their path never change them.",
 ["inputs", "configurations", "schedules"], "every project and binary input, every random stream, hash seed, clock, environment and working directory",
 "Tests run each input once under one environment; an order that depends on a hash seed or a random number shows up only across many seeds.",
 ["src/asm.rs", "src/disasm.rs", "src/img.rs", "src/env.rs", "src/files.rs"], [("sorted or position-ordered emission from hash maps", "src/disasm.rs, src/asm.rs"), ("palette in first-seen order", "src/img.rs")], None, ["output bytes of runs that differ only in the simulated environment"]))
L.append(P("C05", "Labels made by macro expansion never clash, whatever randomness returns",
 "Every expansion of a macro gets its own copies of the labels the macro declares for itself: a jump inside one expansion targets the label of that same expansion, expansions never capture or redefine each other's labels or the user's, and this holds for nested and repeated expansions. The assembled bytes are the same for every random stream; if randomness is unavailable or repeats itself, the run may fail but never assembles something else.",
 ["inputs", "configurations", "fault_sequences"], "every program using macros with own labels, any number and nesting of expansions, every stream the random source can return and every way it can fail",
 "One test assembles a sample with a macro; uniqueness over random streams and a failing random source are never exercised.",
 ["src/asm.rs", "src/parser.rs", "src/expression.rs"], [("fresh random suffix per expansion", "src/asm.rs gen_labels/expand"), ("argument and label substitution", "src/expression.rs replace_macro_args")], [("generated labels", "name of a macro-owned label in one expansion", "src/asm.rs gen_labels")], ["assembled bytes against the reference model"]))
L.append(P("C06", "One version of each source file per run, even while files change",
 "If source files are atomically replaced while assemble runs, the image written is the one denoted by some single version of each text source file (the main file, included assembly and headers), each version being one the file actually had during the run, and every included binary or image file contributes one complete version wherever it is used. All inclusions of the same text file by the same path within one run see the same text; a mixture of old and new parts of a file never appears in an image reported as successful.",
 ["schedules", "histories"], "every project and every placement of atomic file replacements between the file operations of the run",
 "Tests never change a file while the assembler is running.",
 ["src/files.rs", "src/asm.rs"], [("each text file loaded once and cached by path", "src/files.rs SourceFiles::load"), ("whole file read through one open descriptor", "src/files.rs load_bytes")], [("source cache", "text of every file loaded in this run", "src/files.rs SourceFiles.files")], ["output image against the set of images denoted by the versions on disk"]))
L.append(P("C07", "Diagnostics name the right place and quote the text that was assembled",
 "When a source contains an error, the diagnostic on standard error names the file, line and column of the offending token and quotes exactly that line as it was read in this run with a caret under the column, also when the token sits in an included file or came from a macro expansion. This stays true when the file on disk is replaced during the run, when reads are split or interrupted, and for every working directory the command is started from. Text that resembles a program is assembled or refused with such a message, never answered with a panic.",
 ["inputs", "schedules", "fault_sequences"], "every project with one error at any inclusion depth, every harmless fault pattern, replacement of files while the run is in progress",
 "No test looks at a diagnostic.",
 ["src/lib.rs", "src/files.rs", "src/location.rs", "src/input.rs", "src/asm.rs"], [("spans carry file, position, line and column", "src/location.rs, src/input.rs"), ("quoting from the cached text", "src/lib.rs highlight_line")], None, ["standard error"]))
L.append(P("C08", "The VMI time stamp is one instant of local time within the run",
 "The year, month, day, hour, minute, second and weekday stored in a generated VMI file all describe one and the same instant, expressed in the local time zone in force (TZ, else the system's zone, and UTC where neither can be used), and that instant is one the system clock actually showed during the run. This holds when the clock moves on across a second, minute, hour, day, month or year boundary during the run, when it is stepped forwards or backwards, around daylight-saving changes and for every zone.",
 ["schedules", "configurations"], "every start time, clock movement and step during the run, and every time zone rule",
 "The clock and zone of the test machine are fixed and no test generates a VMI file; a torn time stamp needs a clock read on each side of a boundary.",
 ["src/lib.rs"], [("single reading of the local clock", "src/lib.rs generate_vmi")], None, ["bytes 0x44-0x4B of the VMI file against the clock readings of the run"]))
L.append(P("C09", "A VMI file describes exactly the VMS file it was made from",
 "Whenever the vmi command succeeds, the VMI file is 108 bytes and, apart from its time stamp, exactly determined by the VMS file and the options: description copied from the VMS header (at 0x200 for games), copyright, file number, resource name, file name, game flag, checksum, and a size field equal to the full length of the VMS file. Short or interrupted reads, wrong size hints and failing calls never change a field: the run either yields this file or fails, and a run that fails before writing leaves an existing VMI file unchanged.",
 ["inputs", "fault_sequences"], "every VMS file, option set and file name, and every fault pattern on the way",
 "The vmi command has no tests.",
 ["src/lib.rs"], [("whole VMS file read before anything is written", "src/lib.rs generate_vmi"), ("all 108 bytes written at once", "src/lib.rs generate_vmi")], None, ["the VMI file, the previous VMI file, exit status"]))
L.append(P("C10", "Only the named output is ever modified",
 "A run of any command creates, modifies, truncates, renames or removes no file other than the output it was told to write (for vmi without an option, the file beside its input that carries the vmi suffix). Source and input files keep their contents whether the run succeeds, fails, is killed or meets I/O errors, and when it has ended no additional file is left behind.",
 ["inputs", "fault_sequences", "crash_points"], "every command, option set and input, every fault and kill point",
 "Tests only look at the one output file of a successful run.",
 ["src/asm.rs", "src/disasm.rs", "src/lib.rs", "src/files.rs"], [("inputs opened read-only, one output created", "src/asm.rs, src/disasm.rs, src/lib.rs")], None, ["the whole simulated file system before and after"]))
L.append(P("C11", "Rerunning after any crash or history gives the exact result",
 "After any history of earlier runs - successful, failed, killed at any point, or ended by a power failure that left the output file torn, empty or with old data - running a command again on intact inputs produces the output it would produce in a fresh directory, with nothing left over from before. A run killed before it starts writing leaves the previous output complete.",
 ["histories", "crash_points", "fault_sequences"], "every sequence of runs and source edits with kills and power failures at any file operation",
 "Tests run each command once, in an empty directory, to completion.",
 ["src/asm.rs", "src/lib.rs", "src/disasm.rs"], [("output truncated on creation and written whole", "src/asm.rs assemble_cmd"), ("no state kept between runs", "src/files.rs")], None, ["output of the rerun; output at the moment of the crash"]))
L.append(P("C12", "Assemblies in one process do not influence each other",
 "Programs that use the assembler as a library may assemble several projects one after another or on several threads at the same time, each with its own source set: every one of them yields the bytes or the error it yields alone in a fresh process. This holds for every interleaving of the threads, after failed assemblies, and when the files change between two assemblies.",
 ["schedules", "histories"], "every set of projects, valid or not, and every interleaving of the assembling threads",
 "No test assembles concurrently or repeatedly within one process.",
 ["src/asm.rs", "src/files.rs", "src/lexer.rs", "src/input.rs", "src/instruction.rs", "libwaterbear/src/lib.rs"], [("no shared mutable state between assemblies", "src/asm.rs assemble_file"), ("immutable lazily built tables", "src/input.rs, src/lexer.rs")], None, ["returned bytes or error per assembly"]))
L.append(P("C13", "Every run ends, promptly, under any fault",
 "Whatever faults the system calls report, for however long they persist - endless single-byte transfers, writes that accept nothing, a disk that stays full, a clock that runs backwards, repeated interruptions that eventually stop - every command on inputs of bounded size ends within a number of system calls proportional to the data it moves. It ends with an exit status of its own, not by hanging or by a signal, and a fault in reading or writing never makes it spin. Files that include each other in a circle and macros that call themselves are reported, not followed without end.",
 ["fault_sequences", "inputs"], "every command, input and persistent or transient fault pattern",
 "No test injects a fault.",
 ["src/files.rs", "src/asm.rs", "src/disasm.rs", "src/lib.rs", "src/img.rs"], [("standard whole-file reads and writes", "src/files.rs, src/asm.rs"), ("terminating worklist", "src/disasm.rs")], None, ["number of system calls and processor time until the process ends"]))
L.append(P("C14", "An include names the file beside the including file",
 "A relative path in an include directive (assembly, header, bytes, icon, eyecatch, sprite) denotes the file relative to the file that contains the directive, from every working directory and for every spelling of the main file's path. A file of that name in the working directory is used only when no such file exists beside the including one, and then with a warning that names both paths; an error while looking for the right file never makes another file be used in its place.",
 ["configurations", "inputs", "fault_sequences"], "every directory layout, working directory, decoy file and error while looking up or opening a file",
 "The sample projects keep all files in one place and lookups never fail there.",
 ["src/files.rs", "src/asm.rs", "src/ast.rs"], [("paths resolved against the including file, with fallback", "src/files.rs SourceFiles::path")], None, ["assembled bytes, warning on standard error"]))
L.append(P("C15", "A failing standard error never changes the outcome",
 "What a command writes to its output and whether it succeeds are the same whether standard error works, is closed, is full or accepts only part of each message. Diagnostics may get lost; results, exit status and the output file may not be affected by that.",
 ["fault_sequences", "inputs"], "every command and input that prints messages, warnings or errors, and every failure pattern of standard error",
 "Tests capture standard error in an unlimited buffer.",
 ["src/lib.rs", "src/files.rs", "src/asm.rs", "src/disasm.rs"], [("message writer that ignores write errors", "src/lib.rs ColorWriter"), ("warnings", "src/files.rs, src/disasm.rs")], None, ["output file, standard output and exit status against the same run with a working standard error"]))
L.append(P("C16", "Image conversion yields the complete image or an error",
 "Whatever size of pieces an image file is delivered in, the icon, eyecatch, sprite and image conversions emit exactly the pixels, frames and palette of the complete file. If the file is cut short, before or while it is read, or cannot be read to its end, the conversion fails instead of emitting data for the missing part.",
 ["inputs", "fault_sequences"], "every supported image (still and animated), every split of the reads, truncation at every byte and a read error at every point",
 "Images are only tested in memory, never through a file that is read in pieces or breaks off.",
 ["src/img.rs", "src/asm.rs", "src/lib.rs"], [("decoder errors propagated", "src/img.rs load_image"), ("palette and pixel emission", "src/img.rs to_icon/to_1bit_asm")], None, ["emitted assembly or assembled bytes against an independent image model"]))
L.append(P("C17", "An expanded listing assembles to the same image",
 "Saving the output of the expand command and assembling it gives the same image as assembling the original project, for every random stream used while expanding. A listing that could only be written in part is never reported as success.",
 ["inputs", "configurations", "histories", "fault_sequences"], "every project that assembles, every random stream, faults while the listing is written",
 "The expand command has no tests.",
 ["src/asm.rs", "src/ast.rs", "src/expression.rs", "src/instruction.rs"], [("source form of every statement", "src/ast.rs, src/expression.rs, src/instruction.rs")], None, ["image assembled from the listing"]))
L.append(P("C18", "A successful disassembly is the complete listing of the input",
 "Whenever the disassemble command exits with status 0 the listing file is complete and is the same for every hash seed and every split of the reads and writes; each byte of the input appears in it exactly as it is in the file, once, in order, and with -p at its position. A file that cannot be read to its end, or a listing that cannot be written to its end, is reported as failure.",
 ["inputs", "fault_sequences", "configurations"], "every binary, file type and option set, every hash seed and fault pattern",
 "The disassembler is tested on nothing but in-memory fragments; its command never runs in a test.",
 ["src/disasm.rs", "src/lib.rs"], [("listing built in memory, written whole", "src/disasm.rs disassemble_cmd"), ("sorted emission", "src/disasm.rs")], None, ["listing file against the input bytes"]))
L.append(P("C19", "The disassembler lists exactly the reachable code as instructions",
 "Whenever the disassemble command exits with status 0, the listing has as instructions exactly those at addresses that can be reached from the entry points of the file type by running on, branching, calling and jumping, each with its own operation and operands, and everything else as data; every target of a jump, branch or call has a label there that the instruction names; entry points, arrivals (-a) and overlaps are marked where they are and nowhere else. A file whose reachable code has bytes that are no instruction is refused. This holds for the contents the run read, for every split of the reads and writes, every hash seed, and when the file is replaced by another one meanwhile.",
 ["inputs", "fault_sequences", "schedules", "configurations"], "every binary, file type and option set, every hash seed, replacement and fault pattern",
 "No test runs the disassembler on a whole program: which instructions are followed where, and what is remembered in hash maps, is only visible on programs with many branches.",
 ["src/disasm.rs", "src/instruction.rs"], [("work list of addresses to follow", "src/disasm.rs disassemble"), ("overlap search", "src/disasm.rs find_overlaps")], None, ["listing file against an independent reachability analysis of the input bytes"]))
L.append(P("C20", "Runs at the same time do not influence each other",
 "When several runs of the program take place at the same time on one file system (a parallel build) and none of them writes what another one reads or writes something different to the same output, then each of them ends with the same status, prints the same and leaves the same files as when it runs alone, in every interleaving of their system calls, also when some of them fail, are killed or meet faults of their own, and nothing else is left behind.",
 ["schedules", "inputs", "fault_sequences", "crash_points"], "every set of runs, every interleaving of their system calls, every fault pattern of each of them",
 "Tests run one thing in one process; a shared temporary, lock or cache file only matters in particular interleavings of several.",
 ["src/lib.rs", "src/files.rs", "src/asm.rs"], [("no state outside the process", "src/lib.rs"), ("outputs written directly under their own names", "src/lib.rs")], None, ["status, output and files of each run, against the same run alone"]))
L.append(P("C21", "A command needs nothing but its inputs and its output",
 "A run on inputs it accepts succeeds with the right output wherever there is little else: with a handful of free descriptors, however many files are included and however deeply; with any environment or none; with a disk that has room for exactly the output; with memory in proportion to what it reads and writes; and it never takes anything from standard input, whatever is or is not there.",
 ["configurations", "inputs", "fault_sequences"], "every accepted input, number and nesting of files, limit and environment",
 "Tests run small inputs on a comfortable machine; a leaked descriptor, a buffer per file or per token, or a read of standard input does not show there.",
 ["src/files.rs", "src/asm.rs", "src/lib.rs"], [("files are read whole and closed before the next one", "src/files.rs"), ("no use of standard input", "src/lib.rs")], None, ["status and output under limits, descriptors in use, reads of standard input"]))
L.append(P("C22", "Terminals only add colours",
 "What a command writes to standard output and standard error is the same text on a terminal and elsewhere, for good and bad inputs; control sequences appear only in a stream that is a terminal and wants them, whichever of the two streams is one, and at the end of a run that reports its outcome none is left switched on. Status and files do not depend on it.",
 ["configurations", "inputs", "fault_sequences"], "every command and input, every combination of streams that are terminals, terminal type, NO_COLOR, and split of the writes",
 "Under the test runner no stream is a terminal.",
 ["src/lib.rs"], [("colour choice per stream", "src/lib.rs"), ("ColorWriter: reset after each coloured part", "src/lib.rs")], None, ["bytes written to either stream"]))
L.append(P("C23", "The same inputs give the same messages",
 "Two runs of the same command on the same files end with the same status and write the same text to standard error, and, when they fail, to standard output, byte for byte apart from colours and the names of generated labels, in the same order, however many errors the inputs have, and whatever the hash seeds, the random numbers, the clock, the environment, the terminal, standard input and an older output are, and however the reads and writes are split.",
 ["inputs", "configurations", "histories", "fault_sequences"], "every project with any number of errors, every random stream, hash seed, environment and harmless fault pattern",
 "Tests look at no message and run in one process with one hash seed at a time.",
 ["src/lib.rs", "src/asm.rs", "src/ast.rs", "src/env.rs", "src/files.rs"], [("errors are collected and reported in order of the text", "src/asm.rs, src/lib.rs"), ("names are kept in hash maps", "src/env.rs, src/asm.rs")], None, ["status, standard error and standard output of two runs"]))
L.append(P("C24", "The output is written to what its path denotes",
 "A run writes its output to the object its output path denotes when it runs: an existing file keeps its identity, its rights and its further names, which all show the new contents; a symbolic link, a chain of links or a linked directory stays as it is and its target gets the output, also when the target does not exist yet; a device such as /dev/null or /dev/stdout receives the bytes and stays a device. Where that object cannot be written the run fails. In every case nothing else in the file system is created, removed, renamed, given other rights or changed.",
 ["inputs", "configurations", "fault_sequences"], "every output path (new, existing, linked, second name, device, not writable) and every fault pattern",
 "Tests write no output at all; what becomes of links, rights and second names depends on the calls by which the file is written.",
 ["src/lib.rs", "src/disasm.rs"], [("output files opened by their own names and truncated", "src/lib.rs, src/disasm.rs")], None, ["the whole simulated file tree before and after the run"]))
L.append(P("C25", "Commands run by the library in one process behave as if run apart",
 "When a program runs several command lines one after another through the library (as the C interface does), changes its working directory or the files in between, or runs them on several threads at the same time with different outputs, then each of them ends, prints and writes the same as in a process of its own at that point; the first one that fails ends the process with the same status and messages. No descriptor, working directory, cached file or message of an earlier command has any effect on a later one.",
 ["schedules", "histories", "inputs", "configurations"], "every sequence of command lines, edits and changes of directory, every interleaving of threads",
 "Tests never run two commands in one process, so state that outlives a command is invisible to them.",
 ["src/lib.rs", "src/files.rs", "libwaterbear/src/lib.rs"], [("no state outside SourceFiles", "src/files.rs"), ("run_command", "src/lib.rs")], None, ["status, messages, standard output and files against the same commands in processes of their own"]))
L.append(P("C26", "An input can be a pipe",
 "An input that is a pipe (a named pipe, a process substitution, /dev/stdin) instead of a regular file, so that it can be read only once, from the front, in pieces of any size, and has neither a size nor a position, gives the same status, messages, standard output and output file as a regular file with the same contents. This holds for the source, for each included file that the program includes once, and for the inputs of the other commands; excepted are bitmaps, whose format needs seeking, and the fall-back of the inclusion rule, which is about regular files.",
 ["inputs", "fault_sequences", "configurations"], "every command and input, every subset of its inputs being pipes, every way of cutting the reads",
 "Tests read no files from pipes; whether an input is opened once, read to its end and never sized or rewound does not show with regular files.",
 ["src/files.rs", "src/lib.rs", "src/img.rs"], [("each input opened and read to its end once", "src/files.rs, src/lib.rs"), ("images decoded from a stream", "src/img.rs")], None, ["the same run with regular files"]))
# not applicable: pure functions of the input
def N(id, title, st, qt, why, files, mech):
    L.append(P(id, title, st, ["inputs"], qt, why, files, mech))
N("N01", "Encoding and decoding an instruction are inverse",
  "Every instruction with in-range operands encodes to bytes that decode to the same instruction, and every byte sequence that decodes re-encodes to the same bytes.",
  "all instructions and operand values", "Tests cover fixed cases per instruction family.", ["src/instruction.rs", "waterbear-instruction-derive/src/lib.rs"], [("derived encode/decode", "waterbear-instruction-derive/src/lib.rs")])
N("N02", "Expressions evaluate with the documented precedence and 32-bit semantics",
  "Every constant expression has the value given by the documented operators, precedences and radices, and division by zero is an error.",
  "all expressions", "Tests evaluate a handful of expressions.", ["src/expression.rs", "src/parser.rs", "src/lexer.rs"], [("precedence climbing", "src/parser.rs"), ("eval", "src/expression.rs")])
N("N03", "Out-of-range operands are rejected, never truncated",
  "An operand, byte, word, branch distance or code location outside the range of its field is reported as an error instead of being silently cut to size.",
  "all operand values and positions", "Tests sample few boundary values.", ["src/instruction.rs", "src/asm.rs"], [("range checks before encoding", "src/instruction.rs")])
N("N04", "Assembling a disassembly gives back the binary",
  "For a binary whose code is reachable and does not overlap, assembling the disassembler's listing reproduces the binary.",
  "all such binaries", "No such round trip is tested.", ["src/disasm.rs", "src/asm.rs"], [("listing syntax", "src/disasm.rs")])
N("N05", "No source text makes the assembler panic or overflow its stack",
  "Every text, including cyclic inclusions and self-expanding macros, is either assembled or rejected with a diagnostic.",
  "all source texts", "Tests feed correct sources.", ["src/parser.rs", "src/lexer.rs", "src/asm.rs"], [("error values instead of panics", "src/parser.rs")])
N("N06", "Letter case, spacing, comments and number notation do not matter",
  "Two sources that differ only in the case of names and mnemonics, in white space, comments or the notation of numbers assemble to the same image.",
  "all programs", "Tests use one spelling each.", ["src/lexer.rs", "src/parser.rs"], [("case folding and skipping", "src/lexer.rs")])
N("N07", "The C interface passes sources and results unchanged",
  "A command line handed to the C entry point is run exactly as the command would run it.",
  "all sources", "The C interface has no tests and does not build from its stale lock file.", ["libwaterbear/src/lib.rs"], [("FFI wrappers", "libwaterbear/src/lib.rs")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in L: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(L))
