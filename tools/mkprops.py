#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the file stays well-formed)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
LIB,RD,SG,MC="src/lib.rs","src/readers.rs","src/signatures.rs","src/macros.rs"

p("C01","Splitting the stream's reads differently never changes the answer",
"The format detected from a reader depends only on the bytes the stream contains: however the reader splits those bytes into reads (one byte at a time, at packet or buffer boundaries, in any mixture of sizes), detecting from the reader gives exactly the format that detecting from the same bytes held in memory gives. In particular the empty format is reported if and only if the stream holds no bytes at all.",
["inputs","schedules"],"every stream content x every legal sequence of short read lengths, in every feature configuration",
"The tests read small local fixtures with File, whose reads are never short, so every test sees one delivery schedule: each buffer filled in one call.",
[LIB,RD],[("initial prefix fill","src/lib.rs from_reader"),("read_exact in the byte helpers","src/readers.rs ReadData"),("overlap kept between scanned chunks","src/readers.rs PDF reader"),("bulk buffer fills","src/readers.rs SQLite 3 and XML readers")],
["FileFormat::from_reader over a simulated stream","FileFormat::from_bytes"])

p("C02","Interrupted reads are retried and leave no trace in the answer",
"A read that fails with the Interrupted kind (a signal arriving during a blocking read) is retried and is invisible to the caller: whenever and however often reads are interrupted, detection still completes once reads succeed again, without reporting an error, and gives exactly the format the uninterrupted stream gives.",
["inputs","fault_sequences"],"every stream content x every finite sequence of interruptions, before, between and after partial reads",
"No test ever has a read interrupted; a signal during a test run would have to land inside one of a handful of microsecond reads.",
[LIB,RD],[("initial prefix fill","src/lib.rs from_reader"),("std read_exact / lines, which retry","src/readers.rs ReadData, TXT reader"),("bulk buffer fills","src/readers.rs PDF, SQLite 3, XML readers")],
["FileFormat::from_reader over a simulated stream"])

p("C03","A failing stream is reported as an error, never as a format",
"If a read or seek of the stream fails during detection with anything other than the kinds that describe the data itself (unexpected end of data, invalid data, invalid input) or an interruption, the caller gets either that error back or exactly the format the undamaged stream has. An input/output failure is never turned into a different format, nor into the plain text or arbitrary-binary fallback.",
["inputs","fault_sequences","crash_points"],"every stream content x every point at which one or more operations fail, transiently or for good, with any error kind outside the excluded ones",
"No test ever has a read or seek fail; the only error path the tests reach is well-formedness of fixtures.",
[LIB,RD],[("error propagation from format readers","src/lib.rs from_reader"),("fallback to the generic reader","src/lib.rs from_reader, src/readers.rs from_generic_reader")],
["Result of FileFormat::from_reader"])

p("C04","No stream, however hostile or faulty, makes detection panic or abort",
"For every sequence of bytes and every behaviour of the stream that the read and seek contracts allow (short reads, errors of any kind at any operation, early end of data, bytes or length changing between operations), detection returns a value or an error: it never panics (arithmetic overflow checks included), aborts, or overflows the stack.",
["inputs","fault_sequences","configurations"],"every stream content, including corrupted and truncated containers with extreme size fields x every sequence of stream faults x every feature configuration, with and without overflow checks",
"The fixtures are well-formed samples; extreme sizes, torn containers and faults in the middle of a container are never presented, and the space of them is unbounded.",
[RD,MC,LIB],[("bounds and size arithmetic of each reader","src/readers.rs"),("length checks before slicing","src/macros.rs signatures!")],
["return of from_reader / from_bytes","panic hook","process exit status"])

p("C05","Detection does a bounded amount of work on any stream, even an endless one",
"Detection always finishes after a bounded amount of work whatever the stream's length and whatever sizes, counts or nesting its bytes declare, even if the stream never ends or its structures refer back to themselves. It inspects at most 256 ASF objects (32 content descriptors each), 256 EBML elements, 256 MP4 boxes, 64 RealMedia chunks, 1,024 ZIP directory entries and 64 ID3v2 tags, and scans at most 32 MiB of a PDF, 64 KiB of text, 8 KiB of XML and 32 KiB of an SQLite database after their headers.",
["inputs","schedules","fault_sequences"],"every stream content of any length (including endless and self-referring structures) x every delivery schedule that makes progress",
"Every fixture is at most 33 KB and holds a handful of structures, so no limit is ever reached by a test.",
[RD,LIB],[("per-reader limits","src/readers.rs *_LIMIT constants")],
["offsets, lengths and number of the read and seek operations the stream receives"])

p("C06","Memory use is bounded by a small constant whatever the stream declares",
"While a detection call runs, the heap memory it holds never exceeds 1 MiB, whatever lengths, counts or sizes the stream's bytes declare, however long the stream is and however it is delivered; so detection keeps working when memory is limited to that.",
["inputs","fault_sequences"],"every stream content with arbitrary declared lengths, backed by streams short or endless x delivery and allocation-limit faults",
"The fixtures declare only small lengths and nothing in the tests measures or limits memory.",
[RD],[("clamped lengths before allocation","src/readers.rs min(..._LIMIT, len)"),("length-prefixed reads into Vec","src/readers.rs ReadData::read_bytes")],
["global allocator calls made during a call"])

p("C07","Earlier calls never influence later ones, even after failures",
"Each detection is independent of the process's history: a call's answer is the one a fresh process gives for the same bytes, whatever calls came before it, on whatever similar or different streams or files, and whether those succeeded, failed with an error, or were cut short by a panic of the caller's reader. In particular, after a call has failed, rewinding the same stream and calling again gives the correct answer.",
["histories","fault_sequences","crash_points"],"every sequence of calls through all three entry points, on related and unrelated contents, with failures and caller panics at arbitrary operations",
"Each test makes one call and compares one answer; sequences with failures in the middle are never formed.",
[LIB,RD],[("all working state is local to a call","src/lib.rs from_reader, src/readers.rs")],
["answers of successive from_reader / from_bytes / from_file calls"])

p("C08","Concurrent calls neither affect nor wait for each other",
"Calls running at the same time on different threads are independent: for every interleaving of their stream operations, each call's answer is the one it gives when run alone. A call whose stream is stalled, failing or panicking never delays, blocks or alters any other call.",
["schedules","histories","fault_sequences"],"every interleaving, at stream-operation granularity, of several threads' calls on related contents, with stalls, errors and panics in some of them",
"The test harness runs tests on several threads but controls no interleaving, and each fixture read is over in microseconds.",
[LIB,RD],[("no shared mutable state","src/lib.rs from_reader, src/readers.rs")],
["answers per thread, progress of other threads while one is stalled"])

p("C09","Detecting from a file agrees with detecting from its bytes",
"Detecting from the path of a regular file gives exactly the format that detecting from the file's bytes in memory gives, whatever the file's content and size, and however the operating system splits or interrupts the underlying reads and opens.",
["inputs","schedules","fault_sequences"],"every file content and size x every sequence of short and interrupted read and open system calls",
"The tests compare fixtures with fixed expectations through one entry point at a time, on a local disk that never splits or interrupts a read.",
[LIB,RD],[("from_file delegates to from_reader","src/lib.rs from_file"),("From<&[u8]> delegates to from_reader","src/lib.rs")],
["FileFormat::from_file over simulated system calls","FileFormat::from_bytes"])

p("C10","Operating-system failures on a file are reported with their cause",
"If opening the file fails, detecting from its path returns that operating-system error; if reading or seeking it fails later with a device, permission, resource or similar error, the result is either that same operating-system error or exactly the format the healthy file has. A missing, unreadable or failing file, or a directory, is never reported as some format.",
["inputs","fault_sequences","crash_points"],"every file content x every system call of the call failing with any errno that does not describe the data (EINVAL) or an interruption",
"The tests only open existing readable fixtures; no system call ever fails.",
[LIB,RD],[("open error propagation","src/lib.rs from_file"),("error propagation from format readers","src/lib.rs from_reader")],
["Result and raw OS error of FileFormat::from_file"])

p("C11","Every call releases everything it acquired, however it ends",
"When a detection call ends - with an answer, with an error, or by a panic of the caller's reader - every file handle it opened has been closed exactly once, the reader it was given has been dropped exactly once, and the heap memory it took has been returned, so that any number of calls can be made in one process without growth.",
["histories","fault_sequences","crash_points"],"every sequence of calls over all contents, ended by success, error at any operation, or panic at any operation",
"A leak of one handle or one buffer per call is invisible to a test that makes one call and exits.",
[LIB,RD],[("ownership of File, BufReader and Vec","src/lib.rs from_file, src/readers.rs")],
["open and close system calls","drop of the caller's reader","allocator balance over repeated calls"])

p("C12","Detection is read-only: it never changes the file or its directory",
"Detecting from a path opens the file for reading only and never creates, truncates, writes, renames, locks or deletes anything: for every content and every failure at any system call, the file's bytes, length, permissions and modification time and the directory's entries are the same after the call as before, and a path that did not exist still does not.",
["inputs","fault_sequences"],"every file content, existing or missing paths, read-only files x every sequence of system-call failures",
"The tests never look at the file after the call, and with root privileges a write-mode open succeeds unnoticed.",
[LIB],[("File::open","src/lib.rs from_file")],
["open flags, modifying system calls, and directory and file state around the call"])

p("C13","Beyond the first 36,870 bytes, damage cannot affect a signature-only answer",
"When the format is determined by its signature alone (no enabled specialised or text reader applies to it), the answer is decided from the first 36,870 bytes: it is the same, without error, however long the rest of the stream is, whatever it contains, and even if every operation outside that prefix, or after it has been read, fails or never returns.",
["inputs","fault_sequences"],"every signature-identified content x every tail, tail damage, and failure of operations after the prefix, in every feature configuration",
"The fixtures are smaller than the prefix and have no damaged tails.",
[LIB,MC,SG],[("fixed prefix buffer","src/lib.rs from_reader")],
["operations the stream receives and the answer"])

p("C14","A stream that changes during detection yields only answers of its family",
"If the stream is truncated, extended or overwritten by someone else while it is being examined, the call still returns; and an answer it gives is the format whose signature was found at the start, one of the formats documented as derived from that signature, or the plain-text or arbitrary-binary fallback - never a format of an unrelated family.",
["inputs","schedules","fault_sequences","crash_points"],"every stream content x every sequence of truncations, extensions and overwrites interleaved between any two operations after the prefix has been read",
"Nothing changes the fixtures while a test reads them, and the container readers make many operations between which a change can fall.",
[LIB,RD],[("dispatch on the signature's format","src/readers.rs from_fmt_reader"),("fallback","src/readers.rs from_generic_reader")],
["answer of from_reader over a mutating simulated stream"])

p("C15","Time, latency, randomness and environment never influence the answer",
"The answer depends on nothing but the bytes: however slow the stream is or how long it stalls, whatever the clocks show and however they jump, whatever random numbers (hash seeds included), environment variables, thread or current directory the process has, the same bytes give the same format and the same sequence of requests to the stream.",
["schedules","configurations","histories"],"every content x every latency and stall pattern, clock reading and jump, random seed, environment and thread",
"Tests run once, fast, in one environment; a deadline or a hash-order dependence would pass them.",
[LIB,RD],[("no clock, randomness or environment is consulted","src/lib.rs, src/readers.rs")],
["answers and request traces of repeated calls under simulated clocks, random source and environment"])

p("C16","Well-formed files are recognised as the format they are",
"For every supported format, a well-formed file of that format is reported as that format, or as the generic container format when the corresponding reader feature is disabled, whatever optional parts, ordering or sizes the format's specification allows.",
["inputs"],"every well-formed file of every supported format",
"One or two samples per format are tested; format variants (optional parts, comments, padding) are not.",
[SG,RD],[("signature table","src/signatures.rs"),("container readers","src/readers.rs")],["FileFormat::from_bytes"])

p("C17","Among matching signatures the longest, most specific one wins",
"When the bytes match the signatures of several formats, the format with the more specific (longer) signature is reported, independently of the order in which formats were added.",
["inputs"],"every byte string matching two or more signatures",
"Samples match mostly one signature; overlaps are combinatorial.",
[SG,MC],[("table in descending order of size","src/signatures.rs")],["FileFormat::from_bytes"])

p("C18","Every format carries usable metadata",
"Every format has a non-empty name, a type/subtype media type, a non-empty extension without a leading dot, and a kind, and displaying a format prints its name.",
["inputs"],"every format value",
"Tests compare a few formats' metadata; there is no check over the whole, growing list.",
["src/formats.rs",MC,LIB],[("formats! table","src/formats.rs")],["FileFormat accessors and Display"])

p("C19","Enabling a reader feature only refines answers of that reader's family",
"Enabling one of the optional readers changes what a call returns, and what it asks of the stream, only for contents whose signature belongs to that reader's base format (or, for the text reader, for contents with no recognised signature or whose own reader found them malformed). Every other call behaves alike in every combination of features, whatever the stream does: short reads, interruptions, failing operations, early ends.",
["inputs","configurations","schedules","fault_sequences"],"every content x every set of enabled readers x every delivery schedule and sequence of interruptions and failures",
"The tests run with no features and with all features only, on whole files through an ideal stream; code for one reader that another reader, a fallback or a helper comes to depend on is only noticed in the other 4094 combinations.",
[RD],[("cfg-guarded dispatch and helpers","src/readers.rs from_fmt_reader, from_generic_reader")],["FileFormat::from_reader in differently configured builds"])

p("C20","Marker search finds a marker exactly when it is there",
"Searching a buffer for a marker reports the first (or, searching backwards, the last) occurrence exactly when one exists, for every buffer and marker.",
["inputs"],"every buffer and marker",
"Only reached indirectly, with a few fixture buffers and markers.",
[RD],[("Boyer-Moore-Horspool search","src/readers.rs FindBytes")],["formats detected by markers"])
p("C21","However large the parts a reader skips, the answer stays the same",
"For a well-formed container of a family whose reader walks from one structure to the next (ZIP, MP4, ASF, Matroska/EBML, RealMedia, compound file, portable executable, ID3v2-tagged audio), the answer does not depend on how much data lies in the parts the reader skips: up to the size the format's own fields express, and far beyond 2 and 4 GiB where they allow it, the answer is the one the same container gives with those parts nearly empty, whatever bytes they hold and however the stream is delivered.",
["inputs","schedules","fault_sequences"],"every sequence of structures x every size of each skipped part (also 64-bit sizes) x every delivery schedule and interruption",
"The fixtures are at most 33 KB; no test has a structure beyond the first few kilobytes, and real files of many gigabytes cannot be kept as fixtures.",
[RD],[("offset arithmetic and seeks of each container reader","src/readers.rs")],
["FileFormat::from_reader over a simulated sparse stream"])

p("C22","A torn or damaged file on a healthy device always yields a format of its family",
"For every byte content that a crash, a lost or misdirected write or a damaged device can leave behind (truncated anywhere, blocks zeroed, stale, overwritten or misplaced, appended garbage), as long as the stream itself works, detection gives a format and never an error; and that format is the one whose signature the surviving beginning carries, one of the formats documented as derived from it, or the plain-text or arbitrary-binary fallback.",
["inputs","crash_points","schedules"],"every container content x every crash point and set of lost, zeroed, stale or misplaced blocks x every legal delivery",
"The fixtures are whole; damage falls at arbitrary places inside arbitrary containers, and most of it is only reached by readers far behind the signature.",
[LIB,RD],[("errors describing the data are absorbed by the fallback","src/lib.rs from_reader"),("generic fallback","src/readers.rs from_generic_reader")],
["Result of FileFormat::from_reader and from_bytes"])
p("C23","Detection works wherever it is called: in readers, unwinding, at thread exit",
"A detection call gives the answer the same call gives when made alone, wherever in the program it is made: from within the read or seek of the caller's own reader while another detection is under way on the same thread (to any depth), from a destructor while a panic unwinds, or while the thread is ending and its thread-local values are being destroyed. It never panics, aborts, deadlocks or fails because of where it was made, and the calls around it are not affected.",
["schedules","histories","fault_sequences","crash_points"],"every nesting of calls through all three entry points, at every stream operation, with failures and caller panics at arbitrary operations, during unwinding and thread exit",
"Tests call detection from plain straight-line code; a reader that itself detects (an archive or a layered file system does), a destructor or a thread exit never surrounds a tested call.",
[LIB,RD],[("all working state is local to a call","src/lib.rs from_reader, src/readers.rs")],
["answers of nested from_reader / from_bytes / from_file calls","process exit status"])
p("C24","A panic of the caller's reader reaches the caller as it was raised",
"If a read or a seek of the caller's reader panics, at whatever operation of a detection call, the call ends by that very panic: it unwinds to the caller with the value it was raised with (of whatever type), and the program's panic hook has been run for it as usual. It is never swallowed or turned into a format or an error, never replaced by another panic or an abort, and the reader is asked for no further operation after it.",
["inputs","fault_sequences","schedules"],"every content x every operation at which the reader panics x every kind of panic x every delivery, interruption and failure before it",
"The tests' readers never panic; what a guard, a destructor or a retry does then is only seen at the operation where it happens.",
[LIB,RD],[("the reader is called directly and its panics pass through","src/lib.rs from_reader, src/readers.rs")],
["unwinding out of FileFormat::from_reader, operations asked of the reader"])
p("C25","A call needs only a small, constant amount of stack",
"While a detection call runs it uses at most 256 KiB of the calling thread's stack, whatever structures, nesting, repetition, lengths or counts the stream's bytes declare, however long the stream is, however it is delivered and whatever fails; so detection can be called on threads with small stacks and never overflows them.",
["inputs","schedules","fault_sequences"],"every content, hostile or not x every delivery schedule and sequence of failures x the three entry points",
"The tests run small regular files on threads with large stacks; recursion shows only with nesting or repetition no fixture has.",
[LIB,RD],[("iteration instead of recursion; buffers of constant size","src/lib.rs from_reader, src/readers.rs")],
["stack used below FileFormat::from_reader, from_bytes, from_file"])
p("C26","The width of the machine's pointers never influences the answer",
"The same bytes give the same format, after the same sequence of requests to the stream, on platforms with 32-bit pointers as on those with 64-bit ones, whatever lengths, offsets and counts the stream has or declares (streams and structures beyond 2 and 4 GiB included) and whatever the stream does; and no arithmetic on them panics on one and not on the other.",
["inputs","configurations","fault_sequences"],"every content and every length of the stream up to 2^63, every delivery and failure, on targets with pointers of 32 and of 64 bits",
"The tests run on the developer's 64-bit machine on small files; a length, offset or count squeezed through usize is only wrong elsewhere, and only on streams no fixture resembles.",
[LIB,RD],[("offsets and counts are kept in u64","src/readers.rs")],
["answers of FileFormat::from_reader and requests to the stream in a 32-bit and in a 64-bit build"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
