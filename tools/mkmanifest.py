import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "Real crate over simulated streams; every way of splitting reads is drawn from the seed, and the answer is compared with from_bytes over the same bytes. Trusts from_bytes over a Cursor as the definition.",
 "C02": "As C01, with Interrupted errors (bursts of 1 to 70,000) at drawn reads; the run must end without error and with the uninterrupted answer.",
 "C03": "Errors of 34 kinds and 44 errnos, plain, with payload, transient, permanent or tied to a sector, at drawn operations; the result must be an injected error or the healthy answer.",
 "C04": "Hostile and truncated containers, endless streams, changing bytes, early ends and errors, in builds with and without overflow checks and without readers; a panic, signal or non-return is a violation.",
 "C05": "Streams made of more items than each documented limit, endless or self-referring: operation and byte caps, highest offset inspected, and a twin stream that differs only beyond the limit must get the same answer.",
 "C06": "A counting global allocator holds each call to 1 MiB (and ends the process at 256 MiB) on hostile and endless streams. Stack memory is not counted.",
 "C07": "Histories of up to 300 calls in a forked process, each compared with the same call (same faults) in a process that has made no call.",
 "C08": "2-4 (sometimes up to 130) real threads of which the simulator lets one run at a time, switching at stream operations by simulated latency and at any basic block of the crate (compiler-inserted callbacks), with simulated futexes; each call compared with the same call alone; a thread that waits for one suspended in its stream, or polls without end, is reported. Reorderings of memory accesses by the processor are not simulated.",
 "C09": "Real files through the real kernel behind interposed open/read/lseek/close that shorten, interrupt and limit offsets; compared with from_bytes.",
 "C10": "Real files with errnos injected at open, read, lseek, missing paths and directories; the result must be that errno or the healthy answer.",
 "C11": "Each call repeated up to sixteen times with heap, descriptor and drop accounting, ended by success, error at an operation, or the reader's panic.",
 "C12": "Directory snapshots around each call and interposed modifying system calls (recorded and refused). Raw syscall instructions would bypass the record, not the snapshot.",
 "C13": "Signature-only contents with tails that are dead (every operation beyond fails), different or absent, compared with the prefix alone.",
 "C14": "Truncations, extensions and overwrites between operations once the prefix has been read; the answer must be in the family of the signature (families from the crate's documentation, the signature from a build without readers).",
 "C15": "The same bytes under two simulated environments (latency, clock, jumps, random seed, variables, directory, thread); answers and requests must be equal.",
 "C19": "One call (content, delivery, faults) replayed in 26 builds: all readers, none, each one alone, all but each one (every combination of any three features being on or off occurs). Answers and requests must agree wherever the signature's reader (or the text fallback) is the same. Combinations that only differ in four or more features at once are not built.",
 "C21": "A container built twice from the same draws, once with its skipped parts nearly empty and once sparse up to 2^62 bytes: both must give the same format under every drawn delivery. Trusts the generators to be well-formed (a malformed pair is still judged, as its structure is the same).",
 "C23": "Sequences of 2-5 calls made inside each other's stream operations, in destructors during unwinding, or in thread-local destructors at thread exit (registered before and after whatever the crate registers), in a forked process; each compared with the same call (same faults) in a process that has made no call.",
 "C24": "The caller's reader panics, in ten ways, at an operation the call is known to make, after drawn short reads, interruptions and soft errors: value, hook and later operations are compared with what was raised.",
 "C25": "The 256 KiB below each call are painted before it and inspected after it, on hostile, repeated, nested and endless contents with failures, in optimised builds with and without overflow checks and in an unoptimised one.",
 "C26": "Each scenario (contents of all kinds, many beyond 2 and 4 GiB long, with short reads, interruptions and failures) is replayed in a build for i686 with its own standard library, executed natively by a process of its own; answer and requests must be those of the 64-bit build. 32-bit addresses only: no other instruction set, byte order or 16-bit target.",
 "C22": "Contents damaged as crashes and devices damage them (torn, zeroed, stale, swapped, misplaced blocks, poked fields), streams otherwise healthy: no error, and an answer in the family of the signature (families from the crate's documentation, the signature from a build without readers).",
}
NA = {
 "C16": "A statement about parsing well-formed files, independent of delivery, scheduling, faults or time: nothing a simulator could vary bears on it.",
 "C17": "A pure function of a byte buffer (signature matching): no schedule, time, I/O or fault can influence it, so simulation adds nothing to plain input testing.",
 "C18": "Constant tables: no input but the enum value, no nondeterminism.",
 "C20": "A pure function on in-memory buffers, private to the crate: no nondeterminism to control. (Its effect across chunk boundaries is exercised under C01.)",
}
checks = [{
  "property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
  "technique": "deterministic simulation with fault injection, seeded search",
  "level": "exploration", "level_note": n,
} for p, n in NOTE.items()]
json.dump({"version": 1, "setup_cmd": "./setup", "checks": checks,
  "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
  "notes": "No hooks in /repo: its seams are Read + Seek, and the C library below std::fs::File. ./tools/replay.py FILE re-executes a replay file."},
  open(V + "/MANIFEST.json", "w"), indent=1)
