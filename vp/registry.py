from . import p_lib
CHECKS = {n: getattr(p_lib, n) for n in ("D01", "D02", "D03", "D04", "E01", "C01", "C02", "C03", "C04", "C05", "C06", "C07")}
REPLAY = "validation of recorded calls of the real code (six build configurations) against the specification"
GEN = "replay of histories generated by TLC into the real code and validation of the recorded calls"
NOTES = {
    "D01": (REPLAY, "Every length up to several blocks and random content; TLC itself computes the digest. Lengths and contents beyond those are not covered."),
    "D02": (GEN, "The buffering machine is checked exhaustively on small blocks; every (fill, piece) transition class of the real block sizes is executed."),
    "D03": (REPLAY, "Key and message lengths around all block boundaries and random content; TLC computes the HMAC."),
    "D04": (REPLAY, "Sizes around 2^29, 2^31 and 2^32 bytes in one call and accumulated; sizes whose bit count passes 2^64 are out of reach. The chaining value of the whole blocks comes from a witness (libcrypto); TLC computes padding, length and output."),
    "E01": (GEN, "The same histories in six configurations and through both layers must give one and the same accepted trace."),
    "C01": (GEN, "All transitions of the reduced call machine and random histories; ownership is observed at wrapped allocations."),
    "C02": (GEN, "All refused calls from every state of the reduced machine."),
    "C03": (GEN + "; calls of parallel threads recorded and validated, with the thread sanitizer", "All interleavings of two contexts of any two algorithms in one thread; thread schedules only as they happen to occur."),
    "C04": (REPLAY + " made between guard pages and under address, undefined behaviour and memory sanitizers", "Inputs are read-only and end or start at inaccessible pages; buffers of all sizes up to several blocks."),
    "C05": ("single-fault enumeration over the calls of the model, validated as traces", "Every allocation, memcpy/memset and back end operation of every call fails once; one fault per call."),
    "C06": ("validation of recorded calls, with released memory inspected for secrets", "Heap blocks at release in gcc -O2, gcc -O1 -fno-builtin and clang -O2 builds; stack and registers are not looked at."),
    "C07": (GEN, "libcerror is a stand-in with the interface of the original."),
}
from . import p_tool
CHECKS.update({n: getattr(p_tool, n) for n in ("T01", "T02", "T03", "T04", "T05", "T06", "T07", "T08", "T09", "T10")})
NOTES.update({
    "T01": (GEN, "All short runs of the model of the tool (read splits, buffers) at three scales; TLC computes the printed digests. Above 100 KB the updates are recorded instead, up to 9 GB."),
    "T02": ("single-fault enumeration over runs of the model of the tool, validated as traces", "Every operation fails once in runs of every shape; several failures at once are sampled."),
    "T03": (GEN, "An interrupt at every call the tool makes (input layer, libhmac, heap), with and without a failure; not between machine instructions."),
    "T04": ("replay of words enumerated by TLC into the real code and validation of the recorded calls", "Words of three or four tokens, one changed character of every name, random lists."),
    "T05": ("replay of words enumerated by TLC into the real code and validation of the recorded calls", "All words of four tokens, the bounds of 63 and 64 bits for every unit, random numbers. Fractions are only bounded by the unit."),
    "T06": (REPLAY, "The boundaries of every unit and decimal, random 64-bit sizes; a full stop as decimal point."),
    "T07": (REPLAY, "Every byte value at every position, all text buffer sizes around the right one, between guard pages."),
    "T08": ("replay of argument lists enumerated by TLC into the real code and validation of the recorded calls", "All argument lists of six or seven tokens, random lists, both parsers."),
    "T10": ("replay of runs generated by TLC with an output that finds no room, validated as traces", "Every number of bytes the output takes, for runs of every shape; the output is a file."),
    "T09": ("validation of recorded runs against the specification of the command line", "All pairs of options (thorough: triples), random command lines."),
})
from . import p_py
CHECKS.update({n: getattr(p_py, n) for n in ("P01", "P02", "P03", "P04")})
NOTES.update({
    "P01": (GEN, "Lengths over three blocks, all argument forms, all orders of operations of one object up to seven, threads with objects of their own, messages of 6 GiB. CPython 3.12."),
    "P02": (GEN + "; single-fault enumeration", "All histories of one object up to seven operations and of two up to five; every operation failing once. CPython 3.12."),
    "P03": (GEN + "; single-fault enumeration", "Fourteen kinds of values that are not bytes, four wrong argument forms, from every state. CPython 3.12."),
    "P04": (GEN + "; threads are stopped within the library", "All schedules of two threads with two calls each on one object (sampled in the quick tier), of three threads with one call, and of two objects. Threads are stopped at the entries to and returns from the library, not between machine instructions. CPython 3.12 with its interpreter lock."),
})
