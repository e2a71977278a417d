#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
L = "libhmac/"
ctxs = [L + "libhmac_%s_context.c" % a for a in ("md5", "sha1", "sha224", "sha256", "sha512")]
algs = [L + "libhmac_%s.c" % a for a in ("md5", "sha1", "sha224", "sha256", "sha512")]
pyc = ["pyhmac/pyhmac_%s_context.c" % a for a in ("md5", "sha1", "sha224", "sha256", "sha512")]
pya = ["pyhmac/pyhmac_%s.c" % a for a in ("md5", "sha1", "sha224", "sha256", "sha512")]
NOTEST = ("The only test program that links here compares the version string; the repository's other "
          "test programs (not linkable here) ")
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                               observe_at=observe or [], hook_needed=hook)))

p("D01", "Digests equal the published standards for every message",
  "For every message, the MD5, SHA-1, SHA-224, SHA-256 and SHA-512 digest that the library reports is the one RFC 1321 and FIPS 180-4 define, whatever the message's length or content. This holds in every build configuration: the built-in implementation (unrolled or looped) and each OpenSSL back end.",
  ["inputs", "configurations"],
  "all byte strings (lengths around every block and padding boundary, arbitrary content), all five algorithms, every way the library can be configured at build time",
  NOTEST + "check one or two fixed messages per algorithm, in the one configuration that was built; a wrong rotation, round constant, padding threshold or table entry that only some lengths or the other configurations reach stays unseen.",
  ctxs + algs + [L + "libhmac_byte_stream.h", "common/byte_stream.h"],
  [("block transform, unrolled and looped variants", "libhmac_*_context_transform"),
   ("padding and big/little endian length encoding", "libhmac_*_context_finalize"),
   ("one-shot calculation", "libhmac_*_calculate")],
  [("hash values, block, block offset, byte count", "chaining value and unprocessed tail of the message", "libhmac_internal_*_context")],
  ["bytes written by calculate and finalize"])

p("D02", "A digest depends only on the concatenated data, not on how it is split",
  "Feeding a message in any sequence of pieces, including empty and single-byte pieces and pieces larger than several blocks, gives the digest of the whole message. The piecewise interface, the deprecated piecewise functions and the one-shot function all agree.",
  ["inputs", "histories", "configurations"],
  "all messages, all ways of splitting them into updates, all five algorithms and build configurations",
  NOTEST + "feed at most two or three pieces of fixed sizes; the number of splittings is exponential, and errors in the carry-over of a partial block show only for particular combinations of fill level and piece size.",
  ctxs + algs,
  [("partial block carry-over", "libhmac_*_context_update"), ("tail padding", "libhmac_*_context_finalize"),
   ("deprecated wrappers", "libhmac_*_update, libhmac_*_finalize")],
  [("block offset", "fill level of the partial block, below the block size between calls", "libhmac_internal_*_context")],
  ["digest bytes after any update sequence"])

p("D03", "HMACs equal RFC 2104 for every key and message",
  "For every key and message, the HMAC the library reports is the RFC 2104 HMAC with the chosen digest: keys up to one block are zero padded and longer keys are first hashed. It depends on every byte of key and message, and a zero-length key is allowed.",
  ["inputs", "configurations"],
  "all keys of any length (empty, one block minus one, one block, one block plus one, many blocks), all messages, all five algorithms and build configurations",
  NOTEST + "use one key of one length per algorithm.",
  algs + ctxs,
  [("key normalisation, inner and outer padding", "libhmac_*_calculate_hmac")],
  [("key data, inner padding, outer padding", "block sized secrets", "libhmac_*_calculate_hmac")],
  ["bytes written by calculate_hmac"])

p("D04", "Messages beyond 2^32 bits and 2^32 bytes are counted correctly",
  "Digests stay correct when the message length passes 2^29, 2^31 and 2^32 bytes, both in one call and accumulated over many calls. The encoded length is the exact number of bits hashed.",
  ["inputs", "histories", "configurations"],
  "message sizes around 512 MiB, 2 GiB and 4 GiB, and beyond, as one update or many",
  "No test hashes more than a few hundred bytes; a 32-bit truncation of a byte or bit count cannot show below 512 MiB.",
  ctxs,
  [("64-bit byte count and bit length", "libhmac_*_context_update, libhmac_*_context_finalize")],
  [("hash count", "number of bytes transformed so far", "libhmac_internal_*_context")],
  ["digest bytes"])

p("E01", "All build configurations and interface layers behave the same",
  "The same sequence of calls with the same arguments gives the same return values, the same outputs and the same error or no-error outcome whether the library uses its built-in code or any OpenSSL back end, and whether the current or the deprecated functions are called.",
  ["configurations", "histories", "inputs"],
  "all call sequences on valid contexts over the documented argument ranges (output sizes up to the maximum unsigned int), for all build configurations and both function families",
  "The tests run in one configuration and never compare two; the configurations are separate copies of the code selected by the preprocessor.",
  ctxs + algs,
  [("per-backend copies of initialize, free, update and finalize", "libhmac_*_context.c"), ("deprecated wrappers", "libhmac_*.c")],
  None, ["return values, error objects and output bytes of whole call histories"])

p("C01", "Context life cycle: create, use, free, in any order of calls",
  "Creating a context succeeds only through a reference that is empty and leaves any other reference untouched and reports failure. Freeing always succeeds on a non-null reference, empties it, releases everything the context owned, and freeing an already empty reference is a harmless success; after freeing, the reference can be used to create a fresh context that behaves like a first one.",
  ["histories", "configurations"],
  "all sequences of create, update, finalize and free over several references, in every build configuration and both function families",
  NOTEST + "create, use and free each context once, in one order.",
  ctxs + algs,
  [("already-set check and error clean up", "libhmac_*_context_initialize"), ("free", "libhmac_*_context_free")],
  [("context reference", "NULL or a live context", "caller")],
  ["return values, reference value, outstanding allocations"])

p("C02", "Invalid calls are refused and leave everything as it was",
  "A call with a missing context, missing data, missing output buffer, a size above the maximum signed size, or an output size below the digest size fails without writing to the output. A failed argument check never changes the digest: the same context can go on to absorb data and produce the digest of exactly the data accepted; an update with zero bytes is accepted and changes nothing.",
  ["inputs", "histories", "configurations"],
  "all functions, all combinations of invalid arguments at any point of any history",
  NOTEST + "check the return value of single invalid calls but not that the context still gives the right digest afterwards.",
  ctxs + algs,
  [("argument checks before any state change", "libhmac_*_context_update, libhmac_*_context_finalize, libhmac_*_calculate_hmac")],
  None, ["return values, output buffers, later digests"])

p("C03", "Contexts are independent of each other",
  "Work on one context, of the same or another algorithm, never changes the result of another context, however the calls are interleaved in one thread or run in parallel threads. There is no hidden shared state that one call can leave behind for the next.",
  ["schedules", "histories", "configurations"],
  "all interleavings of histories over several contexts and one-shot calls, and all schedules of threads that use different contexts",
  "Every test uses one context at a time in one thread.",
  ctxs + algs,
  [("all mutable state lives in the context or on the stack", "libhmac_*_context.c"), ("constant tables", "libhmac_*_context.c")],
  None, ["digests of interleaved and parallel histories, data race reports"])

p("C04", "Only the given bytes are read and only the digest bytes are written",
  "No call reads outside the data and key it was given or outside initialised memory, changes the data or key, or writes any output byte beyond the digest size, whatever the sizes and alignment of the buffers. The output buffer may be larger than the digest and may be the same memory as the message or key.",
  ["inputs", "histories", "configurations"],
  "all buffer sizes, alignments and overlaps, all histories, all algorithms and configurations",
  NOTEST + "use fixed, generously sized and aligned buffers and compare only the digest bytes.",
  ctxs + algs + [L + "libhmac_byte_stream.h"],
  [("bounded copies into the block", "libhmac_*_context_update"), ("bounded output", "libhmac_*_context_finalize")],
  None, ["guard bytes, page faults, sanitizer reports"])

p("C05", "Resource and back end failures are reported, never hidden, and leak nothing",
  "When a memory allocation or a back end operation fails at any point of any call, that call reports failure and does not report a digest as successfully computed. Everything the failed call had acquired is released, no reference to a half-made context is left behind, and other contexts and later calls are unaffected.",
  ["fault_sequences", "histories", "configurations"],
  "a failure at the n-th resource operation of each call, for every n, in every configuration",
  NOTEST + "can inject failures only with their own optional memory hooks, and look only at the return value.",
  ctxs + algs,
  [("on_error clean up paths", "libhmac_*_context_initialize, libhmac_*_calculate, libhmac_*_calculate_hmac")],
  None, ["return values, error objects, outstanding allocations, later digests"])

p("C06", "Key material is wiped before its memory is released",
  "When an HMAC calculation ends, successfully or not, none of the memory blocks it releases still contains the key, the key padded or hashed to a block, or the inner or outer padded key. After a digest has been delivered by the built-in implementation, the context's memory no longer holds message data.",
  ["inputs", "fault_sequences", "configurations"],
  "all keys and messages, success and every failure point, every configuration, observed at the moment memory is released",
  "No test looks at released memory.",
  algs + ctxs,
  [("clearing of key data and paddings", "libhmac_*_calculate_hmac"), ("clearing of the context", "libhmac_*_context_finalize")],
  [("key data, inner padding, outer padding", "heap blocks derived from the key", "libhmac_*_calculate_hmac")],
  ["contents of heap blocks when they are freed"])

p("C07", "Failure is always accompanied by an error, success never is",
  "Every call that reports failure also sets the caller's error object when one is supplied, with a domain that tells invalid arguments from other failures, and every call that reports success leaves the error object untouched; passing no error object changes nothing else. An error can be printed, as one line or as a backtrace, to a stream or a string, within the size given, and is released by one call that empties the reference.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all calls with and without an error object, all failures",
  NOTEST + "free the error objects without looking at them.",
  ctxs + algs + [L + "libhmac_error.c"],
  [("libcerror_error_set on every failing path", "libhmac/*.c"), ("error interface", "libhmac_error_*")],
  None, ["error object after each call"])

p("T01", "The tool prints the digests of exactly the file's bytes",
  "For every file, every process buffer size and every way the operating system splits the reads, a successful run prints for each selected digest type the lower-case hexadecimal digest of the complete file, once each, in the order MD5, SHA1, SHA224, SHA256, SHA512, and exits successfully.",
  ["inputs", "schedules", "configurations"],
  "all file contents and sizes (empty, below, at and above multiples of the buffer size), all buffer sizes, all short-read patterns, all digest selections",
  "The tool cannot be linked in the test set-up, and the repository's scripts compare a few small files with one buffer size and full reads.",
  ["hmactools/sum_handle.c", "hmactools/hmacsum.c", "hmactools/digest_hash.c"],
  [("read loop", "sum_handle_process_input"), ("fan-out to contexts", "sum_handle_update_integrity_hash, sum_handle_finalize_integrity_hash")],
  [("process count, media size", "bytes consumed and expected", "sum_handle_process_input")],
  ["standard output and exit status"])

p("T02", "The tool never prints a digest it could not compute",
  "If the input cannot be opened or sized, a read fails, the data ends early, memory runs out or a digest operation fails, at whatever point, the run prints no digest line and ends with a failure status. Everything that was opened or allocated is released and the tool does not hang or crash.",
  ["fault_sequences", "inputs"],
  "a failure at each input operation, each allocation and each digest operation of a run, for all digest selections",
  "No test makes an input or memory operation of the tool fail.",
  ["hmactools/sum_handle.c", "hmactools/hmacsum.c"],
  [("error propagation", "sum_handle_process_input, main"), ("clean up", "sum_handle_free")],
  None, ["standard output, exit status, outstanding handles and allocations"])

p("T03", "An interrupted run prints no digest and says so",
  "If an interrupt arrives at any moment while the input is being opened or processed, the run starts at most one further read, prints that it was aborted, prints no digest line and ends with a failure status. Without an interrupt a run is never reported as aborted.",
  ["schedules", "inputs"],
  "an interrupt before, during and after each input operation of a run, at most a few interrupts per run",
  "No test sends a signal.",
  ["hmactools/hmacsum.c", "hmactools/sum_handle.c", "hmactools/hmactools_signal.c"],
  [("abort flag", "sum_handle_signal_abort, hmacsum_signal_handler"), ("signal set-up", "hmactools_signal_attach, hmactools_signal_detach")],
  [("abort", "set once by the handler, read after each buffer", "sum_handle_t, hmacsum_abort")],
  ["standard output, exit status, number of reads after the interrupt"])

p("T04", "Digest type selection picks exactly the named types",
  "A comma separated list selects exactly the digest types it names, in any order and repetition, where a name is md5, sha1, sha224, sha256 or sha512 entirely in lower or entirely in upper case, with an optional hyphen or underscore before the number of a sha type; MD5 is always included and unknown or partially matching names select nothing. Selecting again adds to the selection and setting the types reports success.",
  ["inputs", "histories"],
  "all lists over the accepted spellings and near misses, applied once or several times",
  "No test calls the selection.",
  ["hmactools/sum_handle.c"],
  [("segment matching", "sum_handle_set_digest_types")],
  None, ["return value, selected types as shown by the printed lines"])

p("T05", "Size strings are converted exactly or refused",
  "A whole number, optionally followed by one space, a unit letter from K to Y in either case and B (powers of 1000) or iB or nothing (powers of 1024), converts to exactly that many bytes; a decimal fraction adds at least nothing and less than one unit. A string with any other unit, or whose value does not fit in 64 bits, is refused and leaves the result untouched; a process buffer size above the maximum signed size is not applied.",
  ["inputs"],
  "all strings over digits, separators, units and trailing characters, up to and beyond 64-bit values",
  "No test calls the conversion.",
  ["hmactools/byte_size_string.c", "hmactools/sum_handle.c"],
  [("size conversion", "byte_size_string_convert"), ("buffer size option", "sum_handle_set_process_buffer_size")],
  None, ["return value and converted size"])

p("T06", "Sizes are formatted truthfully",
  "Every 64-bit size is printed with the largest unit, in powers of 1000 or 1024 as requested, for which the number is at least one, with the whole part truncated and, below ten of a unit larger than the byte, one decimal that is within one tenth of the true value. The text fits the space given or the call fails, and a buffer too small for any size is refused.",
  ["inputs"],
  "all 64-bit sizes, both unit systems, all buffer lengths",
  "No test calls the formatting.",
  ["hmactools/byte_size_string.c"],
  [("size formatting", "byte_size_string_create")],
  None, ["return value and text"])

p("T07", "Digests are rendered as lower-case hexadecimal, all bytes, in order",
  "Rendering any digest gives two lower-case hexadecimal characters per byte, most significant first, in order, followed by one terminator and nothing else. A text buffer that is one character too small, or a missing argument, is refused without writing.",
  ["inputs"],
  "all byte strings and buffer sizes",
  "No test calls the rendering.",
  ["hmactools/digest_hash.c"],
  [("hexadecimal rendering", "digest_hash_copy_to_string")],
  None, ["return value, text and guard bytes"])

p("T08", "Options are recognised as POSIX prescribes, with either option parser",
  "For every argument list, options may be grouped, option arguments may be attached or separate, scanning stops at the first operand, at a lone hyphen (which is an operand) or after a double hyphen, and an unknown option or missing option argument is reported, scanning then continuing with the next option. The built-in parser, used where the system has none, reports the same options, arguments and first operand as that rule.",
  ["inputs", "configurations"],
  "all argument lists over option letters with and without arguments, unknown letters, groups, hyphens and operands, for several option strings",
  "No test runs the built-in parser; it is compiled only on systems without getopt.",
  ["hmactools/hmactools_getopt.c"],
  [("option parser", "hmactools_getopt")],
  [("current argument and position in a group", "parser cursor", "optind, next_option")],
  ["returned option, option argument, operand index"])

p("T09", "The command line has the documented effect and exit status",
  "Help and version requests succeed without reading input; an unknown option, a missing option argument or a missing source fails with the usage text and without reading input; an unusable buffer size falls back or fails as reported and never yields a wrong digest. Options act the same in any order and the last buffer size or digest list given counts.",
  ["inputs", "histories"],
  "all command lines over the documented options, with valid and invalid values",
  "No test runs the tool's argument handling.",
  ["hmactools/hmacsum.c", "hmactools/hmactools_output.c"],
  [("option loop", "main")],
  None, ["standard output, exit status, input operations performed"])

p("T10", "Success of the tool means that its digests were written",
  "When the output takes only part of what the tool writes or nothing at all (a full disk, a closed output), a run that could not write every digest line completely ends with a failure status; what did arrive is the beginning of the correct lines, and everything that was opened or allocated is released. A run whose output takes everything is not affected.",
  ["fault_sequences", "inputs"],
  "every number of bytes after which the output takes no more, in runs of every shape, with and without other failures",
  "No test runs the tool with an output that fails.",
  ["hmactools/sum_handle.c", "hmactools/hmacsum.c"],
  [("printing of the digests", "sum_handle_hash_values_fprint"), ("exit status", "main")],
  None, ["standard output, exit status"])

p("P01", "The Python module computes what the library computes",
  "For every bytes value, the Python one-shot digest, one-shot HMAC and incremental context of each algorithm return the bytes the standards prescribe, with positional or keyword arguments and any splitting into updates. The returned value is always a bytes object of the digest size.",
  ["inputs", "histories"],
  "all bytes keys and messages, all splittings, all five algorithms, all argument forms",
  "The Python module is not built by the tests here, and the repository's Python test checks only the version.",
  pya + pyc + ["pyhmac/pyhmac.c"],
  [("method tables", "pyhmac.c"), ("argument conversion", "pyhmac_*_calculate, pyhmac_*_context_update")],
  None, ["returned bytes"])

p("P02", "Python objects own and release their resources in every history",
  "Creating, using, re-initialising, finalising and dropping Python context objects in any order neither crashes the interpreter, nor leaks library contexts, nor raises an error from object destruction, nor lets a pending exception be replaced. An object whose initialisation failed or never ran can be dropped safely and refuses use with an exception.",
  ["histories", "fault_sequences"],
  "all sequences of object operations, including repeated and missing initialisation and failing library calls",
  "No Python test exists beyond the version.",
  pyc,
  [("object life cycle", "pyhmac_*_context_init, pyhmac_*_context_free")],
  [("library context", "owned by exactly one live object", "pyhmac_*_context_t")],
  ["exceptions, outstanding library contexts, reference counts"])

p("P03", "Python misuse raises the documented exceptions and changes nothing",
  "Passing a value that is not bytes, or a wrong number or name of arguments, to a function or method of the Python module (the constructors take none and ignore any), or provoking a library failure raises a Python exception (TypeError for data that is not bytes) and never crashes, returns a value or leaks; a context survives a refused update and still yields the digest of the accepted data. No exception is raised by a valid call.",
  ["inputs", "histories", "fault_sequences"],
  "all argument types and counts for every function and method, and library failures at each point",
  "No Python test exists beyond the version.",
  pya + pyc + ["pyhmac/pyhmac_error.c"],
  [("type checks", "pyhmac_*_calculate, pyhmac_*_context_update"), ("error translation", "pyhmac_error_raise")],
  None, ["exception type, later digests"])

p("P04", "Threads can share the objects and functions of the Python module",
  "When several threads use the Python module at once, every call acts as if the calls on an object had been made one after the other, in an order that respects which call ended before which began: a digest is that of the pieces of the updates in such an order, no context is used after it was released or by two threads at once, and no call hangs. That holds for threads that share one context object (update, finalize, initialisation again, dropping the object), for objects of their own and for the functions of the module.",
  ["schedules", "histories"],
  "all interleavings of the calls of several threads on shared and separate objects",
  "No Python test exists beyond the version.",
  pya + pyc,
  [("release of the interpreter lock", "Py_BEGIN_ALLOW_THREADS in pyhmac_*_context_update, pyhmac_*_context_finalize, pyhmac_*_calculate"), ("lock of a context object", "pyhmac_*_context_t")],
  [("library context", "used by one thread at a time", "pyhmac_*_context_t")],
  ["returned digests, exceptions, entries to the library"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
