#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mechanism],
        "observe_at": list(observe), "hook_needed": hook}})

READERS = ["src/input-pnm.c","src/input-bmp.c","src/input-tga.c","src/input-png.c","src/input-gf.c","src/input.cpp","src/autotrace.c"]
CORE = ["src/autotrace.c","src/pxl-outline.c","src/fit.c","src/curve.c","src/spline.c","src/thin-image.c","src/image-proc.c","src/despeckle.c","src/median.c"]
WRITERS = ["src/output-%s.c" % f for f in "eps er fig sk svg ugs p2e emf dxf epd pdf mif cgm dr2d pov plt ild".split()] + ["src/output.cpp","src/autotrace.c"]

p("C01", "A read returns exactly the stored image or reports the failure",
  "Reading a valid PNM (P1-P6), BMP, TGA, PNG or GF file yields exactly the width, height, channel count and pixels the file encodes, no matter how storage splits the bytes into reads. If the file cannot be opened, ends early, or a read fails part-way, the read either still returns that exact image or reports an error or warning through the message callback. It never hands back a partial or wrong image without a report, and after a reported fatal error the returned bitmap holds no pixels.",
  ["fault_sequences","inputs"], "every supported file, every split of the file into reads, and every open failure, early end of file or read error at any byte",
  "The tests read three healthy files from a local disk; none looks at the pixels, and no read ever fails, ends early or comes in pieces.",
  READERS, [("fread/fgetc results checked by each reader","src/input-*.c"),("fatal/warning report","src/exception.c")],
  observe=["at_bitmap_read result","message callback"])
p("C02", "A damaged image file never crashes, hangs or ends the process",
  "Whatever bytes a stored image file holds after bit flips, zeroed or misplaced sectors, torn or stale tails, or duplicated blocks, reading it ends after an amount of work bounded by its length and the size it declares, without any invalid memory access and without ending the calling process. The caller gets either a bitmap whose declared pixels are all readable, or a reported failure.",
  ["fault_sequences","inputs"], "every sequence of storage corruptions applied to files of every supported format",
  "The tests read three healthy files; damaged bytes reach length, offset, palette and run-length handling that no test executes.",
  READERS, [("header sanity checks","src/input-bmp.c, src/input-tga.c, src/input-pnm.c, src/input-gf.c"),("libpng error callback","src/input-png.c")],
  observe=["at_bitmap_read result","message callback","process status","memory accesses"])
p("C03", "Success is reported only when the whole output reached its destination",
  "When the destination refuses, loses or fails part of the output (full disk, I/O error, broken pipe, error only seen at flush or close, failed open), the command-line tool exits non-zero with a message and the C++ interface returns an error; a zero status or a success value means every byte of the document is at the destination. For a caller of the library, a failed write is still visible as the stream's error state when the write call returns or the caller closes the stream, and a fatal condition met while writing is reported through the message callback.",
  ["fault_sequences","crash_points"], "every output format, destination, and fault at any byte, flush or close of the output",
  "Tests write to a healthy disk, where every write succeeds; a lost write error looks exactly like success there.",
  ["src/main.c","src/wrapper/autotrace.cpp"]+WRITERS, [("stream error checks before reporting success","src/main.c, src/wrapper/autotrace.cpp"),("writers leave the stream error flag alone","src/output-*.c")],
  observe=["exit status","stderr","produceOutput result","destination bytes","ferror(stream)"])
p("C04", "Cancelling a trace at any poll stops it, returns nothing, leaks nothing",
  "If the cancellation callback answers true at any poll, even only once, the trace returns no splines, sends no further progress, and polls or works only a bounded amount more. Everything the trace allocated is released, no error is reported, and a repeated trace of the same image in the same process gives the result it would have given without the cancelled one.",
  ["schedules","histories"], "every image, option set and poll number at which cancellation begins (persistent or one-shot), and every later use of the library",
  "No test passes a cancellation callback.",
  CORE, [("CANCELP checks and cleanup labels","src/autotrace.c at_splines_new_full"),("test_cancel in the pixel and fitting loops","src/pxl-outline.c, src/fit.c")],
  observe=["at_splines_new_full result","callback history","allocator balance"])
p("C05", "Progress stays in 0..1, never goes back, ends at 1, and changes nothing",
  "Every progress value delivered during a trace lies between 0 and 1, values never decrease, and 1 is delivered exactly when the trace succeeds. Each callback receives the caller's own data pointer, and whether callbacks are supplied, slow, or themselves start other traces does not change the resulting splines.",
  ["schedules","inputs"], "every image and option set, any point at which a callback stalls, re-enters the library or is absent",
  "One test runs with -report-progress and looks only at the output; no test looks at callback values or re-enters the library.",
  ["src/autotrace.c","src/pxl-outline.c","src/fit.c","src/curve.c"], [("progress fractions per stage","src/pxl-outline.c, src/fit.c, src/curve.c, src/autotrace.c")],
  observe=["progress callback history","at_splines_new_full result"])
p("C06", "Running out of memory never produces a wrong result or bad access",
  "If any allocation, or every allocation from some point on, fails while reading, tracing or writing, the operation either completes with exactly the result it would have produced, or fails visibly: a reported error, a failure result, or a deliberate abnormal termination of the process. It never reports success with a different result and never touches memory it does not own.",
  ["fault_sequences"], "every operation, format and option set, and every allocation or run of allocations made during it",
  "Allocations do not fail in the tests.",
  ["src/xstd.h"]+READERS+CORE+WRITERS[:-1], [("checked allocation macros","src/xstd.h"),("allocation checks","src/input-gf.c, src/output-dr2d.c")],
  observe=["operation results","process termination kind","memory accesses"])
p("C07", "Results do not depend on what the process did before",
  "In one process, any sequence of reads, traces and writes, including ones that failed, were cancelled, hit I/O errors or used other formats and options, leaves every later operation giving exactly the result it gives in a fresh process. The one intended carry-over is the glyph metrics that the UGS writer takes from the last GF character read.",
  ["histories","fault_sequences"], "every finite sequence of library operations with faults in any of them",
  "Each test process performs one conversion.",
  ["src/output-fig.c","src/input-tga.c","src/thin-image.c","src/output-emf.c","src/output-ild.c","src/output-mif.c","src/output-dr2d.c","src/output-dxf.c","src/input-bmp.c","src/output-ugs.c","src/input-gf.c","src/input.cpp","src/output.cpp","src/module.c"],
  [("per-call reset of static tables","src/output-fig.c, src/output-emf.c, src/output-ild.c, src/input-tga.c")],
  state=[("colour table","colours already assigned FIG numbers","src/output-fig.c"),("run-length state","bytes decoded but not yet consumed","src/input-tga.c rle_fread"),("background","background colour used by thinning","src/thin-image.c")],
  observe=["bitmaps","splines","output bytes","messages"])
p("C08", "Results are a function of image and options, not of the environment",
  "Bitmaps, splines and output bytes are the same whatever was left in freshly allocated memory or on the stack, wherever objects lie in memory, whichever locale, time zone or environment variables the process has, and whatever the clock says. The only clock-dependent bytes are the creation dates in EPS, EPD and ER files, which show the current time, or a fixed date when AT_DATE_ZERO=yes.",
  ["configurations","fault_sequences"], "every residue of previous memory contents, clock value and jump, time zone, locale and environment",
  "The tests run once each, on one machine, in the C locale, with mostly zeroed fresh memory.",
  READERS+CORE+WRITERS, [("LC_NUMERIC fixed while writing","src/autotrace.c at_splines_write"),("AT_DATE_ZERO","src/autotrace.c at_time_string")],
  observe=["bitmaps","splines","output bytes"])
p("C09", "Concurrent sessions do not affect each other",
  "When several threads of one process each read, trace and write with objects of their own, every session gives exactly the results it gives when run alone, under every interleaving. Read-only sharing of a reader, a writer or an options object between the threads is allowed. The UGS writer's use of the last GF character read is outside this guarantee.",
  ["schedules"], "every interleaving of the sessions' steps, every mix of formats and options",
  "No test runs two operations at once.",
  READERS+CORE+WRITERS, [("no shared mutable state between calls","all library sources; NEWS 0.28 'Efforts to make libautotrace.a thread-safe'")],
  state=[("file-scope variables","see DESIGN.md inventory","src/input-bmp.c, src/input-tga.c, src/thin-image.c, src/output-*.c")],
  observe=["bitmaps","splines","output bytes","messages per session"])
p("C10", "All memory and file handles are released, also after failures",
  "After any sequence of operations, once the caller has released the objects it was given, no memory block those operations allocated and no file they opened is still held (tables the library makes once per process aside), nothing is released twice, and the caller's own stream is neither closed nor replaced. This holds for operations that succeed, fail on any I/O fault or bad data, or are cancelled.",
  ["histories","fault_sequences"], "every finite sequence of reads, traces and writes with I/O faults, damaged files and cancellations",
  "Tests are single conversions whose leaks are reclaimed by process exit.",
  READERS+CORE+WRITERS+["src/wrapper/autotrace.cpp"], [("cleanup labels and free functions","src/autotrace.c, src/input-*.c, src/output-*.c")],
  observe=["allocator balance","open streams"])
p("C11", "Library failures go to the caller and never end the host process",
  "No I/O failure, damaged file, unsupported combination or cancellation makes the library terminate the process that calls it: each such failure returns to the caller. It is reported through the message callback with fatal or warning type and the caller's data pointer, a fatal report is never followed by a usable result, and passing no message callback is equally safe.",
  ["fault_sequences","inputs"], "every reader, trace option set and writer, every I/O fault and damaged file, with or without a message callback",
  "The only tool under test exits by itself on errors, and no test provokes one.",
  READERS+CORE+WRITERS+["src/exception.c","src/logreport.h"], [("exception reporting","src/exception.c"),("libpng error handler","src/input-png.c handle_error")],
  observe=["process status","message callback history","results"])
p("C12", "Objects the caller owns come back unchanged",
  "Reading leaves the input options and the file as they were, tracing leaves the fitting options as they were and the bitmap too unless an option that is documented to modify it is on, and writing leaves the splines and output options as they were and the caller's stream open and positioned after the document. This holds when the operation succeeds, fails, or is cancelled at any point, and also as seen by a callback or another thread during the operation.",
  ["histories","fault_sequences","schedules"], "every operation, outcome, fault point and instant at which the objects are looked at",
  "No test looks at its inputs after (or during) the operation.",
  ["src/autotrace.c","src/fit.c","src/input-gf.c","src/output-fig.c","src/output-dr2d.c"]+READERS, [("const use of options","src/fit.c, src/autotrace.c"),("documented bitmap modification","src/autotrace.h at_splines_new")],
  observe=["options, bitmap and spline snapshots","stream state","input file bytes"])
p("C13", "The command-line tool's status, messages and files tell the truth",
  "The tool exits 0 only after reading the whole input and writing the complete result, including the bitmap dump when asked for; on any failure it exits non-zero with a message on standard error. It never changes the input file or any file other than the named output (and the bitmap dump when asked for), and refuses to use one file as both. If it is killed at any point, running it again gives the same output as an undisturbed run.",
  ["crash_points","fault_sequences"], "every option set, every fault of the file system or memory, every crash point followed by a rerun",
  "The tests run the tool on healthy files and check only the status and one output.",
  ["src/main.c","src/autotrace.c","src/filename.c"], [("exception_handler and exit statuses","src/main.c"),("input/output name check","src/main.c")],
  observe=["exit status","stderr","directory contents before and after"])
p("C14", "The C++ interface reports success exactly when the output is complete",
  "A conversion through the C++ interface returns success only if the input was read completely and the whole document is in the output file, and otherwise returns an error text; it never ends the process or throws. Whatever the outcome, all memory and file handles are released, the option objects stay valid and unchanged, and repeating the call after the fault is gone succeeds with the normal output.",
  ["fault_sequences","histories"], "every option set and format pair, every I/O fault, every sequence of conversions",
  "The wrapper tests exercise option objects only; no test performs a conversion through it.",
  ["src/wrapper/autotrace.cpp","src/wrapper/Options.cpp","src/wrapper/InputOptions.cpp","src/wrapper/FittingOptions.cpp"], [("expected<> results","src/wrapper/autotrace.cpp")],
  observe=["produceOutput result","output file","allocator balance","open streams"])
p("C15", "A writer delivers the same document to every kind of destination",
  "The bytes of a document are the same whether the stream is a seekable file, a pipe, unbuffered or buffered with any size, empty or already positioned after other data, and whether the destination accepts the bytes at once or in pieces. The writer appends exactly its document at the current position and touches nothing before it, so documents written one after another to one stream are each intact.",
  ["configurations","schedules"], "every output format and drawing, every stream kind, buffer size, start position and split of the writes",
  "The tests write each document to a fresh regular file.",
  WRITERS, [("sequential writes, sizes computed before writing","src/output-pdf.c, src/output-emf.c, src/output-dr2d.c, src/output-ild.c")],
  observe=["destination bytes","stream position"])

p("C16", "The buffer interface gives the drawing of the given bytes or an error",
  "autotraceRun reports success only if the drawing of exactly the bytes it was given, with the given options, is now the stored output; if storing the bytes, reading them back, tracing or writing fails, or the options are not a JSON object, it reports an error with a text and never converts leftovers of an earlier call. outputFileSize reports the true size of the stored output and getOutputFile delivers exactly those bytes, writes nothing past the caller's buffer and refuses one that is too small; both report an error when there is no output or it cannot be read. After a failure the next good conversion works, and no memory or file handle is kept.",
  ["histories","fault_sequences","inputs"], "every sequence of conversions and fetches with any bytes, option texts and buffer sizes, and every I/O fault in any of them",
  "No test calls these functions; the program they live in is compiled and never run.",
  ["src/wrapper/autotraceMain.cpp","src/wrapper/autotrace.cpp","src/wrapper/FittingOptions.cpp","src/wrapper/Json/JsonHelper.cpp"], [("stored input checked before conversion","src/wrapper/autotraceMain.cpp autotraceRun"),("size and read checks","src/wrapper/autotraceMain.cpp outputFileSize, getOutputFile")],
  observe=["autotraceRun, outputFileSize and getOutputFile results","the caller's buffers","stored output file","allocator balance","open streams"])
p("C17", "A registered format stays findable, unchanged, in every history",
  "Once a reader or writer is registered for a suffix, by the library's initialisation or by the caller, looking up that suffix or a file name ending in it, in any mix of letter case, yields the same handler for the rest of the process; a later registration for the same suffix changes nothing, repeated initialisation changes nothing, and a registration that fails for lack of memory takes effect wholly or not at all. Suffixes never registered, and names without one, yield no handler. The format listing shows every registered suffix exactly once with its description, and reading or writing through a registered handler calls exactly that function once with the caller's arguments and returns its result.",
  ["histories","fault_sequences"], "every sequence of initialisations, registrations, lookups, listings and uses, with allocation failures in any of them",
  "The tests use the built-in formats once each; nothing registers a format, initialises twice or compares handlers.",
  ["src/input.cpp","src/output.cpp","src/module.c","src/autotrace.c"], [("insert into the format map keeps the first entry","src/input.cpp at_input_add_handler_full, src/output.cpp at_output_add_handler"),("one-time initialisation","src/autotrace.c autotrace_init")],
  state=[("inputFormatMap","suffix to reader","src/input.cpp"),("outputFormatMap","suffix to writer","src/output.cpp")],
  observe=["at_input_get_handler*, at_output_get_handler* results","printInputFormatInfo, printOutputFormatInfo text","calls received by registered functions"])

# ---- stated, but pure functions of their input: not claimed with this technique
def pure(id, title, statement, files):
    p(id, title, statement, ["inputs"], "every image and option set", "The tests compare one output with a reference and check defaults.", files, [("algorithm",files[0])])
pure("C20","Fitted curves follow the traced outline within the error threshold",
  "Every fitted spline stays within the requested error threshold of the pixel outline it replaces, wherever subdivision is still possible.", ["src/fit.c"])
pure("C21","Outlines are closed and splines join end to end",
  "In outline mode every outline's splines form a closed chain, each starting where the previous ends; in centerline mode each open path is continuous.", ["src/pxl-outline.c","src/fit.c"])
pure("C22","Colour reduction leaves at most the requested number of colours",
  "With a colour count n, the traced drawing uses at most n colours, and each pixel gets the nearest of them.", ["src/median.c"])
pure("C23","Despeckling and thinning change only what they are documented to",
  "Despeckling removes only features up to the configured size, and thinning keeps the connectivity of the drawn lines.", ["src/despeckle.c","src/thin-image.c"])
pure("C24","Every output is a well-formed document of its format",
  "Each writer's output parses under its format's grammar, with declared counts, lengths and offsets equal to the actual ones.", [f for f in WRITERS if f.startswith("src/output-")])
pure("C25","All output formats carry the same drawing",
  "The geometry and colours of one drawing are the same in every output format that can express them, up to the format's resolution.", [f for f in WRITERS if f.startswith("src/output-")])
pure("C26","Options survive the round trip through JSON and are range checked",
  "Serialising an options object to JSON and reading it back gives equal options; values outside the documented ranges are refused.", ["src/wrapper/Json/JsonHelper.cpp","src/wrapper/Options.cpp"])
pure("C27","Command-line options set exactly the library option they name",
  "Each command-line option sets the corresponding library option to the given value and no other.", ["src/main.c"])
pure("C28","Tracing ends for every image",
  "For every bitmap and option set within the documented ranges, tracing ends.", ["src/fit.c","src/pxl-outline.c"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
