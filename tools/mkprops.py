"""writes properties.jsonl"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mechanism],
                          "observe_at": observe, "hook_needed": None}})

prop("C01", "Every TeX text box is the typeset form of its own expression",
     "Each text box returned by a TeX engine has the extents, glyphs, positions and markers of exactly the expression and attributes passed in that call (a failed call included among its neighbours), whether the DVI output is read while TeX runs or after it finished. This holds for every interleaving of the calling thread, the output monitor and the TeX process, and for every way the pipes and the terminal output are cut into pieces.",
     ["schedules", "histories", "configurations"],
     "all sequences of engine calls (preamble, text with any attributes, marker and extent access, output, finish, restart; one or several engines), all thread/process interleavings, chunkings of both pipes, IPC on or off, TeX and LaTeX",
     "The tests run a handful of fixed expressions against one real TeX with one timing; the correspondence of answers to questions over two pipes and a thread depends on timing and on what came before.",
     ["pyx/text.py", "pyx/dvi/dvifile.py", "pyx/dvi/texfont.py", "pyx/dvi/tfmfile.py"],
     [("page numbers and PyXBox/PyXInputMarker tags", "pyx/text.py SingleEngine._execute"), ("page lookup by identity", "pyx/dvi/dvifile.py DVIfile.readpage"), ("state reset after each box", "pyx/text.py do_start macros")],
     ["textextbox.left/right/height/depth/marker", "canvas.writePDFfile output"],
     [("page", "number of boxes requested so far", "SingleEngine.page"), ("needdvitextboxes", "boxes waiting for the DVI file", "SingleEngine")])
prop("C02", "Waiting for TeX is bounded and reported",
     "A call into a TeX engine returns or raises within the configured waiting time (plus the time TeX itself needed to read its input) no matter whether TeX answers late, never, with an endless stream, or dies at any point. While it waits, progress warnings appear each configured interval and a final timeout warning precedes the error; a TeX which answers in time never causes an error or a timeout warning.",
     ["schedules", "fault_sequences", "crash_points", "configurations"],
     "all points at which TeX stalls, slows down, floods its output or exits, all wait/showwait settings, all interleavings, pipe capacities and chunk sizes",
     "No test makes TeX hang or die; with the default 60 seconds timeout it would be too slow, and the deadlocks depend on pipe capacity and thread timing.",
     ["pyx/text.py"],
     [("MonitorOutput thread draining the pipe", "pyx/text.py MonitorOutput.run"), ("timed waits with warnings", "pyx/text.py MonitorOutput._wait")],
     ["return or exception of engine calls against the virtual clock", "pyx logger"])
prop("C03", "No TeX output is silently swallowed",
     "If TeX writes anything to its terminal that none of the active message parsers accepts, the call whose input caused it raises an error which quotes the offending output; if everything written is acceptable, the call never raises. Accepted warnings are logged, with the expression's results unaffected, and after an error the engine still accepts further calls.",
     ["inputs", "schedules", "histories"],
     "all mixtures and orders of terminal output fragments (errors, overfull boxes, font and package warnings, file loading, plain messages) with any parser configuration, in every call of a history, any chunking and timing",
     "The doctests cover single messages in isolation; mixtures, wrapping, position within the session and timing are unbounded.",
     ["pyx/text.py"],
     [("message parsers", "pyx/text.py texmessage"), ("leftover test", "pyx/text.py SingleEngine._execute")],
     ["exceptions, their text, and the pyx logger"])
prop("C04", "No TeX process, temporary directory or user file is lost or left behind",
     "After an engine was finished or the interpreter exited, however TeX behaved (running, hanging, ignoring the end command or the terminate signal, dead) and whichever earlier call failed, its TeX process has been ended (asking, then terminating, then killing) and its temporary directory is gone, within a bounded time. Nothing outside that directory is removed, and the supplementary files the user listed are moved in before and moved out afterwards, or a warning says they could not be saved and no stale copy stays.",
     ["crash_points", "fault_sequences", "histories", "schedules"],
     "all histories of engine calls, all points at which TeX hangs or dies or the user's program exits, all combinations of ignored signals, file system errors while moving and removing files",
     "Tests end cleanly with a cooperative TeX; the escalation and error paths never run.",
     ["pyx/text.py"],
     [("atexit cleanup with close/terminate/kill escalation", "pyx/text.py SingleEngine._cleanup"), ("usefiles", "pyx/text.py do_start/_cleanup")],
     ["process table, temporary directory and user files after exit"])
prop("C05", "Restarting the TeX engine is transparent",
     "When TeX has been finished (by output, marker access or explicitly), the next text call on a restartable engine starts a new TeX with exactly the preambles given since the last reset, in order and with their message parsers, and produces the same box as an uninterrupted session would have. Boxes of earlier TeX runs stay valid, and a reset without replay forgets preambles.",
     ["histories", "fault_sequences", "schedules"],
     "all histories of preamble, text, output, marker, finish and reset calls, with failing calls and spawn failures in between",
     "Tests restart at most once with the default preamble.",
     ["pyx/text.py"],
     [("reset_for_tex_done", "pyx/text.py"), ("preamble list", "pyx/text.py MultiEngine.reset")],
     ["input received by each TeX process; extents and content of boxes"])
prop("C06", "File location follows the configured order and survives bad sources",
     "Opening a resource by name and formats yields the content of the first existing, readable candidate in the order of the configured methods and, within a method, of names and formats; a source which is missing, unreadable, stale, failing or not installed never prevents a later one from being used. If and only if no source has it, an IOError naming the file is raised.",
     ["configurations", "fault_sequences", "inputs"],
     "all method lists, directory trees, ls-R databases, kpsewhich and locate answers (good, stale, empty, failing to start, crashing, slow, chunked) and file system faults",
     "Tests use one well-configured environment.",
     ["pyx/config.py"],
     [("locator classes", "pyx/config.py"), ("open loop", "pyx/config.py open")],
     ["content returned by, or exception raised from, pyx.config.open"])
prop("C07", "Cached file lookups never return wrong or missing data",
     "Over any history of lookups and changes of the file system (files appearing, vanishing, being replaced, transient errors), repeating a lookup returns a freshly readable file with the right current content of a source which would be valid now, or raises an IOError; it never returns nothing, a file of another name, or a stale handle. A failed lookup does not prevent a later success. (A file that appears only after its directory tree or file name database was indexed may be missed.)",
     ["histories", "fault_sequences"],
     "all interleavings of lookups for several names and formats with file system changes and transient faults, under all method lists",
     "Tests look every file up once in an unchanging tree.",
     ["pyx/config.py"],
     [("opener_cache", "pyx/config.py open"), ("path_cache", "pyx/config.py recursivedir, ls_R")],
     ["results of repeated pyx.config.open"])
prop("C08", "The same document yields the same bytes",
     "Writing the same drawing gives byte-identical PDF, PostScript, EPS and SVG files (apart from the declared creation time), in whichever process, hash seed, order of earlier writes, kind of output target or memory layout, and writing does not change the drawing. Documents written interleaved or after failed writes are not affected by each other.",
     ["histories", "configurations", "schedules", "fault_sequences"],
     "all drawings from a wide generator, all histories of earlier (successful or failed) writes in the process, hash seeds, allocation patterns, output targets and chunk sizes",
     "Tests write each drawing once and do not compare bytes.",
     ["pyx/document.py", "pyx/canvas.py", "pyx/pdfwriter.py", "pyx/pswriter.py", "pyx/svgwriter.py", "pyx/pattern.py", "pyx/color.py", "pyx/bitmap.py", "pyx/font/font.py"],
     [("registries keyed by resource identity", "pyx/pswriter.py PSregistry, pyx/pdfwriter.py PDFregistry, pyx/svgwriter.py SVGregistry")],
     ["bytes written by writePDFfile, writePSfile, writeEPSfile, writeSVGfile"])
prop("C09", "Output errors are reported and leave nothing inconsistent",
     "If any operation on an output target fails (open, any write, flush, close, full disk, short writes), the write call raises instead of returning; success means that the complete document reached the target. Files opened by name are closed in every case, streams passed in are never closed, and a later write of the same drawing succeeds with the normal bytes.",
     ["fault_sequences", "crash_points", "histories"],
     "all documents, targets and formats; a fault at any I/O operation and byte position; retries afterwards",
     "Tests never meet a failing output file.",
     ["pyx/document.py", "pyx/canvas.py", "pyx/pdfwriter.py", "pyx/pswriter.py", "pyx/svgwriter.py", "pyx/writer.py"],
     [("_outputstream", "pyx/document.py"), ("writer classes", "pyx/writer.py")],
     ["exceptions, handles and bytes of the target"])
prop("C10", "Written files are complete and paint the drawing in every format",
     "Every successfully written PDF has a cross reference table whose offsets address exactly the numbered objects, stream lengths that match, a trailer pointing to the table, and all references resolved; every PostScript or EPS file has balanced document structure with each used resource defined before use; every SVG is well-formed XML with each referenced id defined once. All formats paint the same drawing: the same paths, clippings, styles, colors, patterns, bitmaps and glyphs (with the glyph programs of the fonts used and the samples of the bitmaps given) at the same places and in the same order on the same pages, namely those which the drawing describes (with its units, transformations, clippings, styles, decorations, layers and page options); content larger than its paper is reported; with form fields of the names and values given and bounding boxes which cover it. This holds for any drawing, page sequence, writer option and output target, including targets which accept partial writes or do not start at offset zero.",
     ["inputs", "histories", "configurations", "fault_sequences"],
     "all combinations of drawing elements shared or not between pages, writer options, targets (file, stream at an offset, unbuffered and chunked)",
     "Tests write files and do not read them back.",
     ["pyx/pdfwriter.py", "pyx/pswriter.py", "pyx/svgwriter.py", "pyx/pdfextra.py", "pyx/document.py", "pyx/canvas.py", "pyx/path.py", "pyx/trafo.py", "pyx/bbox.py", "pyx/style.py", "pyx/unit.py", "pyx/deco.py", "pyx/pattern.py", "pyx/bitmap.py", "pyx/mesh.py", "pyx/font/font.py"],
     [("PDFregistry.write", "pyx/pdfwriter.py"), ("PSregistry/SVGregistry", "pyx/pswriter.py, pyx/svgwriter.py"), ("processPS/processPDF/processSVG of all canvas items", "pyx/*.py")],
     ["independent parse and execution of the produced files"])
prop("C11", "Creation dates are the true time or SOURCE_DATE_EPOCH",
     "The creation date written to PDF and PostScript files denotes the instant at which the file was written, in local time with the correct offset from UTC, for any clock value, time zone and daylight saving state. With SOURCE_DATE_EPOCH set the output is a function of it alone, independent of clock and time zone.",
     ["configurations", "schedules"],
     "all clock values (including jumps during writing), time zones with whole and fractional offsets on both sides of UTC, daylight saving changes, with and without SOURCE_DATE_EPOCH",
     "Tests run at one instant in one zone and do not look at the date.",
     ["pyx/pdfwriter.py", "pyx/pswriter.py"],
     [("PDFInfo.write, PSwriter header", "pyx/pdfwriter.py, pyx/pswriter.py")],
     ["/CreationDate and %%CreationDate against the simulated clock"])
prop("C12", "Ghostscript output is complete or an error is raised",
     "Rendering through Ghostscript feeds the complete document to the program and returns only when the result is complete; if the program is missing, refuses to start, fails, dies or closes its input before it was written at any point, or if the drawing or the temporary file cannot be written, an error is raised. No call waits for something which cannot happen, and no child process, temporary file or open pipe is left behind in any outcome. Meshes and EPS files which are converted to bitmaps appear in the output with the bitmap the program made.",
     ["schedules", "fault_sequences", "crash_points", "configurations"],
     "all devices, input formats, output targets and options, all pipe capacities, chunkings and interleavings with the program, all exit points and exit codes",
     "Tests run a cooperative Ghostscript at most once.",
     ["pyx/canvas.py"],
     [("pipeGS, writeGSfile", "pyx/canvas.py")],
     ["bytes received by the simulated program, result, process table and temporary files"])
prop("C13", "Embedded EPS files are taken over completely or rejected",
     "Including an EPS file uses exactly the bounding box the file declares at that time (in the header or the trailer, for any line ending style, whatever data and nested documents it contains), scaled, aligned and clipped as requested, and the output contains exactly the complete file as of the writing, however the file delivers its data. A file that is unreadable, vanishes, fails while being read or has no valid bounding box (for example because it is truncated) raises an error and never yields a wrong box or a cut copy.",
     ["inputs", "fault_sequences", "histories"],
     "all EPS files with DSC comments in any arrangement, line ending and read chunk size; read errors, truncation and replacement at any operation",
     "Tests include a few well-formed files.",
     ["pyx/epsfile.py", "pyx/reader.py"],
     [("linefilereader", "pyx/epsfile.py"), ("_readbbox", "pyx/epsfile.py")],
     ["bbox of the item, bytes of the written EPS file"])
prop("C14", "DVI pages and fonts are shown as their files say; bad files never poison output",
     "The pages of a DVI file and text written with Type 1 fonts are shown with exactly the glyphs, positions, sizes, colors and boxes which the DVI file, the font metrics (TFM, AFM), virtual fonts, encodings, font maps and Type 1 programs specify, in every output format, and embedded fonts carry all the glyphs used. Reading one of these files while a read fails, the file is missing, truncated or damaged, or the work is interrupted either raises an error or - where the fault is not detectable - finishes; it never hangs, never leaves files open, and never changes what later uses of the intact files give. A failure which is reported by the file system is never turned into different output.",
     ["inputs", "fault_sequences", "histories"],
     "truncation, flipped bytes and read errors at any position of any input file, followed by use of the intact file",
     "Tests read intact files only.",
     ["pyx/dvi/dvifile.py", "pyx/dvi/tfmfile.py", "pyx/dvi/vffile.py", "pyx/dvi/mapfile.py", "pyx/dvi/encfile.py", "pyx/font/t1file.py", "pyx/font/afmfile.py", "pyx/font/pfmfile.py", "pyx/reader.py"],
     [("file readers", "pyx/reader.py"), ("font caches", "pyx/dvi/texfont.py, pyx/dvi/mapfile.py")],
     ["exceptions, glyph output after faults"])
prop("C15", "Graph data files are read completely and cached correctly",
     "Plotting data from a file uses every data line of the file once, with comments and column titles recognised, however the stream delivers its bytes and lines; a read error raises instead of plotting part of the data. Data read once and reused with different columns, slices or titles, also after the file changed or a read failed, always corresponds to one complete version of the file.",
     ["inputs", "fault_sequences", "histories"],
     "all data files, line lengths, quoting, skip/every settings, read chunkings and errors, and histories of reuse with file changes in between",
     "Tests read a few intact files once.",
     ["pyx/graph/data.py"],
     [("file.__init__ and filecache", "pyx/graph/data.py")],
     ["columns and points of the data object"])
prop("C16", "Graphs do not depend on when and in which order they are laid out",
     "A graph gives the same drawing however its layout is triggered: explicitly step by step in any order, by asking for its bounding box or axis positions, or by writing it; layout work happens exactly once. If a step fails with an exception (from a data source, function, axis or style), the failure is reported again or repaired on the next attempt and never leads to a silently incomplete drawing.",
     ["schedules", "fault_sequences", "histories"],
     "all orders of plot, layout steps, queries and outputs, over linked and independent axes, with exceptions injected at any user supplied callback",
     "Tests call a fixed sequence without failures.",
     ["pyx/graph/graph.py", "pyx/graph/data.py", "pyx/graph/axis/axis.py"],
     [("didranges/doaxes/... bookkeeping", "pyx/graph/graph.py graph.did"), ("axis creation", "pyx/graph/axis/axis.py")],
     ["bytes of the written graph; exceptions"])
# pure functions
prop("C17", "Path operations agree with the geometry of the path",
     "Splitting, joining, reversing, intersecting, measuring and transforming paths preserves the drawn points: parts of a split path cover it, intersections lie on both paths, arc lengths add up and parameters round-trip within the requested accuracy.",
     ["inputs"], "all paths of lines, arcs and curves including degenerate ones, all parameters",
     "Tests use a few fixed paths.", ["pyx/path.py", "pyx/normpath.py", "pyx/deformer.py", "pyx/metapost/path.py"],
     [("normpath algorithms", "pyx/normpath.py")], ["path API results"])
prop("C18", "Transformations and units compose exactly",
     "Composing, inverting and applying transformations, and converting, adding and scaling lengths of the five unit types, obeys the algebraic laws to floating point accuracy, for any nesting on a canvas.",
     ["inputs"], "all transformations and length expressions", "Tests use fixed values.",
     ["pyx/trafo.py", "pyx/unit.py", "pyx/box.py"], [("trafo_pt, length", "pyx/trafo.py, pyx/unit.py")], ["API results"])
prop("C19", "Axis ticks and labels cover the data range correctly",
     "Automatically chosen ticks have exact rational positions inside the axis range with matching labels, for any data range and axis kind, and conversion between values and axis positions is monotonic and invertible.",
     ["inputs"], "all axis ranges, partitioners, raters and texters", "Tests use fixed ranges.",
     ["pyx/graph/axis/parter.py", "pyx/graph/axis/rater.py", "pyx/graph/axis/texter.py", "pyx/graph/axis/axis.py"],
     [("parter and rater", "pyx/graph/axis")], ["ticks of an axis"])
prop("C20", "Colors and gradients convert within the declared color models",
     "Converting colors between models and selecting from palettes gives components within range and round-trips where the models allow it.",
     ["inputs"], "all colors and palettes", "Tests use fixed colors.", ["pyx/color.py"], [("color conversions", "pyx/color.py")], ["API results"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
