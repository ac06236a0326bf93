"""Writes MANIFEST.json and checks/config.json from the descriptions here."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TEX_REAL = ["pyx/text.py (engines, monitor thread, message parsers)", "pyx/dvi/*, pyx/font/*, pyx/config.py, pyx/canvas.py and the writers",
            "Python's io, tempfile and shutil on a scratch directory"]
TEX_STUB = ["TeX/LaTeX: sim/minitex.py, a model of the TeX language subset PyX uses, with a DVI writer",
            "subprocess.Popen, pipes, threading, queue, time: sim/core.py and sim/procs.py",
            "installed font tree: data/fonts"]
SEEDTXT = "Seeded sampling: a clean run is evidence for the schedules, histories and faults explored, not a proof. "

CHECKS = {}


def check(id, quick, thorough, technique, note, rule, real, stub, assumptions=(), **kw):
    CHECKS[id] = dict(runs={"quick": quick, "thorough": thorough}, technique=technique, note=SEEDTXT + note, rule=rule, real=real,
                      stub=stub, assumptions=list(assumptions), **kw)


check("C01", 1700, 50000, "deterministic simulation of engine, monitor thread and a TeX model under a seeded scheduler; differential oracle from an independent typesetter",
      "Trusts the TeX model (sim/minitex.py), which was written against TeX: The Program and compared with recorded output, and its independently computed extents.",
      "a run is one history of engine calls (typeset, failing, marker access, output) under one schedule of caller, monitor and TeX and one way of cutting the pipes; non-trivial if at least one text call produced a box that was compared; distinct by plan and interleaving",
      TEX_REAL, TEX_STUB)
check("C02", 2600, 60000, "deterministic simulation with virtual time: TeX stalls, spews, dies or answers late; every call is timed against the virtual clock",
      "Time is virtual, so Python's own computing time is not counted.",
      "a run is one history of engine calls in which TeX may hang, spew, sleep or die at planned points; non-trivial if TeX was started and a call was timed; distinct by plan and interleaving",
      TEX_REAL, TEX_STUB, ["durations equal to the waiting time within the scheduler's granularity are not judged (either outcome is right)"])
check("C03", 4000, 100000, "deterministic simulation: a TeX model writes planned mixtures of terminal output at planned points; oracle from the acceptability of each fragment for the active parsers",
      "The fragments are written after real TeX and LaTeX messages; their acceptability for each parser is part of the oracle.",
      "a run is one session of up to seven calls whose TeX output contains planned fragments (errors, warnings, file loading, wrapped lines) under a planned parser configuration; non-trivial if any fragment was planned; distinct by plan and interleaving",
      TEX_REAL, TEX_STUB, ["messages which an earlier parser of the configured list hides from a later one are not judged"])
check("C04", 3200, 80000, "deterministic simulation of whole interpreter sessions up to exit, with hanging TeX, ignored signals, spawn failures, file system faults and user interrupts",
      "The process table, signals and exit handlers are simulated; files are real files in a scratch directory.",
      "a run is one interpreter session with one to three engines, ending in the exit handlers; non-trivial if a TeX process was started or a fault planned; distinct by plan and interleaving",
      TEX_REAL, TEX_STUB, ["sessions of one engine which overlap (reset of a running TeX) may leave either session's supplementary files"])

check("C05", 2200, 60000, "deterministic simulation of call histories with finishing, restarting, resetting and dying TeX processes; refinement against a model of preambles and sessions",
      "Preamble calls which raise because TeX cannot be started are given again, as a user would.",
      "a run is one history of preamble, text, output, marker, finish and reset calls on a restartable engine (or the module level functions); non-trivial if more than one TeX session typeset text; distinct by plan and interleaving",
      TEX_REAL, TEX_STUB)

FILE_STUB = ["kpsewhich, locate, the pykpathsea binding, ls-R databases, the user's configuration: sim/filework.py", "subprocess.Popen and pipes: sim/procs.py"]
check("C06", 9000, 300000, "deterministic simulation of the file location environment with persistent faults in every source; executable reference model of the search order",
      "Between directories of one tree the order is not specified, so any of them is accepted.",
      "a run is one configuration (method list, directory trees, databases, programs, faults) and up to four lookups in it; non-trivial if a file was found or a fault fired; distinct by plan and interleaving",
      ["pyx/config.py (all of it, reloaded per run with the run's pyxrc)", "real files in a scratch directory"], FILE_STUB,
      ["a tex_ps_header name is searched literally (PyX does not append .pro itself)", "the order of subdirectories within a recursivedir entry is not specified"])
check("C07", 7000, 200000, "deterministic simulation of histories of lookups, file system changes and transient faults; set of valid results from a reference model after each step",
      "Directory trees and databases may be indexed once, so files which appear in them later may be missed.",
      "a run is one configuration and a history of up to 30 lookups, changes and faults; non-trivial if a lookup was repeated after a change or a fault; distinct by plan and interleaving",
      ["pyx/config.py (all of it, reloaded per run with the run's pyxrc)", "real files in a scratch directory"], FILE_STUB)

DOC_REAL = ["pyx/document.py, canvas.py, pswriter.py, pdfwriter.py, svgwriter.py, writer.py, path.py, normpath.py, deco.py, style.py, color.py, pattern.py, bitmap.py, mesh.py, pdfextra.py, epsfile.py, graph/*, font/*",
            "PIL for reading and writing pixels", "real files in a scratch directory"]
DOC_STUB = ["output streams with short writes, standard output: sim/docwork.py, sim/seams.py", "the clock", "installed font tree: data/fonts"]
check("C10", 3500, 120000, "deterministic simulation of writing generated drawings to targets with short writes; every file is executed by independent PDF, PostScript and SVG interpreters and the marks painted are compared between formats, with the drawing's data and, for a part of the drawings, with an independent reference model of the whole page",
      "Trusts the interpreters in sim/paint.py, sim/pdfparse.py, which know the operators PyX uses and reject everything else.",
      "a run is one generated document with 0 to 3 pages, written in up to four formats to planned targets; non-trivial if a document with any item was written and read back; distinct by plan and interleaving",
      DOC_REAL, DOC_STUB, ["text, patterns, meshes, graphs, deformers and arrows are compared between the formats but are not part of the reference model", "text in builtin fonts (not embedded) is not compared between text and path output", "transparency is not compared with PostScript, which has none",
                           "bounding boxes are compared with path points and bitmaps, not with line widths"])
check("C08", 2500, 80000, "deterministic simulation of histories of writes (failing, interrupted, nested and repeated, of documents sharing objects); byte comparison with another interpreter of another hash seed and memory layout, which makes and writes each document anew",
      "Only the declared creation time is left out of the comparison.",
      "a run is one history of two to eight steps on one or two generated documents; non-trivial if at least one file was compared with the reference process; distinct by plan and interleaving",
      DOC_REAL, DOC_STUB)
check("C09", 3000, 90000, "deterministic simulation of output targets (files by name, guessed names, standard output, raw, buffered, compressing and minimal streams) failing at open, any write, any byte, close or by interrupt; every outcome is compared with the complete file made by another interpreter",
      "After each failed call the same call is made again without the fault and has to give the normal bytes.",
      "a run is one generated document and one to four write calls with at most one planned fault each, each repeated without; non-trivial always; distinct by plan and interleaving",
      DOC_REAL, DOC_STUB, ["data in the buffer of a stream passed by the user is the user's to flush"])
check("C11", 12000, 400000, "deterministic simulation of the clock (any time, steps between any two readings, jumps) and of the time zone; the dates written are parsed and compared with the simulated instant",
      "The time zone rules themselves are those of the C library.",
      "a run is one history of up to nine steps (zone changes, clock jumps, SOURCE_DATE_EPOCH, files written); non-trivial always; distinct by plan and interleaving",
      ["pyx/pdfwriter.py, pswriter.py, document.py, canvas.py"], ["the clock: sim/seams.py; the time zone through TZ and tzset"],
      ["offsets from UTC with seconds cannot be expressed in PDF and may be rounded"])

check("C12", 3400, 120000, "deterministic simulation of Ghostscript as a process which refuses to start, fails, dies or closes its input at any point and pipe fill, of failing temporary files and interrupts; inputs and outputs are compared byte for byte, all processes, pipes and files are accounted for",
      "The program is a model which reads everything, depends on all it is told and makes a real PNG file.",
      "a run is one generated drawing and one to four calls using Ghostscript (files, standard output, pipes, IPython, meshes and EPS files as bitmaps), each with at most one planned fault and repeated without; non-trivial always; distinct by plan and interleaving",
      DOC_REAL, ["Ghostscript: checks/c12.py", "subprocess.Popen and pipes: sim/procs.py", "the clock", "installed font tree: data/fonts"],
      ["a Ghostscript which never ends is waited for", "input closed by the program when all of it is in the pipe already cannot be noticed"])

check("C13", 16000, 500000, "deterministic simulation of histories of EPS files appearing, changing, vanishing and failing to be read, delivered in arbitrary pieces; boxes are compared with an independent reader of the structuring conventions, the output byte for byte and in a PostScript interpreter",
      "Lines of the header which start with a percent sign and a blank are taken as part of it, as PyX does.",
      "a run is one history of up to twelve steps on three generated EPS files (nested documents, data sections, any line ending, truncated or damaged); non-trivial if an output file was compared; distinct by plan and interleaving",
      ["pyx/epsfile.py, canvas.py, document.py, pswriter.py, config.py", "real files in a scratch directory"], ["the content of the included files is replaced by a rectangle for the PostScript interpreter (sim/paint.py)"],
      ["PDF output of EPS files is part of C12", "real numbers in a header bounding box may be accepted or rejected"])

check("C14", 4000, 150000, "deterministic simulation of histories of reading and drawing generated DVI files, virtual fonts, Type 1 fonts, metrics, encodings and font maps, whose files are cut, corrupted, removed or fail at any read, with interrupts and failing allocations at arbitrary lines of PyX; all output is compared with a model of the formats, and everything is used again afterwards",
      "Corrupted bytes cannot always be recognised: what is made of them is not judged, only that it ends and has no effect on later uses.",
      "a run is one set of generated font, metric and DVI files and up to six uses of them with at most one planned fault each, repeated without; non-trivial if any output was compared; distinct by plan and interleaving",
      ["pyx/dvi/*, pyx/font/*, pyx/reader.py, pyx/config.py, canvas.py and the writers", "real files in a scratch directory"], ["file faults: sim/seams.py; the content of the files: sim/fonts.py"],
      ["built-in fonts without font files are not generated", "interrupts arrive at line boundaries"])

check("C15", 12000, 400000, "deterministic simulation of histories of reading, re-reading, changing, removing and failing data files, delivered in arbitrary pieces and replaced while they are read; every result is compared with an independent reader applied to the complete versions the file has had, and plots point by point",
      "Where the documentation leaves a choice (names and widths when lines are skipped) all of them are accepted.",
      "a run is one history of up to 15 steps on three generated data, configuration or map files; non-trivial if the columns of at least one data object were compared; distinct by plan and interleaving",
      ["pyx/graph/data.py, graph/graph.py, graph/style.py, writers", "Python's io and configparser, real files in a scratch directory"], ["file faults: sim/seams.py"],
      ["a file which was read before may be taken from the cache in any version since then", "files replaced while they are read are replaced by renaming"])

check("C16", 2500, 100000, "deterministic simulation of histories of building, sharing, asking, drawing and writing graphs, with failures and interrupts injected into user code and at arbitrary lines of PyX; what is written is compared byte for byte with graphs built from unshared objects and drawn in the usual order",
      "The order of doplotitem and dokeyitem calls is kept, as it decides what is painted first. Ranges of axes linked between graphs are fixed.",
      "a run is one history of up to three graphs with up to three plots each and up to 14 further steps; non-trivial if outputs were compared; distinct by plan and interleaving",
      ["pyx/graph/*, canvas.py, deco.py, text.py (UnicodeEngine), font/*, writers"], ["text labels: UnicodeEngine without TeX alignments; no TeX process"],
      ["interrupts arrive at line boundaries"])

NOT_BUILT = {}
NOT_APPLICABLE = {
    "C17": "path arithmetic is a pure function of its arguments: no schedule, clock, I/O, fault or multi-party behaviour to simulate",
    "C18": "transformations and units are pure functions (apart from an explicitly set global scale): nothing to schedule or to make fail",
    "C19": "tick and label computation is a pure function of the data range: nothing to schedule or to make fail",
    "C20": "color conversion is a pure function: nothing to schedule or to make fail",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
    na = [{"property": p["id"], "reason": NOT_APPLICABLE[p["id"]] if p["id"] in NOT_APPLICABLE else
           NOT_BUILT.get(p["id"], "the check is not built yet")} for p in props if p["id"] not in CHECKS]
    man = {"version": 1,
           "setup_cmd": "./check.py setup",
           "checks": [{"property": k, "quick_cmd": "./check.py run %s quick" % k, "thorough_cmd": "./check.py run %s thorough" % k,
                       "evidence_file": "evidence/%s.json" % k, "technique": c["technique"], "level": "exploration",
                       "level_note": c["note"]} for k, c in sorted(CHECKS.items())],
           "not_applicable": na,
           "notes": "No hooks in /repo: all seams are the standard library functions PyX calls. ./check.py replay FILE re-executes a replay file; ./check.py determinism [Cxx] proves that seeds repeat."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    cfg = {}
    for k, c in sorted(CHECKS.items()):
        cfg[k] = {a: c[a] for a in c if a not in ("technique", "note")}
    with open(os.path.join(VERIF, "checks", "config.json"), "w") as f:
        json.dump(cfg, f, indent=1)
        f.write("\n")


main()
