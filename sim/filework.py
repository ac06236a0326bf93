"""A simulated file location environment: directories, ls-R databases,
kpsewhich, locate, a libkpathsea binding, and what they should yield."""

import errno
import importlib
import os
import random
import sys
import types

from . import seams

# lookups: formats by name of pyx.config.format; extensions as documented
EXT = {"tfm": [".tfm"], "type1": [".pfa", ".pfb"], "afm": [".afm"], "vf": [".vf"], "tex_ps_header": ["", ".pro"], "fontmap": [".map"],
       "dvips_config": [], "pict": [".eps", ".epsi"], "pyx": [], "pfm": [".pfm"]}
KPSNAME = {"tfm": "tfm", "type1": "type1 fonts", "afm": "afm", "vf": "vf", "tex_ps_header": "PostScript header", "fontmap": "map",
           "dvips_config": "dvips config", "pict": "graphic/figure", "pyx": "PyX", "pfm": "pfm"}
BASES = ["cmr10", "ptmr8r", "fig", "a b", "x.y"]
FORMLISTS = [["tfm"], ["type1"], ["afm"], ["vf"], ["tex_ps_header"], ["fontmap", "dvips_config"], ["pict"], ["type1", "afm"], ["pyx"], ["tfm", "vf"]]
INTERNAL = [("10pt.lfs", ["pyx"]), ("pyx.def", ["pyx"]), ("Courier", ["afm"]), ("Times-Roman.afm", ["afm"]), ("foils20pt.lfs", ["pyx"]), ("Symbol", ["type1", "afm"])]
METHODS = ["local", "internal", "recursivedir", "ls-R", "pykpathsea", "kpsewhich", "locate"]


def names_of(filename, formats):
    """the names a file may have, in order"""
    if any(filename.endswith(e) for f in formats for e in EXT[f]):
        return [filename]
    r = []
    for f in formats:
        r += [filename + e for e in EXT[f]] or [filename]
    return r


def internal_content(name):
    p = os.path.join(seams.REPO, "pyx", "data", os.path.splitext(name)[1][1:], name)
    try:
        with seams.real["open"](p, "rb") as f:
            return f.read()
    except OSError:
        return None


# ---------------------------------------------------------------------------
# generation

def gen_lookup(rng):
    if rng.random() < 0.12:
        n, f = rng.choice(INTERNAL)
        return [n, f]
    f = rng.choice(FORMLISTS)
    b = rng.choice(BASES[:3] if rng.random() < 0.8 else BASES)
    if f == ["pyx"]:
        b += rng.choice([".lfs", ".dat", ""])
    elif f == ["tex_ps_header"]:
        b += rng.choice([".enc", ".pro"])
    elif rng.random() < 0.3:
        e = [x for y in f for x in EXT[y]]
        b += rng.choice(e) if e else ""
    if rng.random() < 0.06:
        b = "sub/" + b
    return [b, f]


def gen(rng):
    """a static environment"""
    looks = [gen_lookup(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.35:
        # the same name with related formats
        fn, fm = rng.choice(looks)
        k = rng.random()
        if len(fm) > 1 and k < 0.4:
            fm = fm[::-1] if rng.random() < 0.5 else rng.sample(fm, len(fm)-1)
        elif k < 0.7:
            fm = fm + [rng.choice([f for f in EXT if f not in fm])]
        else:
            fm = rng.choice(FORMLISTS)
        looks.insert(rng.randrange(len(looks)+1), [fn, fm])
    methods = rng.sample(METHODS, rng.choice([1, 1, 2, 2, 3, 4, 7]))
    rdirs = ["R0", "R one", "R2"][:rng.choice([1, 2, 3])]
    tdirs = ["T0", "T1"][:rng.choice([1, 2])]
    files = {}
    kps, pyk, loc, lsr = {}, {}, [], {d: [] for d in tdirs}
    seq = [0]

    def put(path):
        seq[0] += 1
        files[path] = rng.choices(["file", "dir", "empty"], [12, 1, 1])[0]
        return path
    allnames = []
    for fn, fm in looks:
        allnames += [(fn, fm, n) for n in names_of(fn, fm)]
    for fn, fm, n in allnames:
        b = os.path.basename(n)
        if rng.random() < 0.35:
            put("loc/" + n)
        if rng.random() < 0.5:
            for d in rdirs:
                if rng.random() < 0.5:
                    put("%s/%s%s" % (d, rng.choice(["", "s1/", "s1/t/", "s2/"]), b))
        if rng.random() < 0.5:
            for d in tdirs:
                for k in range(rng.choice([0, 1, 1, 2])):
                    sub = rng.choice([".", "./fonts", "./fonts/tfm", "./x y"])
                    p = os.path.normpath("%s/%s/%s" % (d, sub, b))
                    lsr[d].append([sub, b])
                    if rng.random() < 0.75:
                        put(p)
        for f in fm:
            if rng.random() < 0.4:
                p = "K/%s/%s" % (f, b)
                kps["%s|%s" % (KPSNAME[f], fn)] = [p, rng.choices(["ok", "nonl", "extra", "crlf", "partial", "blank", "slow"], [8, 1, 1, 1, 1, 1, 1])[0]]
                if rng.random() < 0.7:
                    put(p)
            if rng.random() < 0.4:
                p = "P/%s/%s" % (f, b)
                pyk["%s|%s" % (KPSNAME[f], fn)] = p
                if rng.random() < 0.7:
                    put(p)
        if rng.random() < 0.5:
            for d in ("X/a", "X/b"):
                if rng.random() < 0.6:
                    p = "%s/%s" % (d, b)
                    loc.append(p)
                    if rng.random() < 0.7:
                        put(p)
            loc.append(rng.choice(["X/c/%s.bak", "X/%s/other", "X/c/old-%s"]) % b)
            put(loc[-1])
    rng.shuffle(loc)
    # other files around
    for p in ("R0/s1/readme", "T0/readme", "loc/readme"):
        files[p] = "file"
    db = {}
    for d in tdirs:
        lines = [] if rng.random() < 0.5 else ["%% ls-R -- filename database\n", "% a comment\n"]
        if rng.random() < 0.15:
            lines.append(rng.choice(["readme\n", "\n"]))
        subs = sorted(set(s for s, b in lsr[d]))
        rng.shuffle(subs)
        for s in subs:
            lines.append("%s:\n" % s)
            here = [b for t, b in lsr[d] if t == s]
            rng.shuffle(here)
            lines += [b + "\n" for b in dict.fromkeys(here)]
            if rng.random() < 0.5:
                lines.append("fonts\n")
            lines.append("\n")
        db[d] = {"text": "".join(lines), "state": rng.choices(["ok", "missing", "EACCES", "EIO"], [10, 1, 1, 1])[0]}
    progs = {"kpsewhich": rng.choices(["ok", "missing", "EACCES", "EAGAIN", "crash"], [10, 1, 1, 1, 1])[0],
             "locate": rng.choices(["ok", "missing", "EACCES", "EAGAIN", "crash"], [10, 1, 1, 1, 1])[0]}
    faults = []
    if files and rng.random() < 0.6:
        for p in rng.sample(sorted(files), min(len(files), rng.choice([1, 1, 2, 4]))):
            faults.append(["open", p, rng.choice(["EACCES", "EIO", "ENOENT", "EMFILE", "ESTALE", "ELOOP"])])
    if rng.random() < 0.3:
        faults.append(["listdir", rng.choice(["R0", "R0/s1", "R one", "R0/s2", "R2/s1/t"]), rng.choice(["EACCES", "EIO", "ENOENT"])])
    if rng.random() < 0.2:
        rdirs.insert(rng.randrange(len(rdirs)+1), "nodir")
    return {"looks": looks, "methods": methods, "rdirs": rdirs, "lsr": db, "files": files, "kps": kps, "pyk": pyk if rng.random() < 0.8 else None,
            "locate": loc, "progs": progs, "faults": faults, "order": rng.randrange(1 << 30), "loop": rng.random() < 0.05,
            "chunk": rng.choice([0, 0, 1, 7]), "simple": {"chunk": 0, "order": 0, "loop": False}}


# ---------------------------------------------------------------------------

class Env:
    def __init__(self, ctx):
        self.ctx = ctx
        self.plan = plan = ctx.plan
        self.w = w = ctx.world
        self.base = w.cwd
        self.version = {}
        self.since = set()      # regular files which exist since the beginning
        self.fault = {}         # (op, path) -> errno, persistent
        self.once = {}          # (op, path) -> errno, the next time
        self.hit = set()        # what the transient faults hit
        self.spawn = dict(plan["progs"])
        self.kps = {k: list(v) for k, v in plan["kps"].items()}
        self.pyk = dict(plan["pyk"]) if plan["pyk"] is not None else None
        self.locate = list(plan["locate"])
        self.answers = {}       # everything ever answered: (method, filename, formats) -> paths
        self.cwd = "loc"
        for d in ["loc", "loc2"] + plan["rdirs"] + list(plan["lsr"]):
            if d != "nodir":
                self.mkdirs(d)
        for p, kind in plan["files"].items():
            if kind == "dir":
                self.mkdirs(p)
            else:
                self.write(p, kind == "empty")
                if os.path.isfile(self.path(p)):
                    self.since.add(p)
        for d, x in plan["lsr"].items():
            if x["state"] != "missing":
                with seams.real["open"](self.path(d + "/ls-R"), "w") as f:
                    f.write(x["text"])
            if x["state"] == "EACCES":
                self.fault["open", d + "/ls-R"] = "EACCES"
            elif x["state"] == "EIO":
                self.fault["read", d + "/ls-R"] = "EIO"
        if plan["loop"]:
            self.mkdirs("R0/s1")
            seams.real["symlink"](self.path("R0"), self.path("R0/s1/loop"))
        for op, p, e in plan["faults"]:
            self.fault[op, p] = e
        w.decide = self.decide
        rng = random.Random(plan["order"])

        def order(l):
            l = list(l)
            if plan["order"]:
                rng.shuffle(l)
            return l
        w.listdir_order = order
        if plan["chunk"]:
            w.max_read = lambda path, n: plan["chunk"]*50
        w.programs["kpsewhich"] = self.kps_factory
        w.programs["locate"] = self.locate_factory
        for n in ("kpsewhich", "locate"):
            w.spawn_errors[n] = _Spawn(self, n)
        mod = types.ModuleType("pykpathsea")
        mod.find_file = self.find_file
        sys.modules["pykpathsea"] = mod if self.pyk is not None else None
        rc = os.path.join(w.scratch, "rc")
        q = lambda l: " ".join(self.path(x).replace(" ", "SPACE") for x in l)
        with seams.real["open"](rc, "w") as f:
            f.write("[filelocator]\nmethods = %s\nrecursivedir = %s\nls-R = %s\n"
                    % (" ".join(plan["methods"]), q(plan["rdirs"]), q(d + "/ls-R" for d in plan["lsr"])))
        os.environ["PYXRC"] = rc
        os.chdir(self.path(self.cwd))
        import pyx.config
        del pyx.config.open      # the module itself takes the builtin one for its own
        self.config = importlib.reload(pyx.config)
        self.keep = []

    # -- the file system --------------------------------------------------
    def path(self, p):
        return os.path.join(self.base, p)

    def mkdirs(self, p):
        cur = self.base
        for c in p.split("/"):
            cur = os.path.join(cur, c)
            if not os.path.isdir(cur):
                if os.path.exists(cur):
                    return False
                seams.real["mkdir"](cur)
        return True

    def write(self, p, empty=False):
        if not self.mkdirs(os.path.dirname(p)) or os.path.isdir(self.path(p)):
            return
        self.version[p] = v = self.version.get(p, 0) + 1
        # a new file, as an editor or a package manager writes it
        with seams.real["open"](self.path(p) + "~", "wb") as f:
            f.write(b"" if empty else ("%s version %d\n" % (p, v)).encode()*3)
        seams.real["rename"](self.path(p) + "~", self.path(p))

    def delete(self, p):
        if os.path.isfile(self.path(p)):
            seams.real["unlink"](self.path(p))
            self.since.discard(p)

    def rel(self, path):
        return os.path.relpath(os.path.realpath(os.path.dirname(path)) + "/" + os.path.basename(path), os.path.realpath(self.base))

    def decide(self, op, path):
        if op not in ("open", "read", "listdir"):
            return None
        p = self.rel(str(path))
        if (op, p) in self.once:
            e = self.once.pop((op, p))
            self.hit.add(p)
        else:
            e = self.fault.get((op, p))
        if e is None:
            return None
        self.w.sim.fault("%s:%s" % (op, e), p)
        e = getattr(errno, e)
        return OSError(e, os.strerror(e), path)

    # -- programs ---------------------------------------------------------
    def kps_answer(self, fmt, filename):
        """(output, candidate path)"""
        a = self.kps.get("%s|%s" % (fmt, filename))
        if a is None:
            return "", None
        p, mode = a
        full = self.path(p)
        return {"ok": (full + "\n", p), "slow": (full + "\n", p), "nonl": (full, p), "extra": (full + "\nmore\n", p), "crlf": (full + "\r\n", p),
                "partial": (full[:len(full)//2], None), "blank": ("\n", None)}[mode]

    def kps_factory(self, popen, args):
        def body():
            sim = self.w.sim
            if self.spawn["kpsewhich"] == "crash":
                sim.fault("kpsewhich crashes")
                return 139
            fmt, fn = args[args.index("--format")+1], args[-1]
            out, p = self.kps_answer(fmt, fn)
            if self.kps.get("%s|%s" % (fmt, fn), [0, 0])[1] == "slow":
                sim.sleep(2.5)
            popen.out_pipe.b_write(os.fsencode(out))
            return 0 if out else 1
        return body

    def locate_hits(self, name):
        return [p for p in self.locate if name in self.path(p)]

    def locate_factory(self, popen, args):
        def body():
            if self.spawn["locate"] == "crash":
                self.w.sim.fault("locate crashes")
                return 139
            hits = self.locate_hits(args[-1])
            for p in hits:
                popen.out_pipe.b_write(os.fsencode(self.path(p) + "\n"))
            return 0 if hits else 1
        return body

    def find_file(self, filename, fmt):
        p = self.pyk.get("%s|%s" % (fmt, filename))
        return None if p is None else self.path(p)

    # -- what a lookup may give -------------------------------------------
    def content(self, p):
        """the current content of a readable file, or None"""
        if ("open", p) in self.fault or not os.path.isfile(self.path(p)):
            return None
        with seams.real["open"](self.path(p), "rb") as f:
            return f.read()

    def candidates(self, method, filename, formats, indexed=False):
        """indexed: as if the directories had been listed before they became unreadable; [(path or internal name, order)] -- order is a tuple; a lower one comes first; unreadable ones included"""
        names = names_of(filename, formats)
        plan = self.plan
        r = []
        if method == "local":
            r = [("%s/%s" % (self.cwd, n), (i,)) for i, n in enumerate(names)]
        elif method == "internal":
            r = [(("internal", n), (i,)) for i, n in enumerate(names)]
        elif method == "recursivedir":
            for t, top in enumerate(plan["rdirs"]):
                todo = [top]
                while todo:
                    rd = todo.pop()
                    if ("listdir", rd) in self.fault and not indexed or not os.path.isdir(self.path(rd)):
                        continue
                    for item in sorted(seams.real["listdir"](self.path(rd))):
                        p = rd + "/" + item
                        if os.path.isdir(self.path(p)):
                            if not os.path.islink(self.path(p)):
                                todo.append(p)
                        elif item in names:
                            r.append((p, ("r", t, rd, names.index(item))))
        elif method == "ls-R":
            for t, d in enumerate(plan["lsr"]):
                if plan["lsr"][d]["state"] == "missing" or not indexed and (("open", d + "/ls-R") in self.fault or ("read", d + "/ls-R") in self.fault):
                    continue
                cur = None
                for j, line in enumerate(plan["lsr"][d]["text"].splitlines()):
                    if line.startswith("%") or not line:
                        continue
                    if line.endswith(":"):
                        cur = line[:-1]
                    elif cur is not None and line in names:
                        r.append((os.path.normpath("%s/%s/%s" % (d, cur, line)), (names.index(line), t, j)))
        elif method == "kpsewhich":
            if self.spawn["kpsewhich"] == "ok":
                for i, f in enumerate(formats):
                    p = self.kps_answer(KPSNAME[f], filename)[1]
                    if p:
                        r.append((p, (i,)))
        elif method == "pykpathsea":
            if self.pyk is not None:
                for i, f in enumerate(formats):
                    p = self.pyk.get("%s|%s" % (KPSNAME[f], filename))
                    if p:
                        r.append((p, (i,)))
        elif method == "locate":
            if self.spawn["locate"] == "ok":
                for i, n in enumerate(names):
                    r += [(p, (i, j)) for j, p in enumerate(self.locate_hits(n)) if os.path.basename(p) == n]
        return r

    def value(self, cand):
        return internal_content(cand[1]) if isinstance(cand, tuple) else self.content(cand)

    def lookup(self, filename, formats, ascii=False):
        """the content read, or the exception"""
        fs = [getattr(self.config.format, f) for f in formats]
        try:
            f = self.config.open(filename, fs, ascii=ascii) if ascii else self.config.open(filename, fs)
        except (IOError, OSError) as e:
            return None, e, None
        return f, None, None


class _Spawn:
    """takes the place of the list of spawn errors"""

    def __init__(self, env, prog):
        self.env, self.prog = env, prog
        self.transient = []

    def __bool__(self):
        return True

    def pop(self, i=0):
        if self.transient:
            en = self.transient.pop()
            self.env.hit.add(self.prog)
        else:
            en = self.env.spawn[self.prog]
            if en in ("ok", "crash"):
                return None
            if en == "missing":
                en = "ENOENT"
        e = getattr(errno, en)
        return {errno.ENOENT: FileNotFoundError, errno.EACCES: PermissionError}.get(e, OSError)(e, os.strerror(e), self.prog)


def before(a, b):
    """does candidate order a come before order b for sure?"""
    if a and a[0] == "r":
        if a[1] != b[1]:
            return a[1] < b[1] and a[3] <= b[3]
        return a[2] == b[2] and a[3] < b[3]
    return a < b
