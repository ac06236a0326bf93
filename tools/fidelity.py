"""Compares the simulated TeX with the installed one on the inputs pyx sends
(development tool, not part of a check): terminal output and DVI pages."""
import json, os, random, re, subprocess, sys, tempfile, shutil, struct
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
os.environ["VERIF_FIDELITY"] = "1"
import sim.worker as worker
from dvidump import pages as dvipages

mod = worker.load("c01")
bad = 0
n = int(sys.argv[1]) if len(sys.argv) > 1 else 30
start = int(sys.argv[2]) if len(sys.argv) > 2 else 0
for i in range(start, start+n):
    plan, ss = worker.plan_for(mod, 77, i, "quick")
    plan["tex"].update(flush="stdio", think=[0], eintr=0)
    plan["preempt"] = 0
    r = worker.run_child(mod, plan, ss)
    if r.get("violations") or r.get("error"):
        print(i, "sim:", r.get("violations"), r.get("error"))
    for latex, inp, out, outdir, texmf, pages in r.get("note") or []:
        d = "/tmp/w/" + "x"*(len(outdir)-7)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        inp = inp.replace(outdir, d)
        ro = subprocess.run(["latex" if latex else "tex", "--output-directory", d], input=inp.encode("latin1"), stdout=subprocess.PIPE).stdout.decode("latin1")
        def norm(s):
            s = s.replace(d, outdir).replace(texmf, "$T")
            s = re.sub(r"/usr/share/texlive/texmf-dist/tex/latex/[a-z0-9]+", "$T", s)
            s = s.replace("\n", "\x00") if False else s
            s = re.sub(r"This is .*", "This is", s)
            s = re.sub(r"\d+ bytes", "N bytes", s)
            return s
        a, b = norm(out), norm(ro)
        if a != b:
            bad += 1
            al, bl = a.split("\n"), b.split("\n")
            for k, (x, y) in enumerate(zip(al + [""]*9, bl + [""]*9)):
                if x != y:
                    print("run", i, "latex" if latex else "tex", "line", k)
                    print("   sim :", al[k-1:k+4])
                    print("   real:", bl[k-1:k+4])
                    break
        if pages and os.path.exists(d + "/texput.dvi"):
            rp = dvipages(open(d + "/texput.dvi", "rb").read())
            for k, (p, q) in enumerate(zip(pages, rp)):
                g = sorted((f, s, c, x, y) for f, s, c, x, y in p["glyphs"])
                h = sorted(q["glyphs"])
                if len(g) != len(h) or any(u[:3] != v[:3] or abs(u[3]-v[3]) > 40 or abs(u[4]-v[4]) > 40 for u, v in zip(g, h)):
                    print("run", i, "page", k, "glyphs differ", [(u, v) for u, v in zip(g, h) if u[:3] != v[:3] or abs(u[3]-v[3]) > 40 or abs(u[4]-v[4]) > 40][:3], len(g), len(h))
                    bad += 1
                    break
        shutil.rmtree(d)
print("differences", bad)
