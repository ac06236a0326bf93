"""mut.py FILE(under pyx/) PROPS RUNS N SEED -- mutation sampling"""
import ast, sys, os, random, json, subprocess, shutil, threading, queue, re, time
FILE, PROPS, RUNS, N, SEED = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
JOBS = int(os.environ.get("JOBS", "8"))
lines_only = os.environ.get("LINES")
SRC = os.environ.get("MUTREPO","/tmp/pyxdev")+"/pyx/"+FILE
src = open(SRC, encoding="utf-8").read()
tree = ast.parse(src)
L = src.split("\n")
off = [0]
bl = [l.encode() for l in L]
for b in bl: off.append(off[-1]+len(b)+1)
bsrc = src.encode()
def pos(l, c): return off[l-1]+c
M = []
def add(node, new, what, s=None, e=None):
    s = pos(node.lineno, node.col_offset) if s is None else s
    e = pos(node.end_lineno, node.end_col_offset) if e is None else e
    M.append((s, e, new, what, node.lineno))
SW = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BW = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
def seg(n): return bsrc[pos(n.lineno,n.col_offset):pos(n.end_lineno,n.end_col_offset)].decode()
skipfn = {"__repr__"}
def walk(node):
    for ch in ast.iter_child_nodes(node):
        ch.parent = node
        walk(ch)
    if isinstance(node, ast.FunctionDef) and node.name in skipfn: return
    p = getattr(node, "parent", None)
    infunc = False
    q = node
    while q is not None:
        if isinstance(q, ast.FunctionDef): infunc = True
        if isinstance(q, (ast.JoinedStr,)) : return
        if isinstance(q, ast.Raise): return
        q = getattr(q, "parent", None)
    if not infunc: return
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        l, r = node.left, node.comparators[0]
        add(node, "(%s) %s (%s)" % (seg(l), SW[type(node.ops[0])], seg(r)), "cmp")
    elif isinstance(node, ast.BinOp) and type(node.op) in BW and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
        add(node, "((%s) %s (%s))" % (seg(node.left), BW[type(node.op)], seg(node.right)), "arith")
    elif isinstance(node, ast.BoolOp):
        o = " and " if isinstance(node.op, ast.Or) else " or "
        add(node, "("+o.join("(%s)" % seg(v) for v in node.values)+")", "bool")
        add(node, "("+seg(node.values[0])+")", "bool1")
    elif isinstance(node, (ast.If, ast.While)):
        add(node.test, "not (%s)" % seg(node.test), "negif")
    elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
        add(node, "(%r)" % (node.value+1), "const")
    elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
        add(node, repr(not node.value), "constb")
    elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
        add(node, "pass", "del")
    elif isinstance(node, (ast.Continue, ast.Break)):
        add(node, "pass", "del")
    elif isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
        add(node, "return None", "ret")
    elif isinstance(node, ast.ExceptHandler) and node.type is not None:
        add(node.type, "ZeroDivisionError", "exc")
    elif isinstance(node, ast.Try) and node.finalbody:
        for st in node.finalbody: pass
    elif isinstance(node, ast.Call) and len(node.args) == 2 and not any(isinstance(a, ast.Starred) for a in node.args):
        a, b = node.args
        M.append((pos(a.lineno,a.col_offset), pos(b.end_lineno,b.end_col_offset), seg(b)+", "+seg(a), "swap", node.lineno))
    if isinstance(node, ast.Call) and node.keywords and all(k.arg for k in node.keywords):
        k = node.keywords[-1]
        s = pos(k.lineno, k.col_offset); e = pos(k.end_lineno, k.end_col_offset)
        pre = bsrc[:s].rstrip()
        if pre.endswith(b","): M.append((len(pre)-1, e, "", "delkw", node.lineno))
walk(tree)
if lines_only:
    a, b = map(int, lines_only.split("-")); M = [m for m in M if a <= m[4] <= b]
rng = random.Random(SEED); rng.shuffle(M)
total = len(M)
M = M[:N]
kf = json.load(open("/verif/known_findings.json"))["findings"]
q = queue.Queue(); [q.put((i, m)) for i, m in enumerate(M)]
out = []
lock = threading.Lock()
def job(j):
    base = "/tmp/mut/%s.%d.%d" % (FILE.replace("/", "_"), os.getpid(), j)
    os.makedirs(base, exist_ok=True)
    repo = base+"/repo"
    shutil.copytree(os.environ.get("MUTREPO","/tmp/pyxdev"), repo, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__", "manual", "examples", "gallery", "www"))
    sc = base+"/vs000000"
    while 1:
        try: i, m = q.get_nowait()
        except queue.Empty: break
        new = bsrc[:m[0]]+m[2].encode()+bsrc[m[1]:]
        try: compile(new, FILE, "exec")
        except (SyntaxError, ValueError): continue
        open(repo+"/pyx/"+FILE, "wb").write(new)
        res = "SURVIVED"
        for prop in PROPS:
            os.makedirs(sc, exist_ok=True)
            e = dict(os.environ, VERIF_REPO=repo, VERIF_SCRATCH=sc, PYTHONHASHSEED="7", PYTHONDONTWRITEBYTECODE="1", TZ="UTC")
            p = subprocess.Popen(["/opt/venv/bin/python", "-W", "ignore", "/tmp/vcopy/sim/worker.py", "batch", prop, "quick", "1", "0", "1", str(RUNS), "100", "0"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, cwd="/tmp/vcopy", start_new_session=True)
            n = 0; nerr = 0
            for line in p.stdout:
                try: d = json.loads(line)
                except ValueError: continue
                if "i" in d: n += 1
                if "error" in d: nerr += 1
                v = [x for x in d.get("violations") or [] if not any(k["property"]==prop and k["status"]=="open" and k["class"]==x[0] and re.search(k["match"], x[1], re.S) for k in kf)]
                if v:
                    res = "killed %s %d %s" % (prop, n, v[0][0]); break
            try: os.killpg(p.pid, 9)
            except OSError: pass
            p.wait(); p.stdout.close()
            shutil.rmtree(sc, ignore_errors=True)
            if n == 0 or nerr > n*.5: res = "killed %s broken %d %d" % (prop, n, nerr)
            if res != "SURVIVED": break
        with lock:
            out.append((m[4], res, m))
            print(m[4], m[3], res, flush=True)
    shutil.rmtree(base, ignore_errors=True)
ts = [threading.Thread(target=job, args=(j,)) for j in range(JOBS)]
[t.start() for t in ts]; [t.join() for t in ts]
surv = sorted(x for x in out if x[1] == "SURVIVED")
print("=== %s: %d of %d mutants, %d survived" % (FILE, len(out), total, len(surv)))
for ln, _, m in surv:
    print("--- line %d %s: %r -> %r" % (ln, m[3], bsrc[m[0]:m[1]].decode()[:150], m[2][:150]))
