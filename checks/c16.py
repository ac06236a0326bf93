"""C16: graphs are drawn once, completely, and independent of the order of the steps."""

import copy
import io
import logging
import sys

from sim import drawing, refdoc

ID = "C16"
# messages in the order of a set
UNORDERED = "ignore axis range adjustment"
TITLES = [None, None, "title", "a longer title", "t2"]
STEPS = ["ranges", "layout", "background", "axes", "styles", "plot", "key", "finish", "bbox"]


def warm():
    logging.getLogger("pyx").setLevel(logging.CRITICAL)
    drawing.warm()
    from pyx import graph
    logging.getLogger("pyx").setLevel(logging.NOTSET)


# -- plans -------------------------------------------------------------------

def g_num(rng, positive=False):
    lo, hi = (0.5, 200) if positive else (-7, 12)
    return rng.choice([round(rng.uniform(lo, hi), rng.choice([0, 1, 3])) or 1, rng.randint(1, 9)])


def g_axis(rng, t, free=True):
    """one axis; free: its range might follow the data"""
    a = {"t": t}
    fixed = not free or rng.random() < 0.5
    if t in ("lin", "log"):
        if fixed:
            a["min"], a["max"] = (rng.choice([0.1, 1, 2]), rng.choice([50, 300, 1000])) if t == "log" else (rng.choice([-8, 0, -1.5]), rng.choice([7, 13, 20]))
        elif rng.random() < 0.3:
            a["min"] = 0.1 if t == "log" else -9
        if rng.random() < 0.2:
            a["reverse"] = 1
        if rng.random() < 0.15 and t == "lin":
            a["divisor"] = rng.choice([2, 0.5, 100])
        if rng.random() < 0.2:
            a["manual"] = sorted(rng.sample([1, 1.5, 2.25, 3, 4, 5, 6.5, 0.7], rng.randint(1, 3)))
            if rng.random() < 0.4 and (fixed or rng.random() < 0.2):
                a["parter"] = "none"
        if rng.random() < 0.15 and t == "lin" and fixed:
            a["parter"] = "lin"
        if rng.random() < 0.3:
            a["texter"] = rng.choice(["hook", "decimal", "rational", "default", "equal"])
    else:
        if rng.random() < 0.3:
            a["dist"] = rng.choice([0, 0.2, 1])
    if rng.random() < 0.3:
        a["title"] = rng.choice(["x", "an axis"])
    if rng.random() < 0.4:
        a["painter"] = rng.choice(["hook", "hook", "none", "grid", "inner"])
    return a


def g_data(rng, family):
    n = rng.choice([1, 2, 3, 3, 5, 8])
    d = {"t": family, "title": rng.choice(TITLES)}
    positive = family == "plain+"
    if family in ("plain", "plain+"):
        k = rng.random()
        if k < 0.25:
            d["t"] = "fn"
            d["expr"] = rng.choice(["y(x)=f(x)", "y(x)=2*f(x)+1", "y(x)=f(x)*f(x+1)"])
            d["points"] = rng.choice([2, 5, 9])
            if rng.random() < 0.6:
                d["min"], d["max"] = rng.choice([(1, 5), (2, 3), (0.5, 9)])
            return d
        if k < 0.33:
            d["t"] = "param"
            d["points"] = rng.choice([2, 5, 9])
            return d
        d["t"] = "points"
        d["pts"] = [[g_num(rng, positive), g_num(rng, positive)] for i in range(n)]
        if rng.random() < 0.1:
            d["pts"][0][1] = None
        if rng.random() < 0.1 and not positive:
            d["pts"].append([100, 3])
        d["via"] = rng.choice(["points", "points", "values", "expr", "join"])
        if d["via"] == "expr" and any(p[1] is None for p in d["pts"]):
            d["via"] = "points"
    elif family == "err":
        d["pts"] = [[g_num(rng), g_num(rng), round(rng.uniform(0, 3), 2)] for i in range(n)]
    elif family == "ranges":
        d["pts"] = []
        for i in range(n):
            x, y = round(rng.uniform(0, 9), 1), round(rng.uniform(0, 9), 1)
            d["pts"].append([x, x + rng.choice([0.5, 1, 2]), y, y + rng.choice([0.5, 1, 3]), round(rng.uniform(0, 5), 2)])
    elif family == "hist":
        d["pts"] = [[2 + i, g_num(rng)] for i in range(n + 1)]
    elif family == "text":
        d["pts"] = [[g_num(rng), g_num(rng), "p%d" % i] for i in range(n)]
    elif family == "arrow":
        d["pts"] = [[g_num(rng), g_num(rng), round(rng.uniform(0, 3), 2), rng.randint(0, 360)] for i in range(n)]
    elif family == "grid":
        a, b = rng.randint(2, 4), rng.randint(2, 3)
        d["pts"] = [[i+1, j+2, round(rng.uniform(0, 9), 2)] for i in range(a) for j in range(b)]
        if rng.random() < 0.3:
            rng.shuffle(d["pts"])
    elif family == "names":
        names = rng.sample(["A", "B", "C", "D"], rng.randint(2, 4))
        d["pts"] = [[c, round(rng.uniform(1, 9), 1), round(rng.uniform(1, 9), 1)] for c in names]
    elif family == "xyz":
        a, b = rng.randint(2, 3), rng.randint(2, 3)
        d["pts"] = [[i+1, j+2, round(rng.uniform(0, 9), 2)] for i in range(a) for j in range(b)]
    return d


STYLES = {"plain": [["symbol"], ["line"], ["symbol", "line"], ["hooksymbol"], ["hooksymbol"], ["changed"], ["line", "changed"], ["impulses"], ["user"], ["user", "symbol"], None,
                    ["lineattrs"], ["lineattrs", "symbol"], ["changesizes"], ["impulsesattrs"]],
          "hist": [["histogram"], ["histogramsteps"], ["histogram", "symbol"]],
          "err": [["symbol", "errorbar"], ["errorbar"], ["line", "errorbar"], ["errorsizes"], ["lineattrs", "errorsizes"]], "ranges": [["rect"], ["rectno"], ["rectrainbow"]], "text": [["text"], ["text", "symbol"], ["textattrs"]], "arrow": [["arrow"], ["arrowattrs"]],
          "grid": [["density"], ["densityno"], ["symbol"], ["hooksymbol"]], "names": [["bar"], ["bar", "stacked"], ["hookbar"], ["changebar"], ["barattrs"], ["barposattrs", "bar"]],
          "xyz": [["symbol"], ["gridattrs"], ["line"], ["surface"], ["surfaceno"], ["grid"], ["hooksymbol"]]}


def gen(rng, tier):
    ng = rng.choice([1, 1, 1, 2, 2, 3])
    axes, data, styles, graphs, plots = [], [], [], [], []
    share = rng.random() < 0.7

    def pick(pool, make, ok):
        """something of the pool (shared with another place) or something new"""
        if share and rng.random() < 0.5:
            l = [i for i, x in enumerate(pool) if ok(x)]
            if l:
                return rng.choice(l)
        pool.append(make())
        return len(pool) - 1
    for g in range(ng):
        kind = rng.choices(["xy", "bar", "xyz"], [8, 1.5, 1.5])[0]
        log = kind == "xy" and rng.random() < 0.25
        x = {"kind": kind, "w": rng.choice([4, 6, 9]), "h": rng.choice([3, 5]), "x": rng.choice([0, 0, 2]), "y": rng.choice([0, 0, -3]), "axes": {}, "plots": [], "other": {}}
        if rng.random() < 0.5:
            x["key"] = {"pos": rng.choice(["tr", "bl", "mc"]), "columns": rng.choice([1, 1, 2])}
            if rng.random() < 0.2:
                x["key"]["border"] = 1
        names = ["x", "y"] if kind != "xyz" else ["x", "y", "z"]
        if kind == "xy":
            x["flipped"] = int(rng.random() < 0.15)
            x["background"] = int(rng.random() < 0.3)
            k = rng.random()
            if k < 0.25 and not log:
                names = names + rng.choice([["x2"], ["y2"], ["y2", "y3"], ["x2", "x3", "y2"], ["x3", "x2", "x4"]])
            elif k < 0.35:
                names = rng.choice([["x2", "y"], ["x", "y2"], ["x2", "y2"]])
        for n in names:
            t = "bar" if kind == "bar" and n == "x" else rng.choice(["lin", "log"]) if log and len(n) == 1 else "lin"
            free = n in ("x", "y", "z")
            x["axes"][n] = pick(axes, lambda: g_axis(rng, t, free), lambda a: a["t"] == t and (free or "min" in a and "max" in a))
        if kind == "xy" and g and rng.random() < 0.35:
            # an axis linked to an axis of an earlier graph, which has a fixed range
            h = rng.randrange(g)
            for n in list(x["axes"]):
                b = graphs[h]["axes"].get(n)
                if b is not None and "other" in graphs[h] and n not in graphs[h]["other"] and "min" in axes[b] and "max" in axes[b] and axes[b]["t"] == axes[x["axes"][n]]["t"] and rng.random() < 0.7:
                    x["other"][n] = h
        if kind == "xy" and rng.random() < 0.12 and "x" in x["axes"] and "y" in x["axes"] and len(names) == 2 and not log:
            x[rng.choice(["xaxisat", "yaxisat"])] = rng.choice([3, 5])
        logs = any(axes[a]["t"] == "log" for a in x["axes"].values())
        for i in range(rng.choices([0, 1, 2, 3], [1, 4, 4, 2])[0]):
            fam = "xyz" if kind == "xyz" else "names" if kind == "bar" else "plain+" if logs else rng.choices(["plain", "err", "text", "arrow", "grid", "ranges", "hist"], [14, 2, 1, 1, 2, 1, 1])[0]
            ds = []
            for j in range(rng.choice([1, 1, 1, 2, 3])):
                ds.append(pick(data, lambda: dict(g_data(rng, fam), fam=fam), lambda d: d["fam"] == fam))
            if fam in ("grid", "xyz", "text", "arrow", "ranges") or fam == "names" and rng.random() < 0.5:
                ds = ds[:1]
            st = rng.choice(STYLES["plain" if fam == "plain+" else fam])
            if st is not None and st[0] in ("impulses", "impulsesattrs") and logs:
                st = ["line"]
            if st == ["changebar"] and len(ds) < 2:
                st = ["bar"]
            if st is None and len(ds) > 1:
                # they have different styles
                st = ["symbol"]
            if st is not None:
                key = st
                st = pick(styles, lambda: key, lambda s: s == key)
            x["plots"].append([ds, st, rng.choice(["single", "list", "tuple", "gen", "gen"]) if len(ds) == 1 else rng.choice(["list", "tuple", "gen"])])
        graphs.append(x)
    order = []
    for g, x in enumerate(graphs):
        for i in range(len(x["plots"])):
            order.append(["plot", g, i])
    if rng.random() < 0.3:
        # the plots of one graph keep their order
        ks = [o[1] for o in order]
        rng.shuffle(ks)
        it = {g: iter(range(99)) for g in range(ng)}
        order = [["plot", g, next(it[g])] for g in ks]
    for i in range(len(order)):
        if rng.random() < 0.08:
            order.insert(rng.randint(0, len(order)), ["bad", rng.randrange(ng), rng.randrange(3)])
        if rng.random() < 0.08:
            order.insert(rng.randint(0, len(order)), ["early", rng.randrange(ng), rng.randrange(3)])
    steps = []
    for i in range(rng.choice([0, 1, 2, 4, 8, 14])):
        g = rng.randrange(ng)
        k = rng.random()
        if k < 0.55:
            steps.append(["do", g, rng.choice(STEPS)])
        elif k < 0.68:
            steps.append(["axis", g, rng.randrange(9), rng.choice(["create", "positioner", "convert", "basepath", "gridpath", "tickpoint", "vtickpoint", "tickdirection", "vbasepath"])])
        elif k < 0.74:
            steps.append(["pos", g, rng.choice([1, 2, 3.5])])
        elif k < 0.80:
            steps.append(["item", g, rng.choice(["doplotitem", "dokeyitem"])])
        elif k < 0.84:
            steps.append(["late", g])
        else:
            steps.append(["write", g, rng.choice(["eps", "eps", "svg", "pdf"])])
    fault = None
    if rng.random() < 0.4:
        fault = [rng.choice(["hook", "hook", "line"]), rng.randint(0, 1000), rng.choice(["RuntimeError", "KeyboardInterrupt", "MemoryError", "OSError", "ValueError", "ZeroDivisionError"])]
        if fault[0] == "line":
            # (other errors might be meant to tell what kind of object there is)
            fault[2] = "KeyboardInterrupt"
    # meshes need Ghostscript for SVG
    mesh = any(s is not None and s[0].startswith(("surface", "density")) for s in styles)
    for s in steps:
        if mesh and s[0] == "write" and s[2] == "svg":
            s[2] = "pdf"
    return {"axes": axes, "data": data, "styles": styles, "graphs": graphs, "order": order, "steps": steps, "fault": fault, "fmt": rng.choice(["eps", "eps", "eps", "pdf" if mesh else "svg"]),
            "natural": sorted(range(ng)), "final": rng.sample(range(ng), ng)}


# -- building ----------------------------------------------------------------

class Hooks:
    """the calls into user code, where failures come from"""

    def __init__(self):
        self.n = 0
        self.at = None
        self.exc = None
        self.raised = False
        self.calls = {}
        self.points = []

    def __call__(self, site):
        self.n += 1
        self.calls[site] = self.calls.get(site, 0) + 1
        if self.at is not None and self.n == self.at:
            self.at = None
            self.raised = True
            exc = self.exc
            if site == "function" and issubclass(exc, (ValueError, ArithmeticError)):
                # these would just be missing points
                exc = RuntimeError
            raise exc("injected at %s" % site)


class Makers:
    """makes axes, data and styles (each anew, or each once)"""

    def __init__(self, plan, hooks, shared):
        self.plan, self.hooks, self.shared = plan, hooks, shared
        self.have = {}

    def get(self, what, i, scope):
        k = (what, i) if self.shared else (what, i, scope)
        if k not in self.have:
            self.have[k] = getattr(self, "make_" + what)(self.plan[what][i])
        return self.have[k]

    def make_axes(self, a):
        from pyx import graph
        from pyx.graph.axis import tick, painter, texter, parter
        hooks = self.hooks
        kw = {k: a[k] for k in ("min", "max", "reverse", "divisor", "title", "dist") if k in a}
        if "manual" in a:
            kw["manualticks"] = [tick.tick(x) for x in a["manual"]]
        if a.get("parter") == "none":
            kw["parter"] = None
        elif a.get("parter") == "lin":
            kw["parter"] = parter.lin(tickdists=[2, 1])
        if "texter" in a:
            class T(texter.decimal):
                def labels(self, ticks):
                    hooks("texter")
                    texter.decimal.labels(self, ticks)
            kw["texter"] = {"hook": T, "decimal": texter.decimal, "rational": texter.rational, "default": texter.default, "equal": lambda: texter.decimal(equalprecision=1)}[a["texter"]]()
        if "painter" in a:
            base = painter.bar if a["t"] == "bar" else painter.regular

            class P(base):
                def paint(self, *args):
                    hooks("painter")
                    base.paint(self, *args)
                    hooks("painted")
            if a["painter"] == "none":
                kw["painter"] = None
            elif a["painter"] == "hook":
                kw["painter"] = P()
            elif a["t"] != "bar":
                kw["painter"] = painter.regular(gridattrs=[]) if a["painter"] == "grid" else painter.regular(innerticklength=painter.ticklength.long, outerticklength=painter.ticklength.normal)
        return {"lin": graph.axis.lin, "log": graph.axis.log, "bar": graph.axis.bar}[a["t"]](**kw)

    def make_data(self, d):
        from pyx import graph
        hooks = self.hooks
        data = graph.data

        def f(x):
            hooks("function")
            return x*x/9 + 1
        t = d["t"]
        if t == "fn":
            return data.function(d["expr"], min=d.get("min"), max=d.get("max"), points=d["points"], title=d["title"], context={"f": f})
        if t == "param":
            return data.paramfunctionxy(lambda t: (3*t+1, t*t+2), 0, 1.5, points=d["points"], title=d["title"])
        if t == "points":
            if d["via"] == "values":
                return data.values(x=[p[0] for p in d["pts"]], y=[p[1] for p in d["pts"]], title=d["title"])
            if d["via"] == "join":
                k = len(d["pts"])//2
                return data.join([data.points(d["pts"][:k], x=1, y=2, title="a"), data.points(d["pts"][k:], x=1, y=2, title="b")], title=d["title"])
            p = data.points(d["pts"], x=1, y=2, title=d["title"])
            if d["via"] == "expr":
                return data.data(p, x="x", y="y*1", title=d["title"])
            return p
        cols = {"err": dict(x=1, y=2, dy=3), "ranges": dict(xmin=1, xmax=2, ymin=3, ymax=4, color=5), "hist": dict(x=1, y=2), "text": dict(x=1, y=2, text=3), "arrow": dict(x=1, y=2, size=3, angle=4), "grid": dict(x=1, y=2, color=3), "names": dict(xname=1, y=2, stack=3), "xyz": dict(x=1, y=2, z=3, color=3)}[t]
        return data.points(d["pts"], title=None if t in ("text", "arrow", "xyz", "grid", "ranges") else d["title"], **cols)

    def make_styles(self, names):
        return [getattr(self, "style_" + n)() for n in names]

    def style_symbol(self):
        from pyx import graph
        return graph.style.symbol()

    def style_hooksymbol(self):
        from pyx import graph, path
        hooks = self.hooks

        def sym(c, x_pt, y_pt, size_pt, attrs):
            hooks("symbol")
            hooks.points.append((c, x_pt, y_pt))
            c.draw(path.circle_pt(x_pt, y_pt, 0.5*size_pt), attrs)
        return graph.style.symbol(symbol=sym)

    def style_line(self):
        from pyx import graph
        return graph.style.line()

    def style_changed(self):
        from pyx import graph, attr, color, deco
        hooks = self.hooks

        class C(attr.changelist):
            def select(self, *args):
                hooks("select")
                return attr.changelist.select(self, *args)
        return graph.style.symbol(graph.style.symbol.changesquare, symbolattrs=[C([color.rgb.red, color.rgb.blue, color.grey.black]), deco.filled])

    def style_impulses(self):
        from pyx import graph
        return graph.style.impulses()

    def style_user(self):
        from pyx import graph, path
        hooks = self.hooks

        class U(graph.style._styleneedingpointpos):
            needsdata = ["vpos", "vposmissing", "vposvalid"]

            def selectstyle(self, privatedata, sharedata, graph, selectindex, selecttotal):
                hooks("user select")
                privatedata.w = selectindex, selecttotal

            def drawpoint(self, privatedata, sharedata, graph, point):
                hooks("user point")
                if sharedata.vposvalid:
                    x, y = graph.vpos_pt(*sharedata.vpos)
                    graph.layer("data").stroke(path.rect_pt(x, y, 3 + privatedata.w[0], 3 + privatedata.w[1]))

            def donedrawpoints(self, privatedata, sharedata, graph):
                hooks("user done")

            def key_pt(self, privatedata, sharedata, graph, x_pt, y_pt, width_pt, height_pt):
                hooks("user key")
                graph.stroke(path.rect_pt(x_pt, y_pt, width_pt, height_pt))
        return U()

    def style_errorbar(self):
        from pyx import graph
        return graph.style.errorbar()

    def style_lineattrs(self):
        from pyx import graph, style, color, attr
        return graph.style.line([style.linewidth.Thick, attr.changelist([color.rgb.green, color.grey(0.5)])])

    def style_changesizes(self):
        from pyx import graph, attr, unit
        return graph.style.symbol(graph.style.symbol.changetriangletwice, size=attr.changelist([0.1*unit.v_cm, 0.3*unit.v_cm, 0.2*unit.v_cm]))

    def style_impulsesattrs(self):
        from pyx import graph, style, color
        return graph.style.impulses([style.linewidth.thick, color.rgb.red], fromvalue=1, frompathattrs=[style.linestyle.dashed])

    def style_histogram(self):
        from pyx import graph
        return graph.style.histogram()

    def style_histogramsteps(self):
        from pyx import graph, color
        return graph.style.histogram([color.rgb.blue], steps=1, fromvalue=2, autohistogrampointpos=0)

    def style_errorsizes(self):
        from pyx import graph, attr, unit, color
        return graph.style.errorbar(size=attr.changelist([0.1*unit.v_cm, 0.3*unit.v_cm]), errorbarattrs=[attr.changelist([color.rgb.red, color.rgb.blue])])

    def style_rect(self):
        from pyx import graph
        return graph.style.rect()

    def style_rectno(self):
        from pyx import graph
        return graph.style.rect(keygraph=None)

    def style_rectrainbow(self):
        from pyx import graph, color
        return graph.style.rect(gradient=color.gradient.RedBlue, coloraxis=graph.axis.lin(title="c"))

    def style_textattrs(self):
        from pyx import graph, text, color, unit
        return graph.style.text(textdx=0.2*unit.v_cm, textattrs=[text.halign.left, color.rgb.red])

    def style_arrowattrs(self):
        from pyx import graph, color, style
        return graph.style.arrow(lineattrs=[color.rgb.red, style.linewidth.Thick], arrowpos=0)

    def style_changebar(self):
        from pyx import graph
        return graph.style.changebar()

    def style_barattrs(self):
        from pyx import graph, deco, color
        return graph.style.bar([deco.stroked([color.rgb.red])])

    def style_barposattrs(self):
        from pyx import graph, style
        return graph.style.barpos(fromvalue=2, frompathattrs=[style.linestyle.dotted])

    def style_gridattrs(self):
        from pyx import graph, color
        return graph.style.grid(gridlines2=0, gridattrs=[color.rgb.red])

    def style_text(self):
        from pyx import graph
        return graph.style.text()

    def style_arrow(self):
        from pyx import graph
        return graph.style.arrow()

    def style_density(self):
        from pyx import graph
        return graph.style.density()

    def style_densityno(self):
        from pyx import graph
        return graph.style.density(keygraph=None)

    def style_surface(self):
        from pyx import graph
        return graph.style.surface()

    def style_surfaceno(self):
        from pyx import graph
        return graph.style.surface(keygraph=None)

    def style_grid(self):
        from pyx import graph
        return graph.style.grid()

    def style_bar(self):
        from pyx import graph
        return graph.style.bar()

    def style_hookbar(self):
        from pyx import graph
        hooks = self.hooks

        class B(graph.style.bar):
            def drawpoint(self, *args):
                hooks("bar")
                graph.style.bar.drawpoint(self, *args)
        return B()

    def style_stacked(self):
        from pyx import graph
        return graph.style.stackedbarpos("stack")

    # -- graphs

    def graph(self, g, graphs):
        from pyx import graph, deco, color
        x = self.plan["graphs"][g]
        kw = {}
        for n, a in x["axes"].items():
            if n in x["other"]:
                kw[n] = graph.axis.linkedaxis(graphs[x["other"][n]].axes[n])
            else:
                kw[n] = self.get("axes", a, (g, n))
        if "key" in x:
            k = dict(x["key"])
            if k.pop("border", None):
                k["keyattrs"] = [deco.stroked]
            kw["key"] = graph.key.key(**k)
        if x["kind"] == "xyz":
            return graph.graphxyz(x["x"], x["y"], size=x["h"], projector=graph.graphxyz.parallel(-30, 30), **kw)
        for n in ("xaxisat", "yaxisat", "flipped"):
            if n in x:
                kw[n] = x[n]
        if x.get("background"):
            kw["backgroundattrs"] = [deco.filled([color.rgb(0.9, 1, 0.9)])]
        return graph.graphxy(x["x"], x["y"], width=x["w"], height=x["h"], **kw)

    def plot(self, g, i, graphs):
        ds, st, how = self.plan["graphs"][g]["plots"][i]
        data = [self.get("data", d, (g, i, j)) for j, d in enumerate(ds)]
        # a list of styles belongs to the plots of a graph
        styles = None if st is None else self.get("styles", st, g)
        names = self.plan["graphs"][g]["axes"]
        arg = {"single": lambda: data[0], "list": lambda: list(data), "tuple": lambda: tuple(data), "gen": lambda: (d for d in data)}[how]()
        r = graphs[g].plot(arg, styles)
        if not self.shared:
            self.separate(g, r if isinstance(r, list) else [r])
        return r

    def separate(self, g, items):
        """each of the data gets its own instances of the styles, selected as before

        (a style must not keep anything about what it is used for)"""
        if not all(isinstance(getattr(p, "styles", None), list) and hasattr(p, "selectstyles") for p in items):
            return
        for p in items:
            same = self.have.setdefault(("select", g, tuple(map(id, p.styles))), [[], p.styles])
            same[0].append(p)
            p.styles = [copy.copy(s) for s in p.styles]

            def select(graph, i, n, p=p, same=same[0], real=p.selectstyles):
                return real(graph, [q is p for q in same].index(True), len(same))
            p.selectstyles = select


class Tracer:
    """counts the lines executed in PyX, one of which might be interrupted"""

    def __init__(self, at, exc):
        self.n, self.at, self.exc = 0, at, exc
        self.raised = False

    def __call__(self, frame, event, arg):
        if "/pyx/" not in frame.f_code.co_filename or frame.f_code.co_filename.endswith("__init__.py"):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.at:
                self.raised = True
                sys.settrace(None)
                raise self.exc("injected at %s:%d" % (frame.f_code.co_name, frame.f_lineno))
        return self.local


def output(g, fmt):
    f = io.BytesIO()
    getattr(g, {"eps": "writeEPSfile", "svg": "writeSVGfile", "pdf": "writePDFfile"}[fmt])(f)
    data, n = refdoc.undated(fmt, f.getvalue())
    return data


EXC = {"RuntimeError": RuntimeError, "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "OSError": OSError, "ValueError": ValueError, "ZeroDivisionError": ZeroDivisionError}


def run(ctx):
    from pyx import text
    plan = ctx.plan
    ng = len(plan["graphs"])
    hooks = Hooks()
    engine = text.defaulttextengine
    real_text = engine.text_pt

    def text_pt(*args, **kwargs):
        hooks("text")
        return real_text(*args, **kwargs)
    engine.text_pt = text_pt
    fmts = sorted({plan["fmt"]} | {s[2] for s in plan["steps"] if s[0] == "write"})

    def build(shared):
        m = Makers(plan, hooks, shared)
        graphs = []
        for g in range(ng):
            graphs.append(m.graph(g, graphs))
        return m, graphs

    def linked(g):
        s = {g}
        while True:
            t = s | {h for x in s for h in plan["graphs"][x]["other"].values()}
            if t == s:
                return s
            s = t

    def reference(m, graphs):
        """the graphs drawn in the usual way, one after the other"""
        for o in plan["order"]:
            if o[0] == "plot":
                m.plot(o[1], o[2], graphs)
        out = {}
        for g in range(ng):
            for fmt in fmts:
                try:
                    out[g, fmt] = output(graphs[g], fmt)
                except (ValueError, RuntimeError, TypeError, AttributeError, ArithmeticError, LookupError, AssertionError) as e:
                    out[g, fmt] = e
        return out

    lines = Tracer(None, None)
    if plan["fault"] and plan["fault"][0] == "line":
        sys.settrace(lines)
    try:
        m, graphs = build(False)
        ref = reference(m, graphs)
    finally:
        sys.settrace(None)
    refcalls = dict(hooks.calls)
    refn = hooks.n
    refused = {g for g in range(ng) if isinstance(ref[g, plan["fmt"]], Exception)}
    for (g, fmt), e in ref.items():
        if isinstance(e, Exception):
            ctx.count("refused:" + type(e).__name__)
            ctx.count("refused: %s" % str(e)[:60])
    for g in range(ng):
        inside(ctx, graphs[g], plan, g)
    if refused and plan["fault"]:
        ctx.nontrivial = False
        return
    ctx.warnings.clear()

    # the graphs are drawn in another order, sharing what can be shared
    hooks.__init__()
    fault = plan["fault"]
    tracer = None
    if fault:
        exc = EXC[fault[2]]
        if fault[0] == "hook":
            if not refn:
                fault = None
            else:
                hooks.at, hooks.exc = 1 + fault[1]*refn//1001, exc
        else:
            tracer = Tracer(1 + fault[1]*lines.n//1001, exc)
    failed = [None]
    hit = set()             # graphs which might be incomplete
    m = graphs = None

    def attempt(gs, what, fn):
        """an action for the graphs gs"""
        was = bool(hooks.raised or tracer and tracer.raised)
        try:
            return fn()
        except BaseException as e:
            now = bool(hooks.raised or tracer and tracer.raised)
            if isinstance(e, (Exception, KeyboardInterrupt)) and now:
                if not was:
                    ctx.sim.fault(fault[0], "%s during %s" % (fault[2], what))
                    ctx.count("fault:%s:%s" % (fault[0], fault[2]))
                    hit.update(gs)
                    return e
                if hit & set(gs):
                    return e
            if isinstance(e, Exception) and set(gs) & refused:
                return e
            raise

    if tracer:
        sys.settrace(tracer)
    try:
        def setup():
            nonlocal m, graphs
            m, graphs = build(True)
        if isinstance(attempt(range(ng), "building", setup), BaseException):
            graphs = None
        lost = set()        # plots which have not been done

        for o in plan["order"] if graphs else []:
            g = o[1]
            if o[0] == "plot":
                n = len(graphs[g].plotitems)
                r = attempt([g], "plot", lambda: m.plot(g, o[2], graphs))
                if isinstance(r, BaseException):
                    # it is either plotted or not, and what happens next is up to the caller
                    want = n + len(plan["graphs"][g]["plots"][o[2]][0])
                    have = len(graphs[g].plotitems)
                    if have not in (n, want):
                        return ctx.fail("half-plot", "plot() failed with %d of %d data plotted" % (have-n, want-n))
                    if have == n:
                        try:
                            m.plot(g, o[2], graphs)
                        except Exception as e:
                            lost.add(g)
                    hit.discard(g)
            elif o[0] == "bad":
                bad(ctx, m, graphs[g], o[2], hooks)
            elif o[0] == "early":
                x = graphs[g]
                attempt([g], "early", [x.dobackground, lambda: x.vpos_pt(*[0.5]*len(x.axesnames)), lambda: x.vgeodesic(*[0, 0, 1, 1] if len(x.axesnames) == 2 else [0, 0, 0, 1, 1, 1])][o[2]])
        if graphs:
            for s in plan["steps"]:
                x = graphs[s[1]]
                gs = linked(s[1])
                r = attempt(gs, s[0], lambda: step(ctx, x, s, plan))
                if s[0] == "write" and not isinstance(r, BaseException):
                    if s[1] in lost:
                        continue
                    if compare(ctx, ref, s[1], s[2], r, "step %r" % s, hit):
                        return
        for turn in range(2):
            for g in plan["final"] if graphs else []:
                for fmt in [plan["fmt"]]:
                    if g in lost:
                        continue
                    r = attempt(linked(g), "write", lambda: output(graphs[g], fmt))
                    if isinstance(r, BaseException):
                        ctx.count("reported" if not isinstance(ref[g, fmt], Exception) else "refused again")
                        continue
                    if compare(ctx, ref, g, fmt, r, "graph %d, writing %d" % (g, turn), hit):
                        return
        for g in range(ng) if graphs else []:
            if g not in hit and g not in refused:
                inside(ctx, graphs[g], plan, g)
    finally:
        sys.settrace(None)
    raised = hooks.raised or tracer and tracer.raised
    hooks.at = None
    if tracer:
        tracer.at = None
    if not raised and not refused and graphs:
        per = len(fmts)
        if hooks.calls != refcalls:
            return ctx.fail("calls", "user code called %r instead of %r times" % (hooks.calls, refcalls))
    # what has been shared is as new
    late = Makers(plan, hooks, True)
    if m is not None:
        late.have = m.have
    new = []
    for g in range(ng):
        new.append(late.graph(g, new))
    again = reference(late, new)
    for k, v in ref.items():
        if compare(ctx, ref, k[0], k[1], again[k], "graph %d drawn anew" % k[0], ()):
            return
    ctx.count("graphs", ng)
    ctx.key = repr([fault and fault[:1], [s[:1] + s[2:3] for s in plan["steps"]]])


def compare(ctx, ref, g, fmt, data, what, hit):
    r = ref[g, fmt]
    if isinstance(data, Exception):
        if isinstance(r, Exception):
            return False
        ctx.fail("exception", "%s: %s: %s" % (what, type(data).__name__, data))
        return True
    if isinstance(r, Exception):
        ctx.fail("not-refused", "%s is written, while it was refused first (%s: %s)" % (what, type(r).__name__, r))
        return True
    ctx.count("compared")
    if data != r:
        ctx.fail("incomplete" if hit and g in hit else "bytes", "%s (%s) differs: %s" % (what, fmt, refdoc.differ(data, r)))
        return True
    return False


def bad(ctx, m, g, kind, hooks):
    """plots which are refused"""
    from pyx import graph
    n = len(g.plotitems)
    good = graph.data.points([(1, 2, 3)], x=1, y=2, z=3)
    try:
        if kind == 0:
            g.plot([good, graph.data.points([(1, 2)], nothing=1)], [graph.style.symbol()])
        elif kind == 1:
            g.plot([good], [graph.style.text()])
        else:
            g.plot([good, graph.data.function("y(x)=x")], None)
    except Exception:
        ctx.count("refused plots")
        if len(g.plotitems) != n:
            ctx.fail("half-plot", "a refused plot added %d data" % (len(g.plotitems)-n))
    else:
        raise RuntimeError("not refused")


def step(ctx, x, s, plan):
    k = s[0]
    if k == "do":
        n = s[2]
        if n == "finish":
            x.finish()
        elif n == "bbox":
            x.bbox()
        else:
            getattr(x, "do" + n)()
    elif k == "axis":
        names = sorted(x.axes)
        n = names[s[2] % len(names)]
        a = x.axes[n]
        if s[3] == "create":
            x.doaxiscreate(n)
        elif s[3] == "positioner":
            x.doaxispositioner(n)
        elif s[3].startswith("v"):
            x.doaxiscreate(n)
            getattr(a, s[3])(*([0.25] if s[3] != "vbasepath" else [0.25, 0.5]))
        else:
            v = ("A", 0.5) if type(a.axis).__name__ == "bar" else 3
            try:
                getattr(a, s[3])(v)
            except KeyError:
                if v == 3:
                    raise
    elif k == "pos":
        if plan["graphs"][s[1]]["kind"] != "bar" and all(n in x.axes for n in "xy"):
            x.pos_pt(*[s[2]]*len(x.axesnames))
    elif k == "item":
        # in the usual order
        for i in x.plotitems:
            getattr(x, s[2])(i)
    elif k == "late":
        from pyx import graph
        if x.didstyles:
            n = len(x.plotitems)
            try:
                x.plot(graph.data.points([(1, 2, 3)], x=1, y=2, z=3), [graph.style.symbol()])
            except Exception:
                pass
            if len(x.plotitems) != n:
                ctx.fail("late-plot", "data plotted after the styles have been done")
    elif k == "write":
        return output(x, s[2])


def inside(ctx, g, plan, i):
    """axes following the data cover them"""
    x = plan["graphs"][i]
    if x["kind"] == "bar":
        return
    lo, hi = {}, {}
    for p in g.plotitems:
        for c in p.data.columns:
            v = [v for v in p.data.columns[c] if isinstance(v, (int, float))]
            if v:
                lo[c], hi[c] = min(v + [lo.get(c, v[0])]), max(v + [hi.get(c, v[0])])
    for p in g.plotitems:
        d = p.data
        if type(d).__name__ == "function" and "dynamiccolumns" in p.__dict__ and d.xname in lo and d.xname in x["axes"] and d.xname not in x["other"]:
            a = plan["axes"][x["axes"][d.xname]]
            v = p.dynamiccolumns[d.xname]
            if d.min is None and d.max is None and "min" not in a and "max" not in a and (min(v) > lo[d.xname] + 1e-6 or max(v) < hi[d.xname] - 1e-6):
                return ctx.fail("range", "a function is plotted from %s to %s, while the data is between %s and %s" % (min(v), max(v), lo[d.xname], hi[d.xname]))
    for p in g.plotitems:
        for c in p.data.columns:
            if c in g.axes and c not in x["other"] and c in x["axes"]:
                a = plan["axes"][x["axes"][c]]
                d = g.axes[c].data
                if g.axes[c].canvas is None or "min" in a and "max" in a:
                    continue
                for v in p.data.columns[c]:
                    if isinstance(v, (int, float)) and ("min" not in a and v < d.min - 1e-9 or "max" not in a and v > d.max + 1e-9):
                        return ctx.fail("range", "%s is outside of the axis %s (%g, %g), which follows the data" % (v, c, d.min, d.max))
