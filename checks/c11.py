"""C11: creation dates denote the time of writing, or SOURCE_DATE_EPOCH."""

import calendar
import io
import os
import re
import time

from sim import seams

ID = "C11"
ZONES = ["UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "<+0545>-5:45", "<-0330>3:30<-0230>,M3.2.0,M11.1.0", "IST-5:30",
         "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "IST-1GMT0,M10.5.0,M3.5.0/1", "<+14>-14", "<-12>12", "<-0044>0:44", "<-01>1<+00>,M3.5.0/0,M10.5.0/1",
         "<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45", "<-03>3<-02>,M3.5.0/-2,M10.5.0/-1", "Europe/Berlin", "America/New_York", "Asia/Kathmandu",
         "Australia/Lord_Howe", "Africa/Casablanca", "America/St_Johns", "Africa/Monrovia", "Pacific/Apia", ""]


def warm():
    import pyx
    from pyx import canvas, document, path, text


def g_time(rng):
    k = rng.random()
    if k < 0.3:
        return rng.randrange(0, 2**31)
    if k < 0.4:
        return rng.randrange(-2**31, 2**33)
    if k < 0.5:
        return rng.choice([0, 1, 59, 60, 86399, 951782400, 1078012800, 2**31-1, 2**31, 2**32, 1000000000]) + rng.choice([0, 0, -1, 1])
    # around the changes of daylight saving time and of years, in fractions
    y = rng.randint(1972, 2037)
    m, d = rng.choice([(3, 25), (10, 25), (3, 8), (11, 1), (4, 1), (10, 1), (12, 31), (2, 28), (9, 24)])
    return calendar.timegm((y, m, d, 0, 0, 0)) + rng.randrange(0, 8*86400)


def gen(rng, tier):
    steps = []
    zone = rng.choice(ZONES)
    for i in range(rng.randint(1, 8)):
        k = rng.random()
        if k < 0.15:
            steps.append(["tz", rng.choice(ZONES)])
        elif k < 0.3:
            steps.append(["clock", g_time(rng) + rng.choice([0, rng.random()])])
        elif k < 0.45:
            steps.append(["sde", rng.choice([None, None, g_time(rng) % 2**34, rng.choice([0, 1, 10**9, 2**31, 2**32+5]), ""])])
        else:
            steps.append(["write", rng.choice(["pdf", "pdf", "ps", "eps"]), rng.randrange(3), rng.choice([[0], [0], [1], [0, 1], [3600, 0.5], [-7200], [60, 59.9], [86400*30], [1e-3]])])
    steps.append(["write", rng.choice(["pdf", "ps", "eps"]), 0, [rng.choice([0, 1])]])
    return {"epoch": g_time(rng) + rng.choice([0, rng.random()]), "zone": zone, "steps": steps, "simple": {"epoch": 1.6e9, "zone": "UTC0"}}


MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]


def pdfdate(s):
    """(local fields, seconds east of UTC), after the PDF reference"""
    m = re.fullmatch(r"D:(\d{4})(\d\d)(\d\d)(\d\d)(\d\d)(\d\d)?(?:Z(?:00'00'?)?|([+-])(\d\d)'(\d\d)'?)", s)
    if not m:
        return None
    y, mo, d, h, mi, sec = [int(x) if x else None for x in m.groups()[:6]]
    if not (1 <= mo <= 12 and 1 <= d <= 31 and h < 24 and mi < 60 and (sec or 0) < 62):
        return None
    off = 0
    if m.group(7):
        if int(m.group(8)) > 23 or int(m.group(9)) > 59:
            return None
        off = (int(m.group(8))*60 + int(m.group(9)))*60 * (1 if m.group(7) == "+" else -1)
    return (y, mo, d, h, mi, sec), off


def psdate(s):
    m = re.fullmatch(r"(\w{3}) (\w{3}) +(\d+) (\d\d):(\d\d):(\d\d) (-?\d+)", s)
    if not m or m.group(1) not in DAYS or m.group(2) not in MONTHS:
        return None
    return int(m.group(7)), MONTHS.index(m.group(2))+1, int(m.group(3)), int(m.group(4)), int(m.group(5)), int(m.group(6)), DAYS.index(m.group(1))


def run(ctx):
    from pyx import canvas, document, path
    plan, sim = ctx.plan, ctx.sim
    real = seams.real["time"]

    def zone(z):
        if z:
            os.environ["TZ"] = z
        else:
            os.environ.pop("TZ", None)
        time.tzset()
    zone(plan["zone"])
    os.environ.pop("SOURCE_DATE_EPOCH", None)
    sim.epoch = plan["epoch"]
    sde = None
    files = {}
    drift = [0]
    seen = []

    def hook():
        # the clock runs (and is set) while the program reads it
        n = hook.n = hook.n + 1
        if n > 1:
            sim.epoch += drift[(n-2) % len(drift)]
            if drift != [0]:
                sim.fault("clock_step")
        seen.append(sim.epoch + sim.now)
    sim.clock_hook = hook
    for n, s in enumerate(plan["steps"]):
        what = "step %d %r at %r in %r" % (n, s, sim.epoch + sim.now, os.environ.get("TZ"))
        if s[0] == "tz":
            zone(s[1])
            sim.fault("timezone_change")
        elif s[0] == "clock":
            sim.epoch = s[1]
            sim.fault("clock_jump")
        elif s[0] == "sde":
            sde = s[1]
            if sde is None:
                os.environ.pop("SOURCE_DATE_EPOCH", None)
            else:
                os.environ["SOURCE_DATE_EPOCH"] = str(sde)
        else:
            fmt, k, drift = s[1:]
            hook.n = 0
            seen[:] = [sim.epoch + sim.now]
            c = canvas.canvas()
            for i in range(k):
                c.stroke(path.line(0, 0, 1, i+1))
            c.stroke(path.line(0, 0, 1, 0))
            d = document.document([document.page(c)])
            f = io.BytesIO()
            {"pdf": d.writePDFfile, "ps": d.writePSfile, "eps": d.writeEPSfile}[fmt](f, **({"title": "CreationDate"} if k == 1 else {}))
            data = f.getvalue()
            if fmt == "pdf":
                found = re.findall(rb"/CreationDate \(([^)]*)\)", data)
            else:
                found = re.findall(rb"(?m)^%%CreationDate: (.*)$", data.split(b"%%EndComments")[0])
            if len(found) != 1:
                return ctx.fail("date", "%s: the file has %d creation dates" % (what, len(found)))
            text = found[0].decode("latin-1")
            if sde not in (None, ""):
                instants = [sde]
                tz = lambda t: real["gmtime"](t)
                old = files.setdefault((fmt, k, sde), data)
                if old != data:
                    return ctx.fail("reproducible", "%s: the file differs from the one written with the same SOURCE_DATE_EPOCH %d" % (what, sde))
                ctx.count("dates:SOURCE_DATE_EPOCH")
            else:
                instants = seen
                tz = lambda t: real["localtime"](t)
                ctx.count("dates:clock")
            if fmt == "pdf":
                r = pdfdate(text)
                if r is None:
                    return ctx.fail("format", "%s: %r is not a date" % (what, text))
                fields, off = r
                try:
                    t = calendar.timegm(fields[:5] + (fields[5] or 0,)) - off
                except ValueError:
                    return ctx.fail("format", "%s: %r is not a date" % (what, text))
                # offsets with seconds (a few before 1972) can not be given
                good = False
                for x in instants:
                    l = tz(x)
                    if -abs(l.tm_gmtoff % 60) <= x - t < (60 if fields[5] is None else 1) + abs(l.tm_gmtoff % 60) and tuple(l)[:5] == fields[:5]:
                        good = True
                if not good:
                    l = tz(instants[0])
                    return ctx.fail("wrong-date", "%s: %r is not the time %s (%+d s from UTC)" % (what, text, time.strftime("%Y-%m-%d %H:%M:%S", l), l.tm_gmtoff))
            else:
                r = psdate(text)
                if r is None:
                    return ctx.fail("format", "%s: %r is not a date" % (what, text))
                if r not in [tuple(tz(x))[:7] for x in instants]:
                    return ctx.fail("wrong-date", "%s: %r is not the time %s" % (what, text, real["asctime"](tz(instants[0]))))
            # seconds pass until the next step
            sim.epoch += k
