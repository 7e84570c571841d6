"""C26: points in time and durations."""
import calendar
import datetime
import json
import os
import re
import time

import vclock
from vlib import observe

UNITS = {"w": "weeks", "d": "days", "h": "hours", "mi": "minutes", "s": "seconds", "ms": "milliseconds", "us": "microseconds"}
ORDER = ["d", "s", "us", "ms", "mi", "h", "w"]      # of the positional arguments


def secs(p):
    return p[0] * 86400 + p[1]


def civil_text(c):
    return "%04d-%02d-%02dT%02d:%02d:%02d" % tuple(c)


def reps(p, rng):
    """The ways of writing down one point in time."""
    sec, u = secs(p), p[2]
    t = civil_text(time.gmtime(sec)[:6]) if isinstance(p, tuple) else civil_text(p[3])
    frac = ("%06d" % u + rng.choice(["", "", "", "5", "000", "999999"]))[:rng.choice([1, 2, 3, 6, 7, 9, 12])]
    return {"text": t + "Z", "fraction": "%s.%sZ" % (t, frac), "number": sec, "struct": time.gmtime(sec)}


def truth(x):
    return x if x is True or x is False else "value %r" % (x,)


def call(f, *a):
    o = observe(f, *a)
    return truth(o[1]) if o[0] == "ok" else "%s: %s" % o[1:3]


def freeze(now):
    vclock.freeze(now[0] * 86400 + now[1], now[2] * 1000)


def compare(ra, rb, now):
    from oidcmsg import time_util as tu
    freeze(now)
    v = [call(f, ra) for f in (tu.valid, tu.before, tu.not_on_or_after)]
    n = [call(f, ra) for f in (tu.after, tu.not_before)]
    ab, ba = call(tu.later_than, ra, rb), call(tu.later_than, rb, ra)
    vclock.off()
    return v, n, ab, ba


def shift(now, o, sign, how, rng):
    """[[d, s, u]] per way of asking."""
    from oidcmsg import time_util as tu
    kw = {UNITS[k]: v for k, v in o.items() if v or rng.random() < 0.2}
    if how % 3 == 0 and o["h"] % 12 == 0 and o["h"]:
        kw["days"] = kw.pop("days", 0) + kw.pop("hours") / 24
    args = []
    if how % 4 == 1:
        args, kw = [o[k] for k in ORDER], {}
    freeze(now)
    epoch = datetime.datetime(1970, 1, 1)
    f, g = (tu.time_in_a_while, tu.in_a_while) if sign > 0 else (tu.time_a_while_ago, tu.a_while_ago)
    t = f(*args, **kw)
    s1, s2 = g(*args, **kw), g(*args, **dict(kw, **({} if args else {"time_format": tu.TIME_FORMAT if sign < 0 or how % 2 else ""})))
    e = tu.epoch_in_a_while(*args, **kw) if sign > 0 else None
    whole = [tu.utc_time_sans_frac(), tu.time_sans_frac(), calendar.timegm(tu.str_to_time(tu.instant()))]
    vclock.off()
    dt = t - epoch
    res = [dt.days, dt.seconds, dt.microseconds]
    odd = []
    text = civil_text(t.timetuple()[:6]) + "Z"
    if s1 != text or s2 != text:
        odd.append("text %s and %s instead of %s" % (s1, s2, text))
    if e is not None and (type(e) is not int or e != secs(res)):
        odd.append("seconds %r instead of %d" % (e, secs(res)))
    if whole != [secs(now)] * 3:
        odd.append("whole seconds %r instead of %d" % (whole, secs(now)))
    base = datetime.datetime(1970, 1, 1) + datetime.timedelta(days=now[0], seconds=now[1], microseconds=now[2])
    n = sign * (o["s"] + 60 * o["mi"])
    if tu.shift_time(base, n) != base + datetime.timedelta(seconds=n) or (tu.shift_time(base, n) - base).total_seconds() != n:
        odd.append("shift_time")
    return res, odd


def duration(text, digits):
    from oidcmsg import time_util as tu
    o = observe(tu.parse_duration, text)
    if o[0] != "ok":
        return []
    sign, d = o[1]
    try:
        s = d["tm_sec"]
        whole = int(s)
        rest = s - whole
        return [{"sign": sign, "y": d["tm_year"], "mo": d["tm_mon"], "d": d["tm_mday"], "h": d["tm_hour"], "mi": d["tm_min"], "s": whole,
                 "frac": round(rest * 10 ** digits) if rest else 0}]
    except Exception as exc:
        return [{"sign": "unusable %r (%s)" % (o[1], exc)}]


ISO = re.compile(r"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)([+-])(\d\d):?(\d\d)(?::?(\d\d))?\Z")


def take_apart(text):
    m = ISO.match(text)
    if not m:
        return None
    g = [int(v) for i, v in enumerate(m.groups(), 1) if i != 7 and v]
    off = g[6] * 3600 + g[7] * 60 + (g[8] if len(g) > 8 else 0)
    return g[:6], off if m.group(7) == "+" else -off


def iso(sec, zone, how, rng):
    import oidcmsg.oidc.identity_assurance as ida
    os.environ["TZ"] = zone
    time.tzset()
    try:
        if how == "int":
            text, date = ida.to_iso8601_2004_time(sec), ida.to_iso8601_2004_date(sec)
        elif how == "float":
            text, date = ida.to_iso8601_2004_time(sec + 0.25), ida.to_iso8601_2004_date(sec + 0.25)
        elif how == "aware":
            tz = datetime.timezone(datetime.timedelta(minutes=rng.choice([0, 60, -210, 345, -720, 840])))
            d = datetime.datetime.fromtimestamp(sec, tz)
            text, date = ida.to_iso8601_2004_time(d), ida.to_iso8601_2004_date(d)
        elif how == "local":
            d = datetime.datetime.fromtimestamp(sec)
            text, date = ida.to_iso8601_2004_time(d), ida.to_iso8601_2004_date(d)
        elif how == "ser":
            text, date = ida.time_stamp_ser(sec), ida.date_ser(sec)
        elif how == "serstr":
            text, date = ida.time_stamp_ser(str(sec)), ida.date_ser(float(sec))
        elif how == "message":
            m = ida.VerificationElement(trust_framework="x", time=sec)
            text, date = json.loads(m.to_json())["time"], ida.to_iso8601_2004_date(sec)
        else:
            vclock.freeze(sec, rng.choice([0, 1, 999_999_999]))
            text, date = ida.to_iso8601_2004_time(), ida.to_iso8601_2004_date()
        vclock.off()
        back = ida.from_iso8601_2004_time(text) if rng.random() < 0.5 else ida.time_stamp_deser(text)
        date2 = ida.to_iso8601_2004_date(ida.from_iso8601_2004_date(date) if rng.random() < 0.5 else ida.date_deser(date))
    finally:
        vclock.off()
        os.environ["TZ"] = "UTC"
        time.tzset()
    parts = take_apart(text)
    if not parts or back != int(back):
        return "text %r read back as %r" % (text, back)
    d3 = lambda t: [int(v) for v in t.split("-")]
    return {"k": "iso", "p": list(divmod(sec, 86400)), "c": parts[0], "off": parts[1], "back": list(divmod(int(back), 86400)), "date": d3(date), "date2": d3(date2),
            "zone": zone, "how": how, "text": text}


def foreign(rng, zone):
    """A time stamp written down somewhere else."""
    import oidcmsg.oidc.identity_assurance as ida
    sec = rng.randrange(-86400 * 300, 86400 * 24000)
    off = rng.choice([0, 3600, -3600, 19800, -12600, 50400, -43200, 20700])
    c = list(time.gmtime(sec + off)[:6])
    form = "Z" if off == 0 and rng.random() < 0.5 else "%s%02d%s%02d" % ("+" if off >= 0 else "-", abs(off) // 3600, rng.choice(["", ":"]), abs(off) // 60 % 60)
    text = civil_text(c) + form
    os.environ["TZ"] = zone
    time.tzset()
    try:
        o = observe(rng.choice([ida.from_iso8601_2004_time, ida.time_stamp_deser]), text)
    finally:
        os.environ["TZ"] = "UTC"
        time.tzset()
    if o[0] != "ok" or o[1] != int(o[1]):
        return "%s in %s gives %r" % (text, zone, o[1:3])
    return {"k": "text", "c": c, "off": off, "p": list(divmod(int(o[1]), 86400)), "text": text, "zone": zone}


ZONES = ["UTC", "Europe/Stockholm", "America/New_York", "America/St_Johns", "Asia/Kolkata", "Asia/Kathmandu", "Pacific/Kiritimati", "Pacific/Apia", "Australia/Lord_Howe",
         "America/Sao_Paulo", "Africa/Monrovia", "Asia/Tehran", "Pacific/Marquesas", "Europe/Dublin", "Africa/Casablanca", "Antarctica/Troll", "XYZ-3:15", "EST5EDT"]


def C26(ctx):
    from oidcmsg import time_util as tu
    rng = ctx.rng
    ctx.assumptions += ["an empty or zero point in time means no limit and is not decided", "fractions of the current second do not count", "add_duration is left out"]
    tlc = lambda part, n=5: ctx.tlc("TimeMC", 'SPECIFICATION Spec\nCONSTANTS Part="%s" MaxLen=%d\nINVARIANTS CalendarOK ParseOK Agree Emit\n' % (part, n)).prints
    tlc("calendar")
    cases = tlc("points")
    ctx.extra["points_from_model"] = len(cases)
    ctx.sample(cases[0])
    for c in cases:
        now = [c["now"][k] for k in "dsu"]
        p = [c["p"][k] for k in "dsu"] + [[c["p"]["c"][k] for k in ("y", "mo", "dd", "h", "mi", "s")]]
        n = now + [[c["nowc"][k] for k in ("y", "mo", "dd", "h", "mi", "s")]]
        a, b = reps(p, rng), reps(n, rng)
        for ka, ra in a.items():
            for kb in (b if ctx.thorough else [rng.choice(list(b))]):
                v, nv, ab, ba = compare(ra, b[kb], now)
                ctx.validated += 1
                if v != [c["valid"]] * 3 or nv != [not c["valid"]] * 2 or ab != c["later"] or ba != c["earlier"]:
                    ctx.violation("point %r at %s: valid/before/not_on_or_after %s, after/not_before %s, later than %r %s, earlier %s, should be %s, %s, %s, %s" % (
                        ra, now, v, nv, b[kb], ab, ba, c["valid"], not c["valid"], c["later"], c["earlier"]), [c, ka, kb])
            if isinstance(ra, str):
                o = observe(tu.str_to_time, ra)
                if o[0] != "ok" or calendar.timegm(o[1]) != secs(p):
                    ctx.violation("str_to_time(%r) gives %r" % (ra, o[1:]), c)
    cases = tlc("shift")
    ctx.extra["shifts_from_model"] = len(cases)
    for c in cases:
        for how in (0, 1, 2):
            o = observe(shift, [c["now"][k] for k in "dsu"], c["o"], c["sign"], how, rng)
            vclock.off()
            ctx.validated += 1
            want = [c["res"][k] for k in "dsu"]
            if o[0] != "ok" or o[1][0] != want or o[1][1]:
                ctx.violation("now %s shifted by %s %s: %s, should be %s" % (c["now"], c["sign"], c["o"], o[1:3], want), c)
    cases = tlc("sheet") + tlc("texts", 6 if ctx.thorough else 5)
    ctx.extra["duration_texts_from_model"] = len(cases)
    ctx.extra["durations_in_them"] = sum(bool(c["res"]) for c in cases)
    for c in cases:
        t = "".join(c["t"])
        got = duration(t, c["frac"])
        ctx.validated += 1
        if got != c["res"]:
            ctx.violation("duration %r: %s, should be %s" % (t, got or "refused", c["res"] or "refused"), c)
    recs = []
    day = lambda: rng.choice([rng.randrange(1, 30000), 19675 + rng.randrange(-3, 4)])
    for _ in range(20000 if ctx.thorough else 2500):
        now = (day(), rng.randrange(86400), rng.randrange(10 ** 6))
        near = lambda: tuple(divmod(max(1, secs(now) + rng.choice([0, 1, -1, 2, 60, -3600, 86400, rng.randrange(-10 ** 8, 10 ** 8)])), 86400)) + (rng.randrange(10 ** 6),)
        a, b = near(), rng.choice([near(), now])
        zone = rng.choice(ZONES)
        os.environ["TZ"] = zone
        time.tzset()
        ra, rb = rng.choice(list(reps(a, rng).values())), rng.choice(list(reps(b, rng).values()))
        v, nv, ab, ba = compare(ra, rb, now)
        if len({str(q) for q in v}) > 1 or len({str(q) for q in nv}) > 1 or not all(type(q) is bool for q in v + nv + [ab, ba]):
            ctx.violation("(TZ " + zone + ") point %r at %s: valid/before/not_on_or_after %s, after/not_before %s; %s %s" % (ra, now, v, nv, ab, ba), [now, a, b])
            continue
        recs.append({"k": "compare", "a": a, "b": b, "now": now, "ab": ab, "ba": ba, "valid": v[0], "after": nv[0], "how": [repr(ra), repr(rb), zone]})
        o = {"w": rng.randrange(60), "d": rng.randrange(800), "h": rng.randrange(100), "mi": rng.randrange(10000), "s": rng.randrange(10 ** 6), "ms": rng.randrange(10 ** 6), "us": rng.randrange(10 ** 9)}
        o = {k: v if rng.random() < 0.5 else 0 for k, v in o.items()}
        sign = rng.choice([1, -1])
        ob = observe(shift, list(now), o, sign, rng.randrange(12), rng)
        vclock.off()
        if ob[0] != "ok" or ob[1][1]:
            ctx.violation("now %s shifted by %s %s: %s" % (now, sign, o, ob[1:3]), [now, o, sign])
        else:
            recs.append({"k": "shift", "now": now, "o": o, "sign": sign, "res": ob[1][0], "zone": zone})
        os.environ["TZ"] = "UTC"
        time.tzset()
        f = lambda u, p: ("%d" % rng.choice([0, 1, 12, 59, 1347, rng.randrange(10 ** 6)]) + u) if rng.random() < p else ""
        text = rng.choice(["P", "P", "-P"]) + f("Y", 0.5) + f("M", 0.5) + f("D", 0.5)
        tp = f("H", 0.5) + f("M", 0.5) + f("S", 0.3)
        if not tp.endswith("S") and rng.random() < 0.3:
            tp += "%d.%sS" % (rng.randrange(100), rng.choice(["0", "5", "25", "001", "3", "9999"]))
        text += "T" + tp if tp else ""
        if rng.random() < 0.4:
            i = rng.randrange(len(text) + 1)
            text = rng.choice([text[:i] + text[i + 1:], text[:i] + rng.choice(list("PTYMDHSWpt.,-+ _\n0e") + ["\u0663", "1", "inf", "nan"]) + text[i:], text + text[-2:], text[:i] + text[i:][::-1]])
        text = re.sub(r"([0-9]{8})[0-9]+", r"\1", text)      # the model calculates with 32 bits
        m = re.search(r"\.(\d+)S\Z", text)
        recs.append({"k": "duration", "t": list(text), "res": duration(text, len(m.group(1)) if m else 0), "text": text})
        zone = rng.choice(ZONES)
        if rng.random() < 0.5:
            sec = rng.choice([rng.randrange(1, 86400 * 25000), rng.choice([1711846800, 1698541200, 1710054000, 1699164000, 1325239200, 1698854400]) + rng.choice([-3601, -3600, -1, 0, 1, 1800, 3599, 3600])])
            if rng.random() < 0.15:
                sec = rng.choice([0, 0, 1, -1, rng.randrange(-86400 * 3000, 0)])
            rec = iso(sec, zone, rng.choice(["int", "int", "float", "aware", "local", "ser", "serstr", "message"] + ["now"] * (sec > 0)), rng)
        else:
            rec = foreign(rng, zone)
        if isinstance(rec, str):
            ctx.violation("time stamp: " + rec, rec)
        else:
            recs.append(rec)
    bad = ctx.judge("TimeTrace", recs)
    ctx.validated += len(recs)
    for i, cl in sorted(bad.items()):
        ctx.violation("%s: %s" % (json.dumps(recs[i]), "; ".join(cl)), recs[i])
