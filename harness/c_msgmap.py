"""C07: messages as isolated mutable mappings."""
import json

import gen
from trees import build, cls_of, entries, esc, name_of, realise, tree
from vlib import observe


def snapshot(msgs):
    return [{"c": name_of(type(m)), "es": entries(m)} for m in msgs]


def grow(v):
    if isinstance(v, list):
        v.append("zz")
    else:
        v["k"].append("zz")


def apply(o, msgs):
    """Carry out one operation; returns a value."""
    i = o["m"] - 1
    m, other = msgs[i], msgs[1 - i]
    k, x, op = o["k"], realise(build(o["x"])), o["op"]
    if op == "new":
        msgs[i] = type(m)(set_defaults=o["b"])
    elif op == "set":
        m[k] = x
    elif op == "del":
        del m[k]
    elif op == "pop":
        return m.pop(k, "dflt")
    elif op == "setdefault":
        m.setdefault(k, x)
    elif op == "grow":
        grow(m[k])
    elif op == "updatedict":
        m.update({k: x})
    elif op == "updatemsg":
        m.update(other)
    elif op == "weed":
        m.weed()
    elif op == "rmblanks":
        m.rm_blanks()
    elif op == "defaults":
        m.set_defaults()
    elif op == "clear":
        m.clear()
    elif op == "copy":
        msgs[1 - i] = m.copy()
    elif op == "get":
        return m[k]
    elif op == "getd":
        return m.get(k, "dflt")
    elif op == "in":
        return k in m
    elif op == "len":
        return len(m)
    elif op == "iter":
        return list(m)
    elif op == "keys":
        return list(m.keys())
    elif op == "items":
        d = dict(m.items())
        assert len(list(m.values())) == len(d)
        return d
    elif op == "extra":
        return dict(m.extra())
    elif op == "onlyextra":
        return m.only_extras()
    elif op == "eq":
        return m == other
    elif op == "ne":
        return m != other
    else:
        raise AssertionError(op)
    return None


def fresh(cname):
    rec = {"k": "new", "cls": cname, "es": [["error", "error", {"t": "null", "v": ""}]]}
    o = observe(lambda: entries(cls_of(cname)()))
    if o[0] == "ok":
        rec["es"] = o[1]
    return rec


def run(hist):
    """Replay one sequence; one record per step."""
    recs = []
    names = [hist[0]["k"], hist[0]["x"]["v"]]
    o = observe(lambda: [cls_of(n)() for n in names])
    if o[0] == "err":
        return [fresh(n) for n in names]
    msgs = o[1]
    for n, m in zip(names, msgs):
        recs.append({"k": "new", "cls": n, "es": entries(m)})
    for op in hist[1:]:
        pre = snapshot(msgs)
        o = observe(apply, op, msgs)
        res = tree(o[1]) if o[0] == "ok" else {"t": "err", "v": o[1]}
        recs.append({"k": "step", "o": op, "pre": pre, "post": snapshot(msgs), "res": res})
        if o[0] == "err" and o[1] != "KeyError":
            break
    for n in sorted(set(names)):
        recs.append(fresh(n))
    return recs


def C07(ctx):
    inv = "SPECIFICATION Spec1\nINVARIANTS NoDup WeedOK NewOK Emit\n"
    seqs = ctx.tlc("MsgMapMC", inv + "CONSTANT Depth = 2\n").prints
    seqs += ctx.tlc("MsgMapMC", inv + "CONSTANT Depth = 1\n").prints
    ctx.extra["exhaustive_sequences"] = len(seqs)
    n, depth = (3000, 30) if ctx.thorough else (120, 12)
    sim = ctx.tlc("MsgMapMC", inv + "CONSTANT Depth = %d\n" % depth, workers=1,
                  args=["-simulate", "num=%d" % n, "-depth", str(depth + 2), "-seed", str(ctx.seed)])
    ctx.extra["random_sequences"] = len(sim.prints)
    seqs = seqs + sim.prints
    if ctx.thorough:
        deep = ctx.tlc("MsgMapMC", inv + "CONSTANT Depth = 3\n").prints
        seqs += ctx.rng.sample(deep, min(len(deep), 40000))
    recs, seen, where = [], set(), []
    first = {n: fresh(n) for n in gen.SCHEMAS}
    for s in seqs:
        if recs and recs[-1]["k"] == "new" and recs[-1] != first[recs[-1]["cls"]]:
            break       # the defaults have changed: no need to go on, the judge will say so
        for r in run(s):
            key = json.dumps(r, sort_keys=True)
            if key not in seen:         # the same step from the same state needs judging only once
                seen.add(key)
                recs.append(r)
                where.append(s)
    for cname in sorted(gen.SCHEMAS):
        recs.append(fresh(cname))
        where.append(cname)
        o = observe(lambda: [esc(str(p)) for p in cls_of(cname)().parameters()])
        recs.append({"k": "params", "cls": cname, "names": o[1] if o[0] == "ok" else ["?"]})
        where.append(cname)
    ctx.sample([x["op"] for x in seqs[-1]])
    ctx.sample(recs[5])
    bad = ctx.judge("MsgMapTrace", recs)
    ctx.validated += len(seqs)
    for i, cl in sorted(bad.items()):
        r = recs[i]
        what = "; ".join(cl)
        if r["k"] == "step":
            what += ": %s(%s %s) on %s -> %s" % (r["o"]["op"], r["o"]["k"], json.dumps(r["o"]["x"]), json.dumps(r["pre"])[:300], json.dumps(r["res"])[:80])
        else:
            what += ": %s %s" % (r["cls"], json.dumps(r.get("es"))[:300])
        ctx.violation(what, {"sequence": where[i], "record": r})
