"""Typed value trees exchanged with the specification (see spec/Trees.tla)."""
import importlib
import json

from oidcmsg.message import Message

MODS = {"message": "oidcmsg.message", "oauth2": "oidcmsg.oauth2",
        "device": "oidcmsg.oauth2.device_authorization", "oidc": "oidcmsg.oidc",
        "session": "oidcmsg.oidc.session", "ida": "oidcmsg.oidc.identity_assurance", "own": "own"}
RMODS = {v: k for k, v in MODS.items()}


def cls_of(name):
    m, c = name.split(".")
    return getattr(importlib.import_module(MODS[m]), c)


def name_of(cls):
    return "%s.%s" % (RMODS.get(cls.__module__, cls.__module__), cls.__name__)


class Nest:
    """A nested message to be: the class name and the values."""

    def __init__(self, cname, d):
        self.c, self.d = cname, d

    def __repr__(self):
        return "%s(%r)" % (self.c, self.d)


def realise(v):
    """Turn placeholders into real messages (this runs the code under test)."""
    if isinstance(v, Nest):
        return cls_of(v.c)(set_defaults=False).from_dict(realise(v.d))
    if isinstance(v, dict):
        return {k: realise(x) for k, x in v.items()}
    if isinstance(v, list):
        return [realise(x) for x in v]
    return v


def esc(s):
    """ASCII rendering of a string; injective, keeps spaces and # as they are."""
    return s.encode("unicode_escape").decode("ascii").replace('"', "\\x22")


def base(name):
    return name.split("#")[0]


def tree(v):
    if v is None:
        return {"t": "null", "v": ""}
    if isinstance(v, bool):
        return {"t": "bool", "v": "true" if v else "false"}
    if isinstance(v, int):
        return {"t": "int", "v": str(v)}
    if isinstance(v, float):
        return {"t": "float", "v": repr(v)}
    if isinstance(v, bytes):
        return {"t": "bytes", "v": v.hex()}
    if isinstance(v, str):
        return {"t": "str", "v": esc(v)}
    if isinstance(v, (list, tuple)):
        return {"t": "list", "v": [tree(x) for x in v]}
    if isinstance(v, Nest):
        return {"t": "msg", "c": v.c, "v": entries(v.d)}
    if isinstance(v, Message):
        return {"t": "msg", "c": name_of(type(v)), "v": entries(v)}
    if isinstance(v, dict):
        return {"t": "obj", "v": entries(v)}
    return {"t": "other", "v": type(v).__name__}


def entries(d):
    return [[esc(str(k)), esc(base(str(k))), tree(x)] for k, x in sorted(d.items(), key=lambda i: str(i[0]))]


def tree_js(v):
    """As tree(), and a string that is a JSON document also carries the parsed document."""
    t = tree(v)
    if t["t"] == "str":
        try:
            j = json.loads(v)
        except ValueError:
            pass
        else:
            if isinstance(j, (dict, list)):
                t["js"] = tree(j)
    return t


def entries_js(d):
    return [[esc(str(k)), esc(base(str(k))), tree_js(x)] for k, x in sorted(d.items())]


def build(t):
    """The Python value a tree from the specification denotes."""
    k = t["t"]
    if k == "null":
        return None
    if k == "bool":
        return t["v"] == "true"
    if k == "int":
        return int(t["v"])
    if k == "float":
        return float(t["v"])
    if k == "str":
        return t["v"].encode("ascii").decode("unicode_escape")
    if k == "list":
        return [build(x) for x in t["v"]]
    if k == "obj":
        return {e[0]: build(e[2]) for e in t["v"]}
    if k == "msg":
        return Nest(t["c"], {e[0]: build(e[2]) for e in t["v"]})
    raise ValueError(t)
