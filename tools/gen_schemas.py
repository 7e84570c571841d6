"""One-off generator of spec/Schemas.tla.

The tables were produced once by introspection of the reviewed tree, compared with the
specifications the classes cite (RFC 6749, 7662, 8414, 8628, 8693, 8705, OIDC Core,
Discovery, Registration, Session, Back-Channel Logout, IDA) and are frozen: they are
specification data.  The checks never run this script.
"""
import inspect

import oidcmsg.message as m
from oidcmsg import oauth2, oidc
from oidcmsg.oauth2 import device_authorization
from oidcmsg.oidc import identity_assurance, session

MODS = [("message", m), ("oauth2", oauth2), ("device", device_authorization), ("oidc", oidc),
        ("session", session), ("ida", identity_assurance)]

KIND = {}
for mod in (m, oidc, identity_assurance):
    for n, o in vars(mod).items():
        if isinstance(o, tuple) and len(o) == 5:
            KIND.setdefault(id(o), n)


def kind(spec):
    n = KIND[id(spec)]
    if n.endswith("_SP_SEP_STRINGS"):
        return "splist", ""
    if n.endswith("LIST_OF_STRINGS"):
        return "list", ""
    if n.endswith("_STRING"):
        return "str", ""
    if n.endswith("_INT"):
        return "int", ""
    if n.endswith("_BOOLEAN") or n == "OPTIONAL_LOGICAL":
        return "bool", ""
    if n.endswith("_DICT"):
        return "dict", ""
    if n.endswith("_JSON"):
        return "json", ""
    if n.endswith("_IDTOKEN"):
        return "idt", ""
    if n.endswith("TIME_STAMP"):
        return "time", ""
    nested = {"OPTIONAL_MESSAGE": "message.Message", "OPTIONAL_MULTIPLE_Claims": "oidc.Claims",
              "OPTIONAL_ADDRESS": "oidc.AddressClaim", "OPTIONAL_IDA_CLAIMS": "message.Message",
              "SINGLE_OPTIONAL_CLAIMSREQ": "oidc.ClaimsRequest", "REQUIRED_VERIFIER": "ida.Verifier",
              "OPTIONAL_DOCUMENT": "ida.Document", "REQUIRED_ISSUER": "ida.Issuer",
              "OPTIONAL_VERIFICATION_ELEMENT": "ida.VerificationElement",
              "REQUIRED_PROVIDER": "ida.Provider"}
    if n in nested:
        return "msg", nested[n]
    lists = {"OPTIONAL_EVIDENCE_LIST": "ida.Evidence", "REQUIRED_LINKS": "oidc.Link"}
    return "msglist", lists[n]


def q(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')


def tree(v):
    if isinstance(v, bool):
        return 'B(%s)' % ("TRUE" if v else "FALSE")
    if isinstance(v, str):
        return 'S(%s)' % q(v)
    if isinstance(v, list):
        return 'L(<<%s>>)' % ", ".join(tree(x) for x in v)
    raise ValueError(v)


seen = {}
for name, mod in MODS:
    for n, o in sorted(vars(mod).items()):
        if inspect.isclass(o) and issubclass(o, m.Message) and o.__module__ == mod.__name__:
            seen[name + "." + n] = o

out = ["------------------------------ MODULE Schemas ------------------------------",
       "(* The message types: for every type its parameters (name, kind, required, type of a *)",
       "(* nested message), its default values and its enumerated parameters.               *)",
       "(* Kinds: str int bool  list (of strings)  splist (space separated)  dict, json      *)",
       "(* (JSON objects)  msg, msglist (nested messages)  idt (a JWT string or a message)    *)",
       "(* time (ISO 8601 string or a number).                                              *)",
       "EXTENDS Trees", ""]
names = []
for cn, o in seen.items():
    ps = []
    for p, s in o.c_param.items():
        k, c = kind(s)
        ps.append('<<%s, "%s", %s, "%s">>' % (q(p), k, "TRUE" if s[1] else "FALSE", c))
    ds = ["<<%s, %s>>" % (q(p), tree(v)) for p, v in o.c_default.items()]
    al = ["<<%s, <<%s>>>>" % (q(p), ", ".join(q(x) for x in v)) for p, v in o.c_allowed_values.items()]
    ident = cn.replace(".", "_")
    names.append((cn, ident))
    out.append("%s == [\n  params |-> <<%s>>,\n  defaults |-> <<%s>>,\n  allowed |-> <<%s>>]\n" % (
        ident, ",\n    ".join(ps), ",\n    ".join(ds), ",\n    ".join(al)))
out.append("ClassTable == <<\n" + ",\n".join('  <<"%s", %s>>' % (a, b) for a, b in names) + " >>\n")
out.append("ClassNames == {ClassTable[i][1] : i \\in 1..Len(ClassTable)}")
out.append("Class(c) == LET i == CHOOSE i \\in 1..Len(ClassTable) : ClassTable[i][1] = c IN ClassTable[i][2]")
out.append("=" * 77)
open("spec/Schemas.tla", "w").write("\n".join(out) + "\n")
print(len(names))
