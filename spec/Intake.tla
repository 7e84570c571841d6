------------------------------- MODULE Intake -------------------------------
(* What happens to a value supplied for a declared parameter, through any of the         *)
(* channels: dict (construction, from_dict), json, url (URL-encoded), set (assignment).   *)
EXTENDS Codec

SingleKinds == {"str", "int", "bool", "dict", "json", "msg", "idt", "time"}
ListKinds == {"list", "splist", "msglist"}

\* the value is of the declared type
TypeOK(k, x) ==
  CASE k = "str" -> x.t = "str"
    [] k = "int" -> x.t = "int"
    [] k = "bool" -> x.t = "bool"
    [] k \in {"list", "splist"} -> x.t = "list" /\ \A i \in 1..Len(x.v) : x.v[i].t = "str"
    [] k \in {"dict", "json"} -> x.t = "obj"
    [] k = "msg" -> x.t = "msg"
    [] k = "msglist" -> x.t = "list" /\ \A i \in 1..Len(x.v) : x.v[i].t = "msg"
    [] k = "idt" -> x.t \in {"str", "msg", "obj"}
    [] k = "time" -> x.t \in {"str", "int", "float"}
    [] OTHER -> FALSE

\* blank: nothing needs to be stored
Blank(x) ==
  \/ x.t = "str" /\ x.v = ""
  \/ x.t = "list" /\ (Len(x.v) = 0 \/ x.v[1].t = "null" \/ (Len(x.v) = 1 /\ x.v[1].t = "str" /\ x.v[1].v = ""))

Numeric(x) == x.t = "str" /\ "num" \in DOMAIN x /\ x.num # ""       \* plain decimal digits, perhaps a minus sign
NonNumeric(x) == x.t = "str" /\ "nonnum" \in DOMAIN x /\ x.nonnum      \* no digit at all
IsBool(x) == x.t = "bool"

TrueWords == {"true", "True", "TRUE"}
FalseWords == {"false", "False", "FALSE"}      \* other mixtures of letters: nothing is said
\* what must be held, if the statement fixes it: <<>> or <<tree>>
Fixed(k, x, ch) ==
  CASE k = "int" /\ x.t = "int" -> <<x>>
    [] k = "int" /\ Numeric(x) -> <<[t |-> "int", v |-> x.num]>>
    [] k = "splist" /\ x.t = "str" /\ x.v # "" -> <<LS(Split(x.v))>>
    [] k = "splist" /\ TypeOK(k, x) /\ Len(x.v) > 1 -> <<x>>
    [] k = "list" /\ ch # "url" /\ TypeOK(k, x) /\ ~Blank(x) -> <<x>>
    [] k = "str" /\ x.t = "str" /\ x.v # "" -> <<x>>
    [] k = "bool" /\ x.t = "bool" -> <<x>>
    [] k = "bool" /\ ch = "url" /\ x.t = "str" /\ x.v \in TrueWords \cup FalseWords -> <<B(x.v \in TrueWords)>>
    [] k \in {"dict", "json"} /\ x.t = "obj" -> <<x>>
    [] k \in {"msg", "idt"} /\ x.t = "msg" -> <<x>>
    [] k = "time" /\ ch # "url" /\ x.t = "str" /\ x.v # "" -> <<x>>
    [] OTHER -> <<>>

\* o: [r |-> "err"] or [r |-> "absent"] or [r |-> "held", x |-> tree]
\* nullok: the declaration of the parameter allows null (single-valued parameters always do)
Clauses1(k, nullok, x, ch, o) ==
  LET fx == Fixed(k, x, ch) IN
  << <<"holds a value of the declared type", o.r = "held" => TypeOK(k, o.x) \/ (o.x.t = "null" /\ (k \in SingleKinds \/ nullok))>>,
     <<"null only for null", o.r = "held" /\ o.x.t = "null" => x.t = "null" \/ (x.t = "str" /\ x.v = "null")>>,
     <<"only a blank value is ignored", o.r = "absent" => Blank(x)>>,
     <<"no boolean for anything else", IsBool(x) /\ k # "bool" => o.r = "err">>,
     <<"only the words true and false, URL-encoded, stand for a boolean", k = "bool" /\ x.t = "str" /\ o.r = "held" => ch = "url" /\ x.v \in TrueWords \cup FalseWords>>,
     <<"no non-numeric string for an integer", k = "int" /\ NonNumeric(x) => o.r # "held">>,
     <<"as many messages as were given", k = "msglist" /\ o.r = "held" /\ TypeOK(k, o.x) =>
         CASE x.t = "msg" -> Len(o.x.v) = 1 [] x.t = "list" -> Len(o.x.v) = Len(x.v) [] OTHER -> TRUE>>,
     <<"a proper value is taken as it is", fx # <<>> => o.r = "held" /\ SameTree(o.x, fx[1])>> >>

(* The algorithm of the design: one value through one channel. *)
NullOK(c) == c = "ida.Evidence"   \* lists of evidence may be null

Outcome(k, c, x, ch) ==
  LET Err == [r |-> "err"]
      Absent == [r |-> "absent"]
      Held(y) == [r |-> "held", x |-> y]
  IN CASE ch # "set" /\ Blank(x) /\ ~(x.t = "list" /\ (Len(x.v) = 0 \/ x.v[1].t = "null")) -> Absent
       [] x.t = "list" /\ (Len(x.v) = 0 \/ x.v[1].t = "null") -> IF k = "msglist" THEN Err ELSE Absent
       [] x.t = "null" -> IF k \in ListKinds /\ ~NullOK(c) THEN Err ELSE Held(x)
       [] x.t = "bool" -> IF k = "bool" THEN Held(x) ELSE Err
       [] Fixed(k, x, ch) # <<>> -> Held(Fixed(k, x, ch)[1])
       [] k \in {"list", "splist"} /\ x.t = "str" -> Held(LS(Split(x.v)))
       [] k = "splist" /\ TypeOK(k, x) -> Held(LS(Split(x.v[1].v)))
       [] k \in {"dict", "json"} /\ x.t = "str" /\ "js" \in DOMAIN x -> IF x.js.t = "obj" THEN Held(x.js) ELSE Err
       [] k = "msg" /\ x.t = "obj" -> Held(M(c, x.v))
       [] k = "msglist" /\ x.t = "obj" -> Held(L(<<M(c, x.v)>>))
       [] k = "msglist" /\ x.t = "list" /\ \A i \in 1..Len(x.v) : x.v[i].t \in {"obj", "msg"} ->
            Held(L([i \in 1..Len(x.v) |-> M(c, x.v[i].v)]))
       [] k = "idt" /\ x.t \in {"str", "obj"} -> Held(x)
       [] TypeOK(k, x) -> Held(x)
       [] OTHER -> Err
=============================================================================
