------------------------------ MODULE Trees ------------------------------
(* Typed value trees.  A tree is a record [t, v]: t is one of null bool int float str   *)
(* list obj msg; scalars keep their value as text (TLC integers are 32 bits wide),       *)
(* lists are sequences of trees, objects and messages sequences of entries               *)
(* <<name, name without language tag, tree>>.                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

S(x) == [t |-> "str", v |-> x]
I(n) == [t |-> "int", v |-> ToString(n)]
B(b) == [t |-> "bool", v |-> IF b THEN "true" ELSE "false"]
Null == [t |-> "null", v |-> ""]
F(x) == [t |-> "float", v |-> x]
L(xs) == [t |-> "list", v |-> xs]
LS(xs) == [t |-> "list", v |-> [i \in 1..Len(xs) |-> S(xs[i])]]
O(es) == [t |-> "obj", v |-> es]
M(c, es) == [t |-> "msg", c |-> c, v |-> es]
E(n, x) == <<n, n, x>>

(* Injective text of a tree, used to compare trees of any shape. *)
RECURSIVE J(_)
JEntry(e) == J(S(e[1])) \o "=" \o J(e[3])
Cat(xs, sep) == FoldLeft(LAMBDA a, b : a \o sep \o b, "", xs)
J(x) ==
  CASE x.t = "list" -> "[" \o Cat([i \in 1..Len(x.v) |-> J(x.v[i])], ",") \o "]"
    [] x.t = "obj"  -> "{" \o Cat([i \in 1..Len(x.v) |-> JEntry(x.v[i])], ",") \o "}"
    [] x.t = "msg"  -> "<" \o x.c \o " " \o Cat([i \in 1..Len(x.v) |-> JEntry(x.v[i])], ",") \o ">"
    [] OTHER -> x.t \o ToString(Len(x.v)) \o ":" \o x.v

SameTree(a, b) == J(a) = J(b)

(* Entries as a set: a message is a mapping, not a sequence. *)
AsSet(es) == {<<es[i][1], J(es[i][3])>> : i \in 1..Len(es)}
SameEntries(a, b) == AsSet(a) = AsSet(b) /\ Len(a) = Len(b)
Names(es) == {es[i][1] : i \in 1..Len(es)}
Has(es, n) == \E i \in 1..Len(es) : es[i][1] = n
Val(es, n) == es[CHOOSE i \in 1..Len(es) : es[i][1] = n][3]

JoinSp(xs) == IF Len(xs) = 0 THEN "" ELSE FoldLeft(LAMBDA a, b : a \o " " \o b, xs[1], SubSeq(xs, 2, Len(xs)))

RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, i, cur) ==
  IF i > Len(s) THEN <<cur>>
  ELSE LET ch == SubSeq(s, i, i)
       IN IF ch = " " THEN <<cur>> \o SplitFrom(s, i + 1, "") ELSE SplitFrom(s, i + 1, cur \o ch)
Split(s) == SplitFrom(s, 1, "")
=============================================================================
