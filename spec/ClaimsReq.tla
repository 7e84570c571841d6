------------------------------ MODULE ClaimsReq ------------------------------
(* Individual claim requests, verified-claims requests, identity evidence and the claims *)
(* builder (C19).                                                                        *)
(* An individual claim request is <<>> (null) or <<[ess, value, values, purpose]>>, each *)
(* member optional:  ess: true | false | null | other                                    *)
(*   value, values: the JSON type of the value(s);  purpose: [kind, len, legal]          *)
EXTENDS Integers, Sequences, FiniteSets
Given(o) == Len(o) = 1
In(x, xs) == \E i \in 1..Len(xs) : xs[i] = x

---- (* matching: values are numbered, equal values have the same number *)
OnlyEssential(s) == Given(s.ess) /\ s.value = <<>> /\ s.values = <<>>
Matches(v, q) == \/ q = <<>>
                 \/ OnlyEssential(q[1])
                 \/ q[1].value = <<v>>
                 \/ Given(q[1].values) /\ In(v, q[1].values[1])

---- (* verified-claims requests: a sequence of [at, ic] *)
StrClaims == {"sub", "name", "given_name", "family_name", "middle_name", "nickname", "preferred_username", "profile", "picture", "website",
              "email", "gender", "birthdate", "zoneinfo", "locale", "phone_number", "nationalities", "birth_family_name",
              "birth_given_name", "birth_middle_name", "salutation", "title"}
BoolClaims == {"email_verified", "phone_number_verified"}
IntClaims == {"updated_at"}
AddressParts == {"formatted", "street_address", "locality", "region", "postal_code", "country"}
VerificationParts == {"trust_framework", "time", "verification_process"}
\* the address is declared without structure: what is asked for inside it is not looked at
\* at: <<"claims", name>>, <<"claims", "address", part>>, <<"verification", part>>, <<"verification", "evidence", "1", "type">>
TypeAt(at) ==
  CASE Len(at) = 2 /\ at[1] = "claims" -> IF at[2] \in StrClaims THEN "str" ELSE IF at[2] \in BoolClaims THEN "bool"
                                          ELSE IF at[2] \in IntClaims THEN "int" ELSE "undeclared"
    [] Len(at) = 2 /\ at[1] = "verification" -> IF at[2] \in VerificationParts THEN "str" ELSE "undeclared"
    [] Len(at) = 4 /\ at[2] = "evidence" -> IF at[4] = "type" THEN "str" ELSE "undeclared"
    \* a structure of our own: lists of scalars, a list of structures with a structure inside
    [] at[1] = "own" /\ Len(at) = 3 /\ at[2] = "one" -> CASE at[3] = "flag" -> "bool" [] at[3] = "name" -> "str" [] at[3] = "number" -> "int" [] OTHER -> "undeclared"
    [] at[1] = "own" /\ Len(at) = 3 /\ at[2] # "one" -> CASE at[2] = "names" -> "str" [] at[2] = "numbers" -> "int" [] at[2] = "flags" -> "bool" [] OTHER -> "undeclared"
    [] at[1] = "own" /\ Len(at) = 5 -> CASE at[5] = "flag" -> "bool" [] at[5] = "name" -> "str" [] at[5] = "number" -> "int" [] OTHER -> "undeclared"
    [] OTHER -> "undeclared"
EssOK(q) == Given(q.ess) => q.ess[1] \in {"true", "false", "null"}
ValueOK(t, q) == Given(q.value) => q.value[1] \in {t, "null"}
ValuesOK(t, q) == Given(q.values) => \A i \in 1..Len(q.values[1]) : q.values[1][i] = t
PurposeOK(q) == Given(q.purpose) => q.purpose[1].kind \in {"null"} \/ (q.purpose[1].kind = "str" /\ q.purpose[1].len \in 3..300 /\ q.purpose[1].legal)
LegalIC(t, ic) == t = "undeclared" \/ ic = <<>> \/ (EssOK(ic[1]) /\ ValueOK(t, ic[1]) /\ ValuesOK(t, ic[1]) /\ PurposeOK(ic[1]))
RequestOK(r) == \A i \in 1..Len(r) : LegalIC(TypeAt(r[i].at), r[i].ic)
\* the checker walks down the structure, section by section, and stops at the first illegal request
Section(at) == IF at[1] = "own" THEN 4 ELSE IF at[1] = "verification" THEN IF Len(at) = 2 THEN 1 ELSE 2 ELSE IF Len(at) = 2 THEN 3 ELSE 4
RECURSIVE Walk(_, _, _)
Walk(r, sec, i) == IF sec > 4 THEN "accepted"
                   ELSE IF i > Len(r) THEN Walk(r, sec + 1, 1)
                   ELSE IF Section(r[i].at) = sec /\ ~LegalIC(TypeAt(r[i].at), r[i].ic) THEN "refused"
                   ELSE Walk(r, sec, i + 1)

---- (* evidence: [class, type (opt), has] ; has: members with a non-empty value *)
Kinds == {"id_document", "utility_bill", "qes"}
Needed(k) == CASE k = "id_document" -> {"method", "verifier"} [] k = "utility_bill" -> {"provider"}
               [] k = "qes" -> {"issuer", "serial_number", "created_at"} [] OTHER -> {}
All(k) == CASE k = "id_document" -> {"method", "verifier", "time", "document"} [] k = "utility_bill" -> {"provider", "date"}
            [] OTHER -> {"issuer", "serial_number", "created_at"}
Members(e) == {e.has[i] : i \in 1..Len(e.has)}
Inferable(e) == {k \in Kinds : All(k) \subseteq Members(e)}
EvidenceOK(e) == /\ Needed(e.class) \subseteq Members(e)
                 /\ IF Given(e.type) THEN e.type[1] \in Kinds /\ Needed(e.type[1]) \subseteq Members(e)
                    ELSE Cardinality(Inferable(e)) = 1
EvidenceOpen(e) == e.type = <<>> /\ Cardinality(Inferable(e)) > 1       \* ambiguous: not decided
TypeAfter(e) == IF Given(e.type) THEN e.type[1] ELSE CHOOSE k \in Inferable(e) : TRUE

---- (* the builder: a map from claim to what was put in *)
BaseType(k) == CASE k = "given_name" -> "str" [] k = "updated_at" -> "int" [] k = "email_verified" -> "bool" [] k = "address" -> "AddressClaim" [] OTHER -> "any"
\* v: [kind, n]; kind: null str int bool dict list AddressClaim Provider Verifier (the last three are builders for that class)
FitsBuilder(k, v) == v.kind = "null" \/ BaseType(k) = "any" \/ v.kind = BaseType(k) \/ (BaseType(k) = "AddressClaim" /\ v.kind = "Provider")
Put(info, k, v) == IF FitsBuilder(k, v) THEN [x \in (DOMAIN info) \cup {k} |-> IF x = k THEN v ELSE info[x]] ELSE info
RECURSIVE Built(_)
Built(ops) == IF ops = <<>> THEN [x \in {} |-> <<>>] ELSE LET o == ops[Len(ops)] IN Put(Built(SubSeq(ops, 1, Len(ops) - 1)), o.key, o.v)
=============================================================================
