------------------------------- MODULE TimeMC -------------------------------
EXTENDS Time, TLC, Json
CONSTANTS Part, MaxLen
VARIABLES x
Nows == {[d |-> 19675, s |-> 80000, u |-> 0], [d |-> 19675, s |-> 80000, u |-> 999999],
         [d |-> Day([y |-> 2024, mo |-> 2, dd |-> 28, h |-> 0, mi |-> 0, s |-> 0]), s |-> 86399, u |-> 500000],
         [d |-> Day([y |-> 1999, mo |-> 12, dd |-> 31, h |-> 0, mi |-> 0, s |-> 0]), s |-> 86399, u |-> 1],
         [d |-> Day([y |-> 2000, mo |-> 3, dd |-> 1, h |-> 0, mi |-> 0, s |-> 0]), s |-> 0, u |-> 0],
         [d |-> Day([y |-> 2038, mo |-> 1, dd |-> 19, h |-> 0, mi |-> 0, s |-> 0]), s |-> 11647, u |-> 250000],
         [d |-> Day([y |-> 2100, mo |-> 2, dd |-> 28, h |-> 0, mi |-> 0, s |-> 0]), s |-> 86000, u |-> 0]}
Days == {-1000, -366, -365, -31, -30, -1, 0, 1, 28, 29, 30, 31, 59, 365, 366, 1461, 10000}
Secs == {-3600, -60, -1, 0, 1, 2, 59, 61, 3599, 400, 600}
Zs == [w |-> 0, d |-> 0, h |-> 0, mi |-> 0, s |-> 0, ms |-> 0, us |-> 0]
Offsets == {Zs, [Zs EXCEPT !.w = 1], [Zs EXCEPT !.w = 520], [Zs EXCEPT !.d = 1], [Zs EXCEPT !.d = 366], [Zs EXCEPT !.h = 1], [Zs EXCEPT !.h = 25], [Zs EXCEPT !.mi = 1], [Zs EXCEPT !.mi = 1441],
            [Zs EXCEPT !.s = 1], [Zs EXCEPT !.s = 86401], [Zs EXCEPT !.ms = 1], [Zs EXCEPT !.ms = 999], [Zs EXCEPT !.ms = 60001], [Zs EXCEPT !.us = 1], [Zs EXCEPT !.us = 999999], [Zs EXCEPT !.us = 3000000],
            [Zs EXCEPT !.s = 10, !.ms = -1], [Zs EXCEPT !.d = 1, !.h = -1, !.us = -1], [w |-> 2, d |-> 3, h |-> 4, mi |-> 5, s |-> 6, ms |-> 7, us |-> 8], [w |-> 1, d |-> 1, h |-> 23, mi |-> 59, s |-> 59, ms |-> 999, us |-> 999]}
Alphabet == {"T", "Y", "M", "D", "H", "S", ".", "-", "1", "P"}
Init == CASE Part = "points" -> \E n \in Nows, dd \in Days, ss \in Secs, f \in {0, 500000, 999999} :
                                    (dd = 0 \/ ss \in {0, 1}) /\ x = [now |-> n, p |-> [Norm(n.d + dd, n.s + ss, 0) EXCEPT !.u = f]]
          [] Part = "shift" -> \E n \in Nows, o \in Offsets, sg \in {1, -1} : x = [now |-> n, o |-> o, sign |-> sg]
          [] Part = "calendar" -> x = [d |-> -25600]
          [] Part = "sheet" -> \E sg \in {"+", "-"}, y \in {<<>>, <<"0">>, <<"1", "2">>}, mo \in {<<>>, <<"3">>}, d \in {<<>>, <<"4", "5">>}, h \in {<<>>, <<"6">>}, mi \in {<<>>, <<"0", "7">>}, s \in {<<>>, <<"8">>}, f \in {<<>>, <<"9">>, <<"0", "5">>} :
                                  (f # <<>> => s # <<>>) /\ x = [sign |-> sg, y |-> y, mo |-> mo, d |-> d, h |-> h, mi |-> mi, s |-> s, frac |-> f]
          [] OTHER -> x \in {<<"P">>, <<"-", "P">>, <<"T">>, <<"1">>, <<>>}
Next == \/ Part = "texts" /\ Len(x) > 0 /\ "P" \in {x[i] : i \in 1..Len(x)} /\ Len(x) < (IF x[1] = "-" THEN MaxLen - 1 ELSE MaxLen) /\ \E ch \in Alphabet : (ch = "P" => Len(x) < 3) /\ x' = Append(x, ch)
        \/ Part = "calendar" /\ x.d < 50000 /\ x' = [d |-> x.d + 1]
Spec == Init /\ [][Next]_x
\* every day of 1899..2106 has one civil date, and consecutive days have consecutive dates
CalendarOK == Part = "calendar" => LET c == Civil([d |-> x.d, s |-> 0, u |-> 0]) IN Day(c) = x.d /\ c.mo \in 1..12 /\ c.dd \in 1..DaysIn(c.y, c.mo)
\* parsing undoes writing, and only what can be written is parsed
ParseOK == CASE Part = "texts" -> Parse(x) # Bad => Unparse(Parse(x)[1]) = x
             [] Part = "sheet" -> Parse(Unparse(x)) = (IF Unparse(x)[Len(Unparse(x))] = "P" THEN Bad ELSE <<x>>)
             [] OTHER -> TRUE
Agree == CASE Part = "points" -> Valid(x.p, x.now) = ~LaterThan(x.now, x.p) [] Part = "shift" -> Shift(Shift(x.now, x.o, x.sign), x.o, -x.sign) = x.now [] OTHER -> TRUE
Pt(p) == [d |-> p.d, s |-> p.s, u |-> p.u, c |-> Civil(p)]
Emit == CASE Part = "points" -> PrintT("@@" \o ToJson([now |-> x.now, p |-> Pt(x.p), valid |-> Valid(x.p, x.now), later |-> LaterThan(x.p, x.now), earlier |-> LaterThan(x.now, x.p), nowc |-> Civil(x.now)]))
          [] Part = "shift" -> PrintT("@@" \o ToJson([now |-> x.now, o |-> x.o, sign |-> x.sign, res |-> Pt(Shift(x.now, x.o, x.sign))]))
          [] Part = "calendar" -> TRUE
          [] OTHER -> LET t == IF Part = "sheet" THEN Unparse(x) ELSE x p == Parse(t)
                      IN PrintT("@@" \o ToJson([t |-> t, res |-> IF p = Bad THEN <<>> ELSE <<Fields(p[1])>>, frac |-> IF p = Bad THEN 0 ELSE Len(p[1].frac)]))
=============================================================================
