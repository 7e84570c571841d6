-------------------------------- MODULE Time --------------------------------
(* Points in time and durations (C26).  A point is [d, s, u]: day since 1970-01-01,      *)
(* second of that day, microsecond.  Civil time is [y, mo, dd, h, mi, s].                *)
EXTENDS Integers, Sequences
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == IF m = 2 THEN IF Leap(y) THEN 29 ELSE 28 ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* days from 1970-01-01 (proleptic Gregorian calendar)
DaysBefore(y) == (y - 1) * 365 + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400 - 719162
RECURSIVE MonthDays(_, _)
MonthDays(y, m) == IF m = 1 THEN 0 ELSE DaysIn(y, m - 1) + MonthDays(y, m - 1)
Day(c) == DaysBefore(c.y) + MonthDays(c.y, c.mo) + c.dd - 1
Norm(d, s, u) == LET s2 == s + u \div 1000000 IN [d |-> d + s2 \div 86400, s |-> s2 % 86400, u |-> u % 1000000]
\* off: seconds east of Greenwich
FromCivil(c, off) == Norm(Day(c), c.h * 3600 + c.mi * 60 + c.s - off, 0)
RECURSIVE YearOf(_, _)
YearOf(d, y) == IF DaysBefore(y) > d THEN YearOf(d, y - 1) ELSE IF DaysBefore(y + 1) <= d THEN YearOf(d, y + 1) ELSE y
RECURSIVE MonthOf(_, _, _)
MonthOf(y, n, m) == IF n < DaysIn(y, m) THEN [m |-> m, dd |-> n + 1] ELSE MonthOf(y, n - DaysIn(y, m), m + 1)
Civil(p) == LET y == YearOf(p.d, 1970 + p.d \div 366) md == MonthOf(y, p.d - DaysBefore(y), 1)
            IN [y |-> y, mo |-> md.m, dd |-> md.dd, h |-> p.s \div 3600, mi |-> (p.s \div 60) % 60, s |-> p.s % 60]

\* comparing, in whole seconds
Less(a, b) == a.d < b.d \/ (a.d = b.d /\ a.s < b.s)
Valid(p, now) == Less(now, p)
LaterThan(a, b) == ~Less(a, b)
\* shifting, by [w, d, h, mi, s, ms, us]
Shift(p, o, sign) == Norm(p.d + sign * (7 * o.w + o.d), p.s + sign * (o.h * 3600 + o.mi * 60 + o.s), p.u + sign * (o.ms * 1000 + o.us))

---- (* durations: text is a sequence of characters *)
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitSeq == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitValue(ch) == (CHOOSE n \in 1..10 : DigitSeq[n] = ch) - 1
RECURSIVE Number(_)
Number(ds) == IF ds = <<>> THEN 0 ELSE 10 * Number(SubSeq(ds, 1, Len(ds) - 1)) + DigitValue(ds[Len(ds)])
\* how many of the characters from position i on are digits
RECURSIVE Run(_, _)
Run(t, i) == IF i <= Len(t) /\ t[i] \in Digit THEN 1 + Run(t, i + 1) ELSE 0
Zero == [sign |-> "+", y |-> <<>>, mo |-> <<>>, d |-> <<>>, h |-> <<>>, mi |-> <<>>, s |-> <<>>, frac |-> <<>>]
Bad == <<>>
DateUnits == <<"Y", "M", "D">>
TimeUnits == <<"H", "M", "S">>
Field(time, k) == IF time THEN <<"h", "mi", "s">>[k] ELSE <<"y", "mo", "d">>[k]
\* the automaton: at position i, in the date or time part, units before k are used up, n fields read in this part
RECURSIVE Read(_, _, _, _, _, _)
Read(t, i, time, k, n, acc) ==
  IF i > Len(t) THEN IF n > 0 THEN <<acc>> ELSE Bad
  ELSE IF t[i] = "T" THEN IF ~time THEN Read(t, i + 1, TRUE, 1, 0, acc) ELSE Bad
  ELSE LET r == Run(t, i) j == i + r f == IF j <= Len(t) /\ t[j] = "." THEN Run(t, j + 1) ELSE 0 e == IF f > 0 THEN j + 1 + f ELSE j
       IN IF r = 0 \/ e > Len(t) THEN Bad
          ELSE LET us == IF time THEN TimeUnits ELSE DateUnits
                   ks == {q \in k..3 : us[q] = t[e]}
               IN IF ks = {} \/ (f > 0 /\ ~(time /\ t[e] = "S")) THEN Bad
                  ELSE LET q == CHOOSE z \in ks : TRUE
                       IN Read(t, e + 1, time, q + 1, n + 1,
                               IF f > 0 THEN [acc EXCEPT !.s = SubSeq(t, i, j - 1), !.frac = SubSeq(t, j + 1, e - 1)] ELSE [acc EXCEPT ![Field(time, q)] = SubSeq(t, i, j - 1)])
Parse(t) == IF t # <<>> /\ t[1] = "P" THEN Read(t, 2, FALSE, 1, 0, Zero)
            ELSE IF Len(t) > 1 /\ t[1] = "-" /\ t[2] = "P" THEN Read(t, 3, FALSE, 1, 0, [Zero EXCEPT !.sign = "-"]) ELSE Bad
Unit(ds, u) == IF ds = <<>> THEN <<>> ELSE ds \o <<u>>
TimePart(f) == Unit(f.h, "H") \o Unit(f.mi, "M") \o Unit(IF f.frac = <<>> THEN f.s ELSE f.s \o <<".">> \o f.frac, "S")
Unparse(f) == (IF f.sign = "-" THEN <<"-", "P">> ELSE <<"P">>) \o Unit(f.y, "Y") \o Unit(f.mo, "M") \o Unit(f.d, "D")
              \o (IF TimePart(f) = <<>> THEN <<>> ELSE <<"T">> \o TimePart(f))
Fields(f) == [sign |-> f.sign, y |-> Number(f.y), mo |-> Number(f.mo), d |-> Number(f.d), h |-> Number(f.h), mi |-> Number(f.mi), s |-> Number(f.s), frac |-> Number(f.frac)]
=============================================================================
