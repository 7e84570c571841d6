------------------------------ MODULE TimeTrace ------------------------------
EXTENDS Time, TraceBase
P(q) == [d |-> q[1], s |-> q[2], u |-> q[3]]
C(q) == [y |-> q[1], mo |-> q[2], dd |-> q[3], h |-> q[4], mi |-> q[5], s |-> q[6]]
Clauses(r) ==
  CASE r.k = "compare" -> << <<"a later than b", r.ab <=> LaterThan(P(r.a), P(r.b))>>, <<"b later than a", r.ba <=> LaterThan(P(r.b), P(r.a))>>,
                             <<"valid", r.valid <=> Valid(P(r.a), P(r.now))>>, <<"not valid", r.after <=> ~Valid(P(r.a), P(r.now))>> >>
    [] r.k = "shift" -> << <<"shifted", P(r.res) = Shift(P(r.now), r.o, r.sign)>> >>
    [] r.k = "text" -> << <<"instant of a text", LET p == FromCivil(C(r.c), r.off) IN p.d = r.p[1] /\ p.s = r.p[2]>> >>
    [] r.k = "iso" -> << <<"the text denotes the instant", LET p == FromCivil(C(r.c), r.off) IN p.d = r.p[1] /\ p.s = r.p[2]>>,
                         <<"back to the same instant", r.back[1] = r.p[1] /\ r.back[2] = r.p[2]>>,
                         <<"local date", LET c == Civil(Norm(r.p[1], r.p[2] + r.off, 0)) IN r.date = <<c.y, c.mo, c.dd>> >>, <<"date back", r.date2 = r.date>> >>
    [] OTHER -> LET p == Parse(r.t) IN << <<"a duration is accepted", p # Bad => Len(r.res) = 1>>, <<"anything else is refused", p = Bad => r.res = <<>> >>,
                                          <<"fields", p # Bad /\ Len(r.res) = 1 => r.res = <<Fields(p[1])>> >> >>
=============================================================================
