------------------------------ MODULE DateOps ------------------------------
(* Dates (ECMA-262 21.4).  A time value is <<"t", day, ms>> (ms in 0..86399999 within the day) or NaN; so   *)
(* no number exceeds 32 bits.  The state: a list of dates; c.off: the local offset from UTC in minutes.      *)
(* Arguments: <<"i", int>> <<"x", "NaN" | "Infinity" | "-Infinity" | "1.5" | "-1.5" | "-0">> <<"u">>          *)
(* <<"T", day, ms>> (that many milliseconds) <<"s", text, int>> (a string denoting the int)                    *)
(* <<"d", argument, slot, time value>>: an object whose valueOf sets that date first.                           *)
EXTENDS Drv, Integers, SequencesExt

U == <<"u">>
NaN == <<"nan">>
T(d, ms) == <<"t", d + ms \div 86400000, ms % 86400000>>
DayMax == 100000000
Clip(t) == IF t = NaN \/ t[2] > DayMax \/ (t[2] = DayMax /\ t[3] > 0) \/ t[2] < -DayMax THEN NaN ELSE t
Shift(t, min) == IF t = NaN THEN NaN ELSE T(t[2] + min \div 1440, t[3] + (min % 1440) * 60000)

(* ------------------------------------- calendar ------------------------------------- *)
\* the day of the first of month m (0..11) of year y: months counted from March, 400-year eras
Day1(y, m) == LET z == IF m < 2 THEN y - 1 ELSE y
                  era == z \div 400
                  yoe == z % 400
                  mp == (m + 10) % 12
                  doy == (153 * mp + 2) \div 5
              IN era * 146097 + yoe * 365 + yoe \div 4 - yoe \div 100 + doy - 719468
\* <<year, month, date>> of a day
Civil(day) == LET z == day + 719468
                  era == z \div 146097
                  doe == z % 146097
                  yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
                  doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
                  mp == (5 * doy + 2) \div 153
                  m == (mp + 2) % 12
              IN <<yoe + era * 400 + (IF m < 2 THEN 1 ELSE 0), m, doy - (153 * mp + 2) \div 5 + 1>>
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 1 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {3, 5, 8, 10} THEN 30 ELSE 31
\* [y, m, d, h, mi, s, ms, w] of a time value
Fields(t) == LET c == Civil(t[2])
             IN [y |-> c[1], m |-> c[2], d |-> c[3], h |-> t[3] \div 3600000, mi |-> (t[3] \div 60000) % 60, s |-> (t[3] \div 1000) % 60, ms |-> t[3] % 1000, w |-> (t[2] + 4) % 7]

(* ------------------------------------- numbers ------------------------------------- *)
\* number arguments after ToNumber: <<"i", n>>, <<"T", d, ms>> or <<"n">> (NaN or infinite: never part of a date)
Bad == <<"n">>
XNum == ("1.5" :> <<"i", 1>>) @@ ("-1.5" :> <<"i", -1>>) @@ ("-0" :> <<"i", 0>>) @@ ("NaN" :> Bad) @@ ("Infinity" :> Bad) @@ ("-Infinity" :> Bad)
NumOf(a) == CASE a[1] = "i" -> a [] a[1] = "T" -> a [] a[1] = "x" -> XNum[a[2]] [] a[1] = "s" -> <<"i", a[3]>> [] OTHER -> Bad
\* a (day, ms) pair from n units of which u make a day, each of ms milliseconds
Units(a, u, ms) == IF a[1] = "T" THEN <<a[2], a[3]>> ELSE <<a[2] \div u, (a[2] % u) * ms>>
\* MakeDate(MakeDay(y, m, d), MakeTime(h, mi, s, ms))
Make(y, m, d, h, mi, s, ms) ==
    IF \E a \in {y, m, d, h, mi, s, ms} : a = Bad THEN NaN
    ELSE LET ym == y[2] + m[2] \div 12
             H == Units(h, 24, 3600000)
             M == Units(mi, 1440, 60000)
             S == Units(s, 86400, 1000)
             L == Units(ms, 86400000, 1)
         IN IF ym > 1000000 \/ ym < -1000000 THEN NaN
            ELSE LET a == T(Day1(ym, m[2] % 12) + d[2] - 1 + H[1] + M[1] + S[1] + L[1], H[2] + M[2] + S[2] + L[2]) IN a
FullYear(y) == IF y # Bad /\ y[2] >= 0 /\ y[2] <= 99 THEN <<"i", 1900 + y[2]>> ELSE y
Zero == <<"i", 0>>
At(l, i, dflt) == IF i <= Len(l) THEN l[i] ELSE dflt
\* arguments are converted in order; those with an effect set a date
RECURSIVE Nums(_, _, _)
Nums(D, l, acc) == IF l = <<>> THEN [D |-> D, l |-> acc]
                   ELSE LET a == l[1]
                        IN IF a[1] = "d" THEN Nums([D EXCEPT ![a[3]] = Clip(a[4])], Tail(l), Append(acc, NumOf(a[2])))
                           ELSE Nums(D, Tail(l), Append(acc, NumOf(a)))
FromParts(l) == Make(FullYear(At(l, 1, Bad)), At(l, 2, Zero), At(l, 3, <<"i", 1>>), At(l, 4, Zero), At(l, 5, Zero), At(l, 6, Zero), At(l, 7, Zero))
ToTime(a) == IF a = Bad THEN NaN ELSE IF a[1] = "T" THEN Clip(T(a[2], a[3])) ELSE Clip(T(a[2] \div 86400000, a[2] % 86400000))
\* the setters, on local fields f; l: converted arguments
Put1(f, k, l) ==
    LET n(v) == <<"i", v>>
        A(i, v) == At(l, i, n(v))
        F1 == At(l, 1, Bad)
    IN CASE k = "Milliseconds" -> Make(n(f.y), n(f.m), n(f.d), n(f.h), n(f.mi), n(f.s), F1)
         [] k = "Seconds" -> Make(n(f.y), n(f.m), n(f.d), n(f.h), n(f.mi), F1, A(2, f.ms))
         [] k = "Minutes" -> Make(n(f.y), n(f.m), n(f.d), n(f.h), F1, A(2, f.s), A(3, f.ms))
         [] k = "Hours" -> Make(n(f.y), n(f.m), n(f.d), F1, A(2, f.mi), A(3, f.s), A(4, f.ms))
         [] k = "Date" -> Make(n(f.y), n(f.m), F1, n(f.h), n(f.mi), n(f.s), n(f.ms))
         [] k = "Month" -> Make(n(f.y), F1, A(2, f.d), n(f.h), n(f.mi), n(f.s), n(f.ms))
         [] k = "FullYear" -> Make(F1, A(2, f.m), A(3, f.d), n(f.h), n(f.mi), n(f.s), n(f.ms))

(* ------------------------------------- text ------------------------------------- *)
RECURSIVE Pad(_, _)
Pad(n, w) == LET t == ToString(n) IN IF Len(t) >= w THEN t ELSE SubSeq("0000000000", 1, w - Len(t)) \o t
WD == <<"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat">>
MN == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
YearText(y) == (IF y < 0 THEN "-" \o Pad(-y, 4) ELSE Pad(y, 4))
IsoYear(y) == IF y >= 0 /\ y <= 9999 THEN Pad(y, 4) ELSE IF y < 0 THEN "-" \o Pad(-y, 6) ELSE "+" \o Pad(y, 6)
Hms(f) == Pad(f.h, 2) \o ":" \o Pad(f.mi, 2) \o ":" \o Pad(f.s, 2)
Iso(f) == IsoYear(f.y) \o "-" \o Pad(f.m + 1, 2) \o "-" \o Pad(f.d, 2) \o "T" \o Hms(f) \o "." \o Pad(f.ms, 3) \o "Z"
DateText(f) == WD[f.w + 1] \o " " \o MN[f.m + 1] \o " " \o Pad(f.d, 2) \o " " \o YearText(f.y)
Abs(n) == IF n < 0 THEN -n ELSE n
TimeText(f, off) == Hms(f) \o " GMT" \o (IF off < 0 THEN "-" ELSE "+") \o Pad(Abs(off) \div 60, 2) \o Pad(Abs(off) % 60, 2)
UtcText(f) == WD[f.w + 1] \o ", " \o Pad(f.d, 2) \o " " \o MN[f.m + 1] \o " " \o YearText(f.y) \o " " \o Hms(f) \o " GMT"

Open == <<"any">>
(* ISO format strings, as code units; result a time value, NaN, or <<"any">> where engines may read other formats *)
Dg(u, p) == p <= Len(u) /\ u[p] >= 48 /\ u[p] <= 57
RECURSIVE Val(_, _, _)
Val(u, p, n) == IF n = 0 THEN 0 ELSE IF ~Dg(u, p + n - 1) THEN -1 ELSE LET r == Val(u, p, n - 1) IN IF r < 0 THEN -1 ELSE r * 10 + u[p + n - 1] - 48
Cu(u, p) == IF p <= Len(u) THEN u[p] ELSE -1
ParseIso(u, off) ==
    LET sg == Cu(u, 1) \in {43, 45}
        y0 == IF sg THEN Val(u, 2, 6) ELSE Val(u, 1, 4)
        y == IF Cu(u, 1) = 45 THEN -y0 ELSE y0
        p1 == IF sg THEN 8 ELSE 5
        hm == Cu(u, p1) = 45
        mo == IF hm THEN Val(u, p1 + 1, 2) ELSE 1
        p2 == IF hm THEN p1 + 3 ELSE p1
        hd == hm /\ Cu(u, p2) = 45
        d == IF hd THEN Val(u, p2 + 1, 2) ELSE 1
        p3 == IF hd THEN p2 + 3 ELSE p2
        ht == Cu(u, p3) = 84
        h == IF ht THEN Val(u, p3 + 1, 2) ELSE 0
        mi == IF ht THEN (IF Cu(u, p3 + 3) = 58 THEN Val(u, p3 + 4, 2) ELSE -1) ELSE 0
        p4 == IF ht THEN p3 + 6 ELSE p3
        hs == ht /\ Cu(u, p4) = 58
        s == IF hs THEN Val(u, p4 + 1, 2) ELSE 0
        p5 == IF hs THEN p4 + 3 ELSE p4
        hf == hs /\ Cu(u, p5) = 46
        ms == IF hf THEN Val(u, p5 + 1, 3) ELSE 0
        p6 == IF hf THEN p5 + 4 ELSE p5
        z == ht /\ Cu(u, p6) = 90
        ho == ht /\ Cu(u, p6) \in {43, 45}
        oh == IF ho THEN Val(u, p6 + 1, 2) ELSE 0
        om == IF ho THEN (IF Cu(u, p6 + 3) = 58 THEN Val(u, p6 + 4, 2) ELSE -1) ELSE 0
        p7 == IF z THEN p6 + 1 ELSE IF ho THEN p6 + 6 ELSE p6
        tz == IF ho THEN (IF Cu(u, p6) = 45 THEN -(oh * 60 + om) ELSE oh * 60 + om) ELSE IF ht /\ ~z THEN off ELSE 0
        n(v) == <<"i", v>>
    IN IF y0 < 0 \/ mo < 0 \/ d < 0 \/ h < 0 \/ mi < 0 \/ s < 0 \/ ms < 0 \/ oh < 0 \/ om < 0 \/ p7 # Len(u) + 1 THEN Open
       ELSE IF Cu(u, 1) = 45 /\ y0 = 0 THEN NaN
       ELSE IF mo < 1 \/ mo > 12 \/ d < 1 \/ d > 31 \/ h > 24 \/ mi > 59 \/ s > 59 \/ oh > 23 \/ om > 59 \/ (h = 24 /\ mi + s + ms > 0) THEN NaN
       ELSE IF d > DaysIn(y, mo - 1) THEN Open
       ELSE Clip(Shift(Make(n(y), n(mo - 1), n(d), n(h), n(mi), n(s), n(ms)), -tz))

(* ------------------------------------- operations ------------------------------------- *)
\* state: [D: dates, off]
\* what is compared after each operation: every date's fields in UTC and in local time
Shown(t, off) == IF t = NaN THEN <<>>
                 ELSE LET f == Fields(t)
                          g == Fields(Shift(t, off))
                      IN <<t[2], t[3], f.y, f.m, f.d, f.h, f.mi, f.s, f.ms, f.w, g.y, g.m, g.d, g.h, g.mi, g.s, g.ms, g.w, -off>>
R(s, D, r, i) == [s |-> [s EXCEPT !.D = D], r |-> <<r, IF i = 0 THEN <<>> ELSE Shown(D[i], s.off)>>]
S(x) == <<"s", x>>
TextOf(s, k, t) ==
    LET f == Fields(t)
        g == Fields(Shift(t, s.off))
    IN CASE k = "toISOString" -> (IF t = NaN THEN <<"throw", "RangeError">> ELSE S(Iso(f)))
         [] k = "toJSON" -> (IF t = NaN THEN <<"null">> ELSE S(Iso(f)))
         [] k = "toUTCString" -> S(IF t = NaN THEN "Invalid Date" ELSE UtcText(f))
         [] k = "toDateString" -> S(IF t = NaN THEN "Invalid Date" ELSE DateText(g))
         [] k = "toTimeString" -> S(IF t = NaN THEN "Invalid Date" ELSE TimeText(g, s.off))
         [] k = "toString" -> S(IF t = NaN THEN "Invalid Date" ELSE DateText(g) \o " " \o TimeText(g, s.off))
Cmp(a, b) == IF a = NaN \/ b = NaN THEN <<"nan">>
             ELSE IF Abs(a[2] - b[2]) > 104000000 THEN <<"any">>        \* the difference is not a representable number of ms
             ELSE T(a[2] - b[2], a[3] - b[3])
DApply(x, s) ==
    LET D == s.D
        i == x.i
        t == D[i]
        c == Nums(D, x.a, <<>>)
        off == IF x.utc THEN 0 ELSE s.off
        old == IF t = NaN THEN T(0, 0) ELSE Shift(t, off)
        u == Clip(Shift(Put1(Fields(old), x.k, c.l), -off))
        n == Clip(Shift(FromParts(c.l), -s.off))
    IN CASE x.n = "new" -> R(s, [c.D EXCEPT ![i] = n], n, i)
         [] x.n = "num" -> R(s, [c.D EXCEPT ![i] = ToTime(At(c.l, 1, Bad))], U, i)
         [] x.n = "copy" -> R(s, [D EXCEPT ![i] = D[x.j]], U, i)
         [] x.n = "utc" -> R(s, c.D, Clip(FromParts(c.l)), 0)
         [] x.n = "setTime" -> LET v == ToTime(At(c.l, 1, Bad)) IN R(s, [c.D EXCEPT ![i] = v], v, i)
         [] x.n = "set" -> IF t = NaN /\ x.k # "FullYear" THEN R(s, c.D, NaN, i)
                           ELSE R(s, [c.D EXCEPT ![i] = u], u, i)
         [] x.n = "text" -> R(s, D, TextOf(s, x.k, t), i)
         [] x.n = "round" -> R(s, D, IF t = NaN THEN NaN ELSE IF x.k = "toISOString" THEN t ELSE T(t[2], (t[3] \div 1000) * 1000), i)
         [] x.n = "cmp" -> R(s, D, Cmp(t, D[x.j]), 0)
         [] x.n = "parse" -> R(s, D, ParseIso(x.t, s.off), 0)
DStart(c) == [D |-> [i \in 1..c.n |-> T(0, 0)], off |-> c.off]
NoOps(s) == {}
NoInit == {}
\* fields and days correspond one to one
Consistent == \A i \in 1..Len(st.D) : st.D[i] # NaN =>
                 LET t == st.D[i]
                     f == Fields(t)
                 IN /\ f.d >= 1 /\ f.d <= DaysIn(f.y, f.m) /\ Day1(f.y, f.m) + f.d - 1 = t[2]
                    /\ t[3] \in 0..86399999 /\ Clip(t) = t
                    /\ f.h * 3600000 + f.mi * 60000 + f.s * 1000 + f.ms = t[3]
\* consecutive days are consecutive dates
Next1 == \A i \in 1..Len(st.D) : st.D[i] # NaN =>
            LET a == Civil(st.D[i][2])
                b == Civil(st.D[i][2] + 1)
            IN b = IF a[3] < DaysIn(a[1], a[2]) THEN <<a[1], a[2], a[3] + 1>> ELSE IF a[2] < 11 THEN <<a[1], a[2] + 1, 1>> ELSE <<a[1] + 1, 0, 1>>
===========================================================================
