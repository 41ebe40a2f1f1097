------------------------------- MODULE Files -------------------------------
(* File, Dir, FileState and the file functions of doc/extension.md: an inode table, a name space mapping  *)
(* paths (sequences of names) to inodes, open file handles (inode, direction, append, position) and the   *)
(* array buffers the data moves through.                                                                 *)
EXTENDS Drv, Integers, SequencesExt, FiniteSets

R(s, v) == [s |-> s, r |-> v]
Thr(s) == [s |-> s, r |-> <<"throw">>]
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Fill(n, v) == [i \in 1..n |-> v]
\* ---- encodings: code points to bytes and back ----
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
U16(c) == IF c < 65536 THEN <<c % 256, c \div 256>>
          ELSE LET v == c - 65536
                   h == 55296 + v \div 1024
                   l == 56320 + (v % 1024)
               IN <<h % 256, h \div 256, l % 256, l \div 256>>
Enc(e, cps) == FlattenSeq([i \in 1..Len(cps) |-> CASE e = "UTF-16LE" -> U16(cps[i]) [] e = "ISO-8859-1" -> <<cps[i]>> [] OTHER -> Utf8(cps[i])])
Cont(b, i) == i <= Len(b) /\ b[i] \in 128..191
RECURSIVE Dec8(_, _, _)
Dec8(b, i, acc) ==
    IF i > Len(b) THEN <<"s", acc>>
    ELSE LET x == b[i] IN
         IF x < 128 THEN Dec8(b, i + 1, Append(acc, x))
         ELSE IF x \in 194..223 /\ Cont(b, i + 1) THEN Dec8(b, i + 2, Append(acc, (x - 192) * 64 + b[i + 1] - 128))
         ELSE IF x \in 224..239 /\ Cont(b, i + 1) /\ Cont(b, i + 2)
              THEN (LET v == (x - 224) * 4096 + (b[i + 1] - 128) * 64 + b[i + 2] - 128
                    IN IF v < 2048 \/ v \in 55296..57343 \/ v = 65279 THEN <<"any">> ELSE Dec8(b, i + 3, Append(acc, v)))
         ELSE IF x \in 240..244 /\ Cont(b, i + 1) /\ Cont(b, i + 2) /\ Cont(b, i + 3)
              THEN (LET v == (x - 240) * 262144 + (b[i + 1] - 128) * 4096 + (b[i + 2] - 128) * 64 + b[i + 3] - 128
                    IN IF v < 65536 \/ v > 1114111 THEN <<"any">> ELSE Dec8(b, i + 4, Append(acc, v)))
         ELSE <<"any">>
RECURSIVE Dec16(_, _, _)
Dec16(b, i, acc) ==
    IF i > Len(b) THEN <<"s", acc>>
    ELSE IF i = Len(b) THEN <<"any">>
    ELSE LET u == b[i] + 256 * b[i + 1] IN
         IF u \in 55296..56319
         THEN (IF i + 3 > Len(b) THEN <<"any">>
               ELSE LET l == b[i + 2] + 256 * b[i + 3]
                    IN IF l \in 56320..57343 THEN Dec16(b, i + 4, Append(acc, 65536 + (u - 55296) * 1024 + l - 56320)) ELSE <<"any">>)
         ELSE IF u \in 56320..57343 \/ u \in {65279, 65534} THEN <<"any">>
         ELSE Dec16(b, i + 2, Append(acc, u))
Dec(e, b) == CASE e = "UTF-16LE" -> Dec16(b, 1, <<>>) [] e = "ISO-8859-1" -> <<"s", b>> [] OTHER -> Dec8(b, 1, <<>>)
\* ---- the name space ----
Has(s, p) == p \in DOMAIN s.fs
Parent(p) == SubSeq(p, 1, Len(p) - 1)
IsDir(s, p) == Has(s, p) /\ s.ino[s.fs[p]].k = "d"
IsFile(s, p) == Has(s, p) /\ s.ino[s.fs[p]].k = "f"
Under(p, q) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p
Empty(s, p) == ~ \E q \in DOMAIN s.fs : Under(p, q)
Bytes(s, p) == s.ino[s.fs[p]].b
Link(s, p, i) == [s EXCEPT !.fs = [q \in DOMAIN s.fs \cup {p} |-> IF q = p THEN i ELSE s.fs[q]]]
Unlink(s, p) == [s EXCEPT !.fs = [q \in DOMAIN s.fs \ {p} |-> s.fs[q]]]
New(s, p, k) == Link([s EXCEPT !.ino = Append(s.ino, [k |-> k, b |-> <<>>, m |-> 0 - 1])], p, Len(s.ino) + 1)
CanMake(s, p) == Len(p) > 0 /\ IsDir(s, Parent(p))
\* the file p with contents b, made when it is missing
Store(s, p, b) == LET t == IF Has(s, p) THEN s ELSE New(s, p, "f") IN [t EXCEPT !.ino[t.fs[p]].b = b]
CanStore(s, p) == IsFile(s, p) \/ (~ Has(s, p) /\ CanMake(s, p))
Old(s, p) == IF Has(s, p) THEN Bytes(s, p) ELSE <<>>
Rename(s, p, q) ==
    IF ~ Has(s, p) \/ p = <<>> \/ ~ CanMake(s, q) THEN Thr(s)
    ELSE IF p = q THEN R(s, <<"u">>)
    ELSE IF Under(p, q) THEN Thr(s)
    ELSE IF Has(s, q) /\ (IsDir(s, p) # IsDir(s, q) \/ (IsDir(s, q) /\ ~ Empty(s, q))) THEN Thr(s)
    ELSE LET Moved(x) == q \o SubSeq(x, Len(p) + 1, Len(x))
             S == {x \in DOMAIN s.fs : x = p \/ Under(p, x)}
             K == (DOMAIN s.fs \ S) \ {q}
             D == {Moved(x) : x \in S}
         IN R([s EXCEPT !.fs = [y \in K \cup D |-> IF y \in D THEN s.fs[CHOOSE x \in S : Moved(x) = y] ELSE s.fs[y]]], <<"u">>)
\* ---- handles ----
Base(m) == IF Len(m) > 0 /\ SubSeq(m, Len(m), Len(m)) = "b" THEN SubSeq(m, 1, Len(m) - 1) ELSE m
Open(s, p, mode) ==
    LET m == Base(mode)
        h(t) == [i |-> t.fs[p], rd |-> m \in {"r", "r+", "w+", "a+"}, wr |-> m # "r", ap |-> m \in {"a", "a+"},
                 pos |-> IF m \in {"a", "a+"} THEN Len(Bytes(t, p)) ELSE 0, open |-> TRUE]
        t == IF m \in {"r", "r+"} THEN s ELSE Store(s, p, IF m \in {"w", "w+"} THEN <<>> ELSE Old(s, p))
    IN IF m \notin {"r", "r+", "w", "w+", "a", "a+"} THEN Thr(s)
       ELSE IF m \in {"r", "r+"} /\ ~ IsFile(s, p) THEN Thr(s)
       ELSE IF ~ CanStore(s, p) THEN Thr(s)
       ELSE R([t EXCEPT !.h = Append(t.h, h(t))], <<"h">>)
HB(s, h) == s.ino[s.h[h].i].b
\* put bytes at the position of the handle (at the end when it appends)
PutB(s, h, b) ==
    LET o == HB(s, h)
        at == IF s.h[h].ap THEN Len(o) ELSE s.h[h].pos
        n == [i \in 1..MaxI(Len(o), at + Len(b)) |-> IF i > at /\ i <= at + Len(b) THEN b[i - at] ELSE IF i <= Len(o) THEN o[i] ELSE 0]
    IN IF b = <<>> THEN s ELSE [s EXCEPT !.ino[s.h[h].i].b = n, !.h[h].pos = at + Len(b)]
Line(b, p) == LET RECURSIVE F(_)
                  F(i) == IF i > Len(b) THEN Len(b) ELSE IF b[i] = 10 THEN i ELSE F(i + 1)
              IN F(p + 1)
\* the range <<from, count>> of optional arguments a in a buffer of the size; <<>> when the start is negative
Span(a, size) == IF Len(a) > 0 /\ a[1] < 0 THEN <<>>
                  ELSE LET f == IF Len(a) > 0 THEN MinI(a[1], size) ELSE 0
                       IN <<f, IF Len(a) > 1 THEN MinI(MaxI(a[2], 0), size - f) ELSE size - f>>
Handle(x, s) ==
    LET h == x.h
        H == s.h[h]
        b == HB(s, h)
    IN
    IF h = 0 THEN Thr(s)      \* a receiver that is no file
    ELSE IF h > Len(s.h) THEN R(s, <<"none">>)
    ELSE IF x.n = "close" THEN R([s EXCEPT !.h[h].open = FALSE], <<"u">>)
    ELSE IF ~ H.open THEN Thr(s)
    ELSE CASE x.n = "tell" -> R(s, <<"n", H.pos>>)
           [] x.n = "seek" -> (LET t == x.o + (CASE x.w = 0 -> 0 [] x.w = 1 -> H.pos [] x.w = 2 -> Len(b) [] OTHER -> 0)
                               IN IF t < 0 \/ x.w > 2 THEN Thr(s) ELSE R([s EXCEPT !.h[h].pos = t], <<"u">>))
           [] x.n = "getc" -> IF ~ H.rd \/ H.pos >= Len(b) THEN R(s, <<"eof">>) ELSE R([s EXCEPT !.h[h].pos = H.pos + 1], <<"n", b[H.pos + 1]>>)
           [] x.n = "putc" -> IF ~ H.wr THEN Thr(s) ELSE R(PutB(s, h, <<(x.c + 256) % 256>>), <<"u">>)
           [] x.n = "gets" -> IF ~ H.rd \/ H.pos >= Len(b) THEN R(s, <<"eof">>)
                              ELSE LET e == Line(b, H.pos) IN R([s EXCEPT !.h[h].pos = e], Dec(x.e, SubSeq(b, H.pos + 1, e)))
           [] x.n = "puts" -> IF x.t = <<>> THEN R(s, <<"u">>) ELSE IF ~ H.wr THEN Thr(s) ELSE R(PutB(s, h, Enc(x.e, x.t)), <<"u">>)
           [] x.n = "read" -> (LET B == s.b[x.b]
                                   g == Span(x.a, Len(B))
                                   n == MaxI(0, MinI(g[2], Len(b) - H.pos))
                                   N == [i \in 1..Len(B) |-> IF i > g[1] /\ i <= g[1] + n THEN b[H.pos + i - g[1]] ELSE B[i]]
                               IN IF g = <<>> THEN Thr(s)
                                  ELSE IF g[2] = 0 THEN R(s, <<"rd", 0, B>>)
                                  ELSE IF ~ H.rd THEN Thr(s)
                                  ELSE R([s EXCEPT !.h[h].pos = H.pos + n, !.b[x.b] = N], <<"rd", n, N>>))
           [] x.n = "write" -> (LET B == s.b[x.b]
                                    g == Span(x.a, Len(B))
                                IN IF g = <<>> THEN Thr(s)
                                   ELSE IF g[2] = 0 THEN R(s, <<"n", 0>>)
                                   ELSE IF ~ H.wr THEN Thr(s)
                                   ELSE R(PutB(s, h, SubSeq(B, g[1] + 1, g[1] + g[2])), <<"n", g[2]>>))
\* ---- dirname and basename (sequences of one-character strings) ----
RECURSIVE RTrim(_)
RTrim(p) == IF Len(p) > 1 /\ p[Len(p)] = "/" THEN RTrim(SubSeq(p, 1, Len(p) - 1)) ELSE p
LastSlash(p) == LET S == {i \in 1..Len(p) : p[i] = "/"} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Basename(p) == IF p = <<>> THEN <<".">> ELSE LET t == RTrim(p) IN IF t = <<"/">> THEN t ELSE SubSeq(t, LastSlash(t) + 1, Len(t))
Dirname(p) == IF p = <<>> THEN <<".">>
              ELSE LET t == RTrim(p)
                       k == LastSlash(t)
                   IN IF t = <<"/">> THEN t ELSE IF k = 0 THEN <<".">> ELSE IF k = 1 THEN <<"/">> ELSE RTrim(SubSeq(t, 1, k - 1))
\* the position argument of encodeText and decodeText: negative from the end, clamped
Rel(v, size) == IF v < 0 THEN MaxI(v + size, 0) ELSE MinI(v, size)
NAMES == <<"a", "b", "d">>
FApply(x, s) ==
    CASE x.n \in {"tell", "seek", "close", "getc", "putc", "gets", "puts", "read", "write"} -> Handle(x, s)
      [] x.n = "open" -> Open(s, x.p, x.m)
      [] x.n = "buf" -> R([s EXCEPT !.b[x.b] = x.v], <<"u">>)
      [] x.n = "loadS" -> IF ~ IsFile(s, x.p) THEN Thr(s) ELSE R(s, Dec(x.e, Bytes(s, x.p)))
      [] x.n = "storeS" -> IF ~ CanStore(s, x.p) THEN Thr(s) ELSE R(Store(s, x.p, Enc(x.e, x.t)), <<"u">>)
      [] x.n = "appS" -> IF ~ CanStore(s, x.p) THEN Thr(s) ELSE R(Store(s, x.p, Old(s, x.p) \o Enc(x.e, x.t)), <<"u">>)
      [] x.n = "badS" -> Thr(s)       \* conversion of the text or the encoding fails
      [] x.n = "loadD" -> IF ~ IsFile(s, x.p) THEN Thr(s) ELSE R(s, <<"d", Bytes(s, x.p)>>)
      [] x.n \in {"storeD", "appD"} -> (LET B == s.b[x.b]
                                            g == Span(x.a, Len(B))
                                        IN IF ~ CanStore(s, x.p) \/ g = <<>> THEN Thr(s)
                                           ELSE R(Store(s, x.p, (IF x.n = "appD" THEN Old(s, x.p) ELSE <<>>) \o SubSeq(B, g[1] + 1, g[1] + g[2])), <<"u">>))
      [] x.n = "badD" -> Thr(s)       \* no buffer, or a detached one
      [] x.n = "unlink" -> IF ~ IsFile(s, x.p) THEN Thr(s) ELSE R(Unlink(s, x.p), <<"u">>)
      [] x.n = "rmdir" -> IF ~ IsDir(s, x.p) \/ ~ Empty(s, x.p) THEN Thr(s) ELSE R(Unlink(s, x.p), <<"u">>)
      [] x.n = "mkdir" -> IF Has(s, x.p) \/ ~ CanMake(s, x.p) THEN Thr(s) ELSE R(New(s, x.p, "d"), <<"u">>)
      [] x.n = "rename" -> Rename(s, x.p, x.q)
      [] x.n = "chmod" -> IF ~ Has(s, x.p) THEN Thr(s) ELSE R([s EXCEPT !.ino[s.fs[x.p]].m = x.m], <<"u">>)
      [] x.n = "stat" -> R(s, IF ~ Has(s, x.p) THEN <<"u">>
                              ELSE LET i == s.ino[s.fs[x.p]] IN <<"st", i.k, IF i.k = "f" THEN Len(i.b) ELSE 0 - 1, i.m>>)
      [] x.n = "real" -> R(s, IF Has(s, x.p) THEN <<"p", x.p>> ELSE <<"u">>)
      [] x.n = "list" -> IF ~ IsDir(s, x.p) THEN Thr(s) ELSE R(s, <<"l", SelectSeq(NAMES, LAMBDA c : Has(s, Append(x.p, c)))>>)
      [] x.n = "names" -> R(s, <<Dirname(x.t), Basename(x.t)>>)
      [] x.n = "encode" -> (LET e == Enc(x.e, x.t) IN IF x.b = 0 THEN R(s, <<"d", e>>)
                            ELSE LET B == s.b[x.b]
                                     f == IF x.a = <<>> THEN 0 ELSE Rel(x.a[1], Len(B))
                                     n == MinI(Len(e), Len(B) - f)
                                     N == [i \in 1..Len(B) |-> IF i > f /\ i <= f + n THEN e[i - f] ELSE B[i]]
                                 IN R([s EXCEPT !.b[x.b] = N], <<"rd", n, N>>))
      [] x.n = "decode" -> (LET B == s.b[x.b]
                                f == IF x.a = <<>> THEN 0 ELSE Rel(x.a[1], Len(B))
                                t == IF Len(x.a) < 2 THEN Len(B) ELSE Rel(x.a[2], Len(B))
                            IN R(s, Dec(x.e, SubSeq(B, f + 1, t))))
      [] x.n = "gc" -> R(s, <<"u">>)
NoOps(s) == {}
NoInit == {}
FStart(c) == [fs |-> [p \in {<<>>} |-> 1], ino |-> <<[k |-> "d", b |-> <<>>, m |-> 0 - 1]>>, h |-> <<>>,
              b |-> <<<<1, 2, 3, 4, 5, 6, 7, 8>>, <<>>, <<255>>, Fill(40, 9)>>]
\* ---- one file, one handle, a two-byte buffer: every operation from every state ----
SmallInit == {[fs |-> [p \in {<<>>} |-> 1], ino |-> <<[k |-> "d", b |-> <<>>, m |-> 0 - 1]>>, h |-> <<>>, b |-> <<<<7, 8>>>>]}
SmallOps(s) ==
    LET live == Len(s.h) > 0 /\ s.h[Len(s.h)].open
        h == Len(s.h)
        room == Len(s.ino) < 2 \/ Len(s.ino[2].b) < 3
    IN IF live
       THEN {[n |-> "close", h |-> h], [n |-> "tell", h |-> h], [n |-> "getc", h |-> h]}
            \cup {[n |-> "seek", h |-> h, o |-> o, w |-> w] : o \in {0 - 1, 0, 1}, w \in 0..2} \cup {[n |-> "seek", h |-> h, o |-> 0, w |-> 7]}
            \cup {[n |-> "read", h |-> h, b |-> 1, a |-> a] : a \in {<<>>, <<1>>}}
            \cup (IF room /\ s.h[h].pos < 3 THEN {[n |-> "putc", h |-> h, c |-> 5], [n |-> "write", h |-> h, b |-> 1, a |-> <<1, 9>>]} ELSE {})
       ELSE {[n |-> "loadD", p |-> <<"a">>]}
            \cup (IF h > 0 THEN {[n |-> "putc", h |-> h, c |-> 5], [n |-> "tell", h |-> h], [n |-> "close", h |-> h]}
                  ELSE {[n |-> "open", p |-> <<"a">>, m |-> m] : m \in {"r", "r+", "w", "w+", "a", "a+"}}
                       \cup {[n |-> "storeD", p |-> <<"a">>, b |-> 1, a |-> a] : a \in IF Len(s.ino) < 2 THEN {<<>>, <<0, 0>>, <<1, 1>>} ELSE {}})
SmallBound == \A h \in 1..Len(st.h) : st.h[h].pos <= 4
\* ---- what must hold ----
Tree == \A p \in DOMAIN st.fs : p = <<>> \/ IsDir(st, Parent(p))
ByteFiles == \A i \in 1..Len(st.ino) : \A j \in 1..Len(st.ino[i].b) : st.ino[i].b[j] \in 0..255
Positions == \A h \in 1..Len(st.h) : st.h[h].pos >= 0
FailKeeps == [][(ev' # <<>> /\ ev'[2] = <<"throw">>) => st' = st]_st
Reads == [][(ev' # <<>> /\ ev'[1].n \in {"tell", "getc", "gets", "read", "loadS", "loadD", "stat", "list", "real", "decode"}) => st'.ino = st.ino /\ st'.fs = st.fs]_st
AppendsOnly == [][(ev' # <<>> /\ ev'[1].n \in {"putc", "puts", "write"} /\ ev'[1].h > 0) =>
                   \A i \in 1..Len(st.ino) : (i <= Len(st'.ino) /\ st.ino[i].b # st'.ino[i].b /\ st.h[ev'[1].h].ap) => IsPrefix(st.ino[i].b, st'.ino[i].b)]_st
===========================================================================
