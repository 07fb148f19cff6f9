-------------------------------- MODULE Codec --------------------------------
(* The monitor's message format at byte level: which byte strings are messages,  *)
(* and which event a message denotes.  Numbers stay in their raw form (7-bit     *)
(* groups, little-endian bytes); only lengths and counts are interpreted.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxLen,      \* limit of the receiving side for strings' containers and slices
          MaxFrames    \* limit for stack frames
Big == 1000000000
Bad == [ok |-> FALSE]
Good(p, v) == [ok |-> TRUE, p |-> p, v |-> v]
Min(a, b) == IF a < b THEN a ELSE b

\* ---- primitives ----
VarEnd(b, p) == LET S == {i \in p..Min(p + 9, Len(b)) : b[i] < 128} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Varint(b, p) == LET e == VarEnd(b, p) IN IF e = 0 THEN Bad ELSE Good(e + 1, [i \in 1..(e - p + 1) |-> b[p + i - 1] % 128])
Grp(raw, i) == IF i > Len(raw) THEN 0 ELSE IF i = 10 THEN raw[i] % 2 ELSE raw[i]
Small(raw) == IF \E i \in 5..10 : Grp(raw, i) # 0 THEN Big
              ELSE Grp(raw, 1) + 128 * Grp(raw, 2) + 16384 * Grp(raw, 3) + 2097152 * Grp(raw, 4)
Fixed(b, p, n) == IF p + n - 1 > Len(b) THEN Bad ELSE Good(p + n, SubSeq(b, p, p + n - 1))
Count(b, p) == LET v == Varint(b, p) IN IF v.ok THEN Good(v.p, Small(v.v)) ELSE Bad
Str(b, p) == LET c == Count(b, p) IN IF ~c.ok THEN Bad ELSE IF c.v = Big THEN Bad ELSE Fixed(b, c.p, c.v)
\* n items one after the other
RECURSIVE Items(_, _, _, _, _)
Items(D(_, _), b, p, n, acc) ==
  IF n = 0 THEN Good(p, acc)
  ELSE IF p > Len(b) THEN Bad
  ELSE LET d == D(b, p) IN IF d.ok THEN Items(D, b, d.p, n - 1, Append(acc, d.v)) ELSE Bad

\* ---- stack: frame count, table of strings, frames as indices into it ----
Index(b, p, size) == LET c == Count(b, p) IN IF c.ok /\ c.v < size THEN c ELSE Bad
Stack(b, p) ==
  LET c == Count(b, p) IN
  IF ~c.ok \/ c.v > MaxFrames THEN Bad
  ELSE IF c.v = 0 THEN Good(c.p, <<>>)
  ELSE LET s == Count(b, c.p) IN
       IF ~s.ok \/ s.v > 2 * c.v THEN Bad
       ELSE LET t == Items(Str, b, s.p, s.v, <<>>)
                frame(bb, q) == LET f == Index(bb, q, s.v) IN IF ~f.ok THEN Bad
                                ELSE LET g == Index(bb, f.p, s.v) IN IF ~g.ok THEN Bad
                                ELSE LET l == Varint(bb, g.p) IN IF ~l.ok THEN Bad
                                ELSE Good(l.p, [file |-> t.v[f.v + 1], fn |-> t.v[g.v + 1], line |-> l.v])
            IN IF ~t.ok THEN Bad ELSE Items(frame, b, t.p, c.v, <<>>)

\* ---- values ----
F4(b, p) == Fixed(b, p, 4)
F8(b, p) == Fixed(b, p, 8)
Leaf(tag, r) == IF r.ok THEN Good(r.p, [tag |-> tag, v |-> r.v, c |-> <<>>]) ELSE Bad
Limited(b, p) == LET c == Count(b, p) IN IF c.ok /\ c.v <= MaxLen THEN c ELSE Bad
SliceOf(D(_, _), b, p) == LET c == Limited(b, p) IN IF c.ok THEN Items(D, b, c.p, c.v, <<>>) ELSE Bad
Bools(b, p) == LET c == Limited(b, p) IN
               IF ~c.ok THEN Bad
               ELSE LET f == Fixed(b, c.p, (c.v + 7) \div 8) IN
                    IF f.ok THEN Good(f.p, <<c.v>> \o f.v) ELSE Bad
RECURSIVE Value(_, _)
Field(b, p) == LET n == Str(b, p) IN IF ~n.ok THEN Bad
               ELSE LET y == Str(b, n.p) IN IF ~y.ok THEN Bad
               ELSE LET v == Value(b, y.p) IN IF ~v.ok THEN Bad
               ELSE Good(v.p, [n |-> n.v, y |-> y.v, tag |-> v.v.tag, v |-> v.v.v, c |-> v.v.c])
Kids(tag, b, c) == IF ~c.ok \/ c.v > Len(b) THEN Bad
                   ELSE LET k == Items(Field, b, c.p, c.v, <<>>) IN IF k.ok THEN Good(k.p, [tag |-> tag, v |-> <<>>, c |-> k.v]) ELSE Bad
Value(b, p) ==
  IF p > Len(b) THEN Bad ELSE
  LET tag == b[p]
      q == p + 1
  IN CASE tag = 0 -> Good(q, [tag |-> 0, v |-> <<>>, c |-> <<>>])
       [] tag = 1 -> Leaf(tag, Fixed(b, q, 1))
       [] tag \in 2..5 -> Leaf(tag, Varint(b, q))
       [] tag = 6 -> Leaf(tag, F4(b, q))
       [] tag = 7 -> Leaf(tag, F8(b, q))
       [] tag = 8 -> Leaf(tag, Fixed(b, q, 16))
       [] tag = 9 -> Leaf(tag, Str(b, q))
       [] tag = 32 -> Leaf(tag, Bools(b, q))
       [] tag = 33 -> Leaf(tag, LET c == Limited(b, q) IN IF c.ok THEN Fixed(b, c.p, c.v) ELSE Bad)
       [] tag \in 34..37 -> Leaf(tag, SliceOf(Varint, b, q))
       [] tag = 38 -> Leaf(tag, SliceOf(F4, b, q))
       [] tag = 39 -> Leaf(tag, SliceOf(F8, b, q))
       [] tag = 40 -> Leaf(tag, SliceOf(Str, b, q))
       [] tag \in {64, 66} -> Kids(tag, b, Limited(b, q))
       [] tag = 65 -> Kids(tag, b, Count(b, q))
       [] OTHER -> Bad
FieldList(b, p) == LET c == Count(b, p) IN IF ~c.ok \/ c.v > Len(b) THEN Bad ELSE Items(Field, b, c.p, c.v, <<>>)

\* ---- messages ----
Ev(id, time, stack, fields, msg) == [id |-> id, time |-> time, stack |-> stack, fields |-> fields, msg |-> msg]
Decode(ep, b) ==
  LET id == Varint(b, 1) IN
  IF ~id.ok THEN Bad
  ELSE IF ep = "error"
  THEN LET m == Str(b, id.p) IN IF ~m.ok THEN Bad
       ELSE LET s == Stack(b, m.p) IN IF ~s.ok THEN Bad ELSE Good(s.p, Ev(id.v, <<>>, s.v, <<>>, m.v))
  ELSE LET t == Fixed(b, id.p, 8) IN IF ~t.ok THEN Bad
       ELSE IF ep = "panic" THEN LET m == Str(b, t.p) IN IF m.ok THEN Good(m.p, Ev(id.v, t.v, <<>>, <<>>, m.v)) ELSE Bad
       ELSE LET s == Stack(b, t.p) IN IF ~s.ok THEN Bad
            ELSE IF ep = "point" THEN Good(s.p, Ev(id.v, t.v, s.v, <<>>, <<>>))
            ELSE LET f == FieldList(b, s.p) IN IF f.ok THEN Good(f.p, Ev(id.v, t.v, s.v, f.v, <<>>)) ELSE Bad
\* a message cut anywhere is no message, and what follows a message does not change it
CutRejected(ep, b) == LET d == Decode(ep, b) IN d.ok => \A n \in 0..(d.p - 2) : ~Decode(ep, SubSeq(b, 1, n)).ok
TailIgnored(ep, b) == LET d == Decode(ep, b) IN d.ok => Decode(ep, SubSeq(b, 1, d.p - 1)) = d
==============================================================================
