-------------------------------- MODULE Gcov --------------------------------
(* Files of words, counters and strings (gcov.h): what writing leaves in a  *)
(* file and what reading returns.                                          *)
(*                                                                         *)
(* A word is 4 bytes, a counter 8, both least significant byte first; a     *)
(* string is a sequence of bytes other than 0.                             *)
EXTENDS Integers, Sequences

Nothing == <<-1>>       \* what a read at the end of a file returns

Word(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Number(b) == b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]

Zeros(n) == [i \in 1..n |-> 0]

(* Since version 2 a string is preceded by its size in bytes and ends with  *)
(* a zero byte; before that by its size in words, which zeros fill up.      *)
EncString(ver, s) ==
  IF ver >= 2 THEN Word(Len(s) + 1) \o s \o <<0>>
  ELSE LET w == (Len(s) + 4) \div 4 IN Word(w) \o s \o Zeros(4 * w - Len(s))

Encode(ver, k, v) == IF k = "s" THEN EncString(ver, v) ELSE v

(* Bytes at a position: [ok, b, pos]; a read that the file does not satisfy *)
(* takes all that is left.                                                 *)
Take(c, pos, n) ==
  IF pos + n <= Len(c) THEN [ok |-> TRUE, b |-> SubSeq(c, pos + 1, pos + n), pos |-> pos + n]
  ELSE [ok |-> FALSE, b |-> <<>>, pos |-> Len(c)]

UpToZero(b) ==
  LET I == {i \in DOMAIN b : b[i] = 0}
  IN IF I = {} THEN b ELSE SubSeq(b, 1, (CHOOSE i \in I : \A j \in I : i <= j) - 1)

Read(ver, k, c, pos) ==
  LET t == Take(c, pos, IF k = "c" THEN 8 ELSE 4)
  IN CASE k # "s" -> [v |-> IF t.ok THEN t.b ELSE IF k = "c" THEN Zeros(8) ELSE Zeros(4), pos |-> t.pos]
       [] OTHER ->
            LET n == IF t.ok THEN Number(t.b) ELSE 0
                u == Take(c, t.pos, IF ver >= 2 THEN n ELSE 4 * n)
            IN IF n = 0 THEN [v |-> Nothing, pos |-> t.pos]
               ELSE [v |-> IF u.ok THEN UpToZero(u.b) ELSE Nothing, pos |-> u.pos]
=============================================================================
