-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* The encoding of native proofs as bytes.                                 *)
(*                                                                         *)
(* A number takes L = 1..10 bytes.  Read as one little-endian number, the  *)
(* bytes hold L-1 zero bits, a one bit (not looked at when L = 10) and then the *)
(* bits of the number.  Numbers have up to 64 bits; they are written here  *)
(* as eight bytes, least significant first.  Variables and literals are    *)
(* numbers counted from 0, literals as 2*variable + sign.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>     \* P2[k+1] = 2^k
Zeros(x) ==      \* trailing zero bits of a non-zero byte
  CASE x % 2 = 1 -> 0 [] x % 4 = 2 -> 1 [] x % 8 = 4 -> 2 [] x % 16 = 8 -> 3
    [] x % 32 = 16 -> 4 [] x % 64 = 32 -> 5 [] x % 128 = 64 -> 6 [] OTHER -> 7

(* length of the number starting at p, 0 if the bytes end before it is known *)
IntLen(b, p) ==
  IF p > Len(b) THEN 0
  ELSE IF b[p] # 0 THEN Zeros(b[p]) + 1
  ELSE IF p + 1 > Len(b) THEN 0
  ELSE IF b[p + 1] % 2 = 1 THEN 9 ELSE 10

NoInt == [ok |-> FALSE, v |-> <<>>, n |-> 0]
ReadInt(b, p) ==
  LET L == IntLen(b, p)
      q == L \div 8
      s == L % 8
      B(k) == IF k < L THEN b[p + k] ELSE 0
  IN IF L = 0 \/ p + L - 1 > Len(b) THEN NoInt
     ELSE [ok |-> TRUE, n |-> p + L,
           v |-> [k \in 1..8 |-> (B(k - 1 + q) \div P2[s + 1] + B(k + q) * P2[9 - s]) % 256]]

(* the shortest encoding of a number *)
ByteBits(x) == IF x >= 128 THEN 8 ELSE IF x >= 64 THEN 7 ELSE IF x >= 32 THEN 6 ELSE IF x >= 16 THEN 5
               ELSE IF x >= 8 THEN 4 ELSE IF x >= 4 THEN 3 ELSE IF x >= 2 THEN 2 ELSE IF x >= 1 THEN 1 ELSE 0
NumBits(v) == LET top == {k \in 1..8 : v[k] # 0}
                  m == CHOOSE k \in top : \A j \in top : j <= k
              IN IF top = {} THEN 0 ELSE 8 * (m - 1) + ByteBits(v[m])
BlocksNeeded(v) == LET n == NumBits(v) IN IF n <= 7 THEN 1 ELSE (n + 6) \div 7
WriteInt(v) ==
  LET L == BlocksNeeded(v)
      q == L \div 8
      s == L % 8
      V(k) == IF k \in 1..8 THEN v[k] ELSE 0       \* k-th byte, 1-based
      \* byte j (0-based) of v shifted left by L bits
      Sh(j) == (V(j - q + 1) * P2[s + 1] + V(j - q) \div P2[9 - s]) % 256
      \* the marker bit is bit L-1
      Mark(j) == IF j = (L - 1) \div 8 THEN P2[((L - 1) % 8) + 1] ELSE 0
  IN [j \in 1..L |-> Sh(j - 1) + Mark(j - 1)]

Small(v) == v[5] = 0 /\ v[6] = 0 /\ v[7] = 0 /\ v[8] = 0 /\ v[4] < 64
ToInt(v) == v[1] + 256 * v[2] + 65536 * v[3] + 16777216 * v[4]
Num(x) == <<x % 256, (x \div 256) % 256, (x \div 65536) % 256, x \div 16777216, 0, 0, 0, 0>>

MaxVarIndex == 268435455          \* varisat's largest variable index
LitOf(c) == IF c % 2 = 0 THEN c \div 2 + 1 ELSE -(c \div 2 + 1)
CodeOf(l) == IF l > 0 THEN 2 * (l - 1) ELSE 2 * (-l - 1) + 1

EndCode == <<17, 194, 148, 66, 31, 57, 195, 154>>  \* 9ac3391f4294c211

(* Reading.  A cursor is [st, p, x]: st is "ok", "eof" (bytes end) or "bad". *)
Cur(st, p, x) == [st |-> st, p |-> p, x |-> x]
ReadVar(b, p) ==
  LET r == ReadInt(b, p)
  IN IF ~r.ok THEN Cur("eof", p, 0)
     ELSE IF ~Small(r.v) \/ ToInt(r.v) > MaxVarIndex THEN Cur("bad", p, 0)
     ELSE Cur("ok", r.n, ToInt(r.v) + 1)
ReadLit(b, p) ==
  LET r == ReadInt(b, p)
  IN IF ~r.ok THEN Cur("eof", p, 0)
     ELSE IF ~Small(r.v) \/ ToInt(r.v) \div 2 > MaxVarIndex THEN Cur("bad", p, 0)
     ELSE Cur("ok", r.n, LitOf(ToInt(r.v)))
ReadHash(b, p) ==
  LET r == ReadInt(b, p) IN IF ~r.ok THEN Cur("eof", p, 0) ELSE Cur("ok", r.n, r.v)
ReadPair(b, p) ==
  LET r == ReadLit(b, p)
      q == ReadHash(b, r.p)
  IN IF r.st # "ok" THEN r ELSE IF q.st # "ok" THEN q ELSE Cur("ok", q.p, <<r.x, q.x>>)

ReadItem(b, p, kind) ==
  CASE kind = "lit" -> ReadLit(b, p) [] kind = "hash" -> ReadHash(b, p) [] OTHER -> ReadPair(b, p)
(* n items: more items than bytes left can only end in "eof" or "bad" *)
ReadItems(b, p, n, kind) ==
  FoldLeft(LAMBDA acc, k : IF acc.st # "ok" THEN acc
                           ELSE LET r == ReadItem(b, acc.p, kind)
                                IN IF r.st # "ok" THEN r ELSE Cur("ok", r.p, Append(acc.x, r.x)),
           Cur("ok", p, <<>>), [k \in 1..n |-> k])
ReadList(b, p, kind) ==
  LET r == ReadInt(b, p)
      left == Len(b) - r.n + 2
      n == IF Small(r.v) /\ ToInt(r.v) < left THEN ToInt(r.v) ELSE left
  IN IF ~r.ok THEN Cur("eof", p, 0) ELSE ReadItems(b, r.n, n, kind)

Step(k, c, v, u, f, h) == [k |-> k, c |-> c, v |-> v, u |-> u, f |-> f, h |-> h]
Kinds == <<"svn", "svn", "uvn", "uvn", "dv", "csm", "csm", "at", "at", "units",
           "del", "del", "del", "hb", "model", "addc", "assum", "fail">>
Flags == <<0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 1, 2, 0, 0, 0, 0, 0>>

Bind(r, F(_, _)) == IF r.st # "ok" THEN r ELSE F(r.x, r.p)
ReadStep(b, p) ==
  LET c == ReadInt(b, p)
      k == ToInt(c.v)
      K == Kinds[k + 1]
      f == Flags[k + 1]
      q == c.n
  IN IF ~c.ok THEN Cur("eof", p, 0)
     ELSE IF c.v = EndCode THEN Cur("ok", q, Step("end", <<>>, 0, 0, 0, <<>>))
     ELSE IF ~Small(c.v) \/ k > 17 THEN Cur("bad", p, 0)
     ELSE IF k \in {0, 2}
     THEN Bind(ReadVar(b, q), LAMBDA v, p1 :
          Bind(ReadVar(b, p1), LAMBDA u, p2 : Cur("ok", p2, Step(K, <<>>, v, u, f, <<>>))))
     ELSE IF k \in {1, 3, 4, 5, 6}
     THEN Bind(ReadVar(b, q), LAMBDA v, p1 : Cur("ok", p1, Step(K, <<>>, v, 0, f, <<>>)))
     ELSE IF k \in {7, 8, 17}
     THEN Bind(ReadList(b, q, "lit"), LAMBDA l, p1 :
          Bind(ReadList(b, p1, "hash"), LAMBDA h, p2 : Cur("ok", p2, Step(K, l, 0, 0, f, h))))
     ELSE IF k = 9
     THEN Bind(ReadList(b, q, "pair"), LAMBDA l, p1 :
          Cur("ok", p1, Step(K, [i \in DOMAIN l |-> l[i][1]], 0, 0, f, [i \in DOMAIN l |-> l[i][2]])))
     ELSE IF k = 13
     THEN LET r == ReadInt(b, q)
          IN IF ~r.ok THEN Cur("eof", q, 0)
             ELSE IF r.v[5] # 0 \/ r.v[6] # 0 \/ r.v[7] # 0 \/ r.v[8] # 0 THEN Cur("bad", q, 0)
             ELSE Cur("ok", r.n, Step(K, <<>>, IF Small(r.v) THEN ToInt(r.v) ELSE 1073741823, 0, f, <<>>))
     ELSE Bind(ReadList(b, q, "lit"), LAMBDA l, p1 : Cur("ok", p1, Step(K, l, 0, 0, f, <<>>)))

(* Writing *)
Cat(s) == FoldLeft(LAMBDA a, x : a \o x, <<>>, s)
WriteList(c, W(_)) == WriteInt(Num(Len(c))) \o Cat([i \in DOMAIN c |-> W(c[i])])
WVar(v) == WriteInt(Num(v - 1))
WLit(l) == WriteInt(Num(CodeOf(l)))
CodeNo(s) ==
  CASE s.k = "svn" -> IF s.u = 0 THEN 1 ELSE 0
    [] s.k = "uvn" -> IF s.u = 0 THEN 3 ELSE 2
    [] s.k = "dv" -> 4
    [] s.k = "csm" -> IF s.f = 1 THEN 5 ELSE 6
    [] s.k = "at" -> IF s.f = 1 THEN 7 ELSE 8
    [] s.k = "units" -> 9
    [] s.k = "del" -> 10 + s.f
    [] s.k = "hb" -> 13
    [] s.k = "model" -> 14
    [] s.k = "addc" -> 15
    [] s.k = "assum" -> 16
    [] OTHER -> 17
WriteStep(s) ==
  IF s.k = "end" THEN WriteInt(EndCode)
  ELSE WriteInt(Num(CodeNo(s))) \o
       (CASE s.k \in {"svn", "uvn"} -> WVar(s.v) \o (IF s.u = 0 THEN <<>> ELSE WVar(s.u))
          [] s.k \in {"dv", "csm"} -> WVar(s.v)
          [] s.k \in {"at", "fail"} -> WriteList(s.c, WLit) \o WriteList(s.h, WriteInt)
          [] s.k = "units" -> WriteInt(Num(Len(s.c)))
                              \o Cat([i \in DOMAIN s.c |-> WLit(s.c[i]) \o WriteInt(s.h[i])])
          [] s.k = "hb" -> WriteInt(Num(s.v))
          [] OTHER -> WriteList(s.c, WLit))
=============================================================================
