------------------------------- MODULE Psdes -------------------------------
(***************************************************************************)
(* The generator of spffl/bitrand/psdes.h, for words of 2*h bits.  A word  *)
(* is <<high, low>> with both halves below 2^h (h even); a state or output *)
(* of the generator is a pair of words.  The library has h = 16.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Bitwise

XorW(u, v) == <<u[1] ^^ v[1], u[2] ^^ v[2]>>
Flip(u, h) == <<2 ^ h - 1 - u[1], 2 ^ h - 1 - u[2]>>
Swap(u) == <<u[2], u[1]>>
AddW(u, v, h) ==
  LET B == 2 ^ h
      l == u[2] + v[2]
  IN <<(u[1] + v[1] + l \div B) % B, l % B>>
\* the product of two halves, by quarter-words (stays below 2^31)
MulH(x, y, h) ==
  LET Q == 2 ^ (h \div 2)
      B == 2 ^ h
      p0 == (x % Q) * y
      p1 == (x \div Q) * y
      l == (p1 % Q) * Q + (p0 % B)
  IN <<p1 \div Q + p0 \div B + l \div B, l % B>>

\* "XOR one constant into R; square each half; invert the bits in the high
\* square; add; swap halves; XOR in another constant; add the product of halves"
RoundF(R, k1, k2, h) ==
  LET ia == XorW(R, k1)
      ib == AddW(MulH(ia[2], ia[2], h), Flip(MulH(ia[1], ia[1], h), h), h)
  IN AddW(XorW(Swap(ib), k2), MulH(ia[2], ia[1], h), h)

Keys1 == <<<<47785, 26759>>, <<7703, 54060>>, <<956, 56380>>, <<3891, 53682>>>>
Keys2 == <<<<19215, 15192>>, <<59508, 61635>>, <<26965, 50598>>, <<21927, 51782>>>>
Key(K, i, h) == <<K[i][1] % 2 ^ h, K[i][2] % 2 ^ h>>

\* a four-round Feistel network on <<left, right>>
Feistel(st, i, h) == <<st[2], XorW(st[1], RoundF(st[2], Key(Keys1, i, h), Key(Keys2, i, h), h))>>
Hash(st, h) == Feistel(Feistel(Feistel(Feistel(st, 1, h), 2, h), 3, h), 4, h)
\* ... and the permutation that undoes it
UnFeistel(st, i, h) == <<XorW(st[2], RoundF(st[1], Key(Keys1, i, h), Key(Keys2, i, h), h)), st[1]>>
UnHash(st, h) == UnFeistel(UnFeistel(UnFeistel(UnFeistel(st, 4, h), 3, h), 2, h), 1, h)

ZeroW == <<0, 0>>
OneW == <<0, 1>>
\* the state counts modulo 2^(4h)
Step(st, h) == LET lo == AddW(st[2], OneW, h)
               IN <<IF lo = ZeroW THEN AddW(st[1], OneW, h) ELSE st[1], lo>>
Low(out) == out[2]
\* a float in [0,1) from the low 23 bits, as a multiple of 2^-23
Frac23(w) == (w[1] % 128) * 65536 + w[2]
=============================================================================
