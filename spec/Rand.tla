-------------------------------- MODULE Rand --------------------------------
EXTENDS Integers, Sequences

(* random numbers: a hash of the seed and a counter *)
P == 46337
Mix(h, v) == (h * 31397 + (v % 100000) * 5701 + 11) % P
Sq(h) == (h * h) % P
Hash(s, c) ==
  LET a == Mix(Mix(17, s), c)
      b == Mix(Sq(a), s + c)
      d == Mix(Sq(b), c * 7 + 3)
  IN Mix(d, s * 3)
Rnd(s, c, n) == (Hash(s, c) * 3 + Hash(s + 77, c + 1000)) % n      \* 0..n-1
Pick(s, c, q) == q[1 + Rnd(s, c, Len(q))]
=============================================================================
