-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic for TLC.                                      *)
(*                                                                         *)
(* A rational is a canonical string "n" or "n/d" (d > 1, gcd(n,d) = 1), so *)
(* that TLA+ equality is numeric equality.  TLC integers are also accepted *)
(* wherever a rational is.  The definitions below are the mathematical     *)
(* meaning over pairs <<n, d>> (module RatDef); TLC evaluates them with the*)
(* big-integer overrides of java/Rat.java, and RatCheck.tla has TLC compare*)
(* the two exhaustively on small rationals.  Transcendental functions      *)
(* return a rational within 10^-50 (relative) of the true value.           *)
(***************************************************************************)
EXTENDS Integers, Sequences

R(n)        == CHOOSE r : TRUE    \* the integer n as a rational
Q(n, d)     == CHOOSE r : TRUE    \* n / d
RDec(s)     == CHOOSE r : TRUE    \* exact value of a decimal literal "0.05"
RAdd(a, b)  == CHOOSE r : TRUE
RSub(a, b)  == CHOOSE r : TRUE
RMul(a, b)  == CHOOSE r : TRUE
RDiv(a, b)  == CHOOSE r : TRUE
RNeg(a)     == CHOOSE r : TRUE
RPow(a, k)  == CHOOSE r : TRUE    \* integer power
RLt(a, b)   == CHOOSE r : TRUE
RLe(a, b)   == CHOOSE r : TRUE
REq(a, b)   == CHOOSE r : TRUE
RMax(a, b)  == CHOOSE r : TRUE
RMin(a, b)  == CHOOSE r : TRUE
RFloor(a)   == CHOOSE r : TRUE    \* a TLC integer
RCeil(a)    == CHOOSE r : TRUE
RIsInt(a)   == CHOOSE r : TRUE
RRnd(a, k)  == CHOOSE r : TRUE    \* nearest multiple of 10^-k, ties to even
RNear(a, b) == CHOOSE r : TRUE    \* |a-b| <= 10^-35 * max(1,|a|,|b|)
RExp(a)     == CHOOSE r : TRUE
RLn(a)      == CHOOSE r : TRUE
RSqrt(a)    == CHOOSE r : TRUE
RPowR(a, b) == CHOOSE r : TRUE    \* a^b, a >= 0, b rational
RPhi(a)     == CHOOSE r : TRUE    \* standard normal distribution function
RSum(s)     == CHOOSE r : TRUE    \* sum of a sequence / function range
RProd(s)    == CHOOSE r : TRUE    \* product of a sequence
RStr(a)     == CHOOSE r : TRUE    \* decimal string, 25 significant digits
RTol(a,b,t) == CHOOSE r : TRUE    \* |a-b| <= t * max(1,|a|,|b|)
RRec(s)     == CHOOSE r : TRUE    \* exact rational of a decimal/float text "1.25e-3"
(* I/O: append a JSON line to the file named by -Dactm.out; always TRUE    *)
Emit(rec)   == TRUE
(* materialise a lazily represented function: identity                     *)
Mat(f)      == f
(* integer parameter passed as a JVM property (e.g. seed), else default    *)
Param(name, default) == default
ParamStr(name, default) == default
(* deterministic pseudo-random integer in 0..n-1, a pure function of k     *)
Hash(k, n)  == CHOOSE r : TRUE
(* the JSON value (lists as sequences, numbers as exact decimal rationals) *)
(* stored in the file named by the JVM property                            *)
Load(name)  == CHOOSE r : TRUE
=============================================================================
