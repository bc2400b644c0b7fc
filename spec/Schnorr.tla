------------------------------ MODULE Schnorr -------------------------------
(* The algebra behind Signing.tla, in the additive group of a small prime   *)
(* field: points are their logarithms and the hash is any function (its     *)
(* values are chosen when they are first needed). TLC verifies, for every   *)
(* key, nonce and hash function, that a signature recovers its key, that a  *)
(* ring signature of any member verifies, and that a nonce that is used     *)
(* twice gives the private key away.                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Q, MaxRing
Zq == 0..(Q - 1)
Z1 == 1..(Q - 1)
Mod(a) == ((a % Q) + Q) % Q
Inv(a) == CHOOSE b \in Z1 : Mod(a * b) = 1

VARIABLES xs, signer, k, h, es, ss, at, phase
vars == <<xs, signer, k, h, es, ss, at, phase>>
\* h: the values of the hash for the points asked so far
R == Len(xs)
After(j) == (j % R) + 1
Ask(p) == IF p \in DOMAIN h THEN {h[p]} ELSE Z1
Know(p, e) == [x \in DOMAIN h \cup {p} |-> IF x = p THEN e ELSE h[x]]
None == [x \in {} |-> 0]

Init == /\ \E n \in 1..MaxRing : xs \in [1..n -> Z1] /\ signer \in 1..n
        /\ k \in Z1 /\ h = None /\ es = None /\ ss = None /\ at = 0 /\ phase = "start"
Begin == /\ phase = "start"
         /\ \E e \in Ask(k) : h' = Know(k, e) /\ es' = [x \in {After(signer)} |-> e]
         /\ at' = After(signer) /\ phase' = "loop" /\ UNCHANGED <<xs, signer, k, ss>>
Loop == /\ phase = "loop" /\ at # signer
        /\ \E s \in Zq : LET p == Mod(s + es[at] * xs[at]) IN
             \E e \in Ask(p) : /\ h' = Know(p, e)
                               /\ es' = [x \in DOMAIN es \cup {After(at)} |-> IF x = After(at) THEN e ELSE es[x]]
                               /\ ss' = [x \in DOMAIN ss \cup {at} |-> IF x = at THEN s ELSE ss[x]]
        /\ at' = After(at) /\ UNCHANGED <<xs, signer, k, phase>>
Close == /\ phase = "loop" /\ at = signer
         /\ ss' = [x \in DOMAIN ss \cup {signer} |-> IF x = signer THEN Mod(k - es[signer] * xs[signer]) ELSE ss[x]]
         /\ phase' = "done" /\ UNCHANGED <<xs, signer, k, h, es, at>>
Next == Begin \/ Loop \/ Close

RECURSIVE Walk(_, _)
Walk(e, j) == IF j > R THEN e
              ELSE LET p == Mod(ss[j] + e * xs[j]) IN IF p \in DOMAIN h THEN Walk(h[p], j + 1) ELSE -1
RingVerifies == phase = "done" => Walk(es[1], 1) = es[1]
\* a ring of one key is a signature: r = k, s = k - e * x
KeyRecovered == phase = "done" /\ R = 1 => Mod(Mod(k - ss[1]) * Inv(es[1])) = xs[1]
\* what two signatures with the same nonce and different hashes tell
NonceLeaks == phase = "done" /\ R = 1 => \A e2 \in Z1 \ {es[1]} : LET s2 == Mod(k - e2 * xs[1]) IN Mod(Mod(ss[1] - s2) * Inv(Mod(e2 - es[1]))) = xs[1]
Sound == RingVerifies /\ KeyRecovered /\ NonceLeaks
=============================================================================
