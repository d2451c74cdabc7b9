------------------------------- MODULE Randomness -----------------------------
(***************************************************************************)
(* Where random material comes from.  The operating system gives a new     *)
(* token at every request; the program-wide source (math/rand) gives       *)
(* tokens determined by its seed and the number of draws since; a          *)
(* generator gives tokens determined by its key and position.  Objects:    *)
(* generators, workers (each with a generator of its own), and the secret  *)
(* material of splits.  The attacker knows the seed.  Knobs say that a     *)
(* secret is drawn from the wrong place.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  MaxGens, MaxSplits, Seeds,
  KeysFromProgram,     \* knob: generators are keyed from the program-wide source
  CoefsFromProgram,    \* knob: splits without a generator draw coefficients there
  OneKeyPerProcess,    \* knob: a generator made later gets the key of the first one
  Rewind,              \* knob: a split starts its generator from the beginning
  CoefsOverlapKey      \* knob: an SSMS split uses the bytes of the key as coefficients too

VARIABLES os, prog, gens, secrets, public

vars == << os, prog, gens, secrets, public >>

\* os: tokens given so far.  prog: << seed, draws >>.  gens: << key, pos >> of each.
\* secrets: secret tokens in the order in which they were used.  public: tags and so on.
Init == os = 0 /\ prog = << 0, 0 >> /\ gens = << >> /\ secrets = << >> /\ public = {}

OsToken == << "os", os, 0 >>
ProgToken(i) == << "prog", prog[1], prog[2] + i >>
GenToken(g, i) == << "gen", g[1], g[2] + i >>

Seed == /\ \E s \in Seeds : prog' = << s, 0 >>
        /\ UNCHANGED << os, gens, secrets, public >>

NewGenerator ==
  /\ Len(gens) < MaxGens
  /\ IF OneKeyPerProcess /\ Len(gens) > 0
     THEN gens' = Append(gens, << gens[1][1], 0 >>) /\ UNCHANGED << os, prog, secrets >>
     ELSE IF KeysFromProgram
     THEN /\ gens' = Append(gens, << ProgToken(0), 0 >>) /\ prog' = << prog[1], prog[2] + 1 >>
          /\ secrets' = Append(secrets, ProgToken(0)) /\ UNCHANGED os
     ELSE /\ gens' = Append(gens, << OsToken, 0 >>) /\ os' = os + 1
          /\ secrets' = Append(secrets, OsToken) /\ UNCHANGED prog
  /\ UNCHANGED public

\* Tags come from the program-wide source; they are public, so that is allowed.
SplitPlain ==
  /\ Len(secrets) < MaxSplits
  /\ public' = public \cup {ProgToken(0)}
  /\ IF CoefsFromProgram
     THEN secrets' = Append(secrets, ProgToken(1)) /\ prog' = << prog[1], prog[2] + 2 >> /\ UNCHANGED os
     ELSE secrets' = Append(secrets, OsToken) /\ os' = os + 1 /\ prog' = << prog[1], prog[2] + 1 >>
  /\ UNCHANGED gens

\* Through a generator: tags, an encryption key (SSMS), coefficients.
SplitWith ==
  /\ Len(secrets) < MaxSplits
  /\ \E g \in DOMAIN gens :
       LET start == IF Rewind THEN << gens[g][1], 0 >> ELSE gens[g] IN
       /\ public' = public \cup {GenToken(start, 0)}
       /\ secrets' = secrets \o << GenToken(start, 1), GenToken(start, IF CoefsOverlapKey THEN 1 ELSE 2) >>
       /\ gens' = [gens EXCEPT ![g] = << start[1], start[2] + 3 >>]
  /\ UNCHANGED << os, prog >>

Next == Seed \/ NewGenerator \/ SplitPlain \/ SplitWith
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* C04: no secret token serves twice.
NeverReused == \A i, j \in DOMAIN secrets : i < j => secrets[i] # secrets[j]
\* C04: no secret token can be computed from the seed.
RECURSIVE Known(_)
Known(t) == \/ t[1] = "prog"
            \/ t[1] = "gen" /\ Known(t[2])
Unpredictable == \A i \in DOMAIN secrets : ~Known(secrets[i])
\* What is public is never secret too.
PublicApart == \A i \in DOMAIN secrets : secrets[i] \notin public
===============================================================================
