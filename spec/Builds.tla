------------------------------- MODULE Builds -------------------------------
(***************************************************************************)
(* The configurations of the crate.  A build is a choice of features and a  *)
(* profile; it offers some kinds of questions, and the answer to a question *)
(* may depend on the question only.  The machine makes builds one after     *)
(* another, asks each what it offers, and remembers the first answer to     *)
(* each question; `Answer` is what an implementation does, here any         *)
(* function of the question alone.                                          *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

Features == {"std", "ascii", "json", "svg", "image"}
Profiles == {"dev", "release"}
AllBuilds == [features : SUBSET Features, profile : Profiles]
\* What a build with these features can be asked.
Offers(fs) == {"barcode"} \cup (fs \cap {"ascii", "json", "svg"})
              \cup (IF {"image", "std"} \subseteq fs THEN {"image"} ELSE {})
\* Builds for targets without the standard library.
Bare(fs) == "std" \notin fs

CONSTANTS Questions,   \* numbers of questions of each kind
          Demanded     \* the builds that must be made
VARIABLES done, settled
buildVars == <<done, settled>>
Answer(kind, q) == <<kind, q>>
Init == done = {} /\ settled = {}
Make(b) == /\ b \notin done /\ done' = done \cup {b}
           /\ settled' = settled \cup {<<k, q, Answer(k, q)>> : k \in Offers(b.features), q \in Questions}
Next == \E b \in Demanded : Make(b)
Spec == Init /\ [][Next]_buildVars /\ WF_buildVars(Next)

\* No two builds answer a question differently.
OneAnswer == \A x, y \in settled : x[1] = y[1] /\ x[2] = y[2] => x[3] = y[3]
\* More features never take answers away.
Monotone == \A f, g \in SUBSET Features : f \subseteq g => Offers(f) \subseteq Offers(g)
\* The full build offers everything any build offers, so comparing with it compares all.
FullOffersAll == \A f \in SUBSET Features : Offers(f) \subseteq Offers(Features)
AllMade == <>(done = Demanded)

MCDemanded == {b \in AllBuilds : b.profile = "dev" /\ Cardinality(b.features) \in {0, 1, 4, 5}}
              \cup {b \in AllBuilds : b.profile = "release" /\ b.features \in {{}, Features}}
=============================================================================
