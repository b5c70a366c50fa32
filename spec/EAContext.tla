----------------------------- MODULE EAContext -----------------------------
(***************************************************************************)
(* Contexts for measuring widths.  A context is forced or not, may have a  *)
(* script ("" if not) and the language of a locale ("" if none).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
EAScripts == {"Bopo", "Hanb", "Hani", "Hans", "Hant", "Hang", "Hira", "Kana", "Jpan", "Kore", "Hrkt",
              "Batk", "Beng", "Bugi", "Mymr", "Cham", "Java", "Khmr", "Laoo", "Lisu", "Mtei", "Thai", "Yiii",
              "Bali", "Khar", "Rjng", "Tglg", "Buhd", "Tagb", "Lana", "Plrd", "Jamo", "Kitl", "Kits",
              "Nkdb", "Nkgb", "Roro", "Wole"}
OtherScripts == {"Latn", "Cyrl", "Arab", "Hebr", "Grek", "Deva", "Armn", "Geor", "Ethi", "Taml", "Tibt"}
(* script a language is usually written with *)
LangScript == [zh |-> "Hans", zhTW |-> "Hant", ja |-> "Jpan", ko |-> "Kore", vi |-> "Latn", th |-> "Thai", mn |-> "Cyrl",
               my |-> "Mymr", km |-> "Khmr", lo |-> "Laoo", bn |-> "Beng", ii |-> "Yiii",
               en |-> "Latn", de |-> "Latn", fr |-> "Latn", es |-> "Latn", pt |-> "Latn", sv |-> "Latn", tr |-> "Latn",
               ru |-> "Cyrl", ar |-> "Arab", he |-> "Hebr", hi |-> "Deva", el |-> "Grek", hy |-> "Armn", ka |-> "Geor"]
(* languages that ask for wide characters in any script *)
EALangs == {"zh", "zhTW", "ja", "ko", "vi", "th", "mn", "my", "km"}
Langs == DOMAIN LangScript
Script(x) == IF x.s # "" THEN x.s ELSE IF x.g \in Langs THEN LangScript[x.g] ELSE "Latn"
Wide(x) == x.f \/ Script(x) \in EAScripts \/ x.g \in EALangs
Contexts == [f : BOOLEAN, s : EAScripts \cup OtherScripts \cup {""}, g : Langs \cup {""}]
(* whether the context is one the text of the property decides about: a     *)
(* script of its own together with a language that is East Asian because of *)
(* its usual script is not                                                  *)
Decided(x) == x.f \/ x.s = "" \/ x.g \in EALangs \cup {""} \/ LangScript[x.g] \notin EAScripts
=============================================================================
