------------------------------- MODULE Chunked -------------------------------
(***************************************************************************)
(* Frame of the trace specifications: the observations recorded from the   *)
(* Go code (one JSON object per line of file $OBS) are dealt out in chunks *)
(* and every observation is judged against the specification.  A chunk is  *)
(* judged in one step, thus TLC's workers judge chunks in parallel.        *)
(* The driver adds up the numbers reported, and a check fails unless every *)
(* single observation has been judged.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Obs       == ndJsonDeserialize(IOEnv.OBS)
ChunkSize == 100
NChunks   == (Len(Obs) + ChunkSize - 1) \div ChunkSize

VARIABLES ck,  \* number of a chunk
          ph   \* phase: 0 nothing dealt yet, 1 chunk ck dealt, 2 chunk ck judged

CInit == ck = 0 /\ ph = 0

Deal == ph = 0 /\ ph' = 1 /\ ck' \in 1..NChunks

Members == ((ck-1)*ChunkSize + 1)..(IF ck*ChunkSize < Len(Obs) THEN ck*ChunkSize ELSE Len(Obs))

(* Ok(o): o conforms to the specification.  Why(o): what the spec expects  *)
Judge(Ok(_), Why(_)) ==
  /\ ph = 1 /\ ph' = 2 /\ ck' = ck
  /\ LET bad == {i \in Members : ~Ok(Obs[i])}
     IN /\ \A i \in bad : PrintT("BAD " \o ToString(i) \o " expected " \o ToString(Why(Obs[i])))
        /\ PrintT("JUDGED " \o ToString(Cardinality(Members)))
=============================================================================
