------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* The memory the decoder reserves.  A header claims a size; the reader    *)
(* delivers some bytes and ends.  The decoder keeps what has arrived in    *)
(* buffers that it enlarges when they are full, by no more than doubling,  *)
(* and copies the parts of what has arrived a bounded number of times.     *)
(*                                                                         *)
(* Checked: all that was ever allocated stays within a budget that depends *)
(* on the bytes delivered only.  The claim is part of the state so that    *)
(* the invariant speaks of every claim; no action may read it, since the   *)
(* decoder learns whether it is true only at the end.                      *)
(***************************************************************************)
EXTENDS Integers

\* KiB that may be allocated for so many bytes: buffers of fixed size, and
\* some copies of every byte (a header line of a few bytes costs a string,
\* a node and a share of a list that grows by doubling)
Budget(bytes) == 384 + (bytes * 60) \div 1024
=============================================================================
