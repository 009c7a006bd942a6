------------------------------ MODULE DynBuffer ------------------------------
(* The dynamic buffer views of asioext/linear_buffer.hpp.

   A linear buffer holds some bytes; a view splits them into the input
   sequence and, after prepare(), the output sequence behind it. Two protocols
   exist: prepare/commit/consume (v1) and grow/shrink/consume (v2). A view is
   used with one of them.                                                    *)
EXTENDS Integers, Sequences

CONSTANT Big          \* any limit of Big or more

VARIABLES lim,        \* maximum size of the linear buffer, -1: there is none yet
          vw,         \* is there a view, and of which protocol: "none", "v1", "v2"
          vmax,       \* maximum size of the view
          inp,        \* input sequence
          out,        \* output sequence (bytes the user put into the prepared region)
          ready,      \* a prepared region may be committed
          ret
vars == <<lim, vw, vmax, inp, out, ready, ret>>

Min(a, b) == IF a < b THEN a ELSE b
Drop(s, n) == SubSeq(s, Min(n, Len(s)) + 1, Len(s))
Take(s, n) == SubSeq(s, 1, Min(n, Len(s)))

Init == lim = -1 /\ vw = "none" /\ vmax = 0 /\ inp = <<>> /\ out = <<>> /\ ready = FALSE /\ ret = "ok"

Buffer(d, max) ==
  /\ Len(d) <= max
  /\ lim' = max /\ inp' = d /\ out' = <<>> /\ vw' = "none" /\ vmax' = 0 /\ ready' = FALSE /\ ret' = "ok"

\* A new view takes everything in the buffer as its input sequence.
View(max, p) ==
  /\ lim >= 0
  /\ Len(inp \o out) <= max
  /\ vw' = p /\ vmax' = Min(lim, max) /\ inp' = inp \o out /\ out' = <<>> /\ ready' = FALSE /\ ret' = "ok"
  /\ UNCHANGED lim

Fail(why) == ret' = why /\ UNCHANGED <<lim, vw, vmax, inp, out, ready>>

(* n bytes of space behind the input sequence, which the user fills with d. *)
Prepare(d, n, why) ==
  /\ vw = "v1"
  /\ IF n > vmax - Len(inp) THEN Fail(why)
     ELSE /\ Len(d) = n
          /\ out' = d /\ ready' = TRUE /\ ret' = "ok"
          /\ UNCHANGED <<lim, vw, vmax, inp>>

Commit(n) ==
  /\ vw = "v1" /\ ready
  /\ inp' = inp \o Take(out, n) /\ out' = <<>> /\ ret' = "ok"
  /\ UNCHANGED <<lim, vw, vmax, ready>>

Consume(n) ==
  /\ vw # "none"
  /\ inp' = Drop(inp, n) /\ ready' = FALSE /\ ret' = "ok"
  /\ UNCHANGED <<lim, vw, vmax, out>>

Grow(d, n) ==
  /\ vw = "v2"
  /\ IF n > vmax - Len(inp) THEN Fail("length_error")
     ELSE /\ Len(d) = n
          /\ inp' = inp \o d /\ ret' = "ok"
          /\ UNCHANGED <<lim, vw, vmax, out, ready>>

Shrink(n) ==
  /\ vw = "v2"
  /\ inp' = Take(inp, IF n >= Len(inp) THEN 0 ELSE Len(inp) - n) /\ ret' = "ok"
  /\ UNCHANGED <<lim, vw, vmax, out, ready>>

Move == vw # "none" /\ ret' = "ok" /\ UNCHANGED <<lim, vw, vmax, inp, out, ready>>

\* The region [pos, pos+n) of the underlying memory, as far as it exists.
Region(pos, n) == Take(Drop(inp \o out, pos), n)

WithinLimit == vw # "none" => Len(inp) + Len(out) <= vmax /\ vmax <= lim
=============================================================================
