------------------------------ MODULE WholeFile ------------------------------
(* Reading and writing whole files (F06). A content is <<k, from, n>>: the n bytes of the
   endless byte stream k that follow its byte number from; <<0, 0, 0>> if there are none.
   A file is a content, "absent" or "dir". *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Names
VARIABLES file
wfvars == <<file>>
None == <<0, 0, 0>>
C(k, from, n) == IF n <= 0 THEN None ELSE <<k, from, n>>
Len3(c) == c[3]
Part(c, from, n) == C(c[1], c[2] + from, n)
Min(a, b) == IF a < b THEN a ELSE b
Absent == <<-1, 0, 0>>
Dir == <<-2, 0, 0>>
IsFile(f) == file[f][1] >= 0
WFInit == file = [f \in Names |-> Absent]
Put(f, c) == file' = [file EXCEPT ![f] = c]

\* inj: what was made to fail, as a sequence of <<function, error>>, interruptions and short transfers left out.
\* What matters when reading is that everything was read; a file that could not be closed has still been read.
Fatal(inj) == SelectSeq(inj, LAMBDA x : x[1] # "close")
\* from is where the handle stands (0 for a path); max: what the container can hold; got, err: what came of it; at: where the handle stands then.
\* A container that can hold it all but can't grow now (grows = FALSE) passes on its own error
ReadRaw(f, path, from, max, grows, inj, got, err, at) ==
  /\ UNCHANGED file
  /\ IF Fatal(inj) # <<>> THEN err = Fatal(inj)[1][2]
     ELSE IF file[f] = Absent THEN err = "ENOENT"
     ELSE IF file[f] = Dir THEN err \in {"EISDIR", "message_size", "bad_alloc", "length_error"}
     ELSE LET n == Len3(file[f])
          IN IF n > max THEN err \in {"message_size", "length_error"} \/ (from > 0 /\ (err # "ok" \/ (got = Part(file[f], from, n - from) /\ n - from <= max)))
             ELSE IF ~grows /\ n > 0 THEN err \in {"bad_alloc", "ENOMEM"} \/ (from > 0 /\ err # "ok")
             ELSE IF from = 0 THEN err = "ok" /\ got = Part(file[f], 0, n) /\ (path \/ at = n)
             \* the handle should have been at the beginning: an error, or what is left
             ELSE err # "ok" \/ (got = Part(file[f], from, n - from) /\ (path \/ at >= n))
\* into buffers of tot bytes
ReadBuf(f, path, from, tot, inj, got, err, at) ==
  /\ UNCHANGED file
  /\ IF Fatal(inj) # <<>> THEN err = Fatal(inj)[1][2]
     ELSE IF file[f] = Absent THEN err = "ENOENT"
     ELSE IF file[f] = Dir THEN err = "EISDIR" \/ (tot = 0 /\ err = "ok")
     ELSE IF Len3(file[f]) - from >= tot \/ tot = 0 THEN err = "ok" /\ got = Part(file[f], from, tot) /\ (path \/ at = from + tot)
     ELSE err = "eof"
\* write q to f. A write that failed has left some of it there; one that could not be closed, all of it
Write(f, q, inj, intr, err, now) ==
  /\ LET how == IF inj = <<>> THEN "none" ELSE inj[1][1]
     IN CASE how = "open" -> err = inj[1][2] /\ now = file[f]
          [] how = "write" -> err = inj[1][2] /\ now[3] <= q[3] /\ now = Part(q, 0, now[3])
          [] how = "close" -> err = inj[1][2] /\ now = q
          [] OTHER -> IF file[f] = Dir THEN err = "EISDIR" /\ now = Dir
                      ELSE now = q /\ (err = "ok" \/ (intr /\ err = "EINTR"))
  /\ Put(f, now)
=============================================================================
