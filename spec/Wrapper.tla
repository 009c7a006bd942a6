------------------------------ MODULE Wrapper ------------------------------
\* Handlers wrapped in layers: "b" layers bind arguments, "c" layers are
\* composed operations; both can hold work on contexts. Invoking a wrapper runs
\* its layers from the outermost inwards; a composed operation decides (ds) each
\* time it is resumed whether it goes on later ("again"), completes ("complete",
\* "bound") or is dropped.
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NS, NCtx
VARIABLES w, hs, posted, calls, impls, dels
wvars == <<w, hs, posted, calls, impls, dels>>
\* w[s]: [h, ls] (h = 0: nothing); hs[h]: [ex (0: none of its own), al, st]
\* posted: [h, ls, at, ds, to] waiting in context at
NoW == [h |-> 0, ls |-> <<>>]
NoP == [h |-> 0, ls |-> <<>>, at |-> 0, ds |-> <<>>, to |-> 0]
Slots == 1 .. NS
Ctxs == 1 .. NCtx
Init == /\ w = [s \in Slots |-> NoW] /\ hs = <<>> /\ posted = NoP
        /\ calls = <<>> /\ impls = <<>> /\ dels = {}
\* the argument list a wrapper can be invoked with is empty except for composed operations and handlers
WellFormed(ls) == \A i \in 1 .. Len(ls) :
  (ls[i].k = "b" /\ i < Len(ls) /\ ls[i + 1].k = "b") => ls[i].args = <<>>
Work(ls) == UNION {ls[i].work : i \in 1 .. Len(ls)}

Quiet == calls' = <<>> /\ impls' = <<>> /\ dels' = {}
Make(s, ex, al, ls) ==
  /\ w[s].h = 0 /\ WellFormed(ls)
  /\ hs' = Append(hs, [ex |-> ex, al |-> al, st |-> "held"])
  /\ w' = [w EXCEPT ![s] = [h |-> Len(hs) + 1, ls |-> ls]]
  /\ Quiet /\ UNCHANGED posted
Move(s, t) == /\ w[s].h # 0 /\ w[t].h = 0 /\ w' = [w EXCEPT ![t] = w[s], ![s] = NoW]
              /\ Quiet /\ UNCHANGED <<hs, posted>>
Del(s) == /\ w[s].h # 0 /\ w' = [w EXCEPT ![s] = NoW] /\ dels' = {w[s].h}
          /\ hs' = [hs EXCEPT ![w[s].h].st = "dropped"]
          /\ calls' = <<>> /\ impls' = <<>> /\ UNCHANGED posted

\* outcome of running layers ls with arguments args and decisions ds:
\* [calls, impls, left (the layers that go on), end: "called", "dropped" or "held"]
RECURSIVE Run(_, _, _)
Run(ls, args, ds) ==
  IF ls = <<>> THEN [calls |-> <<args>>, impls |-> <<>>, left |-> <<>>, end |-> "called"]
  ELSE LET l == Head(ls) IN
    IF l.k = "b" THEN Run(Tail(ls), l.args, ds)
    ELSE LET d == Head(ds)
             stop(left, end) == [calls |-> <<>>, impls |-> <<args>>, left |-> left, end |-> end]
         IN CASE d.k = "again" -> stop(ls, "held")
              [] d.k = "drop" -> stop(<<>>, "dropped")
              [] d.k = "bound" -> stop(<<[k |-> "b", args |-> d.args, work |-> l.work]>> \o Tail(ls), "held")
              [] d.k = "complete" -> LET r == Run(Tail(ls), d.args, Tail(ds)) IN [r EXCEPT !.impls = <<args>> \o @]
NC(ls) == Cardinality({i \in 1 .. Len(ls) : ls[i].k = "c"})
\* enough decisions, and none passes arguments to a nullary wrapper
RECURSIVE Fits(_, _)
Fits(ls, ds) ==
  IF ls = <<>> THEN ds = <<>>
  ELSE IF Head(ls).k = "b" THEN Fits(Tail(ls), ds)
  ELSE /\ ds # <<>>
       /\ LET d == Head(ds) IN
          CASE d.k \in {"again", "drop"} -> Tail(ds) = <<>>
            [] d.k = "bound" -> Tail(ds) = <<>> /\ (Len(ls) > 1 /\ ls[2].k = "b" => d.args = <<>>)
            [] d.k = "complete" -> /\ Len(ls) > 1 /\ ls[2].k = "b" => d.args = <<>>
                                   /\ Fits(Tail(ls), Tail(ds))
\* x: the wrapper that runs; the slot "to" takes what goes on; w0: slots before
Ran(x, to, ds, w0, p) ==
  LET r == Run(x.ls, <<>>, ds) IN
  /\ Fits(x.ls, ds) /\ w0[to].h = 0
  /\ w' = IF r.end = "held" THEN [w0 EXCEPT ![to] = [h |-> x.h, ls |-> r.left]] ELSE w0
  /\ hs' = [hs EXCEPT ![x.h].st = r.end]
  /\ calls' = [i \in 1 .. Len(r.calls) |-> [h |-> x.h, args |-> r.calls[i], ctx |-> p, work |-> Work(x.ls)]]
  /\ impls' = [i \in 1 .. Len(r.impls) |-> [h |-> x.h, args |-> r.impls[i], ctx |-> p]]
  /\ dels' = IF r.end = "held" THEN {} ELSE {x.h}
Invoke(s, to, ds) == w[s].h # 0 /\ Ran(w[s], to, ds, [w EXCEPT ![s] = NoW], 0) /\ UNCHANGED posted
Post(s, c, to, ds) ==
  /\ w[s].h # 0 /\ posted.h = 0 /\ Fits(w[s].ls, ds)
  /\ posted' = [h |-> w[s].h, ls |-> w[s].ls, at |-> c, ds |-> ds, to |-> to]
  /\ w' = [w EXCEPT ![s] = NoW] /\ Quiet /\ UNCHANGED hs
\* a posted wrapper runs on the executor of the handler it wraps
Dest(p) == IF hs[p.h].ex = 0 THEN p.at ELSE hs[p.h].ex
Poll(c) ==
  IF posted.at # c THEN Quiet /\ UNCHANGED <<w, hs, posted>>
  ELSE IF Dest(posted) # c THEN Quiet /\ posted' = [posted EXCEPT !.at = Dest(posted)] /\ UNCHANGED <<w, hs>>
  ELSE Ran([h |-> posted.h, ls |-> posted.ls], posted.to, posted.ds, w, c) /\ posted' = NoP

Busy(c) == \E s \in Slots : w'[s].h # 0 /\ c \in Work(w'[s].ls)

\* --- what must hold
Held == {h \in 1 .. Len(hs) : hs[h].st = "held"}
OneOwner == /\ \A s, t \in Slots : (s # t /\ w[s].h # 0) => w[s].h # w[t].h
            /\ Held = ({w[s].h : s \in Slots} \cup {posted.h}) \ {0}
CalledOnce == \A h \in 1 .. Len(hs) : Cardinality({i \in 1 .. Len(calls) : calls[i].h = h}) <= 1
Final == [][\A h \in 1 .. Len(hs) : hs[h].st # "held" => hs'[h].st = hs[h].st /\ (\A i \in 1 .. Len(calls') : calls'[i].h # h)]_wvars
=============================================================================
