------------------------------- MODULE Connect -------------------------------
(* Connecting a socket to a name: resolve it, try the endpoints in order, stop *)
(* at the first that accepts. What each endpoint does is fixed beforehand:     *)
(* "ok", "refuse", an error the system reports ("net_down", "host_down",       *)
(* "no_family"), or "slow": nothing happens until the caller intervenes.       *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES ph, form, plan, rerr, query, k, user, held
cvars == <<ph, form, plan, rerr, query, k, user, held>>
Kinds == {"ok", "refuse", "net_down", "host_down", "no_family", "slow"}
ErrOf == [x \in {"refuse", "net_down", "host_down", "no_family", "slow"} |->
            CASE x = "refuse" -> "connection_refused" [] x = "net_down" -> "network_unreachable" [] x = "host_down" -> "host_unreachable"
              [] x = "no_family" -> "address_family_not_supported" [] x = "slow" -> "operation_aborted"]
ResolveErrors == {"host_not_found", "host_not_found_try_again", "service_not_found", "no_recovery"}
NoQuery == [host |-> "", service |-> "", flags |-> 0]
\* held: the connection the socket had before (0 none, 1 established)
CInit == ph = "idle" /\ form = "sync" /\ plan = <<>> /\ rerr = "ok" /\ query = NoQuery /\ k = 0 /\ user = "none" /\ held = 0
Start(f, p, r, q, h) ==
  /\ ph = "idle" /\ ph' = "resolving" /\ form' = f /\ plan' = p /\ rerr' = r /\ query' = q /\ k' = 0 /\ user' = "none" /\ held' = h
Resolve(q) == /\ ph = "resolving" /\ user = "none" /\ q = query /\ ph' = IF rerr = "ok" THEN "trying" ELSE "failed"
              /\ UNCHANGED <<form, plan, rerr, query, k, user, held>>
\* the previous endpoint has failed, or the caller has cancelled the wait for it
Over(i) == IF i = 0 THEN TRUE ELSE IF plan[i] = "slow" THEN user = "cancel" ELSE plan[i] # "ok"
Attempt(i) == /\ ph = "trying" /\ i = k + 1 /\ i <= Len(plan) /\ Over(k) /\ user # "close"
              /\ k' = i /\ user' = "none" /\ held' = 0 /\ UNCHANGED <<ph, form, plan, rerr, query>>
Waiting == ph = "trying" /\ k > 0 /\ plan[k] = "slow" /\ user = "none"
Intervene(a) == /\ form = "async"
                /\ \/ a = "rcancel" /\ ph = "resolving" /\ user = "none"
                   \/ a \in {"cancel", "close"} /\ Waiting
                /\ user' = a /\ UNCHANGED <<ph, form, plan, rerr, query, k, held>>
Success == ph = "trying" /\ k > 0 /\ plan[k] = "ok"
\* Asio takes a socket it could not even open for one the caller has closed: what follows is left open.
Outcome ==
  IF Success THEN {"ok"}
  ELSE IF ph = "resolving" THEN (IF user = "rcancel" THEN {"operation_aborted"} ELSE {})
  ELSE IF ph = "failed" THEN {rerr}
  ELSE IF user \in {"close", "cancel"} THEN {"operation_aborted"}
  ELSE IF plan = <<>> THEN {"not_found"}
  ELSE (IF k = Len(plan) /\ Over(k) THEN {ErrOf[plan[k]]} ELSE {})
       \cup (IF form = "async" /\ k > 0 /\ plan[k] = "no_family" THEN {"operation_aborted"} ELSE {})
\* e: the error, ep: the endpoint reported, remote: the endpoint the socket is connected to, seen: the endpoints that saw a
\* connection, alive: of these, the ones whose connection is still open, prior: is the earlier connection still open
Finish(e, ep, remote, seen, alive, prior) ==
  /\ ph # "idle" /\ e \in Outcome
  /\ remote = IF e = "ok" THEN k ELSE 0
  /\ (form = "async" => ep = remote)
  /\ seen = IF e = "ok" THEN {k} ELSE {}
  /\ alive = seen
  /\ prior \in {0, held} /\ (k > 0 => prior = 0)
  /\ ph' = "idle" /\ k' = 0 /\ plan' = <<>> /\ user' = "none" /\ held' = 0 /\ rerr' = "ok" /\ query' = NoQuery /\ UNCHANGED form
=============================================================================
