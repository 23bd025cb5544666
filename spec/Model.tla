------------------------------- MODULE Model -------------------------------
(***************************************************************************)
(* The SDK and its environment as a state machine.  A program p (see       *)
(* Gen.tla) says which clients exist, which calls are made with which      *)
(* arguments, which replies, renderings and disturbances the environment   *)
(* may choose.  SDK steps (Emit, AskRender, Finish) come from Sdk.tla's    *)
(* Want; environment steps are nondeterministic.  Every property below is  *)
(* stated over the observable history only (wire, results, logs), not over *)
(* Want.  At the end of a behaviour its environment steps are printed as a *)
(* script, which the harness performs on the real SDK.                     *)
(***************************************************************************)
EXTENDS Gen

\* SDK steps run to completion before the environment moves (how the harness
\* drives the code), or interleave with it freely
CONSTANTS Eager, Export

VARIABLES p, env, cls, cs, nx, wire, res, log, hist, over
vars == << p, env, cls, cs, nx, wire, res, log, hist, over >>
View == << p, env, cls, cs, nx, wire, res, log, over >>

CId(k) == "c" \o ToString(k)
HasEnv == p.proc = "present"
TheEnv(e) == IF HasEnv THEN e ELSE <<>>

\* arguments as the SDK sees them: headers with lower-case names
NormHdr(d) == IF d.k = "hdr" THEN [k |-> "hdr", form |-> d.form,
                f |-> [i \in DOMAIN d.f |-> << Lower(Str(d.f[i][1])), Str(d.f[i][2]) >>]] ELSE d
NormArg(d) == IF d.k = "o"
              THEN O([i \in DOMAIN d.f |-> << d.f[i][1], NormHdr(d.f[i][2]) >>])
              ELSE IF d.k = "path" THEN [d EXCEPT !.segs = [i \in DOMAIN d.segs |-> Str(d.segs[i])],
                                                  !.q = [i \in DOMAIN d.q |-> << d.q[i][1], Str(d.q[i][2]) >>]]
              ELSE IF d.k = "ref" THEN TokId("id", d.call) ELSE d
NormArgs(a) == [i \in DOMAIN a |-> NormArg(a[i])]

\* a reply as the SDK sees it
View1(r) ==
  [kind |-> r.kind, status |-> r.status, ok |-> r.status >= 200 /\ r.status < 300,
   bt |-> IF r.bt = "raw" \/ r.status \in {204, 205, 304} THEN "text" ELSE r.bt,
   d |-> r.d, h |-> [i \in DOMAIN r.h |-> << Lower(Str(r.h[i][1])), Str(r.h[i][2]) >>],
   b64 |-> IF r.bt \in {"raw", "text"} THEN "b64" ELSE "",
   mime |-> IF r.bt \in {"raw", "text"} THEN O(<< <<"text", S("t")>> >>) ELSE Undef]

SetEnv(e, set) ==
  LET names == {set[i][1] : i \in DOMAIN set}
      val(n) == set[CHOOSE i \in DOMAIN set : set[i][1] = n][2]
  IN  [n \in (DOMAIN e \cup names) |-> IF n \in names THEN val(n) ELSE e[n]]
AddClient(c, e, s) == (s.c :> Client(s.key, s.opts, TheEnv(e), "version")) @@ c

RECURSIVE Setup(_, _, _, _)
Setup(steps, i, e, c) ==
  IF i > Len(steps) THEN << e, c >>
  ELSE IF steps[i].x = "env" THEN Setup(steps, i + 1, SetEnv(e, steps[i].set), c)
  ELSE IF steps[i].x = "new"
  THEN Setup(steps, i + 1, e, (steps[i].c :> Client(steps[i].key, steps[i].opts, IF p.proc = "present" THEN e ELSE <<>>, "version")) @@ c)
  ELSE Setup(steps, i + 1, e, c)

\* computed once
ASSUME TLCSet(1, TLCEval(Groups))
Init ==
  \E g \in DOMAIN TLCGet(1) : \E j \in DOMAIN TLCGet(1)[g] :
    /\ p = TLCGet(1)[g][j]
    /\ LET s == Setup(p.pre, 1, <<>>, <<>>) IN env = s[1] /\ cls = s[2]
    /\ cs = <<>> /\ nx = 0 /\ wire = <<>> /\ res = <<>> /\ log = <<>>
    /\ hist = p.pre
    /\ over = FALSE

N0 == Len(p.calls)
Issued == Len(cs)
ParOf(k) == IF p.calls[k].par # 0 THEN cs[p.calls[k].par] ELSE cs[k]
WantOf(k) == Want(cs[k], ParOf(k), p.renderer)

(******************************* SDK steps *********************************)
SdkCan(k) == WantOf(k).t \in {"emit", "render", "settle"}
NobodyCan == \A k \in DOMAIN cs : ~SdkCan(k)
EnvMayMove == ~Eager \/ NobodyCan \/ (Issued > 0 /\ Issued \in p.nd)

Ext == p.ext
\* the next call or disturbance comes in the same turn as the last call
MustGoOn == Issued \in p.nd /\ (Issued < N0 \/ nx < Len(Ext))
\* with many calls at once the order of their steps is fixed
SdkTurn(k) == p.ord \in {"seq", "any"} \/ (~MustGoOn /\ \A j \in DOMAIN cs : j < k => ~SdkCan(j))

Emit_(k) ==
  /\ SdkTurn(k) /\ WantOf(k).t = "emit"
  /\ LET r == WantOf(k).req
         n == Len(wire) + 1
     IN  /\ wire' = Append(wire, [i |-> k, req |-> r,
                       h |-> IF r.t = "req" THEN HeadersFor(cs[k].cl, r) ELSE <<>>,
                       origin |-> IF r.t = "req" THEN cs[k].cl.base.origin ELSE "elsewhere"])
         /\ cs' = [cs EXCEPT ![k] = OnEmit(@, n, r)]
  /\ UNCHANGED << p, env, cls, nx, res, log, hist, over >>
AskRender(k) ==
  /\ SdkTurn(k) /\ WantOf(k).t = "render"
  \* the order of asking cannot be told apart
  /\ cs' = [cs EXCEPT ![k] = OnRender(@, CHOOSE n \in WantOf(k).nodes : TRUE)]
  /\ UNCHANGED << p, env, cls, nx, wire, res, log, hist, over >>
Finish(k) ==
  /\ SdkTurn(k) /\ WantOf(k).t = "settle"
  /\ res' = Append(res, [i |-> k, x |-> WantOf(k).x])
  /\ cs' = [cs EXCEPT ![k] = OnSettle(@)]
  /\ UNCHANGED << p, env, cls, nx, wire, log, hist, over >>

(*************************** environment steps *****************************)
ExtBlocks(k) == \E j \in (nx + 1) .. Len(Ext) : Ext[j].bf # 0 /\ Ext[j].bf <= k
Issue ==
  LET k == Issued + 1
  IN
  /\ k <= N0 /\ EnvMayMove /\ ~ExtBlocks(k)
  /\ p.ord = "seq" => \A j \in DOMAIN cs : cs[j].done \/ ~p.calls[j].aw
  /\ LET c == p.calls[k]
         args == IF c.same # 0 THEN p.calls[c.same].args ELSE c.args
     IN  /\ cs' = Append(cs, NewCall(c.op, NormArgs(args), cls[c.c],
                                     IF c.par = 0 THEN "" ELSE CId(c.par), c.aw))
         /\ hist' = Append(hist, [x |-> "call", i |-> CId(k), c |-> c.c, op |-> c.op,
                                  args |-> IF c.same # 0 THEN <<>> ELSE c.args, aw |-> c.aw,
                                  par |-> IF c.par = 0 THEN "" ELSE CId(c.par),
                                  freeze |-> c.fr, same |-> IF c.same = 0 THEN "" ELSE CId(c.same),
                                  nodrain |-> k \in p.nd])
  /\ UNCHANGED << p, env, cls, nx, wire, res, log, over >>

\* which of the waiting calls the environment may move: any, or the one whose
\* turn it is
Rank(k) == CASE p.ord = "fifo" -> k [] p.ord = "lifo" -> N0 - k [] OTHER -> (k * 37 + Len(p.id) * 11) % 53
Waits(k) == cs[k].fl # 0 \/ (~cs[k].failed /\ \E m \in DOMAIN cs[k].asked : cs[k].asked[m] \notin DOMAIN cs[k].html)
InTurn(k) == p.ord \in {"seq", "any"} \/ \A j \in DOMAIN cs : (j # k /\ Waits(j)) => Rank(j) > Rank(k) \/ (Rank(j) = Rank(k) /\ j > k)
Pick1(s, n) == IF Len(s) = 0 THEN <<>> ELSE s[IF n <= Len(s) THEN n ELSE Len(s)]
Reply(k) ==
  /\ ~Eager \/ (NobodyCan /\ ~MustGoOn)
  /\ cs[k].fl # 0 /\ InTurn(k)
  /\ LET alts == Pick1(p.calls[k].reps, cs[k].sent)
     IN  \E j \in DOMAIN alts :
           LET r == View1(alts[j])
               c2 == OnReply(cs[k], r, TheEnv(env), HasEnv)
           IN  /\ cs' = [cs EXCEPT ![k] = [c2 EXCEPT !.logs = <<>>]]
               /\ log' = log \o [m \in DOMAIN c2.logs |-> [i |-> k, n |-> cs[k].fl, l |-> c2.logs[m],
                                    prod |-> EnvGet(TheEnv(env), "NODE_ENV") = S("production")]]
               /\ hist' = Append(hist, [x |-> "reply", i |-> CId(k), r |-> alts[j]])
  /\ UNCHANGED << p, env, cls, nx, wire, res, over >>
RenderDone(k) ==
  /\ ~Eager \/ (NobodyCan /\ ~MustGoOn)
  /\ ~cs[k].failed /\ InTurn(k)
  /\ \E m \in DOMAIN cs[k].asked :
       LET node == cs[k].asked[m] IN
       /\ node \notin DOMAIN cs[k].html
       /\ \E j \in DOMAIN p.calls[k].rend :
            LET good == p.calls[k].rend[j]
            IN  /\ cs' = [cs EXCEPT ![k] = IF good THEN OnRendered(@, node, S("html of " \o node))
                                           ELSE OnRenderFail(@, O(<< <<"id", S(node)>> >>))]
                /\ hist' = Append(hist, [x |-> "rendered", i |-> CId(k), ok |-> good, node |-> node])
  /\ UNCHANGED << p, env, cls, nx, wire, res, log, over >>
Disturb ==
  LET j == nx + 1
  IN
  /\ j <= Len(Ext) /\ EnvMayMove
  /\ Issued >= Ext[j].af
  /\ nx' = j
  /\ hist' = Append(hist, Ext[j].s)
  /\ env' = IF Ext[j].s.x = "env" THEN SetEnv(env, Ext[j].s.set) ELSE env
  /\ cls' = IF Ext[j].s.x = "new" THEN AddClient(cls, env, Ext[j].s) ELSE cls
  /\ UNCHANGED << p, cs, wire, res, log, over >>

Finished ==
  /\ Issued = N0 /\ nx = Len(Ext) /\ NobodyCan
  /\ \A k \in DOMAIN cs : cs[k].done \/ (~p.calls[k].aw /\ cs[k].fl = 0)
Stop ==
  /\ Finished /\ ~over
  /\ over' = TRUE
  /\ Export => PrintT("SC " \o ToJson([id |-> p.id, seed |-> p.id, renderer |-> p.renderer, proc |-> p.proc,
                                       about |-> p.about, steps |-> hist]))
  /\ UNCHANGED << p, env, cls, cs, nx, wire, res, log, hist >>
Stay == over /\ UNCHANGED vars

Next ==
  \/ \E k \in DOMAIN cs : Emit_(k) \/ AskRender(k) \/ Finish(k)
  \/ Issue \/ Disturb
  \/ \E k \in DOMAIN cs : Reply(k) \/ RenderDone(k)
  \/ Stop \/ Stay
Spec == Init /\ [][Next]_vars

(******************************* properties ********************************)
WireOf(k) == SelectSeq(wire, LAMBDA w : w.i = k)
ResOf(k)  == SelectSeq(res, LAMBDA r : r.i = k)
Op(k)     == p.calls[k].op
Ro(k)     == IF Len(cs[k].a) = 0 THEN O(<<>>) ELSE RoOf(cs[k].a, Len(cs[k].a))
HasRo(k)  == Len(cs[k].a) > 0
Bound(k)  == IF Op(k) = "emails.receiving.forward" THEN 3 ELSE 1
OkReply1(k, n) == Len(cs[k].resp) >= n /\ cs[k].resp[n].kind = "http" /\ cs[k].resp[n].ok

\* C05: never more than the documented requests, each after its predecessor's
\* success; exactly one result per call
InvOnce ==
  \A k \in DOMAIN cs :
    /\ Len(WireOf(k)) <= Bound(k)
    /\ Len(ResOf(k)) <= 1
    /\ \A n \in DOMAIN WireOf(k) : \A m \in 1 .. n - 1 : OkReply1(k, m)
\* C05: nothing after the call has settled
NothingLate == [][\A k \in DOMAIN cs : cs[k].done => Len(SelectSeq(wire', LAMBDA w : w.i = k)) = Len(WireOf(k))]_vars
\* C06: data exactly from a readable success, error otherwise, never rejected
\* except for content that could not be rendered
Last(s) == s[Len(s)]
InvResult ==
  \A j \in DOMAIN res :
    LET k == res[j].i  x == res[j].x  rs == cs[k].resp
    IN  CASE x.t = "reject" -> Len(WireOf(k)) = 0 /\ (cs[k].failed \/ p.renderer = "absent" \/ cs[k].par # "")
          [] x.t = "ok" -> Len(rs) > 0 /\ OkJson(Last(rs)) /\ x.h = << HDoc(Last(rs)) >>
                           /\ (Op(k) \notin {"contactProperties.get", "contactProperties.list"} => x.data = Last(rs).d)
          [] OTHER -> IF Len(rs) = 0 THEN x.h = << Null >> \/ cs[k].par # ""
                      ELSE IF OkJson(Last(rs)) THEN Op(k) = "emails.receiving.forward" /\ Len(rs) = 1
                      ELSE (Last(rs).kind = "http" /\ ~Last(rs).ok /\ Last(rs).bt = "json" /\ Last(rs).d.k = "o"
                              /\ cs[k].req.t = "req")
                           => (~x.e.made /\ x.e.d = Last(rs).d)
\* C07, C11: each request carries its own client's credentials, and requests
\* elsewhere carry nothing
InvOwn ==
  \A j \in DOMAIN wire :
    LET w == wire[j]  c == cs[w.i]
    IN  IF w.req.t = "dl" THEN w.h = <<>>
        ELSE /\ w.origin = cls[p.calls[w.i].c].base.origin
             /\ HasHeader(Custom(w.req.ro), "authorization")
                \/ HeaderOf(w.h, "authorization") = "Bearer " \o Str(cls[p.calls[w.i].c].key)
\* C09: the idempotency key on exactly its own request
InvIdem ==
  \A j \in DOMAIN wire :
    LET w == wire[j]
        own == Ro(w.i)
        key == Get(own, "idempotencyKey")
        final == Op(w.i) # "emails.receiving.forward" \/ w.req.m = "POST"
    IN  w.req.t = "req" =>
          IF final /\ w.req.m = "POST" /\ Truthy(key)
          THEN HeaderOf(w.h, "idempotency-key") = Str(key)
          ELSE HasHeader(w.h, "idempotency-key") => final /\ HasHeader(Custom(own), "idempotency-key")
\* C12: a refused call sends nothing; only documented refusals without requests
InvRefuse ==
  \A j \in DOMAIN res :
    LET k == res[j].i  x == res[j].x
    IN  (x.t = "err" /\ Len(WireOf(k)) = 0 /\ cs[k].par = "") =>
          x.e.made /\ x.e.name \in {"missing_required_field", "invalid_parameter", "validation_error"}
\* C13: a request with React content is sent only when all of it is rendered,
\* and carries that rendering
InvReact ==
  \A j \in DOMAIN wire :
    LET k == wire[j].i  w == wire[j]  c == cs[k]
    IN  Len(c.nodes) > 0 =>
          /\ \A n \in DOMAIN c.nodes : c.nodes[n] \in DOMAIN c.html
          /\ ~c.failed
          /\ IF w.req.body.d.k = "a"
             THEN \A n \in DOMAIN c.a[1].c :
                    Get(c.a[1].c[n], "react").k = "react" =>
                      Get(w.req.body.d.c[n], "html") = S("html of " \o Get(c.a[1].c[n], "react").v)
             ELSE Get(w.req.body.d, "html") = S("html of " \o c.nodes[1])
\* C15: a publish request names the id the first step returned
InvChain ==
  \A j \in DOMAIN wire :
    LET k == wire[j].i IN
    Op(k) = "chain.publish" =>
      LET q == cs[p.calls[k].par] IN
      /\ Len(q.resp) = 1 /\ OkJson(q.resp[1])
      /\ wire[j].req.segs = << "templates", Str(Get(q.resp[1].d, "id")), "publish" >>
\* C18: one entry per email, in order
InvBatch ==
  \A j \in DOMAIN wire :
    LET k == wire[j].i IN
    Op(k) \in {"batch.send", "batch.create"} =>
      /\ Len(wire[j].req.body.d.c) = Len(cs[k].a[1].c)
      /\ \A n \in DOMAIN cs[k].a[1].c :
           wire[j].req.body.d.c[n] =
             Plan("emails.send", << cs[k].a[1].c[n] >>, cs[k].html).body.d
      /\ HasHeader(Custom(Ro(k)), "x-batch-validation")
         \/ HeaderOf(wire[j].h, "x-batch-validation") \in {"strict", "permissive"}
\* C21: one log line for each failed API request outside production
Failed1(r) == ~OkJson(r)
InvLog ==
  /\ \A j \in DOMAIN log : HasEnv /\ ~log[j].prod /\ wire[log[j].n].req.t = "req"
  /\ \A a, b \in DOMAIN log : log[a].n = log[b].n => a = b
\* C10: clients keep their configuration
ClientsFixed == [][\A c \in DOMAIN cls : cls'[c] = cls[c]]_vars
\* every call settles: no behaviour ends before Finished (checked as deadlock)
=============================================================================
