------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks recorded executions of the real SDK (one event per line of the   *)
(* trace file) against Sdk.tla.  The next state is determined by the next  *)
(* event, so TLC walks one behaviour per trace file; every difference is   *)
(* printed as a line "MM {...}" and the walk goes on from the state the    *)
(* specification prescribes.                                               *)
(***************************************************************************)
EXTENDS Sdk, Hooks, Paging, Json, IOUtils, TLCExt
KS == INSTANCE Store

Events == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, st
vars == << i, st >>

NoState == [id |-> "", renderer |-> "ok", hasEnv |-> TRUE, ver |-> "", env |-> <<>>,
            cls |-> <<>>, cs |-> <<>>,
            \* the server's resources, those the user has in mind, and what the
            \* calls are expected to result in
            store |-> FALSE, srv |-> <<>>, abs |-> <<>>, exps |-> <<>>]

ToEnv(pairs) == [x \in {pairs[j][1] : j \in DOMAIN pairs} |->
                   pairs[CHOOSE j \in DOMAIN pairs : pairs[j][1] = x][2]]

Put(f, key, val) == (key :> val) @@ f
Has(f, key)      == key \in DOMAIN f

Parent(s, c) == IF c.par # "" /\ Has(s.cs, c.par) THEN s.cs[c.par] ELSE c
W(s, c)      == Want(c, Parent(s, c), s.renderer)

\* a step: the new scenario state and the differences found
R(s, tags)   == [s |-> s, tags |-> tags]
SetC(s, id, c) == [s EXCEPT !.cs = Put(@, id, c)]

OpOf(s, ev) == IF "i" \in DOMAIN ev /\ Has(s.cs, ev.i) THEN s.cs[ev.i].op ELSE ""

StepNew(s, ev) ==
  LET cl == Client(ev.key, ev.opts, IF s.hasEnv THEN s.env ELSE <<>>, s.ver)
      tags == IF cl.ok # (ev.out = "ok") THEN << T("cfg.key", ev.out) >>
              ELSE IF ~cl.ok THEN <<>>
              ELSE (IF ev.base # cl.base.href THEN << T("cfg.base", ev.base) >> ELSE <<>>)
                \o (IF ev.ua # cl.ua.v THEN << T("cfg.ua", ev.ua) >> ELSE <<>>)
  IN  R([s EXCEPT !.cls = Put(@, ev.c, cl)], tags)

StepFetch(s, ev) ==
  LET leak == [j \in DOMAIN ev.leak |-> T("leak", ev.leak[j])]
  IN
  IF ~Has(s.cs, ev.i) THEN R(s, << T("req.unexpected", "no call " \o ev.m) >> \o leak)
  ELSE LET c == s.cs[ev.i]
           w == W(s, c)
       IN  IF c.broken THEN R(s, leak)
           ELSE IF w.t # "emit"
           THEN R(SetC(s, ev.i, [c EXCEPT !.broken = TRUE]),
                  << T("req.unexpected", w.t \o " " \o ev.m \o (IF c.done THEN " late" ELSE "")) >> \o leak)
           ELSE R(SetC(s, ev.i, OnEmit(c, ev.n, w.req)), RequestTags(c.cl, w.req, ev) \o leak)

\* the server of Store.tla answered
Served(s, ev) ==
  LET ans == KS!Serve(s.srv, ev.sv.m, ev.sv.segs, ev.sv.body, ev.sv.ids)
      c == s.cs[ev.i]
  IN  IF ~Assert(ans.status = ev.sv.status /\ Same(ans.d, ev.sv.d), << "harness server", ev, ans >>) THEN s
      \* a call has its effect once, however often it asks
      ELSE IF Has(s.exps, ev.i) THEN [s EXCEPT !.srv = ans.st]
      ELSE LET x == KS!Abs(s.abs, c.op, c.a, ev.sv.ids)
           IN  [s EXCEPT !.srv = ans.st, !.abs = x.st, !.exps = Put(@, ev.i, x)]
StoreTags(s, ev) ==
  IF ~s.store THEN <<>>
  ELSE IF ~Has(s.exps, ev.i) THEN << T("store.norequest", "") >>
  ELSE IF ~ev.ok THEN << T("store.result", "rejects: " \o Str(Get(ev.v, "message"))) >>
  ELSE LET d == KS!StoreDiff(s.exps[ev.i], Json(Get(ev.v, "data")), Get(ev.v, "error"))
       IN  IF d = "" THEN <<>> ELSE << T("store.result", d) >>

StepResp(s0, ev) ==
  LET s == IF "sv" \in DOMAIN ev /\ Has(s0.cs, ev.i) THEN Served(s0, ev) ELSE s0 IN
  IF ~Has(s.cs, ev.i) \/ s.cs[ev.i].fl # ev.n THEN R(s, <<>>)
  ELSE R(SetC(s, ev.i, OnReply(s.cs[ev.i], ev.r, s.env, s.hasEnv)), <<>>)

StepRender(s, ev) ==
  IF ~Has(s.cs, ev.i) THEN R(s, << T("render.unexpected", ev.node) >>)
  ELSE LET c == s.cs[ev.i]
           w == W(s, c)
       IN  IF c.broken \/ c.failed THEN R(s, <<>>)
           ELSE IF w.t = "render" /\ ev.node \in w.nodes THEN R(SetC(s, ev.i, OnRender(c, ev.node)), <<>>)
           \* the same element again: it renders to the same text
           ELSE IF w.t # "settle" /\ c.sent = 0 /\ ev.node \in ToRender(c) THEN R(s, <<>>)
           ELSE R(SetC(s, ev.i, [c EXCEPT !.broken = TRUE]), << T("render.unexpected", ev.node) >>)

StepRendered(s, ev) ==
  IF ~Has(s.cs, ev.i) THEN R(s, <<>>)
  ELSE LET c == s.cs[ev.i]
       IN  IF c.failed THEN R(s, <<>>)
           ELSE R(SetC(s, ev.i, IF ev.ok THEN OnRendered(c, ev.node, ev.v) ELSE OnRenderFail(c, ev.v)), <<>>)

StepSettle(s, ev) ==
  LET c == s.cs[ev.i]
      w == W(s, c)
      leak == [j \in DOMAIN ev.leak |-> T("leak", "result " \o ev.leak[j])] \o StoreTags(s, ev)
      cls == IF ev.ok THEN IF Get(ev.v, "error").k # "z" THEN "res.refused" ELSE "res.early" ELSE "res.rejected"
  IN  IF c.broken THEN R(SetC(s, ev.i, OnSettle(c)), leak)
      ELSE IF w.t # "settle"
      THEN R(SetC(s, ev.i, [OnSettle(c) EXCEPT !.broken = TRUE]),
             << T(cls, w.t \o ": " \o Str(Get(IF ev.ok THEN Get(ev.v, "error") ELSE ev.v, "message"))) >> \o leak)
      ELSE R(SetC(s, ev.i, OnSettle(c)),
             SettleTags(w.x, ev) \o leak
             \o (IF ev.ok /\ ~IsUndef(c.logged) /\ ~Same(c.logged, Get(ev.v, "error"))
                 THEN << T("log.error", Diff(c.logged, Get(ev.v, "error"), "")) >> ELSE <<>>))

LogTags(l, ev) ==
     (IF ErrorDiff(l.e, ev.error) # "" THEN << T("log.error", ErrorDiff(l.e, ev.error)) >> ELSE <<>>)
  \o (IF ev.segs # l.segs THEN << T("log.path", ToString(ev.segs)) >>
      ELSE IF QueryDiff(l.q, ev.q) # "" THEN << T("log.path", "query") >> ELSE <<>>)
  \o (IF ~\E j \in DOMAIN l.st : Same(l.st[j], ev.status) THEN << T("log.status", "") >> ELSE <<>>)
StepLog(s, ev) ==
  LET leak == [j \in DOMAIN ev.leak |-> T("leak", "log " \o ev.leak[j])]
  IN IF ~Has(s.cs, ev.i) THEN R(s, << T("log.unexpected", ev.m) >> \o leak)
     ELSE LET c == s.cs[ev.i]
          IN  IF c.broken THEN R(s, leak)
              ELSE IF Len(c.logs) = 0 \/ ev.m # "error" THEN R(s, << T("log.unexpected", ev.m) >> \o leak)
              ELSE R(SetC(s, ev.i, [c EXCEPT !.logs = Tail(@), !.logged = ev.error]),
                     LogTags(Head(c.logs), ev) \o leak)

\* nothing is running any more: nobody may owe anything but the environment
Owed(s, id) ==
  LET c == s.cs[id]
      w == W(s, c)
  IN  IF c.broken THEN <<>>
      ELSE (IF Len(c.logs) # 0 THEN << T("log.missing", "") >> ELSE <<>>)
        \o CASE w.t = "emit"   -> << T("req.missing", "") >>
             \* one at a time or all at once
             [] w.t = "render" /\ ~\E k \in DOMAIN c.asked : c.asked[k] \notin DOMAIN c.html -> << T("render.missing", "") >>
             [] w.t = "settle" /\ c.aw -> << T("res.missing", "") >>
             [] OTHER -> <<>>
RECURSIVE OwedAll(_, _, _)
OwedAll(s, ids, k) ==
  IF k > Len(ids) THEN <<>>
  ELSE LET o == Owed(s, ids[k]) IN [j \in DOMAIN o |-> << ids[k], o[j] >>] \o OwedAll(s, ids, k + 1)
Settled(s, ids) ==
  [s EXCEPT !.cs = [id \in DOMAIN s.cs |->
     LET o == Owed(s, id) IN
     IF Len(o) = 0 THEN s.cs[id]
     ELSE [s.cs[id] EXCEPT !.logs = <<>>,
             !.broken = (@ \/ \E j \in DOMAIN o : o[j].c # "log.missing")]]]

StepArgs(s, ev) ==
  LET c == s.cs[ev.i]
      d == Diff(A(ev.before), A(ev.args), "")
  IN  R(s, IF d = "" THEN <<>> ELSE << T("arg.modified", d) >>)

\* a walk went over what the collection has, and stopped
StepWalk(s, ev) ==
  LET bad(x, y) == Diff(x, y, "")
  IN  R(s, (IF bad(ev.wantSeen, ev.seen) # "" THEN << T("page.visited", "forward " \o bad(ev.wantSeen, ev.seen) \o " " \o ev.failed) >>
            ELSE IF bad(ev.wantBack, ev.back) # "" THEN << T("page.visited", "back " \o bad(ev.wantBack, ev.back) \o " " \o ev.failed) >> ELSE <<>>)
        \o (IF ~ev.over THEN << T("page.more", ev.failed) >> ELSE <<>>))
\* the harness's server is Paging's
ServerOk(ev) ==
  "pg" \in DOMAIN ev =>
    Assert(ServerPage(ev.pg.items, ev.pg.q) = [ok |-> ev.pg.ok, ids |-> ev.pg.ids, more |-> ev.pg.more], << "harness server", ev >>)

Step(s, ev) ==
  CASE ev.e = "scn" -> R([NoState EXCEPT !.id = ev.id, !.renderer = ev.renderer,
                            !.hasEnv = ev.hasEnv, !.ver = ev.ver, !.store = ev.store], <<>>)
    [] ev.e = "env"      -> R([s EXCEPT !.env = ToEnv(ev.env)], <<>>)
    [] ev.e = "new"      -> StepNew(s, ev)
    [] ev.e = "call"     -> R(SetC(s, ev.i, NewCall(ev.op, ev.args, s.cls[ev.c], ev.par, ev.aw)), <<>>)
    [] ev.e = "render"   -> StepRender(s, ev)
    [] ev.e = "rendered" -> StepRendered(s, ev)
    [] ev.e = "fetch"    -> StepFetch(s, ev)
    [] ev.e = "resp"     -> StepResp(s, ev)
    [] ev.e = "settle"   -> StepSettle(s, ev)
    [] ev.e = "log"      -> StepLog(s, ev)
    [] ev.e = "args"     -> StepArgs(s, ev)
    [] ev.e = "walk"     -> StepWalk(s, ev)
    [] ev.e = "hook"     -> R(s, HookTags(ev))
    [] ev.e = "quiet"    -> R(Settled(s, ev.ids), <<>>)
    [] ev.e = "unhandled" ->
         \* a failed rendering may surface through a promise nobody waits for
         R(s, IF s.renderer = "absent" \/ \E id \in DOMAIN s.cs : s.cs[id].failed THEN <<>>
              ELSE << T("res.unhandled", Str(Get(ev.v, "message"))) >>)
    [] OTHER             -> R(s, <<>>)

Report(s, id, tag) ==
  PrintT("MM " \o ToJson([s |-> s.id, line |-> i, call |-> id,
                          op |-> IF Has(s.cs, id) THEN s.cs[id].op ELSE IF "op" \in DOMAIN Events[i] THEN Events[i].op ELSE "", c |-> tag.c, d |-> tag.d]))

Init == i = 1 /\ st = NoState
Next ==
  /\ i <= Len(Events)
  /\ LET ev == Events[i]
         r  == Step(st, ev)
         srv == ServerOk(ev)
         ow == IF ev.e = "quiet" THEN OwedAll(st, ev.ids, 1) ELSE <<>>
     IN  /\ srv
         /\ \A j \in DOMAIN r.tags : Report(r.s, IF "i" \in DOMAIN ev THEN ev.i ELSE "", r.tags[j])
         /\ \A j \in DOMAIN ow : Report(st, ow[j][1], ow[j][2])
         /\ st' = r.s
         /\ i' = i + 1
Spec == Init /\ [][Next]_vars

\* the whole file was consumed
Done == TLCGet("stats").diameter = Len(Events) + 1
Post == PrintT("DONE " \o ToString(TLCGet("stats").diameter - 1) \o " of " \o ToString(Len(Events)))
=============================================================================
