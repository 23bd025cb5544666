-------------------------------- MODULE Sdk --------------------------------
(***************************************************************************)
(* The behaviour of a client of the SDK, as pure operators: how a client   *)
(* is configured, what a call must do next (Want), and how its state       *)
(* changes when something happens to it (On...).  Model.tla builds a state *)
(* machine from them and checks the properties on it; Trace.tla replays    *)
(* recorded executions of the real code against them.                      *)
(***************************************************************************)
EXTENDS Api, Integers

(************************** client configuration ***************************)
\* env: function from variable names to documents (Undef when not set)
EnvGet(env, name) == IF name \in DOMAIN env THEN env[name] ELSE Undef
\* explicit value, else environment (not empty), else default
KeyOf(key, env) == IF Truthy(key) THEN key ELSE EnvGet(env, "RESEND_API_KEY")
Setting(explicit, env, name, default) ==
  IF ~Absent(explicit) THEN explicit
  ELSE IF Truthy(EnvGet(env, name)) THEN EnvGet(env, name) ELSE default
DefaultBase == [k |-> "url", href |-> "https://api.resend.com",
                origin |-> "https://api.resend.com", pre |-> <<>>]
\* env is the empty function when no process environment exists
Client(key, opts, env, version) ==
  [ok   |-> Truthy(KeyOf(key, env)),
   key  |-> KeyOf(key, env),
   base |-> Setting(Get(opts, "baseUrl"), env, "RESEND_BASE_URL", DefaultBase),
   ua   |-> Setting(Get(opts, "userAgent"), env, "RESEND_USER_AGENT", S("resend-node:" \o version))]

(****************************** responses **********************************)
(* A reply is [kind: "net"] or [kind: "http", status, ok, bt: "json" |     *)
(* "text" | "fail", d: document, h: <<name, value>> pairs]                 *)
OkJson(r)   == r.kind = "http" /\ r.ok /\ r.bt = "json"
HDoc(r)     == O([i \in DOMAIN r.h |-> <<r.h[i][1], S(r.h[i][2])>>])
Status(r)   == N(ToString(r.status))

\* Outcomes.  An error is exact (d given) or made by the SDK: a name, the
\* acceptable status codes, any non-empty message.
Exact(d)           == [made |-> FALSE, d |-> d, name |-> "", st |-> <<>>]
Made(name, st)     == [made |-> TRUE, d |-> Undef, name |-> name, st |-> st]
Success(d, h)      == [t |-> "ok", data |-> d, h |-> << h >>]
Failure(e, hs)     == [t |-> "err", e |-> e, h |-> hs]
Rejection(e)       == [t |-> "reject", e |-> e]      \* e Undef: any error

\* The single mapping from replies of the API to results
ApiResult(r) ==
  IF r.kind = "net" THEN Failure(Made("application_error", << Null >>), << Null >>)
  ELSE IF r.ok
       THEN IF r.bt = "json" THEN Success(r.d, HDoc(r))
            ELSE Failure(Made("application_error", << Null, Status(r) >>), << Null, HDoc(r) >>)
       ELSE IF r.bt = "json" /\ r.d.k = "o" THEN Failure(Exact(r.d), << HDoc(r) >>)
            ELSE Failure(Made("application_error", << Status(r) >>), << HDoc(r) >>)

\* Contact properties are read back under the SDK's names
PropertyRead(p) ==
  IF ~Truthy(p) THEN p ELSE
  Pick(p, << <<"id", "id">>, <<"key", "key">>, <<"created_at", "createdAt">>,
             <<"type", "type">>, <<"fallback_value", "fallbackValue">> >>)
ReadBack(op, d) ==
  CASE op = "contactProperties.get" /\ d.k = "o" -> With(PropertyRead(d), "object", S("contact_property"))
    \* what is no page is passed on
    [] op = "contactProperties.list" /\ Get(d, "data").k = "a" -> With(d, "data", MapList(Get(d, "data"), PropertyRead))
    [] OTHER -> d
OpResult(op, r) ==
  LET x == ApiResult(r) IN IF x.t = "ok" THEN [x EXCEPT !.data = ReadBack(op, @)] ELSE x

(********************************* headers *********************************)
\* Custom headers as <<name, value>> pairs; the same name twice (list form,
\* or names differing in case) is one header with joined values
HeaderDoc(ro) == LET h == Get(ro, "headers") IN IF h.k = "hdr" THEN h.f ELSE <<>>
RECURSIVE JoinValues(_, _, _)
JoinValues(f, name, i) ==
  IF i > Len(f) THEN ""
  ELSE LET rest == JoinValues(f, name, i + 1)
       IN  IF f[i][1] # name THEN rest
           ELSE IF rest = "" THEN f[i][2] ELSE f[i][2] \o ", " \o rest
HasHeader(f, name) == \E i \in DOMAIN f : f[i][1] = name
HeaderOf(f, name)  == f[CHOOSE i \in DOMAIN f : f[i][1] = name][2]
Custom(ro) ==
  LET f == HeaderDoc(ro)
  IN  SelectSeq([i \in DOMAIN f |-> IF \E j \in 1 .. i-1 : f[j][1] = f[i][1]
                                    THEN <<"", "">> ELSE <<f[i][1], JoinValues(f, f[i][1], 1)>>],
                LAMBDA p : p[1] # "")
SetHeader(f, name, value) ==
  Append(SelectSeq(f, LAMBDA p : p[1] # name), <<name, value>>)
RECURSIVE Overlay(_, _, _)
Overlay(f, over, i) ==
  IF i > Len(over) THEN f ELSE Overlay(SetHeader(f, over[i][1], over[i][2]), over, i + 1)

\* The headers of an API request of client cl.  An idempotency key is an option
\* of POST requests only.
HeadersFor(cl, req) ==
  LET base == << <<"authorization", "Bearer " \o Str(cl.key)>>, <<"user-agent", Str(cl.ua)>>,
                 <<"content-type", IF req.body.t = "form" THEN "multipart/form-data" ELSE "application/json">> >>
      bv   == IF req.bv = "" THEN base ELSE SetHeader(base, "x-batch-validation", req.bv)
      over == Overlay(bv, Custom(req.ro), 1)
      key  == Get(req.ro, "idempotencyKey")
  IN  IF req.m = "POST" /\ Truthy(key) THEN SetHeader(over, "idempotency-key", Str(key)) ELSE over

(***************************** state of a call *****************************)
NoReply == [kind |-> "none"]
NewCall(op, a, cl, par, aw) ==
  [op |-> op, a |-> a, cl |-> cl, par |-> par, aw |-> aw,
   nodes |-> Nodes(op, a), asked |-> <<>>, html |-> <<>>, fail |-> Undef, failed |-> FALSE,
   sent |-> 0, fl |-> 0, resp |-> <<>>, req |-> [t |-> "none"],
   logs |-> <<>>, logged |-> Undef, done |-> FALSE, broken |-> FALSE]

ToRender(c) == {c.nodes[i] : i \in DOMAIN c.nodes}
Rendered(c) == ToRender(c) \subseteq DOMAIN c.html

(************************ forwarding a received email **********************)
Passthrough(c) == ~(Get(Arg(c.a, 1), "passthrough").k = "b" /\ Get(Arg(c.a, 1), "passthrough").v = "false")
DownloadUrl(email) == Get(Get(email, "raw"), "download_url")
Subject(email) == IF Get(email, "subject").k = "s" /\ Truthy(Get(email, "subject")) THEN Str(Get(email, "subject")) ELSE "(no subject)"
IsFwd(s) == Len(s) >= 4 /\ SubSeq(s, 1, 4) = "Fwd:"
OrNone(d) == IF Truthy(d) THEN d ELSE Undef
StripId(s) ==
  LET a == IF Len(s) > 0 /\ SubSeq(s, 1, 1) = "<" THEN SubSeq(s, 2, Len(s)) ELSE s
  IN  IF Len(a) > 0 /\ SubSeq(a, Len(a), Len(a)) = ">" THEN SubSeq(a, 1, Len(a) - 1) ELSE a
ForwardAttachment(x) ==
  LET cid == Get(x, "contentId")
      id  == IF Truthy(cid) THEN StripId(Str(cid)) ELSE ""
  IN  With(Pick(x, << <<"filename", "filename">>, <<"content", "content">>, <<"mimeType", "content_type">> >>),
           "content_id", IF id = "" THEN Undef ELSE S(id))
\* r: the reply to the download: b64 the raw bytes, mime their MIME reading
ForwardBody(c, email, r) ==
  LET o    == Arg(c.a, 1)
      head == Pick(o, << <<"from", "from">>, <<"to", "to">> >>)
      at   == Get(r.mime, "attachments")
  IN  IF Passthrough(c)
      THEN With(With(With(With(head, "subject", S(Subject(email))),
                "text", OrNone(Get(r.mime, "text"))),
                "html", OrNone(Get(r.mime, "html"))),
                "attachments", IF at.k = "a" /\ Len(at.c) > 0 THEN MapList(at, ForwardAttachment) ELSE Undef)
      ELSE With(With(With(With(head, "subject", S(IF IsFwd(Subject(email)) THEN Subject(email)
                                                  ELSE "Fwd: " \o Subject(email))),
                "text", Get(o, "text")), "html", Get(o, "html")),
                "attachments", A(<< O(<< <<"filename", S("forwarded_message.eml")>>,
                                         <<"content", S(r.b64)>>,
                                         <<"content_type", S("message/rfc822")>> >>) >>))
Download(url) == [t |-> "dl", url |-> url]

(*************************** what a call does next *************************)
Idle      == [t |-> "idle"]                 \* waits for its environment
Emit(r)   == [t |-> "emit", req |-> r]
Settle(x) == [t |-> "settle", x |-> x]
Local(name, st) == Failure(Made(name, << st >>), << Null >>)

\* the result of a finished plain call, or Idle: used by chained calls
PlainOutcome(c, renderer) ==
  IF c.failed THEN Rejection(c.fail)
  ELSE IF ~Rendered(c) /\ renderer = "absent" THEN Rejection(Undef)
  ELSE IF Len(c.resp) = 0 THEN [t |-> "unknown"] ELSE OpResult(c.op, c.resp[1])

WantForward(c) ==
  LET n == Len(c.resp)
  IN CASE n = 0 -> Emit(Plan(c.op, c.a, c.html))
       [] n = 1 ->
            IF ~OkJson(c.resp[1]) THEN Settle(ApiResult(c.resp[1]))
            ELSE IF ~Truthy(DownloadUrl(c.resp[1].d)) THEN Settle(Local("validation_error", N("400")))
            ELSE Emit(Download(Str(DownloadUrl(c.resp[1].d))))
       [] n = 2 ->
            LET r == c.resp[2]
            IN IF r.kind = "net" THEN Settle(Failure(Made("application_error", << Null >>), << Null >>))
               ELSE IF ~r.ok THEN Settle(Failure(Made("application_error", << Status(r) >>), << Null >>))
               ELSE IF r.bt = "fail" \/ (Passthrough(c) /\ IsUndef(r.mime))
                    THEN Settle(Failure(Made("application_error", << Null, Status(r) >>), << Null >>))
               ELSE Emit(POSTO(<<"emails">>, ForwardBody(c, c.resp[1].d, r), RoOf(c.a, 2)))
       [] OTHER -> Settle(ApiResult(c.resp[3]))

\* p: the call a chained call continues (any record for other operations)
WantChain(c, p, renderer) ==
  IF Len(c.resp) = 1 THEN Settle(ApiResult(c.resp[1]))
  ELSE LET x == PlainOutcome(p, renderer)
       IN  CASE x.t = "unknown" -> Idle
             \* there may be nothing to publish
             [] x.t = "ok" /\ ~Truthy(Get(x.data, "id")) -> Settle(Failure(Made("application_error", << Null >>), << Null >> \o x.h))
             [] x.t = "ok" -> Emit(Plan(c.op, << Get(x.data, "id") >>, <<>>))
             [] OTHER -> Settle(x)

Want(c, p, renderer) ==
  IF c.done THEN Idle
  ELSE IF c.failed THEN Settle(Rejection(c.fail))
  ELSE IF c.fl # 0 THEN Idle
  ELSE IF c.op = "chain.publish" THEN WantChain(c, p, renderer)
  ELSE IF c.op = "emails.receiving.forward" THEN WantForward(c)
  ELSE IF ~Rendered(c)
       THEN IF renderer = "absent" THEN Settle(Rejection(Undef))
            ELSE LET left == {n \in ToRender(c) : \A i \in DOMAIN c.asked : c.asked[i] # n}
                 IN  IF left = {} THEN Idle ELSE [t |-> "render", nodes |-> left]
  ELSE LET pl == Plan(c.op, c.a, c.html)
       IN  IF pl.t = "refuse" THEN Settle(Local(pl.name, Null))
           ELSE IF Len(c.resp) = 0 THEN Emit(pl) ELSE Settle(OpResult(c.op, c.resp[1]))

(************************** how a call's state changes *********************)
OnRender(c, node)         == [c EXCEPT !.asked = Append(@, node)]
OnRendered(c, node, html) == [c EXCEPT !.html = (node :> html) @@ @]
OnRenderFail(c, err)      == [c EXCEPT !.fail = err, !.failed = TRUE]
OnEmit(c, n, req)         == [c EXCEPT !.sent = @ + 1, !.fl = n, !.req = req]
\* logging: only API requests (not downloads), only outside production
LogDue(c, r, env) ==
  /\ c.req.t = "req"
  /\ ~OkJson(r)
  /\ ~(EnvGet(env, "NODE_ENV").k = "s" /\ EnvGet(env, "NODE_ENV").v = "production")
LogFor(c, r) == [e |-> ApiResult(r).e, segs |-> c.req.segs, q |-> c.req.q,
                 st |-> IF r.kind = "net" THEN << Undef >>
                        ELSE IF r.ok THEN << Undef, Status(r) >> ELSE << Status(r) >>]
OnReply(c, r, env, hasEnv) ==
  [c EXCEPT !.fl = 0, !.resp = Append(@, r),
            !.logs = IF hasEnv /\ LogDue(c, r, env) THEN Append(@, LogFor(c, r)) ELSE @]
OnSettle(c) == [c EXCEPT !.done = TRUE]

(********************** comparing with what is observed ********************)
Dup(q) == \E i, j \in DOMAIN q : i # j /\ q[i][1] = q[j][1]
QueryDiff(exp, obs) ==
  LET miss  == {i \in DOMAIN exp : ~\E j \in DOMAIN obs : obs[j][1] = exp[i][1]}
      extra == {j \in DOMAIN obs : ~\E i \in DOMAIN exp : obs[j][1] = exp[i][1]}
      bad   == {i \in DOMAIN exp : \E j \in DOMAIN obs : obs[j][1] = exp[i][1] /\ obs[j][2] # exp[i][2]}
  IN  IF miss # {} THEN "-" \o exp[CHOOSE i \in miss : TRUE][1]
      ELSE IF extra # {} THEN "+" \o obs[CHOOSE j \in extra : TRUE][1]
      ELSE IF bad # {} THEN "=" \o exp[CHOOSE i \in bad : TRUE][1]
      ELSE IF Dup(obs) THEN "dup" ELSE ""

PartDiff(exp, obs) ==
  CASE exp.t = "file" ->
         IF obs.t # "file" THEN "kind"
         ELSE IF exp.d.b64 # obs.b64 THEN "bytes"
         ELSE IF exp.d.type # obs.type THEN "type"
         ELSE IF exp.d.name # obs.file THEN "filename" ELSE ""
    [] exp.t = "json" -> IF obs.t # "text" THEN "kind" ELSE Diff(exp.d, obs.json, "")
    [] OTHER -> IF obs.t # "text" THEN "kind" ELSE IF exp.d.v # obs.v THEN "value" ELSE ""
FormDiff(exp, obs) ==
  LET miss  == {i \in DOMAIN exp : ~\E j \in DOMAIN obs : obs[j].name = exp[i].name}
      extra == {j \in DOMAIN obs : ~\E i \in DOMAIN exp : obs[j].name = exp[i].name}
      bad   == {i \in DOMAIN exp : \E j \in DOMAIN obs :
                   obs[j].name = exp[i].name /\ PartDiff(exp[i], obs[j]) # ""}
  IN  IF miss # {} THEN "-" \o exp[CHOOSE i \in miss : TRUE].name
      ELSE IF extra # {} THEN "+" \o obs[CHOOSE j \in extra : TRUE].name
      ELSE IF bad # {} THEN LET i == CHOOSE i \in bad : TRUE
                                j == CHOOSE j \in DOMAIN obs : obs[j].name = exp[i].name
                            IN  "=" \o exp[i].name \o ":" \o PartDiff(exp[i], obs[j])
      ELSE IF Len(exp) # Len(obs) THEN "dup" ELSE ""

BodyDiff(exp, obs) ==
  CASE exp.t = "none" -> IF obs.t = "none" THEN "" ELSE "unexpected:" \o obs.t
    [] exp.t = "json" ->
         IF obs.t # "json" THEN "json/" \o obs.t
         ELSE IF \E i \in DOMAIN exp.alt : Same(exp.alt[i], obs.d) THEN ""
         ELSE Diff(exp.d, obs.d, "")
    [] OTHER -> IF obs.t # "form" THEN "form/" \o obs.t ELSE FormDiff(exp.parts, obs.parts)

\* A tag [c: class, d: detail] for every way a request differs
T(cls, detail) == [c |-> cls, d |-> detail]
HeaderTags(exp, obs, bodyless) ==
  LET want == SelectSeq(exp, LAMBDA p : ~(bodyless /\ p[1] = "content-type" /\ ~HasHeader(obs, p[1])))
      bad  == SelectSeq(want, LAMBDA p : ~HasHeader(obs, p[1]) \/ HeaderOf(obs, p[1]) # p[2])
      more == SelectSeq(obs, LAMBDA p : ~HasHeader(exp, p[1]))
  IN  [i \in DOMAIN bad |-> T("req.header." \o bad[i][1],
         IF HasHeader(obs, bad[i][1]) THEN HeaderOf(obs, bad[i][1]) ELSE "missing")]
      \o [i \in DOMAIN more |-> T("req.header.+" \o more[i][1], more[i][2])]

\* the path as it would read with the identifiers put in as they are
RECURSIVE Verbatim(_, _)
Verbatim(segs, i) == IF i > Len(segs) THEN "" ELSE "/" \o segs[i] \o Verbatim(segs, i + 1)
IsVerbatim(segs, ev) ==
  LET n == Verbatim(segs, 1)
  IN  ev.rawp = n \/ (Len(ev.rawp) > Len(n) /\ SubSeq(ev.rawp, 1, Len(n) + 1) = n \o "?")

RequestTags(cl, req, ev) ==
  IF req.t = "dl"
  THEN (IF ev.href # req.url /\ ~\E j \in DOMAIN ev.alts : ev.alts[j] = req.url
        THEN << T("dl.url", ev.href) >> ELSE <<>>)
    \o (IF ev.m # "GET" \/ ev.body.t # "none" THEN << T("dl.method", ev.m) >> ELSE <<>>)
    \o [i \in DOMAIN ev.h |-> T("dl.header." \o ev.h[i][1], ev.h[i][2])]
  ELSE LET segs == cl.base.pre \o req.segs
           qd   == QueryDiff(req.q, ev.q)
           bd   == BodyDiff(req.body, ev.body)
           raw  == ev.segs # segs /\ IsVerbatim(segs, ev)
       IN   (IF ev.m # req.m THEN << T("req.method", ev.m \o " not " \o req.m) >> ELSE <<>>)
         \o (IF ev.origin # cl.base.origin THEN << T("req.origin", ev.origin) >> ELSE <<>>)
         \o (IF raw THEN << T("req.verbatim", ev.rawp) >> ELSE <<>>)
         \o (IF ev.segs # segs /\ ~raw THEN << T("req.path", ToString(ev.segs) \o " not " \o ToString(segs)) >> ELSE <<>>)
         \o (IF ev.frag # "" /\ ~raw THEN << T("req.frag", ev.frag) >> ELSE <<>>)
         \o (IF qd # "" /\ ~raw THEN << T("req.query", qd) >> ELSE <<>>)
         \o (IF bd # "" THEN << T(IF req.body.t = "form" THEN "req.form" ELSE "req.body", bd) >> ELSE <<>>)
         \o HeaderTags(HeadersFor(cl, req), ev.h, req.body.t = "none")

\* How an observed error document differs from the expected error
ErrorDiff(e, d) ==
  IF ~e.made THEN Diff(e.d, d, "")
  ELSE IF d.k # "o" THEN ":" \o d.k
  ELSE IF ~Same(Get(d, "name"), S(e.name)) THEN ".name"
  ELSE IF ~\E i \in DOMAIN e.st : Same(e.st[i], Get(d, "statusCode")) THEN ".statusCode"
  ELSE IF Get(d, "message").k # "s" THEN ".message" ELSE ""

\* ev: [ok: resolved?, v: result or error document]
\* (a field that is present but undefined counts as absent)
SettleTags(x, ev) ==
  IF x.t = "reject"
  THEN IF ev.ok THEN << T("res.notrejected", "") >>
       ELSE IF IsUndef(x.e) \/ Same(Get(x.e, "id"), Get(ev.v, "id")) THEN <<>>
            ELSE << T("res.reason", Diff(x.e, ev.v, "")) >>
  ELSE IF ~ev.ok THEN << T("res.rejected", Str(Get(ev.v, "message"))) >>
  ELSE IF ~(ev.v.k = "o" /\ {"data", "error", "headers"} \subseteq Keys(ev.v)) THEN << T("res.shape", ev.v.k) >>
  ELSE LET data == Json(Get(ev.v, "data"))  error == Get(ev.v, "error")  h == Get(ev.v, "headers")
           hok  == \E i \in DOMAIN x.h : Same(x.h[i], h)
       IN  IF x.t = "ok"
           THEN (IF ~Same(x.data, data) THEN << T("res.data", Diff(x.data, data, "")) >> ELSE <<>>)
             \o (IF error.k # "z" THEN << T("res.error", "not null") >> ELSE <<>>)
             \o (IF ~hok THEN << T("res.headers", "") >> ELSE <<>>)
           ELSE (IF data.k # "z" THEN << T("res.data", "not null") >> ELSE <<>>)
             \o (IF ErrorDiff(x.e, error) # "" THEN << T("res.error", ErrorDiff(x.e, error)) >> ELSE <<>>)
             \o (IF ~hok THEN << T("res.headers", "") >> ELSE <<>>)
=============================================================================
