-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* The programs whose behaviours are explored: for each suite, which calls *)
(* with which arguments, and what their environment may do.  Arguments are *)
(* enumerated from Shapes.tla; random choices are seeded.                  *)
(***************************************************************************)
EXTENDS Sdk, Shapes, Json, IOUtils

Suite == IOEnv.SUITE
Seed  == atoi(IOEnv.SEED)
Deep  == IOEnv.TIER = "thorough"
Times(q, t) == IF Deep THEN t ELSE q

(***************************** small tools *********************************)
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerCase == "abcdefghijklmnopqrstuvwxyz"
LowerTable == TLCEval([ch \in {SubSeq(Upper, i, i) : i \in 1 .. 26} |->
                  SubSeq(LowerCase, CHOOSE i \in 1 .. 26 : SubSeq(Upper, i, i) = ch, CHOOSE i \in 1 .. 26 : SubSeq(Upper, i, i) = ch)])
LowerOf(ch) == IF ch \in DOMAIN LowerTable THEN LowerTable[ch] ELSE ch
RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) == IF i > Len(s) THEN "" ELSE LowerOf(SubSeq(s, i, i)) \o LowerFrom(s, i + 1)
Lower(s) == LowerFrom(s, 1)

\* seeded choice: a number below 32749 for each pair
Mix(x) == (x * x + 7 * x + 11) % 32749
Rnd(a, b) == Mix((Mix((Mix(Seed % 32749) + a * 31 + 5) % 32749) + b * 17 + 3) % 32749)
PickOf(s, a, b) == s[1 + (Rnd(a, b) % Len(s))]

Index(s, x) == CHOOSE i \in DOMAIN s : s[i] = x

(************************ enumerating arguments ****************************)
ParamsTable == TLCEval([op \in {Ops[i] : i \in DOMAIN Ops} |-> ParamsOf(op)])
Params(op) == ParamsTable[op]
ObjRnd(fs, s)   ==
  LET k == SelectSeq([i \in DOMAIN fs |-> << fs[i].n, PickOf(fs[i].vs, s, i + 50), fs[i].r \/ Rnd(s, i) % 2 = 0 >>],
                     LAMBDA q : q[3])
  IN  O(FixPage([i \in DOMAIN k |-> << k[i][1], k[i][2] >>]))

FieldCases(fs, s, n) ==
  EachCases(fs) \o (IF n >= 10 THEN PairCases(fs) ELSE <<>>) \o [i \in 1 .. n |-> ObjRnd(fs, s + i)]

Omit == [k |-> "omit"]
RoFull == O(<< <<"idempotencyKey", Tok("hval")>>,
               <<"headers", Hdr("obj", << << Tok("hname"), Tok("hval") >> >>)>> >>)
ParamCases(q, s, n) ==
  CASE q.p = "id"   -> << Tok("id") >>
    [] q.p = "obj"  -> FieldCases(q.f, s, n)
    [] q.p = "opt"  -> << ObjAll(q.f), Omit, Undef, O(<<>>) >> \o FieldCases(q.f, s, n)
    [] q.p = "ro"   -> << Omit, RoFull, O(<<>>), Undef >>
    [] q.p = "vals" -> q.vs
ParamDefault(q) ==
  CASE q.p = "id" -> Tok("id") [] q.p \in {"obj", "opt"} -> ObjAll(q.f) [] q.p = "ro" -> Omit [] q.p = "vals" -> q.vs[1]
ParamRnd(q, s) ==
  CASE q.p = "id"   -> Tok("id")
    [] q.p = "obj"  -> ObjRnd(q.f, s)
    [] q.p = "opt"  -> ObjRnd(q.f, s)
    [] q.p = "ro"   -> PickOf(<< Omit, RoFull, O(<<>>), O(<< <<"idempotencyKey", Tok("hlong")>> >>),
       O(<< <<"headers", Hdr("list", << << Tok("hname"), Tok("hval") >>, << S("Accept-Language"), S("de") >> >>)>> >>) >>, s, 7)
    [] q.p = "vals" -> PickOf(q.vs, s, 9)

\* drop omitted trailing arguments
RECURSIVE Trim(_)
Trim(a) == IF Len(a) > 0 /\ a[Len(a)].k = "omit" THEN Trim(SubSeq(a, 1, Len(a) - 1))
           ELSE [i \in DOMAIN a |-> IF a[i].k = "omit" THEN Undef ELSE a[i]]
DefArgs(ps) == Trim([i \in DOMAIN ps |-> ParamDefault(ps[i])])
\* one parameter varies, the others are usual; then random combinations
CasesOf(ps, s, n) ==
     CatR(LAMBDA i : LET cs_ == ParamCases(ps[i], s, n)
                     IN  [v \in DOMAIN cs_ |-> Trim([j \in DOMAIN ps |-> IF j = i THEN cs_[v] ELSE ParamDefault(ps[j])])],
          1, Len(ps))
  \o [i \in 1 .. n |-> Trim([j \in DOMAIN ps |-> ParamRnd(ps[j], s + 100 * i + j)])]
  \o (IF Len(ps) = 0 THEN << <<>> >> ELSE <<>>)
Cases(op, n) ==
  LET alts == Params(op)  s == 1000 * Index(Ops, op)
  IN  CatR(LAMBDA i : CasesOf(alts[i], s + 37 * i, n), 1, Len(alts))
ArgsTable == TLCEval([op \in {Ops[i] : i \in DOMAIN Ops} |->
                        [i \in DOMAIN Params(op) |-> DefArgs(Params(op)[i])]])
Defaults(op) == ArgsTable[op]

(******************************* replies ***********************************)
RespHeaders == << << S("X-Request-Id"), Tok("safe") >>, << S("content-type"), S("application/json") >>,
                  << S("ratelimit-remaining"), S("0") >>, << S("ETag"), S("W/\\u0022abc\\u0022") >>,
                  << S("cache-control"), S("max-age=3600, public") >> >>
R0 == [kind |-> "http", status |-> 200, bt |-> "json", d |-> Undef, h |-> <<>>, v |-> "", nk |-> "",
       ws |-> FALSE, raw |-> [k |-> "none"]]
RJson(status, d, h) == [R0 EXCEPT !.status = status, !.d = d, !.h = h]
RText(status, v, h) == [R0 EXCEPT !.status = status, !.bt = "text", !.v = v, !.h = h]
RFail(status, nk)   == [R0 EXCEPT !.status = status, !.bt = "fail", !.nk = nk, !.h = RespHeaders]
RNet(nk)            == [R0 EXCEPT !.kind = "net", !.nk = nk]
RRaw(v)             == [R0 EXCEPT !.bt = "raw", !.raw = [k |-> "literal", v |-> v]]
\* a message with parts within parts, n deep (too deep to be read beyond 256)
RDeep(n)            == [R0 EXCEPT !.bt = "raw", !.raw = [k |-> "deep", n |-> n]]
RBytes(n)           == [R0 EXCEPT !.bt = "raw", !.raw = [k |-> "bytes", n |-> n]]
Item  == O(<< <<"id", Tok("id")>>, <<"name", Tok("str")>>, <<"created_at", Tok("date")>>, <<"extra", Tok("any")>> >>)
Prop(fb) == O(<< <<"id", Tok("id")>>, <<"object", S("contact_property")>>, <<"key", Tok("safe")>>,
                 <<"created_at", Tok("date")>>, <<"type", S("string")>>, <<"fallback_value", fb>> >>)
IsList(op) == Len(op) > 5 /\ SubSeq(op, Len(op) - 4, Len(op)) = ".list"
ListOf(items, more) == O(<< <<"object", S("list")>>, <<"has_more", more>>, <<"data", A(items)>> >>)
Received == O(<< <<"object", S("email")>>, <<"id", Tok("id")>>, <<"subject", Tok("str")>>, <<"from", Tok("email")>>,
                 <<"raw", O(<< <<"download_url", Tok("url")>>, <<"expires_at", Tok("date")>> >>)>> >>)
CRLF == "\\u000d\\u000a"
Simple == "From: a@b.example" \o CRLF \o "Subject: hi" \o CRLF \o "Content-Type: text/plain" \o CRLF \o CRLF \o "Hello" \o CRLF
OkData(op) ==
  CASE op = "contactProperties.get"  -> Prop(Tok("str"))
    [] op = "contactProperties.list" -> ListOf(<< Prop(Tok("str")), Prop(Null) >>, False)
    [] op = "emails.receiving.forward" -> Received
    [] IsList(op) -> ListOf(<< Item, Item >>, True)
    [] OTHER -> O(<< <<"object", S("thing")>>, <<"id", Tok("id")>>, <<"nested", Tok("any")>>, <<"flag", False>> >>)
OkReply(op) == RJson(200, OkData(op), RespHeaders)
OkReplies(op) ==
  IF op = "emails.receiving.forward"
  THEN << << OkReply(op) >>, << RRaw(Simple) >>, << OkReply("emails.send") >> >>
  ELSE << << OkReply(op) >> >>

ErrDoc == O(<< <<"name", S("validation_error")>>, <<"message", Tok("str")>>, <<"statusCode", N("422")>>, <<"details", Tok("any")>> >>)
Failures == <<
  RJson(422, ErrDoc, RespHeaders),
  RJson(401, O(<< <<"statusCode", N("401")>>, <<"name", S("missing_api_key")>>, <<"message", S("Missing API key")>> >>), <<>>),
  RJson(429, O(<< <<"name", S("rate_limit_exceeded")>>, <<"message", S("Too many requests")>>, <<"statusCode", N("429")>> >>),
        RespHeaders \o << << S("Retry-After"), S("1") >> >>),
  RJson(500, O(<<>>), RespHeaders),
  RJson(404, O(<< <<"name", Null>>, <<"message", S("")>>, <<"data", Tok("any")>>, <<"error", Tok("map")>>, <<"headers", Tok("map")>> >>), RespHeaders),
  RText(502, "<html>Bad Gateway</html>", RespHeaders),
  RText(503, "", << << S("retry-after"), S("120") >> >>),
  RText(408, "{\\u0022truncated\\u0022: ", RespHeaders),
  RJson(400, Null, RespHeaders),
  RJson(409, S("conflict"), RespHeaders),
  RJson(418, N("0"), RespHeaders),
  RJson(423, A(<< Tok("any"), Null >>), RespHeaders), RJson(507, A(<<>>), RespHeaders),
  RJson(451, False, RespHeaders),
  RText(302, "", << << S("location"), S("https://elsewhere.example/x") >> >>),
  RText(304, "", RespHeaders),
  RFail(500, "type"), RFail(404, "syntax"), RFail(503, "string"),
  RNet("type"), RNet("abort"), RNet("string"), RNet("undef"), RNet("object"), RNet("syntax"),
  RText(200, "", RespHeaders), RText(204, "", RespHeaders), RText(200, "not json", RespHeaders),
  RText(201, "{\\u0022a\\u0022:1}}", RespHeaders), RFail(200, "type"), RFail(200, "string"), RFail(202, "syntax") >>
FewFailures == << Failures[1], Failures[3], Failures[6], Failures[9], RNet("type"), RNet("undef"), RText(200, "not json", RespHeaders), RFail(200, "type") >>

\* every documented error, with every status and the headers servers add
ErrNames == << "invalid_idempotency_key", "validation_error", "missing_api_key", "restricted_api_key", "invalid_api_key", "not_found",
  "method_not_allowed", "invalid_idempotent_request", "concurrent_idempotent_requests", "invalid_attachment", "invalid_from_address",
  "invalid_access", "invalid_parameter", "invalid_region", "missing_required_field", "monthly_quota_exceeded", "daily_quota_exceeded",
  "rate_limit_exceeded", "security_error", "application_error", "internal_server_error", "something_new", "" >>
ErrStatuses == << 300, 301, 307, 308, 400, 401, 402, 403, 404, 405, 406, 408, 409, 410, 411, 412, 413, 414, 415, 417, 418, 421, 422, 423, 424, 425,
  426, 428, 429, 431, 451, 499, 500, 501, 502, 503, 504, 505, 507, 508, 511, 520, 522, 524, 529, 530, 598, 599 >>
OkStatuses == << 200, 201, 202, 203, 206, 207, 208, 226, 250, 299 >>
HeaderSets == << <<>>, RespHeaders,
  << << S("Retry-After"), S("0") >>, << S("ratelimit-limit"), S("2") >>, << S("ratelimit-remaining"), S("0") >>, << S("ratelimit-reset"), S("1") >> >>,
  << << S("retry-after"), S("Wed, 21 Oct 2015 07:28:00 GMT") >>, << S("content-type"), S("application/problem+json") >> >>,
  << << S("x-should-retry"), S("true") >>, << S("content-type"), S("application/json; charset=utf-8") >>, << S("connection"), S("close") >> >>,
  << << S("Link"), S("</a>; rel=next") >>, << S("link"), S("</b>; rel=prev") >>, << S("vary"), S("accept") >> >>,
  << << S("content-type"), S("text/html") >>, << S("x-empty"), S("") >>, << S("deprecation"), S("true") >>, << S("sunset"), Tok("safe") >> >>,
  << << S("idempotency-key"), Tok("safe") >>, << S("authorization"), Tok("safe") >>, << S("location"), S("/elsewhere") >>, << S("content-length"), S("0") >> >>,
  << << S("retry-after-ms"), S("1") >>, << S("x-resend-monthly-quota"), S("0") >>, << S("x-amzn-requestid"), Tok("safe") >>, << S("__proto__"), S("x") >> >> >>
NamedFailure(n, i) ==
  LET st == PickOf(ErrStatuses, n, i) IN
  RJson(st, O(<< <<"name", S(ErrNames[n])>>, <<"message", PickOf(<< Tok("str"), S("Something went wrong"), S(""), Null >>, i, n)>>,
                 <<"statusCode", IF Rnd(i, n + 9) % 5 = 0 THEN Null ELSE N(ToString(st))>> >>
              \o (IF Rnd(i, n + 5) % 3 = 0 THEN << <<"errors", Tok("any")>>, <<"data", Tok("map")>>, <<"retryable", True>> >> ELSE <<>>)),
        PickOf(HeaderSets, i, n + 3))
RndFailure(i, j) == NamedFailure(1 + (Rnd(i, j + 31) % Len(ErrNames)), i + j)
\* any failure at all
AnyFailure(i, j) == IF Rnd(i + 3, j) % 2 = 0 THEN RndFailure(i, j) ELSE PickOf(Failures, i, j)
AnySuccess(op, i) == [OkReply(op) EXCEPT !.status = PickOf(OkStatuses, i, Index(Ops, op)), !.h = PickOf(HeaderSets, Index(Ops, op), i)]

Falsy == << RJson(200, Null, RespHeaders), RJson(200, S(""), <<>>), RJson(200, N("0"), <<>>), RJson(200, False, <<>>) >>
\* successful responses with any JSON value where the operation passes it on
Successes(op) ==
  IF op = "contactProperties.get" THEN << OkReply(op) >> \o Falsy
  ELSE IF op = "contactProperties.list" THEN << OkReply(op), RJson(200, O(<<>>), RespHeaders), RJson(200, S("text"), <<>>), RJson(200, A(<< Tok("any") >>), <<>>), RJson(200, True, <<>>),
     RJson(200, O(<< <<"data", Null>>, <<"has_more", False>> >>), RespHeaders), RJson(200, O(<< <<"data", Tok("flat")>> >>), <<>>), RJson(200, O(<< <<"data", S("none")>> >>), <<>>),
     RJson(200, O(<< <<"object", S("list")>>, <<"data", A(<< Null, Get(OkReply("contactProperties.list").d, "data").c[1] >>)>> >>), RespHeaders) >> \o Falsy
  ELSE Falsy \o << OkReply(op), RJson(201, Tok("map"), <<>>),
          [RJson(200, O(<< <<"data", Null>>, <<"error", S("")>>, <<"headers", O(<<>>)>>, <<"nested", Tok("any")>> >>), RespHeaders) EXCEPT !.ws = TRUE],
          RJson(202, A(<< Tok("any"), Null >>), RespHeaders), RJson(200, O(<<>>), RespHeaders),
          RJson(299, O(<< <<"id", Tok("id")>>, <<"name", S("validation_error")>>, <<"message", S("not an error")>>, <<"statusCode", N("422")>> >>), RespHeaders) >>

(******************************* programs **********************************)
NewStep(c, key, opts) == [x |-> "new", c |-> c, key |-> key, opts |-> opts]
EnvStep(set) == [x |-> "env", set |-> set]
ClientA == << NewStep("a", Tok("key"), Undef) >>
OtherBase == [k |-> "url", href |-> "https://eu.api.example:8443", origin |-> "https://eu.api.example:8443", pre |-> <<>>]
PrefixBase == [k |-> "url", href |-> "http://Gateway.example/Proxy/v1_A", origin |-> "http://gateway.example", pre |-> << "Proxy", "v1_A" >>]
TwoClients == << NewStep("a", Tok("key"), Undef),
                 NewStep("b", Tok("key"), O(<< <<"userAgent", Tok("ua")>>, <<"baseUrl", OtherBase>> >>)) >>

\* only post takes an idempotency key among the verbs
Typed(op, args) ==
  IF op \in {"get", "put", "patch", "delete"} /\ Len(args) > 0
  THEN LET l == args[Len(args)] IN IF l.k = "o" /\ HasKey(l, "idempotencyKey") THEN [args EXCEPT ![Len(args)] = Without(l, "idempotencyKey")] ELSE args
  ELSE args
Call(op, args) == [c |-> "a", op |-> op, args |-> Typed(op, args), aw |-> TRUE, par |-> 0, fr |-> FALSE, same |-> 0,
                   reps |-> OkReplies(op), rend |-> << TRUE >>]
Prog(id, calls) == [id |-> id, about |-> "", renderer |-> "ok", proc |-> "present", pre |-> ClientA, calls |-> calls,
                    ord |-> "seq", ext |-> <<>>, nd |-> {}]
Id2(a, i) == a \o "#" \o ToString(i)
Ext1(af, bf, s) == [af |-> af, bf |-> bf, s |-> s]

SimpleOps(G(_)) == SelectSeq(Ops, LAMBDA o : G(o))
IsBatch(op) == op \in {"batch.send", "batch.create"}
Emails(n, s) == A([i \in 1 .. n |-> ObjRnd(EmailFieldsShape(FALSE), s + i)])
BatchArgs(n, s) == << Emails(n, s) >>
ArgsOf(op) == IF IsBatch(op) THEN BatchArgs(3, 77) ELSE Defaults(op)[1]

\* one call per case
CasePrograms(op, n) ==
  LET cs_ == Cases(op, n) IN [i \in DOMAIN cs_ |-> Prog(Id2(op, i), << Call(op, cs_[i]) >>)]
InputGroups(ops, n) == [i \in DOMAIN ops |-> CasePrograms(ops[i], n)]

HasBody(op) ==
  LET pl == Plan(op, ArgsOf(op), [x \in {} |-> Undef]) IN pl.t = "req" /\ pl.body.t = "json"
HasQuery(op) == \E i \in DOMAIN Params(op) : \E j \in DOMAIN Params(op)[i] :
   LET q == Params(op)[i][j] IN q.p \in {"obj", "opt"} /\ \E m \in DOMAIN q.f :
      q.f[m].n \in {"limit", "startDate", "html_format", "type"}

(******************************* C04 ids ***********************************)
NastyClasses == << "slash", "question", "hash", "percent", "ampersand", "space", "backslash", "control", "unicode", "dots", "long",
                   "blanks", "escapes", "case" >>
Nasty(i) == Tok("nasty:" \o NastyClasses[i])
PathFields == {"id", "emailId", "automationId", "runId", "contactId", "segmentId", "audienceId", "email"}
\* the ways to put an odd identifier into one place of these arguments
NastySpots(a) ==
  CatR(LAMBDA i :
    IF a[i].k = "tok" THEN << << i, "" >> >>
    ELSE IF a[i].k = "o" THEN
      LET f == SelectSeq(a[i].f, LAMBDA q : q[1] \in PathFields /\ q[2].k = "tok")
      IN  [m \in DOMAIN f |-> << i, f[m][1] >>]
    ELSE <<>>, 1, Len(a))
PutNasty(a, spot, d) ==
  [a EXCEPT ![spot[1]] = IF spot[2] = "" THEN d
                         ELSE O([m \in DOMAIN @.f |-> IF @.f[m][1] = spot[2] THEN << spot[2], d >> ELSE @.f[m]])]
InPath(op, a, spot) ==
  LET mark == S("MARKED")
      pl == Plan(op, PutNasty(a, spot, mark), [x \in {} |-> Undef])
  IN  pl.t = "req" /\ \E i \in DOMAIN pl.segs : pl.segs[i] = "MARKED"
IdOps == SelectSeq(Ops, LAMBDA o : ~IsBatch(o) /\ o \notin {"get", "post", "put", "patch", "delete"})
IdPrograms(op) ==
  LET alts == Defaults(op)
      spots(i) == SelectSeq(NastySpots(alts[i]), LAMBDA sp : InPath(op, alts[i], sp))
      one(i, sp, c, m) == [Prog(op \o "#" \o ToString(i) \o "." \o sp[2] \o "." \o NastyClasses[c] \o "." \o ToString(m),
                             << Call(op, PutNasty(alts[i], sp, Nasty(c))) >>)
                           EXCEPT !.about = NastyClasses[c]]
  IN  CatR(LAMBDA i : CatR(LAMBDA k : CatR(LAMBDA c : [m \in 1 .. Times(3, 8) |-> one(i, spots(i)[k], c, m)],
                                           1, Len(NastyClasses)),
                           1, Len(spots(i))),
           1, Len(alts))
IdGroups(z_) == [i \in DOMAIN IdOps |-> IdPrograms(IdOps[i])]

(**************************** C05, C06 outcomes ****************************)
PlainReps(op, r) == << << r >> >>
OutcomePrograms(op, rs) ==
  [i \in DOMAIN rs |-> Prog(Id2(op, i), << [Call(op, ArgsOf(op)) EXCEPT !.reps = PlainReps(op, rs[i])] >>)]
\* forward: each step fails in each way
ForwardArgs(mode) == << O(<< <<"emailId", Tok("id")>>, <<"to", A(<< Tok("addr") >>)>>, <<"from", Tok("addr")>> >>
   \o (IF mode = 0 THEN <<>> ELSE IF mode = 1 THEN << <<"passthrough", True>> >>
       ELSE << <<"passthrough", False>>, <<"text", Tok("str")>>, <<"html", Tok("html")>> >>)) >>
Fwd(id, a, r1, r2, r3) == Prog(id, << [Call("emails.receiving.forward", a) EXCEPT !.reps = << << r1 >>, << r2 >>, << r3 >> >>] >>)
ForwardFailures(rs) ==
  CatR(LAMBDA m : CatR(LAMBDA i : <<
      Fwd("fwd1#" \o ToString(i) \o "." \o ToString(m), ForwardArgs(m), rs[i], RRaw(Simple), OkReply("emails.send")),
      Fwd("fwd2#" \o ToString(i) \o "." \o ToString(m), ForwardArgs(m), OkReply("emails.receiving.forward"), rs[i], OkReply("emails.send")),
      Fwd("fwd3#" \o ToString(i) \o "." \o ToString(m), ForwardArgs(m), OkReply("emails.receiving.forward"), RRaw(Simple), rs[i]) >>,
    1, Len(rs)), 0, 2)
\* a received email that is none, or an odd one
RawOk == <<"raw", O(<< <<"download_url", Tok("url")>> >>)>>
OddEmails == Falsy \o << RJson(200, O(<<>>), RespHeaders), RJson(200, A(<<>>), RespHeaders), RJson(200, S("text"), RespHeaders), RJson(200, True, <<>>),
  RJson(200, O(<< <<"raw", Null>>, <<"subject", Null>> >>), <<>>), RJson(200, O(<< <<"raw", S("x")>> >>), <<>>), RJson(200, O(<< <<"raw", O(<< <<"download_url", Null>> >>)>> >>), <<>>),
  RJson(200, O(<< RawOk >>), RespHeaders), RJson(200, O(<< RawOk, <<"subject", N("5")>> >>), RespHeaders), RJson(200, O(<< RawOk, <<"subject", True>> >>), RespHeaders),
  RJson(200, O(<< RawOk, <<"subject", Tok("flat")>> >>), RespHeaders), RJson(200, O(<< RawOk, <<"subject", A(<< S("Fwd: x") >>)>> >>), RespHeaders) >>
ForwardOdd(z_) == CatR(LAMBDA m : [i \in DOMAIN OddEmails |-> Fwd("odd#" \o ToString(i) \o "." \o ToString(m), ForwardArgs(m), OddEmails[i], RRaw(Simple), PickOf(Falsy \o << OkReply("emails.send") >>, i, m))], 0, 2)
ChainOps == << "templates.create", "templates.duplicate" >>
CallPub(k) == [Call("chain.publish", <<>>) EXCEPT !.par = k]
ChainProg(id, op, args, r1, r2, aw1) ==
  Prog(id, << [Call(op, args) EXCEPT !.reps = << << r1 >> >>, !.aw = aw1], [CallPub(1) EXCEPT !.reps = << << r2 >> >>] >>)
ChainFailures(rs) ==
  CatR(LAMBDA o : CatR(LAMBDA i : <<
      [ChainProg("ch1#" \o ToString(i) \o "." \o ToString(o), ChainOps[o], ArgsOf(ChainOps[o]), rs[i], OkReply("x"), FALSE) EXCEPT !.ord = "any"],
      [ChainProg("ch2#" \o ToString(i) \o "." \o ToString(o), ChainOps[o], ArgsOf(ChainOps[o]), OkReply("x"), rs[i], FALSE) EXCEPT !.ord = "any"] >>,
    1, Len(rs)), 1, 2)
\* a creation that names nothing, or in an odd place
ChainOdd(z_) ==
  LET odd == Falsy \o << RJson(200, O(<<>>), RespHeaders), RJson(200, A(<< Tok("any") >>), RespHeaders), RJson(200, S("text"), RespHeaders), RJson(200, True, <<>>),
               RJson(200, O(<< <<"id", Null>> >>), RespHeaders), RJson(200, O(<< <<"id", S("")>>, <<"object", S("template")>> >>), <<>>),
               RJson(200, O(<< <<"data", O(<< <<"id", Tok("id")>> >>)>> >>), RespHeaders) >>
  IN  CatR(LAMBDA o : CatR(LAMBDA i : << [ChainProg("odd#" \o ToString(i) \o "." \o ToString(o), ChainOps[o], ArgsOf(ChainOps[o]), odd[i], OkReply("x"), i % 2 = 0) EXCEPT !.ord = "any"] >>, 1, Len(odd)), 1, 2)
NonForward == SelectSeq(Ops, LAMBDA o : o # "emails.receiving.forward")
OutcomeGroups(rs) ==
  [i \in DOMAIN NonForward |-> OutcomePrograms(NonForward[i], rs)] \o << ForwardFailures(rs), ChainFailures(rs), ForwardOdd(0), ChainOdd(0) >>
SuccessGroups(z_) == [i \in DOMAIN NonForward |-> OutcomePrograms(NonForward[i], Successes(NonForward[i]))]
\* documented errors and unusual answers: of every operation a few, and every
\* error of operations with an idempotency key
Keyed(op) == ArgsOf(op) \o << O(<< <<"idempotencyKey", Tok("hval")>> >>) >>
KeyedOps == << "emails.send", "batch.send", "broadcasts.create", "contacts.create" >>
AnswerGroups(n) ==
  << CatR(LAMBDA o : LET op == NonForward[o] IN [i \in 1 .. n |-> Prog(Id2("any" \o op, i), << [Call(op, ArgsOf(op)) EXCEPT !.reps = << << RndFailure(o, i) >> >>],
                                                             [Call(op, ArgsOf(op)) EXCEPT !.reps = << << AnySuccess(op, i) >> >>] >>)], 1, Len(NonForward)),
     CatR(LAMBDA k : CatR(LAMBDA o : << Prog(Id2("keyed" \o KeyedOps[o], k), << [Call(KeyedOps[o], Keyed(KeyedOps[o])) EXCEPT !.reps = << << NamedFailure(k, o) >> >>] >>) >>, 1, Len(KeyedOps)), 1, Len(ErrNames)) >>

(****************************** C12 refusals *******************************)
E(n, v) == << n, v >>
Empty == S("")
WhoCases(idf) == << O(<<>>), O(<< E(idf, Empty) >>), O(<< E("email", Empty) >>), O(<< E(idf, Undef) >>),
  O(<< E(idf, Empty), E("email", Empty) >>), O(<< E("email", Undef), E(idf, Undef) >>),
  O(<< E(idf, Tok("id")) >>), O(<< E("email", Tok("email")) >>), O(<< E(idf, Tok("id")), E("email", Empty) >>),
  O(<< E(idf, Empty), E("email", Tok("email")) >>), O(<< E(idf, Undef), E("email", Tok("email")) >>),
  O(<< E(idf, Tok("id")), E("email", Tok("email")) >>), O(<< E(idf, S(" ")) >>), O(<< E("email", S(" ")) >>), O(<< E(idf, S("0")) >>),
  O(<< E("email", S("not-an-address")) >>), O(<< E(idf, Tok("email")) >>), O(<< E("email", Tok("id")), E(idf, Undef) >>) >>
AlsoWho(idf, more) == [i \in DOMAIN WhoCases(idf) |-> << O(WhoCases(idf)[i].f \o more) >>]
OneOf(vs) == [i \in DOMAIN vs |-> << vs[i] >>]
RefusalCases(op) ==
  CASE op \in {"contactProperties.get", "contactProperties.remove", "topics.get", "topics.remove",
               "suppressions.get", "suppressions.remove"} -> OneOf(<< Empty, Tok("id"), S("0"), S(" "), S("undefined"), S("null"), S("false") >>)
    [] op \in {"contacts.get", "contacts.remove"} ->
         OneOf(<< Empty, Tok("id"), Tok("email"), S("0"), S(" "), S("undefined") >>) \o AlsoWho("id", <<>>) \o AlsoWho("id", << E("audienceId", Tok("id")) >>)
    [] op = "contacts.update" -> AlsoWho("id", << E("firstName", Tok("str")) >>) \o AlsoWho("id", << E("audienceId", Tok("id")), E("unsubscribed", False) >>) \o AlsoWho("id", <<>>)
    [] op = "contacts.segments.list" -> AlsoWho("contactId", <<>>) \o AlsoWho("contactId", << E("limit", N("5")) >>)
    [] op \in {"contacts.segments.add", "contacts.segments.remove"} -> AlsoWho("contactId", << E("segmentId", Tok("id")) >>)
    [] op = "contacts.topics.update" -> AlsoWho("id", << E("topics", VTopics[1]) >>) \o AlsoWho("id", << E("topics", A(<<>>)) >>)
    [] op = "contacts.topics.list" -> AlsoWho("id", <<>>) \o AlsoWho("id", << E("limit", N("5")) >>)
    [] op = "contactProperties.update" ->
         OneOf(<< O(<< E("id", Empty), E("fallbackValue", Tok("str")) >>), O(<< E("fallbackValue", Tok("str")) >>),
                  O(<< E("id", Undef), E("fallbackValue", Tok("str")) >>), O(<< E("id", Tok("id")) >>), O(<< E("id", S("0")), E("fallbackValue", Null) >>), O(<< E("id", S(" ")), E("fallbackValue", N("0")) >>) >>)
    [] op = "topics.update" ->
         OneOf(<< O(<< E("id", Empty), E("name", Tok("str")), E("description", Tok("str")) >>), O(<< E("name", Tok("str")) >>),
                  O(<< E("id", Undef), E("name", Tok("str")) >>), O(<< E("id", Tok("id")) >>), O(<< E("id", S("0")), E("description", Empty) >>), O(<< E("id", S(" ")), E("name", Empty) >>) >>)
    [] op = "contacts.create" ->
         OneOf(<< O(<< E("audienceId", Tok("id")), E("email", Tok("email")), E("segments", VSegs[1]) >>),
                  O(<< E("audienceId", Tok("id")), E("email", Tok("email")), E("topics", VTopics[1]) >>),
                  O(<< E("audienceId", Tok("id")), E("email", Tok("email")), E("topics", VTopics[1]), E("segments", VSegs[1]) >>),
                  O(<< E("segments", VSegs[1]), E("email", Tok("email")), E("firstName", Tok("str")), E("audienceId", Tok("id")) >>),
                  O(<< E("email", Tok("email")), E("topics", VTopics[1]), E("segments", VSegs[1]) >>),
                  O(<< E("audienceId", Tok("id")), E("email", Tok("email")), E("topics", A(<<>>)) >>), O(<< E("audienceId", Tok("id")), E("segments", A(<<>>)), E("email", Tok("email")) >>),
                  O(<< E("email", Tok("email")) >>), O(<< E("audienceId", Tok("id")), E("email", Tok("email")) >>) >>)
    [] OTHER -> <<>>
RefusalOps == SelectSeq(Ops, LAMBDA o : Len(RefusalCases(o)) > 0)
\* a refusal, then an ordinary call on the same client
RefusalPrograms(op) ==
  LET cs_ == RefusalCases(op)
  IN  [i \in DOMAIN cs_ |-> Prog(Id2(op, i), << Call(op, cs_[i]), Call(op, ArgsOf(op)) >>)]
NoRaw == << O(<< E("id", Tok("id")), E("subject", Tok("str")) >>), O(<< E("id", Tok("id")), E("raw", Null) >>),
            O(<< E("id", Tok("id")), E("raw", O(<<>>)) >>), O(<< E("id", Tok("id")), E("raw", O(<< E("download_url", Empty) >>)) >>),
            O(<< E("id", Tok("id")), E("raw", O(<< E("download_url", Null), E("expires_at", Tok("date")) >>)) >>) >>
NoRawPrograms(z_) == CatR(LAMBDA m : [i \in DOMAIN NoRaw |->
    Fwd("noraw#" \o ToString(i) \o "." \o ToString(m), ForwardArgs(m), RJson(200, NoRaw[i], RespHeaders), RRaw(Simple), OkReply("x"))], 0, 2)
RefusalGroups(z_) == [i \in DOMAIN RefusalOps |-> RefusalPrograms(RefusalOps[i])] \o << NoRawPrograms(0) >>

(*************************** C08, C09 headers ******************************)
HasRoOp(op) == \E i \in DOMAIN Params(op) : \E j \in DOMAIN Params(op)[i] : Params(op)[i][j].p = "ro"
RoIf(op) == IF HasRoOp(op) THEN << RoFull >> ELSE <<>>
RoOps == SelectSeq(Ops, LAMBDA o : HasRoOp(o))
RoAt(op) == LET alts == Params(op)
                i == CHOOSE i \in DOMAIN alts : \E j \in DOMAIN alts[i] : alts[i][j].p = "ro"
                j == CHOOSE j \in DOMAIN alts[i] : alts[i][j].p = "ro"
            IN  << i, j >>
\* usual arguments with these request options
WithRo(op, ro) ==
  LET at == RoAt(op)
      base == IF IsBatch(op) THEN BatchArgs(2, 5) ELSE [j \in 1 .. at[2] - 1 |-> LET d == ParamDefault(Params(op)[at[1]][j]) IN IF d.k = "omit" THEN Undef ELSE d]
  IN  base \o << ro >>
Forms == << "obj", "list", "headers" >>
HName(n) == S(n)
HeaderLists(custom) == <<
  << << Tok("hname"), Tok("hval") >> >>,
  << << Tok("hname"), Tok("hval") >>, << Tok("hname"), Tok("hval") >>, << S("x-lower"), S("1") >>, << S("X-UPPER-Case"), Tok("hval") >> >>,
  << << S("Authorization"), Tok("hval") >> >>, << << S("authorization"), Tok("hval") >>, << Tok("hname"), Tok("hval") >> >>,
  << << S("User-Agent"), Tok("hval") >> >>, << << S("USER-AGENT"), Tok("hval") >>, << S("Accept"), S("application/json") >> >>,
  << << S("Idempotency-Key"), Tok("hval") >> >>, << << S("IDEMPOTENCY-KEY"), Tok("hval") >> >>,
  << << S("X-Batch-Validation"), S("permissive") >> >>, << << S("x-batch-validation"), S("strict") >>, << Tok("hname"), Tok("hval") >> >>,
  << << S("X-Empty"), S("") >> >>, << << S("prefer"), S("a, b") >>, << S("X-Space"), S("a  b") >> >>, <<>> >>
  \o (IF custom THEN << << << S("Content-Type"), S("application/vnd.custom+json") >> >>, << << S("content-TYPE"), S("application/json; charset=utf-8") >> >> >> ELSE <<>>)
DupLists == << << << S("X-Dup"), S("one") >>, << S("X-Dup"), S("two") >> >>,
               << << S("X-Dup"), S("one") >>, << S("x-dup"), S("two") >>, << S("Z-After"), S("3") >> >> >>
HeaderCases(op) ==
  LET ls == HeaderLists(op # "contacts.imports.create")
  IN  CatR(LAMBDA f : [i \in DOMAIN ls |-> Hdr(Forms[f], ls[i])], 1, 3)
      \o [i \in DOMAIN DupLists |-> Hdr("list", DupLists[i])]
      \o << Hdr("obj", << << S("X-Dup"), S("one") >>, << S("x-dup"), S("two") >> >>), Undef >>
HeaderPrograms(op) ==
  LET hs == HeaderCases(op)
      follow == IF Rnd(Index(Ops, op), 3) % 2 = 0 THEN "emails.get" ELSE "emails.send"
      ro(i, k) == O((IF k = 1 THEN << <<"idempotencyKey", Tok("hval")>> >> ELSE <<>>) \o << <<"headers", hs[i]>> >>
                    \o (IF k = 2 /\ IsBatch(op) THEN << <<"batchValidation", S("permissive")>> >> ELSE <<>>))
  IN  CatR(LAMBDA i : [k \in 1 .. 3 |-> Prog(op \o "#" \o ToString(i) \o "." \o ToString(k - 1),
                 << Call(op, WithRo(op, ro(i, k - 1))), Call(follow, ArgsOf(follow)), Call(op, WithRo(op, Undef)) >>)],
           1, Len(hs))
Em(more) == O(<< E("from", Tok("addr")), E("to", Tok("addr")), E("subject", Tok("str")) >> \o more)
RE(n) == E("react", React(n))
NoTo(d) == Without(Without(d, "to"), "attachments")
ReactPayloads == << Em(<< RE("r1") >>), Em(<< RE("r1"), E("html", Tok("html")) >>), Em(<< E("html", Tok("html")), RE("r1"), E("text", Tok("str")) >>),
                    Em(<< RE("r1"), E("html", Empty), E("attachments", VAttachments[1]) >>), Em(<< RE("e1") >>),
                    Em(<< E("html", Tok("html")), RE("e1"), E("text", Tok("str")) >>) >>
NoReactPayloads == << Em(<< E("html", Tok("html")) >>), Em(<< E("text", Tok("str")) >>), Em(<< E("html", Tok("html")), E("react", Undef) >>) >>
BatchOf(kinds) ==     \* each element: 0 html, n > 0 react n, -n react n with html too
  A([i \in DOMAIN kinds |-> IF kinds[i] = 0 THEN Em(<< E("html", Tok("html")) >>)
       ELSE IF kinds[i] = -1 THEN Em(<< E("html", Tok("html")), RE("e1") >>)
       ELSE IF kinds[i] > 9 THEN Em(<< E("html", Tok("html")), RE("r" \o ToString(kinds[i] - 10)) >>)
       ELSE Em(<< RE("r" \o ToString(kinds[i])) >>)])
BatchKinds == << << 1 >>, << 1, 2 >>, << 0, 1 >>, << 1, 0 >>, << 1, 0, 2 >>, << 0, 1, 0 >>, << 11, 2 >>, << 2, 11, 0 >>, << 1, 2, 3 >>, << 1, 1 >>, << 0, 0 >>, << 0 >>, << -1 >>, << 1, -1, 0 >> >>
ReactArgs(op) ==
  IF IsBatch(op) THEN [i \in DOMAIN BatchKinds |-> << BatchOf(BatchKinds[i]) >>]
  ELSE IF op \in {"broadcasts.create", "broadcasts.update", "templates.create"}
  THEN LET ps == ReactPayloads \o NoReactPayloads
       IN  [i \in DOMAIN ps |-> IF op = "broadcasts.update" THEN << Tok("id"), NoTo(ps[i]) >> ELSE << NoTo(ps[i]) >>]
  ELSE [i \in DOMAIN ReactPayloads |-> << ReactPayloads[i] >>] \o [i \in DOMAIN NoReactPayloads |-> << NoReactPayloads[i] >>]
\* payload shapes next to a key, and next to headers
SizedBatches == << 0, 1, 7, 50, 99, 100, 101, 150 >>
PayloadRos == << O(<< <<"idempotencyKey", Tok("hval")>> >>),
  O(<< <<"headers", Hdr("obj", << << Tok("hname"), Tok("hval") >>, << S("User-Agent"), Tok("hval") >> >>)>>, <<"idempotencyKey", Tok("hval")>> >>),
  O(<< <<"headers", Hdr("list", << << S("Idempotency-Key"), Tok("hval") >>, << Tok("hname"), Tok("hval") >> >>)>> >>) >>
ReactInRo == {"emails.send", "emails.create", "broadcasts.create", "templates.create", "batch.send", "batch.create"}
RoPayload(op) ==
  LET cs_ == (IF IsBatch(op) THEN [i \in DOMAIN SizedBatches |-> << Emails(SizedBatches[i], 40 + i) >>]
              ELSE CasesOf(<< Params(op)[RoAt(op)[1]][1] >>, 31, Times(2, 20)))
             \o (IF op \in ReactInRo THEN ReactArgs(op) ELSE <<>>)
      n  == RoAt(op)[2]
  IN  IF n # 2 THEN <<>> ELSE
      CatR(LAMBDA i : [k \in 1 .. Times(2, 3) |-> Prog(op \o "#p" \o ToString(i) \o "." \o ToString(k),
         << Call(op, << IF Len(cs_[i]) = 0 THEN Undef ELSE cs_[i][1], PayloadRos[1 + ((i + k) % 3)] >>) >>)], 1, Len(cs_))
HeaderGroups(z_) == [i \in DOMAIN RoOps |-> HeaderPrograms(RoOps[i]) \o RoPayload(RoOps[i])]
DefaultHeaderGroups(z_) == [i \in DOMAIN Ops |-> << Prog(Ops[i] \o "#default", << Call(Ops[i], ArgsOf(Ops[i])) >>),
     [Prog(Ops[i] \o "#other", << [Call(Ops[i], ArgsOf(Ops[i])) EXCEPT !.c = "b"], Call(Ops[i], ArgsOf(Ops[i])) >>) EXCEPT !.pre = TwoClients] >>]

KeyDocs == << Tok("hval"), Tok("hlong"), S("a/b:c?d=e"), S("0"), S("false"), S("a  b"), TokId("hval", "shared") >>
IdemRos(op) ==
     [i \in DOMAIN KeyDocs |-> O(<< <<"idempotencyKey", KeyDocs[i]>> >>)]
  \o << O(<<>>), O(<< <<"idempotencyKey", Undef>> >>), O(<< <<"idempotencyKey", Empty>> >>), Undef,
        O(<< <<"headers", Hdr("obj", << << S("Idempotency-Key"), Tok("hval") >> >>)>> >>),
        O(<< <<"headers", Hdr("headers", << << S("X-Custom"), Tok("hval") >> >>)>> >>) >>
  \o CatR(LAMBDA f : << O(<< <<"idempotencyKey", Tok("hval")>>, <<"headers", Hdr(Forms[f], << << S("Idempotency-Key"), Tok("hval") >> >>)>> >>),
                        O(<< <<"headers", Hdr(Forms[f], << << S("idempotency-key"), Tok("hval") >>, << Tok("hname"), Tok("hval") >> >>)>>, <<"idempotencyKey", Tok("hval")>> >>),
                        O(<< <<"idempotencyKey", Tok("hval")>>, <<"headers", Hdr(Forms[f], << << Tok("hname"), Tok("hval") >> >>)>> >>) >>, 1, 3)
  \o (IF IsBatch(op) THEN << O(<< <<"idempotencyKey", Tok("hval")>>, <<"batchValidation", S("permissive")>> >>),
                             O(<< <<"batchValidation", S("strict")>>, <<"idempotencyKey", Tok("hval")>>, <<"headers", Hdr("list", << << S("x-batch-validation"), S("permissive") >> >>)>> >>) >> ELSE <<>>)
IdemPrograms(op) ==
  LET ros == IdemRos(op)
  IN  CatR(LAMBDA i : <<
        Prog(Id2(op, i), << Call(op, WithRo(op, ros[i])), Call(op, WithRo(op, O(<<>>))), Call("emails.get", ArgsOf("emails.get")), Call(op, WithRo(op, PickOf(ros, Index(Ops, op), i))) >>),
        Prog(op \o "#r" \o ToString(i), << [Call(op, WithRo(op, ros[i])) EXCEPT !.reps = << << PickOf(FewFailures, i, Index(Ops, op)) >> >>], Call(op, WithRo(op, ros[i])) >>) >>,
      1, Len(ros))
IdemGroups(z_) == [i \in DOMAIN RoOps |-> IdemPrograms(RoOps[i]) \o RoPayload(RoOps[i])]
  \o << CatR(LAMBDA m : [i \in 1 .. 4 |-> Prog("fwd#" \o ToString(m) \o "." \o ToString(i),
           << Call("emails.receiving.forward", ForwardArgs(m) \o << IdemRos("x")[PickOf(<< 1, 7, 13, 14 >>, m, i)] >>), Call("emails.send", ArgsOf("emails.send")) >>)], 0, 2) >>
  \o << [i \in 1 .. 2 |-> Prog("chain#" \o ToString(i), << Call("emails.send", WithRo("emails.send", IdemRos("x")[1])),
            Call(ChainOps[i], ArgsOf(ChainOps[i])), CallPub(2), Call("emails.send", ArgsOf("emails.send")) >>)] >>

(******************************** C10 config *******************************)
KeyOpts == << Undef, Tok("key"), Empty >>
EnvVals(t) == << Undef, t, Empty >>
ApiBase == [k |-> "url", href |-> "https://10.0.0.1/resend/api", origin |-> "https://10.0.0.1", pre |-> << "resend", "api" >>]
Bases == << Undef, OtherBase, PrefixBase, Null, ApiBase >>
Uas   == << Undef, Tok("ua"), Null, Empty >>
EmptyBase == [k |-> "url", href |-> "", origin |-> "", pre |-> <<>>]
EnvBases == << Undef, [OtherBase EXCEPT !.href = "https://env.api.example", !.origin = "https://env.api.example"], Empty >>
ProbeOps == << "emails.get", "emails.send", "contacts.imports.create", "batch.send" >>
ConfigProg(id, key, base, ua, ek, eb, eu, proc) ==
  [Prog(id, << Call("emails.get", ArgsOf("emails.get")), Call("emails.send", ArgsOf("emails.send")) >>)
   EXCEPT !.proc = proc,
          !.pre = << EnvStep(<< <<"RESEND_API_KEY", ek>>, <<"RESEND_BASE_URL", eb>>, <<"RESEND_USER_AGENT", eu>> >>),
                     NewStep("a", key, IF IsUndef(base) /\ IsUndef(ua) THEN Undef
                                       ELSE O(<< <<"baseUrl", base>>, <<"userAgent", ua>> >>)) >>,
          !.calls = IF base # EmptyBase /\ (Truthy(key) \/ (proc = "present" /\ Truthy(ek))) THEN @ ELSE <<>>]
ConfigAll(proc) ==
  CatR(LAMBDA k : CatR(LAMBDA b : CatR(LAMBDA u : CatR(LAMBDA ek : CatR(LAMBDA eb : [eu \in 1 .. 3 |->
    ConfigProg(proc \o "#" \o ToString(k) \o ToString(b) \o ToString(u) \o ToString(ek) \o ToString(eb) \o ToString(eu),
      KeyOpts[k], Bases[b], Uas[u], EnvVals(Tok("key"))[ek], EnvBases[eb], EnvVals(Tok("ua"))[eu], proc)],
    1, 3), 1, 3), 1, Len(Uas)), 1, 4), 1, 3)
  \o CatR(LAMBDA eb : [u \in DOMAIN Uas |-> ConfigProg(proc \o "#nobase" \o ToString(eb) \o ToString(u), Tok("key"), EmptyBase, Uas[u], Undef, EnvBases[eb], Tok("ua"), proc)], 1, 3)
\* the environment and other clients change between and after constructions
EnvChange(s) == EnvStep(<< <<"RESEND_API_KEY", PickOf(EnvVals(Tok("key")), s, 1)>>,
                           <<"RESEND_BASE_URL", PickOf(EnvBases, s, 2)>>, <<"RESEND_USER_AGENT", PickOf(EnvVals(Tok("ua")), s, 3)>> >>)
RndNew(c, s) == NewStep(c, IF Rnd(s, 4) % 4 = 0 THEN Undef ELSE Tok("key"),
                  O(<< <<"baseUrl", PickOf(Bases, s, 5)>>, <<"userAgent", PickOf(Uas, s, 6)>> >>))
Names3 == << "a", "b", "d" >>
ConfigHist(j) ==
  LET s == 500 + 20 * j
      op(n) == PickOf(ProbeOps, s, 40 + n)
  IN  [Prog("hist#" \o ToString(j), [n \in 1 .. 6 |-> [Call(op(n), ArgsOf(op(n))) EXCEPT !.c = Names3[1 + (Rnd(s, 60 + n) % 3)]]])
       EXCEPT !.pre = << EnvStep(<< <<"RESEND_API_KEY", Tok("key")>>, <<"RESEND_BASE_URL", PickOf(EnvBases, s, 21)>>, <<"RESEND_USER_AGENT", PickOf(EnvVals(Tok("ua")), s, 22)>> >>),
                         RndNew("a", s), EnvStep(<< <<"RESEND_API_KEY", Tok("key")>>, <<"RESEND_BASE_URL", PickOf(EnvBases, s, 23)>> >>), RndNew("b", s + 1),
                         NewStep("d", Tok("key"), Undef) >>,
              !.ext = << Ext1(0, 1, EnvChange(s + 2)), Ext1(2, 3, EnvChange(s + 3)), Ext1(3, 4, NewStep("e", Tok("key"), O(<< <<"baseUrl", PickOf(Bases, s, 9)>>, <<"userAgent", Tok("ua")>> >>))), Ext1(4, 5, EnvChange(s + 4)) >>]
ConfigGroups(z_) == << ConfigAll("present"), ConfigAll("absent"), ConfigAll("noenv"), [j \in 1 .. Times(60, 400) |-> ConfigHist(j)] >>

(******************************** C13 react ********************************)
ReactOps == << "emails.send", "emails.create", "broadcasts.create", "broadcasts.update", "templates.create", "batch.send", "batch.create" >>
ReactPrograms(op) ==
  LET as == ReactArgs(op)
  IN  CatR(LAMBDA i : <<
        [Prog(Id2(op, i), << [Call(op, as[i]) EXCEPT !.rend = << TRUE, FALSE >>], Call(op, as[1 + (i % Len(as))]) >>)
           EXCEPT !.ord = IF Len(Nodes(op, as[i])) + Len(Nodes(op, as[1 + (i % Len(as))])) > 2 THEN "seq" ELSE "any"],
        [Prog(op \o "#absent" \o ToString(i), << Call(op, as[i]), Call("emails.get", ArgsOf("emails.get")) >>) EXCEPT !.renderer = "absent"],
        Prog(op \o "#ro" \o ToString(i), << Call(op, as[i] \o RoIf(op)) >>) >>, 1, Len(as))
ReactChain(z_) ==
  << [Prog("chain#1", << [Call("templates.create", << NoTo(ReactPayloads[1]) >>) EXCEPT !.aw = FALSE, !.rend = << TRUE, FALSE >>], CallPub(1) >>) EXCEPT !.ord = "any"],
     [Prog("chain#2", << [Call("templates.create", << NoTo(ReactPayloads[2]) >>) EXCEPT !.rend = << TRUE, FALSE >>], CallPub(1) >>) EXCEPT !.ord = "any"],
     [Prog("chain#absent", << [Call("templates.create", << NoTo(ReactPayloads[1]) >>) EXCEPT !.aw = FALSE], CallPub(1) >>) EXCEPT !.renderer = "absent", !.ord = "any"] >>
ReactGroups(z_) == [i \in DOMAIN ReactOps |-> ReactPrograms(ReactOps[i])] \o << ReactChain(0) >>

(****************************** C14 arguments ******************************)
ArgCases(op) == IF IsBatch(op) THEN << BatchArgs(3, 1) \o << RoFull >>, << A(<<>>) >>, BatchArgs(1, 8) >> \o [i \in 1 .. 4 |-> << BatchOf(BatchKinds[i]), RoFull >>]
                ELSE CasesOf(Params(op)[1], 5000 + Index(Ops, op), Times(2, 12))
                     \o CatR(LAMBDA i : << DefArgs(Params(op)[i]) >>, 2, Len(Params(op)))
FrozenPrograms(op) ==
  LET as == ArgCases(op)
      n  == Times(IF Len(as) < 12 THEN Len(as) ELSE 12, Len(as))
      at(i) == as[IF n = Len(as) THEN i ELSE 1 + (((i - 1) * Len(as)) \div n)]
      rep(i) == IF op = "emails.receiving.forward" THEN OkReplies(op) ELSE << << OkReply(op) >>, << OkReply(op) >> >>
  IN  CatR(LAMBDA i : <<
        Prog(op \o "#f" \o ToString(i), << [Call(op, at(i)) EXCEPT !.fr = TRUE],
             [Call(op, at(i)) EXCEPT !.same = 1] >>),
        Prog(op \o "#w" \o ToString(i), << [Call(op, at(i)) EXCEPT !.reps = IF Rnd(i, 5) % 2 = 0 THEN << << PickOf(FewFailures, i, 6) >> >> ELSE @],
             [Call(op, at(i)) EXCEPT !.same = 1] >>) >>, 1, n)
FrozenReact(op) ==
  LET as == ReactArgs(op)
  IN  CatR(LAMBDA i : << [Prog(op \o "#rf" \o ToString(i), << [Call(op, as[i] \o RoIf(op)) EXCEPT !.fr = TRUE, !.rend = << TRUE, FALSE >>], [Call(op, as[i]) EXCEPT !.same = 1] >>) EXCEPT !.ord = "seq"],
                         Prog(op \o "#rw" \o ToString(i), << [Call(op, as[i] \o RoIf(op)) EXCEPT !.rend = << TRUE, FALSE >>], [Call(op, as[i]) EXCEPT !.same = 1] >>) >>, 1, Len(as))
FrozenGroups(z_) == [i \in DOMAIN Ops |-> FrozenPrograms(Ops[i])] \o [i \in DOMAIN ReactOps |-> FrozenReact(ReactOps[i])]
  \o << CatR(LAMBDA o : CatR(LAMBDA i : << Prog(RefusalOps[o] \o "#rr" \o ToString(i), << [Call(RefusalOps[o], RefusalCases(RefusalOps[o])[i]) EXCEPT !.fr = (i % 2 = 0)] >>) >>,
                             1, Len(RefusalCases(RefusalOps[o]))), 1, Len(RefusalOps)) >>

(****************************** C15 chaining *******************************)
TplArgs(z_) == CasesOf(<< PObj(TemplateShape) >>, 300, Times(4, 40))
ChainIds == << Tok("id"), Tok("nasty:blanks"), Tok("safe"), Tok("nasty:case") >>
IdReply(d) == RJson(201, O(<< E("object", S("template")), E("id", d) >>), RespHeaders)
ChainBase(j, op, args) ==
  LET id == IdReply(ChainIds[1 + (j % 4)]) IN <<
   \* publish chained at once, before the answer, or after
   [Prog("now#" \o ToString(j) \o op, << [Call(op, args) EXCEPT !.aw = FALSE, !.reps = << << id, Failures[1] >> >>], CallPub(1) >>) EXCEPT !.nd = {1}, !.ord = "any"],
   [Prog("later#" \o ToString(j) \o op, << [Call(op, args) EXCEPT !.reps = << << id, Failures[6] >> >>], CallPub(1) >>) EXCEPT !.ord = "any"],
   [Prog("await#" \o ToString(j) \o op, << [Call(op, args) EXCEPT !.reps = << << id, RNet("type") >> >>], CallPub(1) >>) EXCEPT !.ord = "seq"],
   \* awaiting alone publishes nothing
   Prog("alone#" \o ToString(j) \o op, << [Call(op, args) EXCEPT !.reps = << << id, Failures[3] >> >>], Call("templates.get", ArgsOf("templates.get")) >>),
   \* two chains at once
   [Prog("two#" \o ToString(j) \o op, << [Call(op, args) EXCEPT !.aw = FALSE, !.reps = << << id >> >>], [Call("templates.duplicate", << Tok("id") >>) EXCEPT !.aw = FALSE, !.reps = << << IdReply(Tok("id")), Failures[1] >> >>],
        CallPub(1), CallPub(2) >>) EXCEPT !.ord = "any"] >>
\* several chains, on one client and on two, with other calls among them; a
\* chain published more than once
Mk(op, args, id) == [Call(op, args) EXCEPT !.aw = FALSE, !.reps = << << IdReply(id) >> >>]
ChainOthers == << "templates.get", "templates.update", "templates.remove", "templates.publish", "templates.list", "broadcasts.create", "templates.create", "templates.duplicate" >>
ChainMore(z_) ==
  LET t(i) == TplArgs(0)[i]
      d == << Tok("id") >>
      ops2 == << << "templates.create", "templates.create" >>, << "templates.duplicate", "templates.duplicate" >>, << "templates.duplicate", "templates.create" >> >>
      arg(op, i) == IF op = "templates.create" THEN t(i) ELSE d
      pair(o, c) == [Prog("cross#" \o ToString(o) \o c, << Mk(ops2[o][1], arg(ops2[o][1], 1), Tok("id")), [Mk(ops2[o][2], arg(ops2[o][2], 2), Tok("safe")) EXCEPT !.c = c], CallPub(1), [CallPub(2) EXCEPT !.c = c] >>)
                     EXCEPT !.pre = TwoClients, !.ord = "any"]
      back(o, c) == [Prog("back#" \o ToString(o) \o c, << [Mk(ops2[o][1], arg(ops2[o][1], 3), Tok("id")) EXCEPT !.aw = TRUE], [Mk(ops2[o][2], arg(ops2[o][2], 4), Tok("safe")) EXCEPT !.c = c, !.aw = TRUE, !.reps = << << IdReply(Tok("safe")), Failures[1] >> >>],
                                 [CallPub(2) EXCEPT !.c = c], CallPub(1) >>)
                     EXCEPT !.pre = TwoClients, !.ord = "seq"]
      twice(op, i) == [Prog("twice#" \o op \o ToString(i), << [Mk(op, arg(op, i), Tok("id")) EXCEPT !.aw = (i = 1), !.reps = << << IdReply(Tok("safe")), Failures[2] >> >>], [CallPub(1) EXCEPT !.reps = << << OkReply("x"), Failures[1] >> >>], CallPub(1) >>)
                     EXCEPT !.ord = IF i = 2 THEN "any" ELSE "seq"]
      among(i) == Prog("among#" \o ToString(i), << [Mk("templates.create", t(i), Tok("id")) EXCEPT !.aw = (i % 2 = 0)], Call(ChainOthers[i], ArgsOf(ChainOthers[i])), CallPub(1),
                        Call(ChainOthers[i], ArgsOf(ChainOthers[i])), CallPub(1) >>)
  IN  CatR(LAMBDA o : << pair(o, "a"), pair(o, "b"), back(o, "a"), back(o, "b") >>, 1, 3)
      \o CatR(LAMBDA i : << twice("templates.create", i), twice("templates.duplicate", i) >>, 1, 2)
      \o [i \in DOMAIN ChainOthers |-> among(i)]
ChainGroups(z_) == << ChainMore(0), CatR(LAMBDA j : ChainBase(j, "templates.create", TplArgs(0)[j]), 1, IF Deep THEN Len(TplArgs(0)) ELSE 14),
                  CatR(LAMBDA j : ChainBase(j, "templates.duplicate", << Tok("id") >>), 1, Times(6, 30)),
                  ChainFailures(Failures), ChainOdd(0), ReactChain(0) >>

(****************************** C16 forwarding *****************************)
Subjects == << Tok("str"), S("Fwd: already"), S("fwd: lower"), S("FWD: upper"), S("Re: Fwd: inner"), S("Fwd:nospace"), S(" Fwd: lead"), S("  "), S("(no subject)"), S("Fwd:"), Empty, Null, Undef, S("Hello Fwd: tail") >>
Rcv(subject) == RJson(200, O(<< E("object", S("email")), E("id", Tok("id")), E("subject", subject), E("from", Tok("email")), E("html", Tok("html")), E("text", Tok("str")),
  E("headers", Tok("hmap")), E("raw", O(<< E("download_url", Tok("url")), E("expires_at", Tok("date")) >>)) >>), RespHeaders)
Head1(ct) == "From: Sender <s@example.com>" \o CRLF \o "To: r@example.com" \o CRLF \o "Subject: inner subject" \o CRLF \o "MIME-Version: 1.0" \o CRLF \o "Content-Type: " \o ct \o CRLF
Q == "\\u0022"
MPart(h, b) == "--BND" \o CRLF \o h \o CRLF \o CRLF \o b \o CRLF
Multi(kind, parts) == Head1("multipart/" \o kind \o "; boundary=BND") \o CRLF \o parts \o "--BND--" \o CRLF
AttP(ct, name, extra, b) == MPart("Content-Type: " \o ct \o "; name=" \o Q \o name \o Q \o CRLF \o "Content-Transfer-Encoding: base64" \o CRLF
   \o "Content-Disposition: attachment; filename=" \o Q \o name \o Q \o extra, b)
TextP == MPart("Content-Type: text/plain; charset=utf-8", "plain text body")
HtmlP == MPart("Content-Type: text/html; charset=utf-8", "<p>html body</p>")
Mimes == <<
  Simple,
  Head1("text/html; charset=utf-8") \o CRLF \o "<p>only html</p>" \o CRLF,
  Head1("text/plain; charset=utf-8") \o "Content-Transfer-Encoding: 8bit" \o CRLF \o CRLF \o "caf\\u00c3\\u00a9 \\u00e2\\u0082\\u00ac" \o CRLF,
  Head1("text/plain; charset=iso-8859-1") \o "Content-Transfer-Encoding: 8bit" \o CRLF \o CRLF \o "caf\\u00e9 \\u00ff\\u0080" \o CRLF,
  Head1("text/plain") \o "Content-Transfer-Encoding: quoted-printable" \o CRLF \o CRLF \o "a=3Db soft=" \o CRLF \o "break" \o CRLF,
  Multi("alternative", TextP \o HtmlP),
  Multi("mixed", TextP \o AttP("application/pdf", "file.pdf", "", "JVBERi0xLjQKJcfsj6IK")),
  Multi("mixed", TextP \o AttP("application/pdf", "a.pdf", "", "QUFBQQ==") \o AttP("image/png", "b.png", "", "iVBORw0KGgo=") \o AttP("text/plain", "c.txt", "", "aGVsbG8=")),
  Multi("mixed", TextP \o AttP("application/octet-stream", "same.bin", "", "AAECAwQFBgc=") \o AttP("application/octet-stream", "same.bin", "", "/////w==")),
  Multi("related", HtmlP \o AttP("image/png", "logo.png", CRLF \o "Content-ID: <logo@cid>", "iVBORw0KGgo=")),
  Multi("related", HtmlP \o MPart("Content-Type: image/gif" \o CRLF \o "Content-Transfer-Encoding: base64" \o CRLF \o "Content-ID: <part1.x@y>" \o CRLF \o "Content-Disposition: inline", "R0lGODlhAQABAAAAACw=")),
  Multi("mixed", TextP \o MPart("Content-Type: application/octet-stream" \o CRLF \o "Content-Transfer-Encoding: base64" \o CRLF \o "Content-Disposition: attachment", "AAEC")),
  Multi("mixed", TextP \o MPart("Content-Type: text/csv; name=data.csv" \o CRLF \o "Content-Disposition: attachment; filename=data.csv", "a,b" \o CRLF \o "1,2")),
  Multi("mixed", TextP \o MPart("Content-Type: text/calendar; method=REQUEST" \o CRLF \o "Content-Disposition: attachment; filename=i.ics", "BEGIN:VCALENDAR" \o CRLF \o "END:VCALENDAR")),
  Multi("mixed", TextP \o MPart("Content-Type: message/rfc822" \o CRLF \o "Content-Disposition: attachment; filename=orig.eml", "From: x@y.example" \o CRLF \o "Subject: nested" \o CRLF \o CRLF \o "nested body")),
  Multi("mixed", AttP("application/zip", "only.zip", "", "UEsDBAoAAAAAAA==")),
  Multi("mixed", HtmlP \o AttP("text/plain", "empty.txt", "", "")),
  "Subject: lf only\\u000aContent-Type: text/plain\\u000a\\u000aline one\\u000aline two\\u000a",
  "", "no headers at all", "Subject: x" \o CRLF \o CRLF >>
\* every kind of part: type, disposition, file name, content id, encoding
PTypes == << "application/pdf", "image/png", "text/plain; charset=utf-8", "text/html; charset=utf-8", "text/csv", "message/delivery-status",
  "application/pgp-signature", "text/calendar; method=REQUEST; charset=utf-8", "application/json", "application/octet-stream", "APPLICATION/X-Upper",
  "image/svg+xml", "application/vnd.openxmlformats-officedocument.wordprocessingml.document", "text/x-vcard", "application/ics" >>
PNames == << "", "; filename=plain.bin", "; filename=" \o Q \o "two words (1).tar.gz" \o Q, "; filename=" \o Q \o "=?utf-8?B?w7xtbMOkdXQucGRm?=" \o Q,
  "; filename*=utf-8''%e2%82%ac%20rates.csv", "; filename=" \o Q \o "../../etc/x" \o Q, "; filename=" \o Q \o "no-extension" \o Q >>
PDisps == << "attachment", "inline", "" >>
PIds == << "", "Content-ID: <part.@1@x>" \o CRLF, "Content-ID: bare-id" \o CRLF, "Content-ID: <>" \o CRLF >>
PBodies == << << "base64", "AAECAwQFBgcICQ==" >>, << "7bit", "seven bit text" >>, << "quoted-printable", "a=3Db=E2=82=AC soft=" \o CRLF \o "break" >>, << "base64", "" >>, << "8bit", "\\u00c3\\u00bc" >> >>
OnePart(t, d, n, c, b) ==
  MPart("Content-Type: " \o PTypes[t] \o CRLF \o PIds[c]
        \o (IF PDisps[d] = "" THEN "" ELSE "Content-Disposition: " \o PDisps[d] \o PNames[n] \o CRLF)
        \o "Content-Transfer-Encoding: " \o PBodies[b][1], PBodies[b][2])
RECURSIVE Parts(_, _)
Parts(s, n) == IF n = 0 THEN "" ELSE OnePart(1 + (Rnd(s, 5 * n) % Len(PTypes)), 1 + (Rnd(s, 5 * n + 1) % 3), 1 + (Rnd(s, 5 * n + 2) % Len(PNames)),
   1 + (Rnd(s, 5 * n + 3) % 4), 1 + (Rnd(s, 5 * n + 4) % 5)) \o Parts(s, n - 1)
RECURSIVE CatS(_)
CatS(xs) == IF xs = <<>> THEN "" ELSE Head(xs) \o CatS(Tail(xs))
EachPart(t) == CatR(LAMBDA d : CatR(LAMBDA n : [c \in 1 .. 4 |-> OnePart(t, d, n, c, 1)], 1, Len(PNames)), 1, 3)
EachMimes(z_) == [t \in 1 .. 3 |-> Multi(<< "mixed", "related", "mixed" >>[t], TextP \o CatS(EachPart(t)))] \o
  [t \in DOMAIN PTypes |-> Multi("mixed", HtmlP \o OnePart(t, 2, 1, 1, 1) \o OnePart(t, 3, 1, 1, 1) \o OnePart(t, 1, 1, 1, 1) \o OnePart(t, 2, 1, 2, 1))]
OddMime(s) == Multi(PickOf(<< "mixed", "related", "mixed", "alternative" >>, s, 1),
  PickOf(<< TextP, HtmlP, TextP \o HtmlP, "", MPart("Content-Type: text/html", " "), MPart("Content-Type: text/plain", "") \o HtmlP >>, s, 2) \o Parts(s, 1 + (Rnd(s, 3) % 6)))
FwdTo == << VAddr[1], Tok("addr"), A(<<>>), A(<< Tok("addr"), Tok("addr"), Tok("addr") >>), VAddr[5] >>
FwdArgs(mode, s) == << O(<< E("emailId", Tok("id")), E("to", PickOf(FwdTo, s, 1)), E("from", Tok("addr")) >>
   \o CASE mode = 0 -> <<>> [] mode = 1 -> << E("passthrough", True) >> [] mode = 2 -> << E("passthrough", False) >>
        [] mode = 3 -> << E("passthrough", False), E("text", Tok("str")), E("html", Tok("html")) >>
        [] mode = 4 -> << E("passthrough", False), E("text", Empty) >> [] OTHER -> << E("passthrough", False), E("html", Tok("html")) >>) >>
   \o (IF s % 3 = 0 THEN << RoFull >> ELSE <<>>)
FwdOk(id, m, s, subj, raw) == Fwd(id, FwdArgs(m, s), Rcv(subj), raw, OkReply("emails.send"))
ForwardGroups(z_) == <<
  CatR(LAMBDA m : [i \in DOMAIN Mimes |-> FwdOk("mime#" \o ToString(i) \o "." \o ToString(m), m, i, Subjects[1 + (i % Len(Subjects))], RRaw(Mimes[i]))], 0, 5),
  CatR(LAMBDA m : [i \in 1 .. Times(50, 400) |-> FwdOk("parts#" \o ToString(i) \o "." \o ToString(m), m, i, Subjects[1 + (i % Len(Subjects))], RRaw(OddMime(7000 + 3 * i)))], 0, 1),
  LET es == EachMimes(0) IN [i \in DOMAIN es |-> FwdOk("each#" \o ToString(i), i % 2, i, Tok("str"), RRaw(es[i]))],
  CatR(LAMBDA m : [i \in DOMAIN Subjects |-> FwdOk("subj#" \o ToString(i) \o "." \o ToString(m), m, i, Subjects[i], RRaw(Mimes[8]))], 0, 5),
  CatR(LAMBDA m : [i \in 1 .. Times(6, 60) |-> FwdOk("bytes#" \o ToString(i) \o "." \o ToString(m), m, i, Tok("str"), RBytes(PickOf(<< 0, 1, 2, 3, 64, 1000, 5000 >>, i, m)))], 0, 5),
  CatR(LAMBDA m : [i \in 1 .. Times(2, 6) |-> FwdOk("big#" \o ToString(i) \o "." \o ToString(m), m, i, Tok("str"), RBytes(70000 + Rnd(i, m)))], 0, 2),
  CatR(LAMBDA m : [i \in 1 .. 5 |-> FwdOk("deep#" \o ToString(i) \o "." \o ToString(m), m, i, Tok("str"), RDeep(<< 2, 60, 255, 300, 1000 >>[i]))], 0, 5),
  ForwardFailures(Failures), ForwardOdd(0), NoRawPrograms(0) >>

(******************************** C18 batch ********************************)
Validations == << Undef, S("strict"), S("permissive") >>
BatchSizes == << 0, 1, 2, 3, 5, 10, 50, 100, 101, 150 >>
BatchProg(id, op, args) == Prog(id, << Call(op, args) >>)
BatchReplies == << RJson(200, O(<< E("data", A(<< O(<< E("id", Tok("id")) >>), O(<< E("id", Tok("id")) >>) >>)) >>), RespHeaders),
  RJson(200, O(<< E("data", A(<< O(<< E("id", Tok("id")) >>) >>)), E("errors", A(<< O(<< E("index", N("1")), E("message", Tok("str")) >>), O(<< E("index", N("0")), E("message", Empty) >>) >>)) >>), RespHeaders),
  RJson(200, O(<< E("data", A(<<>>)), E("errors", A(<<>>)) >>), <<>>), RJson(422, ErrDoc, RespHeaders), RText(502, "bad", RespHeaders), RNet("type") >>
SharedMail == Sh("mail", Em(<< E("html", Tok("html")), E("tags", Sh("tags", VTags[1])) >>))
SharedReact == Sh("mailr", Em(<< RE("r7"), E("text", Tok("str")) >>))
OtherMail == Em(<< E("text", Tok("str")), E("tags", Sh("tags", VTags[1])) >>)
SharedBatches == << << SharedMail, SharedMail >>, << SharedMail, OtherMail, SharedMail >>, << SharedReact, SharedReact >>, << SharedReact, OtherMail, SharedMail, SharedReact, SharedMail >>,
                    << OtherMail, Em(<< E("text", Tok("str")), E("cc", VAddr[5]), E("bcc", VAddr[5]) >>), Em(<< E("html", Tok("html")), E("to", VAddr[5]) >>) >> >>
BatchGroups(z_) ==
  [o \in 1 .. 2 |-> LET op == << "batch.send", "batch.create" >>[o] IN
     CatR(LAMBDA v : [i \in DOMAIN BatchSizes |-> BatchProg(op \o "#n" \o ToString(i) \o "." \o ToString(v), op,
        << Emails(BatchSizes[i], 900 + 200 * i + v), O(<< E("batchValidation", Validations[v]) >> \o (IF (i + v) % 2 = 0 THEN RoFull.f ELSE <<>>)) >>)], 1, 3)
     \o [i \in DOMAIN HeaderCases(op) |-> BatchProg(op \o "#h" \o ToString(i), op, << Emails(2, i), O(<< E("headers", HeaderCases(op)[i]), E("batchValidation", Validations[1 + (i % 3)]) >>) >>)]
     \o [i \in DOMAIN BatchReplies |-> Prog(op \o "#r" \o ToString(i), << [Call(op, << Emails(2, i), O(<< E("batchValidation", Validations[1 + (i % 3)]) >>) >>) EXCEPT !.reps = << << BatchReplies[i] >> >>], Call(op, << Emails(1, i) >>) >>)]
     \o LET fc == FieldCases(EmailFieldsShape(FALSE), 70, Times(10, 200))
        IN  [i \in DOMAIN fc |-> BatchProg(op \o "#c" \o ToString(i), op, << A(<< fc[i], PickOf(fc, i, 1), PickOf(fc, i, 2) >>) >>)]
     \o [i \in DOMAIN BatchKinds |-> [Prog(op \o "#k" \o ToString(i), << [Call(op, << BatchOf(BatchKinds[i]), O(<< E("batchValidation", Validations[1 + (i % 3)]) >>) >>) EXCEPT !.rend = << TRUE >>] >>) EXCEPT !.ord = "any"]]
     \o [i \in 1 .. Times(6, 30) |-> BatchProg(op \o "#same" \o ToString(i), op, << A([n \in 1 .. 3 + i |-> O(<< E("from", TokId("email", "f")), E("to", TokId("email", "t")), E("subject", TokId("str", ToString(n % 2))), E("html", TokId("html", "h")) >>)]) >>)]
     \* the very same email object listed more than once
     \o [i \in DOMAIN SharedBatches |-> BatchProg(op \o "#shared" \o ToString(i), op, << A(SharedBatches[i]) >>)] ]

(******************************** C19 imports ******************************)
ImportGroups(z_) ==
  LET op == "contacts.imports.create"
      cs_ == CasesOf(<< PObj(FileShape) >>, 40, Times(30, 400))
      sizes == << 0, 1, 2, 10, 255, 256, 1000, 65536, 300000 >>
      names == << "contacts.csv", "weird \\u0022quote\\u0022.csv", "uni\\u00e9\\u65e5.csv", "a;b=c.csv", "semi\\u000anl.csv", "blob", "no-ext", "x.tar.gz" >>
  IN  << [i \in DOMAIN cs_ |-> Prog(Id2("form", i), << Call(op, cs_[i]) >>)],
         [i \in DOMAIN sizes |-> Prog(Id2("size", i), << Call(op, << O(<< E("file", FileDoc("f.csv", "text/csv", sizes[i])) >>) >>) >>)],
         [i \in DOMAIN names |-> Prog(Id2("name", i), << Call(op, << O(<< E("file", FileDoc(names[i], "text/csv", 30)), E("onConflict", S("skip")) >>) >>) >>)],
         LET hs == HeaderCases(op) IN [i \in DOMAIN hs |-> Prog(Id2("hdr", i), << Call(op, << O(<< E("file", FileDoc("f.csv", "text/csv", 9)) >>), O(<< E("headers", hs[i]), E("idempotencyKey", IF i % 2 = 0 THEN Tok("hval") ELSE Undef) >>) >>), Call("contacts.create", ArgsOf("contacts.create")) >>)],
         [i \in DOMAIN Failures |-> Prog(Id2("fail", i), << [Call(op, ArgsOf(op)) EXCEPT !.reps = << << Failures[i] >> >>] >>)] >>

(******************************** C20 properties ***************************)
Fallbacks == << Tok("str"), Empty, N("0"), Tok("num"), Null, S("false"), Undef >>
PropT(fb, t) == O(<< E("object", S("contact_property")), E("id", Tok("id")), E("key", Tok("str")), E("type", S(t)), E("created_at", Tok("date")) >>
                  \o (IF IsUndef(fb) THEN <<>> ELSE << E("fallback_value", fb) >>))
PropRev(fb) == Rev(PropT(fb, "number"))
PropPage(items, more) == RJson(200, O(<< E("object", S("list")), E("data", A(items)), E("has_more", more), E("next", Tok("any")), E("total", Tok("num")) >>), RespHeaders)
PropGroups(z_) ==
  LET g == "contactProperties.get"  l == "contactProperties.list" IN <<
  [i \in DOMAIN Fallbacks |-> Prog(Id2("get", i), << [Call(g, << Tok("id") >>) EXCEPT !.reps = << << RJson(200, PropT(Fallbacks[i], "string"), RespHeaders) >> >>], [Call(g, << Tok("id") >>) EXCEPT !.reps = << << RJson(200, PropRev(Fallbacks[i]), <<>>) >> >>] >>)],
  [i \in 0 .. Times(30, 300) |-> Prog(Id2("list", i), << [Call(l, IF i % 3 = 0 THEN <<>> ELSE << ObjRnd(PageShape, i) >>) EXCEPT !.reps = << << PropPage([n \in 1 .. PickOf(<< 0, 1, 2, 3, 7, 20, 100 >>, i, 3) |-> PropT(PickOf(Fallbacks, i, n), PickOf(<< "string", "number" >>, i, n + 9))], IF i % 2 = 0 THEN True ELSE False) >> >>] >>)],
  [i \in DOMAIN Fallbacks |-> Prog(Id2("list1", i), << [Call(l, <<>>) EXCEPT !.reps = << << PropPage(<< PropT(Fallbacks[i], "string") >>, False) >> >>] >>)],
  CatR(LAMBDA i : << Prog(Id2("gfail", i), << [Call(g, << Tok("id") >>) EXCEPT !.reps = << << Failures[i] >> >>] >>), Prog(Id2("lfail", i), << [Call(l, <<>>) EXCEPT !.reps = << << Failures[i] >> >>] >>) >>, 1, Len(Failures)),
  << Prog("refuse", << Call(g, << Empty >>) >>) >> >>

(********************************* C21 logs ********************************)
NodeEnvs == << Undef, S("production"), S("test"), S("development"), Empty, S("Production"), S("production ") >>
EnvN(d) == EnvStep(<< <<"NODE_ENV", d>> >>)
LogOp(i, j) == PickOf(NonForward, i, j)
LogProg(id, op, r, e0, e1, proc) ==
  [Prog(id, << [Call(op, ArgsOf(op)) EXCEPT !.reps = << << r >> >>], Call("emails.get", ArgsOf("emails.get")) >>)
   EXCEPT !.pre = << EnvN(e0) >> \o ClientA, !.proc = proc, !.ext = << Ext1(1, 2, EnvN(e1)) >>]
LogGroups(z_) == <<
  CatR(LAMBDA e : [i \in DOMAIN Failures |-> LogProg("fail#" \o ToString(i) \o "." \o ToString(e), LogOp(i, e), Failures[i], NodeEnvs[e], NodeEnvs[e], "present")], 1, Len(NodeEnvs)),
  CatR(LAMBDA e : [i \in 1 .. 7 |-> LogProg("swap#" \o ToString(i) \o "." \o ToString(e), LogOp(i, e + 50), PickOf(FewFailures, i, e), NodeEnvs[i], NodeEnvs[e], "present")], 1, Len(NodeEnvs)),
  
  CatR(LAMBDA e : [i \in DOMAIN ErrNames |-> LogProg("name#" \o ToString(i) \o "." \o ToString(e), LogOp(i, e + 30), NamedFailure(i, e), NodeEnvs[e], NodeEnvs[e], "present")], 1, 2),
  [i \in DOMAIN Failures |-> LogProg("absent#" \o ToString(i), LogOp(i, 70), Failures[i], Undef, Undef, "absent")],
  [i \in DOMAIN Failures |-> LogProg("noenv#" \o ToString(i), LogOp(i, 71), Failures[i], Undef, Undef, "noenv")],
  CatR(LAMBDA o : LET f == NonForward[o] IN << LogProg("op#" \o f, f, PickOf(FewFailures, o, 8), Undef, Undef, "present"),
                                          LogProg("op#p" \o f, f, PickOf(FewFailures, o, 9), S("production"), S("production"), "present"),
                                          LogProg("op#k" \o f, f, OkReply(f), Undef, Undef, "present") >>, 1, Len(NonForward)),
  [i \in DOMAIN ForwardFailures(FewFailures) |-> ForwardFailures(FewFailures)[i]],
  [i \in DOMAIN ForwardFailures(FewFailures) |-> [ForwardFailures(FewFailures)[i] EXCEPT !.pre = << EnvN(S("production")) >> \o ClientA, !.id = "prod" \o @]],
  ChainFailures(FewFailures),
  CatR(LAMBDA o : LET cs_ == RefusalCases(RefusalOps[o]) IN [i \in DOMAIN cs_ |-> Prog("ref#" \o RefusalOps[o] \o ToString(i), << Call(RefusalOps[o], cs_[i]) >>)], 1, Len(RefusalOps)) >>

(******************************* C22 mutation ******************************)
MutStep(k) == [x |-> "mutate", i |-> "c" \o ToString(k), add |-> << << 1, "html", S("added later") >>, << 1, "replyTo", S("added@later.example") >>, << 2, "idempotencyKey", S("added-later") >>, << 2, "html", S("added later") >> >>]
MutArgs(op) == IF IsBatch(op) THEN [i \in DOMAIN BatchKinds |-> << BatchOf(BatchKinds[i]), O(<< E("idempotencyKey", Tok("hval")), E("batchValidation", S("permissive")), E("headers", Hdr("obj", << << Tok("hname"), Tok("hval") >> >>)) >>) >>]
               ELSE IF op \in {"emails.send", "emails.create", "broadcasts.create", "broadcasts.update", "templates.create"}
               THEN LET r == ReactArgs(op)
                        n == Len(r[1])
                    IN  [i \in DOMAIN r |-> r[i] \o RoIf(op)] \o << ArgsOf(op) \o RoIf(op) >>
               ELSE Defaults(op) \o (IF HasRoOp(op) THEN << WithRo(op, RoFull) >> ELSE <<>>)
MutPrograms(op) ==
  LET as == MutArgs(op)
  IN  CatR(LAMBDA i : <<
      \* at once, in the same turn
      [Prog(op \o "#now" \o ToString(i), << Call(op, as[i]) >>) EXCEPT !.nd = {1}, !.ext = << Ext1(1, 0, MutStep(1)) >>, !.ord = "any"],
      \* at any point while it waits
      [Prog(op \o "#wait" \o ToString(i), << [Call(op, as[i]) EXCEPT !.rend = << TRUE >>] >>) EXCEPT !.ext = << Ext1(1, 0, MutStep(1)) >>, !.ord = "any"] >>, 1, Len(as))
MutGroups(z_) == [i \in DOMAIN Ops |-> MutPrograms(Ops[i])]
  \o << << [Prog("chain#m1", << [Call("templates.create", << NoTo(ReactPayloads[1]) >>) EXCEPT !.aw = FALSE], CallPub(1) >>) EXCEPT !.ord = "any", !.ext = << Ext1(2, 0, MutStep(1)) >>] >> >>

(***************************** C07 concurrency *****************************)
Key(n) == O(<< E("idempotencyKey", TokId("hval", n)), E("headers", Hdr("obj", << << S("X-Call"), TokId("hval", "h" \o n) >> >>)) >>)
Actors == <<
  [op |-> "emails.send", a |-> << Em(<< RE("p1") >>), Key("1") >>],
  [op |-> "emails.send", a |-> << Em(<< E("html", Tok("html")) >>) >>],
  [op |-> "batch.send", a |-> << BatchOf(<< 2, 0, 3 >>), Key("2") >>],
  [op |-> "broadcasts.create", a |-> << NoTo(Em(<< RE("p4"), E("html", Tok("html")) >>)) >>],
  [op |-> "emails.receiving.forward", a |-> ForwardArgs(1) \o << Key("3") >>],
  [op |-> "emails.receiving.forward", a |-> ForwardArgs(2)],
  [op |-> "contacts.imports.create", a |-> << O(<< E("file", FileDoc("f.csv", "text/csv", 50)) >>), Key("4") >>],
  [op |-> "contacts.get", a |-> << Tok("id") >>],
  [op |-> "contactProperties.list", a |-> << O(<< E("limit", N("7")) >>) >>],
  [op |-> "broadcasts.update", a |-> << Tok("id"), NoTo(Em(<< RE("p9") >>)) >>],
  [op |-> "batch.create", a |-> << BatchOf(<< 0, 5 >>), O(<< E("batchValidation", S("permissive")) >>) >>] >>
ActorCall(n, c, fails) ==
  [Call(Actors[n].op, Actors[n].a) EXCEPT !.c = c,
     !.reps = IF fails THEN [i \in DOMAIN @ |-> @[i] \o << PickOf(FewFailures, n, i) >>] ELSE @]
Pairs(fails) ==
  CatR(LAMBDA n : CatR(LAMBDA m : << [Prog("pair#" \o ToString(n) \o "." \o ToString(m) \o (IF fails THEN "f" ELSE ""),
          << ActorCall(n, "a", fails), ActorCall(m, IF (n + m) % 3 = 0 THEN "b" ELSE "a", FALSE) >>)
        EXCEPT !.pre = TwoClients, !.ord = "any", !.nd = IF (n + m) % 2 = 0 THEN {1} ELSE {}] >>, 1, Len(Actors)), 1, Len(Actors))
Triple(j) ==
  LET n(i) == 1 + (Rnd(700 + j, i) % Len(Actors))
  IN  [Prog("triple#" \o ToString(j), [i \in 1 .. 3 |-> ActorCall(n(i), IF Rnd(700 + j, 10 + i) % 2 = 0 THEN "a" ELSE "b", FALSE)])
       EXCEPT !.pre = TwoClients, !.ord = "any", !.nd = IF j % 2 = 0 THEN {1, 2} ELSE {}]
\* long histories of arbitrary calls on one or two clients
HistCallOf(ops, j, i) ==
  LET op == PickOf(ops, 800 + 13 * j, i)
      alts == Params(op)
      ps == PickOf(alts, 800 + j, 40 + i)
      args == IF IsBatch(op) THEN BatchArgs(1 + (Rnd(j, i) % 3), j + i) ELSE Trim([q \in DOMAIN ps |-> ParamRnd(ps[q], 900 + 17 * j + 3 * i + q)])
      fail == Rnd(850 + j, i) % 3 = 0
  IN  [Call(op, args) EXCEPT !.c = IF Rnd(860 + j, i) % 3 = 0 THEN "b" ELSE "a",
         !.reps = IF fail THEN << << AnyFailure(j, i) >> >>
                  ELSE IF op # "emails.receiving.forward" /\ Rnd(870 + j, i) % 3 = 0 THEN << << AnySuccess(op, j + i) >> >> ELSE @]
HistCall(j, i) == HistCallOf(Ops, j, i)
History(j, len) == [Prog("hist#" \o ToString(j), [i \in 1 .. len |-> HistCall(j, i)]) EXCEPT !.pre = TwoClients]
\* the same call again and again, with other calls in between
Repeat(j) ==
  LET h == HistCall(j, 1) IN
  [Prog("rep#" \o ToString(j), << h, HistCall(j, 2), [h EXCEPT !.reps = OkReplies(h.op)], HistCall(j, 3), h >>) EXCEPT !.pre = TwoClients]
\* every operation twice in a row with fresh values, then after a failure
Again(op) ==
  << [Prog("again#" \o op, << Call(op, ArgsOf(op)), Call(op, ArgsOf(op)), [Call(op, ArgsOf(op)) EXCEPT !.c = "b"],
        [Call(op, ArgsOf(op)) EXCEPT !.reps = << << PickOf(FewFailures, Index(Ops, op), 3) >> >>], Call(op, ArgsOf(op)) >>) EXCEPT !.pre = TwoClients],
     [Prog("both#" \o op, << Call(op, ArgsOf(op)), [Call(op, ArgsOf(op)) EXCEPT !.c = "b"] >>) EXCEPT !.pre = TwoClients, !.ord = "any", !.nd = {1}] >>
\* the same call with the same arguments: one after the other, with every kind
\* of answer in between, and all at once
SameAgain(op) ==
  LET a == ArgsOf(op)
      again(r) == [Call(op, a) EXCEPT !.same = 1, !.reps = r]
      ok == again(OkReplies(op))
      bad(i) == again(<< << PickOf(FewFailures, Index(Ops, op), i) >> >>)
  IN  << [Prog("same#" \o op, << Call(op, a), ok, again(<< << RText(304, "", RespHeaders) >> >>), [ok EXCEPT !.c = "b"], bad(1), ok >>) EXCEPT !.pre = TwoClients],
         [Prog("twin#" \o op, << Call(op, a), ok, [ok EXCEPT !.c = "b"], bad(2) >>) EXCEPT !.pre = TwoClients, !.nd = {1, 2, 3}, !.ord = "rnd"] >>
\* failures in a row, then successes
FailRun(j) ==
  LET f == FewFailures[1 + (j % Len(FewFailures))]
      op(i) == IF j % 2 = 0 THEN PickOf(NonForward, 300 + j, 1) ELSE PickOf(NonForward, 300 + j, i)
      call(i) == [Call(op(i), ArgsOf(op(i))) EXCEPT !.reps = IF i <= 6 THEN << << f >> >> ELSE OkReplies(op(i))]
  IN  [Prog("run#" \o ToString(j), [i \in 1 .. 9 |-> call(i)]) EXCEPT !.pre = TwoClients]
\* many calls in one turn
Burst(j, n) == [Prog("burst#" \o ToString(j), [i \in 1 .. n |-> [HistCall(2000 + j, i) EXCEPT !.c = IF j % 4 = 0 THEN @ ELSE "a"]])
                EXCEPT !.pre = TwoClients, !.nd = 1 .. n - 1, !.ord = << "rnd", "fifo", "lifo" >>[1 + (j % 3)]]
OneBurst(j, n) == LET op == PickOf(Ops, 400, j) IN
  [Prog("volley#" \o ToString(j), [i \in 1 .. n |-> Call(op, ArgsOf(op))])
   EXCEPT !.pre = TwoClients, !.nd = 1 .. n - 1, !.ord = << "lifo", "rnd", "fifo" >>[1 + (j % 3)]]
\* long lives of one client
Life(j, n) == [Prog("life#" \o ToString(j), [i \in 1 .. n |-> HistCall(3000 + j, i)]) EXCEPT !.pre = TwoClients]
OneLife(j, n) == LET op == PickOf(Ops, 500, j) IN Prog("routine#" \o ToString(j), [i \in 1 .. n |-> Call(op, ArgsOf(op))])
MixGroups(z_) == << [j \in 1 .. Times(60, 600) |-> History(5000 + j, 8)], CatR(LAMBDA o : SameAgain(Ops[o]), 1, Len(Ops)),
  [j \in 1 .. Times(24, 120) |-> FailRun(j)], [j \in 1 .. Times(18, 120) |-> Burst(j, 12)], [j \in 1 .. Times(12, 60) |-> OneBurst(j, 12)],
  << Burst(101, 30), Burst(102, 40), OneBurst(101, 60), OneBurst(102, 30), Life(101, 130), OneLife(101, 120) >>,
  [j \in 1 .. Times(3, 12) |-> Life(j, Times(60, 150))], [j \in 1 .. Times(3, 12) |-> OneLife(j, Times(60, 150))] >>
\* the same for a few operations (and others among them)
MixOf(ops, n) ==
  LET more == ops \o ops \o << "emails.get", "contacts.create" >> IN
  << [j \in 1 .. n |-> [Prog("hist#" \o ToString(j), [i \in 1 .. 7 |-> HistCallOf(more, 6000 + j, i)]) EXCEPT !.pre = TwoClients]],
     CatR(LAMBDA o : SameAgain(ops[o]), 1, Len(ops)),
     [j \in 1 .. n |-> [Prog("burst#" \o ToString(j), [i \in 1 .. 8 |-> HistCallOf(more, 7000 + j, i)])
                         EXCEPT !.pre = TwoClients, !.nd = 1 .. 7, !.ord = << "rnd", "fifo", "lifo" >>[1 + (j % 3)]]],
     [j \in 1 .. Times(1, 4) |-> [Prog("life#" \o ToString(j), [i \in 1 .. Times(40, 120) |-> HistCallOf(ops, 8000 + j, i)]) EXCEPT !.pre = TwoClients]] >>
ConcGroups(z_) == << Pairs(FALSE), [j \in 1 .. Times(150, 1500) |-> History(j, 8)], [j \in 1 .. Times(100, 1000) |-> Repeat(j)],
                 CatR(LAMBDA o : Again(Ops[o]), 1, Len(Ops)) >>
ConcDeepGroups(z_) == << Pairs(TRUE), [j \in 1 .. 12 |-> Triple(j)] >>

(******************************** C11 secrets ******************************)
SecretPre == << EnvStep(<< <<"RESEND_API_KEY", Tok("key")>> >>), NewStep("a", Tok("key"), Undef), NewStep("b", Undef, O(<< <<"baseUrl", PrefixBase>> >>)) >>
SecretProg(op, i, rs) ==
  [Prog(Id2(op, i), << [Call(op, IF HasRoOp(op) /\ i % 2 = 0 THEN WithRo(op, RoFull) ELSE ArgsOf(op)) EXCEPT !.reps = rs, !.c = IF i % 3 = 0 THEN "b" ELSE "a"] >>) EXCEPT !.pre = SecretPre]
SecretGroups(z_) ==
  [o \in DOMAIN NonForward |-> << SecretProg(NonForward[o], 0, OkReplies(NonForward[o])), SecretProg(NonForward[o], 1, OkReplies(NonForward[o])) >>
      \o [i \in DOMAIN FewFailures |-> SecretProg(NonForward[o], i + 1, << << FewFailures[i] >> >>)]]
  \o << CatR(LAMBDA m : [i \in 1 .. 6 |-> [Fwd("fwd#" \o ToString(i) \o "." \o ToString(m), FwdArgs(m, i), Rcv(Tok("str")), RRaw(Mimes[1 + i]), OkReply("x")) EXCEPT !.pre = SecretPre, !.calls[1].c = IF i % 2 = 0 THEN "a" ELSE "b"]], 0, 5),
        [i \in DOMAIN ForwardFailures(FewFailures) |-> [ForwardFailures(FewFailures)[i] EXCEPT !.pre = SecretPre]],
        ChainFailures(FewFailures) >>

(********************************* suites **********************************)
Groups ==
  CASE Suite = "endpoints" -> InputGroups(Ops, Times(2, 25))
    [] Suite = "bodies"    -> InputGroups(SimpleOps(HasBody), Times(30, 300))
    [] Suite = "queries"   -> InputGroups(SimpleOps(HasQuery), Times(40, 300))
    [] Suite = "ids"       -> IdGroups(0)
    [] Suite = "once"      -> OutcomeGroups(IF Deep THEN Failures ELSE FewFailures) \o DefaultHeaderGroups(0) \o AnswerGroups(Times(1, 4))
    [] Suite = "outcomes"  -> OutcomeGroups(Failures) \o SuccessGroups(0) \o AnswerGroups(Times(3, 12))
    [] Suite = "refusals"  -> RefusalGroups(0)
    [] Suite = "headers"   -> HeaderGroups(0) \o DefaultHeaderGroups(0)
    [] Suite = "idempotency" -> IdemGroups(0)
    [] Suite = "config"    -> ConfigGroups(0)
    [] Suite = "secrets"   -> SecretGroups(0)
    [] Suite = "react"     -> ReactGroups(0)
    [] Suite = "frozen"    -> FrozenGroups(0)
    [] Suite = "chain"     -> ChainGroups(0)
    [] Suite = "forward"   -> ForwardGroups(0) \o MixOf(<< "emails.receiving.forward", "emails.receiving.get" >>, Times(12, 100))
    [] Suite = "batch"     -> BatchGroups(0) \o MixOf(<< "batch.send", "batch.create" >>, Times(12, 100))
    [] Suite = "import"    -> ImportGroups(0) \o MixOf(<< "contacts.imports.create" >>, Times(12, 100))
    [] Suite = "props"     -> PropGroups(0) \o MixOf(<< "contactProperties.get", "contactProperties.list", "contactProperties.create", "contactProperties.update" >>, Times(12, 100))
    [] Suite = "logs"      -> LogGroups(0)
    [] Suite = "mutate"    -> MutGroups(0)
    [] Suite = "mix"       -> MixGroups(0)
    [] Suite = "conc"      -> ConcGroups(0)
    [] Suite = "concdeep"  -> ConcDeepGroups(0)
=============================================================================
