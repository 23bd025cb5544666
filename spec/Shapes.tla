------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* The shapes of the arguments of every operation: parameters, fields,     *)
(* which are required, and the classes of values each may take.  Gen.tla   *)
(* enumerates calls from them.  A value is a document in which             *)
(* [k: "tok", ty, id] stands for an arbitrary value of the class ty        *)
(* (chosen by the harness from a seeded pool; equal for equal id # "").    *)
(***************************************************************************)
EXTENDS Doc

Tok(ty)        == [k |-> "tok", ty |-> ty, id |-> ""]
TokId(ty, id)  == [k |-> "tok", ty |-> ty, id |-> id]
React(name)    == [k |-> "react", v |-> name]
Hdr(form, f)   == [k |-> "hdr", form |-> form, f |-> f]
\* one object (or array), the same wherever this name appears
Sh(name, d)    == IF d.k = "a" THEN [k |-> "a", c |-> d.c, sh |-> name] ELSE [k |-> "o", f |-> d.f, sh |-> name]
FileDoc(name, type, len) == [k |-> "file", name |-> name, type |-> type, len |-> len]

\* field: name, required, values (the first is the usual one); nu: never
\* given explicitly as undefined
F(n, vs)  == [n |-> n, r |-> FALSE, nu |-> FALSE, vs |-> vs]
FR(n, vs) == [n |-> n, r |-> TRUE, nu |-> TRUE, vs |-> vs]
FN(n, vs) == [n |-> n, r |-> FALSE, nu |-> TRUE, vs |-> vs]

(*************************** objects of a shape ****************************)
RECURSIVE Cat(_, _)
Cat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Cat(ss, i + 1)
RECURSIVE CatR(_, _, _)
CatR(G(_), lo, hi) ==                 \* G(lo) \o ... \o G(hi), balanced
  IF lo > hi THEN <<>>
  ELSE IF lo = hi THEN TLCEval(G(lo))
  ELSE LET m == TLCEval((lo + hi) \div 2) IN TLCEval(CatR(G, lo, m) \o CatR(G, m + 1, hi))
Def(f) == f.vs[1]
\* after and before exclude each other
FixPage(pairs) ==
  IF \E i \in DOMAIN pairs : pairs[i][1] = "after" /\ ~IsUndef(pairs[i][2])
  THEN SelectSeq(pairs, LAMBDA q : q[1] # "before") ELSE pairs
ObjAll(fs)      == O(FixPage([i \in DOMAIN fs |-> << fs[i].n, Def(fs[i]) >>]))
ObjReq(fs)      == LET r == SelectSeq(fs, LAMBDA f : f.r) IN O([i \in DOMAIN r |-> << r[i].n, Def(r[i]) >>])
ObjOne(fs, j, v) == LET r == SelectSeq(fs, LAMBDA f : f.r \/ f.n = fs[j].n)
                    IN  O([i \in DOMAIN r |-> << r[i].n, IF r[i].n = fs[j].n THEN v ELSE Def(r[i]) >>])
ObjWith(fs, j, v) == LET all == [i \in DOMAIN fs |-> << fs[i].n, IF i = j THEN v ELSE Def(fs[i]) >>]
                     IN  O(IF fs[j].n = "before" THEN SelectSeq(all, LAMBDA q : q[1] # "after") ELSE FixPage(all))
ObjDrop(fs, j)  == O(FixPage(SelectSeq([i \in DOMAIN fs |-> << fs[i].n, Def(fs[i]) >>], LAMBDA q : q[1] # fs[j].n)))
ObjUndef(fs)    == LET k == SelectSeq(fs, LAMBDA f : f.r \/ ~f.nu)
                   IN  O([i \in DOMAIN k |-> << k[i].n, IF k[i].r THEN Def(k[i]) ELSE Undef >>])
\* one field explicitly undefined, the others set
ObjUndef1(fs, j) == O(FixPage([i \in DOMAIN fs |-> << fs[i].n, IF i = j THEN Undef ELSE Def(fs[i]) >>]))
\* last to first
Rev(d) == O([i \in DOMAIN d.f |-> d.f[Len(d.f) + 1 - i]])
\* exactly these two optional fields besides the required ones, or all but these two
ObjTwo(fs, j, vj, k, vk) ==
  LET m == SelectSeq([i \in DOMAIN fs |-> << fs[i].n, IF i = j THEN vj ELSE IF i = k THEN vk ELSE Def(fs[i]), fs[i].r \/ i = j \/ i = k >>], LAMBDA q : q[3])
  IN  O(FixPage([i \in DOMAIN m |-> << m[i][1], m[i][2] >>]))
ObjBut2(fs, j, k) == O(FixPage(SelectSeq([i \in DOMAIN fs |-> << fs[i].n, Def(fs[i]) >>], LAMBDA q : q[1] \notin {fs[j].n, fs[k].n})))
LastV(f) == f.vs[Len(f.vs)]
PairCases(fs) ==
  CatR(LAMBDA j : CatR(LAMBDA k :
      IF fs[j].r /\ fs[k].r THEN <<>>
      ELSE << ObjTwo(fs, j, Def(fs[j]), k, Def(fs[k])), ObjTwo(fs, j, LastV(fs[j]), k, LastV(fs[k])),
              ObjTwo(fs, j, Def(fs[j]), k, LastV(fs[k])), ObjTwo(fs, j, LastV(fs[j]), k, Def(fs[k])) >>
           \o (IF fs[j].r \/ fs[k].r THEN <<>> ELSE << ObjBut2(fs, j, k) >>),
    j + 1, Len(fs)), 1, Len(fs))
EachCases(fs) ==
     << ObjAll(fs), ObjReq(fs), ObjUndef(fs), Rev(ObjAll(fs)) >>
  \o CatR(LAMBDA j : IF fs[j].r /\ Len(fs[j].vs) = 1 THEN <<>>
                     ELSE [v \in DOMAIN fs[j].vs |-> ObjOne(fs, j, fs[j].vs[v])], 1, Len(fs))
  \o CatR(LAMBDA j : [v \in 1 .. Len(fs[j].vs) - 1 |-> ObjWith(fs, j, fs[j].vs[v + 1])], 1, Len(fs))
  \o CatR(LAMBDA j : IF fs[j].n = "before" THEN << ObjWith(fs, j, Def(fs[j])) >> ELSE <<>>, 1, Len(fs))
  \o CatR(LAMBDA j : IF fs[j].r THEN <<>> ELSE << ObjDrop(fs, j) >>, 1, Len(fs))
  \o CatR(LAMBDA j : IF fs[j].r \/ fs[j].nu THEN <<>> ELSE << ObjUndef1(fs, j) >>, 1, Len(fs))
\* for the elements of lists and other nested objects
NestCases(fs) == EachCases(fs) \o PairCases(fs)

Many(x) == A([j \in 1 .. 120 |-> x])
VStr   == << Tok("str"), Tok("long"), S("") >>
VNStr  == << Tok("str"), Tok("long"), S(""), Null >>
VBool  == << False, True >>
VId    == << Tok("id") >>
VEmail == << Tok("email") >>
VFrom  == << Tok("addr") >>
VAddr  == << A(<< Tok("addr"), Tok("addr") >>), Tok("addr"), A(<< Tok("addr") >>), A(<<>>), Sh("addresses", A(<< Tok("addr"), Tok("addr") >>)),
             A(<< TokId("email", "dup"), Tok("email"), TokId("email", "dup"), TokId("email", "dup") >>), S(""),
             A(<< Tok("addr"), Tok("addr"), Tok("addr"), Tok("addr") >>), Many(Tok("addr")) >>
VHtml  == << Tok("html"), Tok("long"), S("") >>
VDate  == << Tok("date"), S("") >>
VNum   == << Tok("num"), N("0") >>
VAny   == << Tok("map"), O(<<>>), O(<< <<"list", A(<< Null, False, N("0"), S(""), O(<<>>), A(<<>>) >>)>>,
             <<"firstName", S("verbatim")>>, <<"nested", O(<< <<"replyTo", Tok("any")>>, <<"deep", Tok("any")>> >>)>> >>) >>
VFlat  == << Tok("flat"), O(<<>>), O(<< <<"first_name", Null>>, <<"lastName", S("")>>, <<"score", N("0")>> >>) >>
Enum(xs) == [i \in DOMAIN xs |-> S(xs[i])]

Tag(n)  == O(<< <<"name", n>>, <<"value", Tok("str")>> >>)
DupTag == O(<< <<"name", TokId("safe", "tag")>>, <<"value", TokId("str", "tag")>> >>)
VTags   == << A(<< Tag(Tok("safe")), Tag(Tok("safe")) >>), A(<<>>), A(<< O(<< <<"name", Tok("str")>>, <<"value", S("")>> >>) >>), A(<< DupTag, Tag(Tok("safe")), DupTag >>), A(<< Sh("tag", DupTag), Tag(Tok("safe")), Sh("tag", DupTag) >>), Many(Tag(Tok("safe"))) >>

AttFull == O(<< <<"content", Tok("b64")>>, <<"filename", Tok("str")>>, <<"path", Tok("url")>>,
                <<"contentType", S("image/png")>>, <<"contentId", Tok("safe")>> >>)
AttMin  == O(<< <<"path", Tok("url")>> >>)
AttBuf  == O(<< <<"content", [k |-> "bytes"]>>, <<"filename", S("x.bin")>> >>)
AttOdd  == O(<< <<"content", S("")>>, <<"filename", False>>, <<"contentId", S("")>>, <<"contentType", S("")>> >>)
AttShape == << F("content", << Tok("b64"), S("") >>), F("filename", << Tok("str"), S(""), False >>), F("path", << Tok("url"), S("") >>),
  F("contentType", << S("image/png"), S(""), S("Text/Plain; charset=utf-8"), S("text/calendar; method=REQUEST") >>), F("contentId", << Tok("safe"), S(""), S("<logo@acme.example>"), Tok("str") >>) >>
AttCases == NestCases(AttShape)
VAttachments == << A(<< AttFull, AttMin >>), A(<<>>), A(<< AttBuf >>), A(<< AttMin, AttFull, AttOdd, AttBuf >>), A(<< AttOdd >>), A(<< AttFull, AttFull >>), A(AttCases), A(<< Sh("attachment", AttFull), AttMin, Sh("attachment", AttFull) >>), Many(AttMin) >>

VTemplate == << O(<< <<"id", Tok("id")>>, <<"variables", Tok("flat")>> >>), O(<< <<"id", Tok("id")>> >>),
                O(<< <<"id", Tok("id")>>, <<"variables", O(<<>>)>> >>),
                O(<< <<"id", Tok("id")>>, <<"variables", O(<< <<"replyTo", N("0")>>, <<"x", S("")>> >>)>> >>) >>

EmailFieldsShape(att) == <<
  FR("from", VFrom), FR("to", VAddr), FR("subject", VStr),
  F("html", VHtml), F("text", VStr), F("bcc", VAddr), F("cc", VAddr), F("replyTo", VAddr),
  F("headers", << Tok("hmap"), O(<<>>) >>), F("tags", VTags), F("topicId", << Tok("id"), Null >>),
  F("scheduledAt", VDate), F("template", VTemplate) >>
  \o (IF att THEN << F("attachments", VAttachments) >> ELSE <<>>)

BroadcastShape == <<
  FR("from", VFrom), FR("subject", VStr), F("segmentId", VId), F("audienceId", VId), F("name", VStr),
  F("previewText", VStr), F("replyTo", VAddr), F("html", VHtml), F("text", VStr),
  F("topicId", << Tok("id"), Null >>), F("send", << True, False >>), F("scheduledAt", VDate) >>
BroadcastUpdateShape == <<
  F("from", VFrom), F("subject", VStr), F("segmentId", VId), F("audienceId", VId), F("name", VStr),
  F("previewText", VStr), F("replyTo", VAddr), F("html", VHtml), F("text", VStr),
  F("topicId", << Tok("id"), Null >>) >>

Var(fb) == O(<< <<"key", Tok("safe")>>, <<"type", S("string")>>, <<"fallbackValue", fb>> >>)
VarShape == << FR("key", << TokId("safe", "var") >>), FR("type", Enum(<< "string", "number", "boolean", "object", "list" >>)),
  F("fallbackValue", << Tok("str"), S(""), N("0"), Null, False, Tok("num"), O(<< <<"fallbackValue", N("1")>>, <<"a_b", S("")>> >>), A(<< Tok("any"), N("0") >>), O(<<>>), A(<<>>) >>) >>
VVariables == << A(<< Var(Tok("str")), Var(Null), Var(S("")) >>), A(<<>>),
                 A(<< O(<< <<"key", Tok("str")>>, <<"type", S("number")>> >>), Var(N("0")), Var(Tok("num")) >>),
                 A(NestCases(VarShape)), A(<< Var(S("twice")), Var(S("twice")) >>), A(<< Sh("variable", Var(S("twice"))), Sh("variable", Var(S("twice"))) >>), Many(Var(Tok("str"))) >>
TemplateShape == <<
  FR("name", VStr), F("html", VHtml), F("subject", VNStr), F("text", VNStr), F("alias", VNStr),
  F("from", VNStr), F("replyTo", VAddr), F("variables", VVariables) >>
TemplateUpdateShape == <<
  F("name", VStr), F("html", VHtml), F("subject", VNStr), F("text", VNStr), F("alias", VNStr),
  F("from", VNStr), F("replyTo", VAddr), F("variables", VVariables) >>

VRegion == Enum(<< "us-east-1", "eu-west-1", "sa-east-1", "ap-northeast-1" >>)
VCaps   == << O(<< <<"sending", S("enabled")>>, <<"receiving", S("disabled")>> >>), O(<< <<"receiving", S("enabled")>> >>), O(<< <<"sending", S("disabled")>> >>), O(<<>>) >>
ClaimShape == << FR("name", << Tok("safe"), S("Mail.Example.COM"), S("www.example.com."), S(" sub.b\\u00fccher.example") >>), F("region", VRegion), F("customReturnPath", VStr),
  F("openTracking", VBool), F("clickTracking", VBool), F("trackingSubdomain", VStr) >>
DomainShape == ClaimShape \o << F("capabilities", VCaps), F("tls", Enum(<< "enforced", "opportunistic" >>)) >>
DomainUpdateShape == << FR("id", VId), F("openTracking", VBool), F("clickTracking", VBool),
  F("trackingSubdomain", VStr), F("capabilities", VCaps), F("tls", Enum(<< "enforced", "opportunistic" >>)) >>

SegRef  == O(<< <<"id", Tok("id")>> >>)
TopRef(s)  == O(<< <<"id", Tok("id")>>, <<"subscription", S(s)>> >>)
DupSeg  == O(<< <<"id", TokId("id", "seg")>> >>)
VSegs   == << A(<< SegRef, SegRef >>), A(<<>>), A(<< SegRef >>), A(<< DupSeg, SegRef, DupSeg >>), A(<< Sh("segment", DupSeg), SegRef, Sh("segment", DupSeg) >>), Many(SegRef) >>
DupTop(x) == O(<< <<"id", TokId("id", "top")>>, <<"subscription", S(x)>> >>)
VTopics == << A(<< TopRef("opt_in"), TopRef("opt_out") >>), A(<<>>), A(<< TopRef("opt_out") >>), A(<< DupTop("opt_in"), TopRef("opt_in"), DupTop("opt_out") >>), A(<< Sh("topic", TopRef("opt_out")), TopRef("opt_in"), Sh("topic", TopRef("opt_out")) >>), Many(TopRef("opt_out")) >>
ContactBase == << F("unsubscribed", VBool), F("firstName", VStr), F("lastName", VStr), F("properties", VFlat) >>
ContactCreateShape == << FR("email", VEmail) >> \o ContactBase
  \o << FN("segments", VSegs), FN("topics", VTopics) >>
LegacyContactShape == << FR("audienceId", VId), FR("email", VEmail) >> \o ContactBase
ContactUpdateShape == << F("unsubscribed", VBool), F("firstName", VNStr), F("lastName", VNStr), F("properties", VFlat) >>
\* who: how the contact is named
WhoId    == << FR("id", VId) >>
WhoEmail == << FR("email", VEmail) >>
WhoBoth  == << FR("id", VId), FR("email", VEmail) >>
WhoEmptyEmail == << FR("id", VId), FR("email", << S("") >>) >>
Aud      == << FR("audienceId", VId) >>

Rule == O(<< <<"type", S("and")>>, <<"rules", A(<<
          O(<< <<"type", S("rule")>>, <<"field", S("event.fieldName")>>, <<"operator", S("eq")>>, <<"value", Null>> >>),
          O(<< <<"type", S("or")>>, <<"rules", A(<< O(<< <<"type", S("rule")>>, <<"field", Tok("str")>>,
               <<"operator", S("gt")>>, <<"value", N("0")>> >>) >>)>> >>) >>)>> >>)
VRule == << Rule, O(<< <<"type", S("rule")>>, <<"field", Tok("str")>>, <<"operator", S("exists")>> >>),
            O(<< <<"type", S("rule")>>, <<"field", Tok("str")>>, <<"operator", S("neq")>>, <<"value", False>> >>) >>
AStep(type, config) == O(<< <<"key", Tok("safe")>>, <<"type", S(type)>>, <<"config", config>> >>)
VarRef == O(<< <<"var", S("contact.firstName")>> >>)
RuleOf(o, v) == O(<< <<"type", S("rule")>>, <<"field", Tok("str")>>, <<"operator", S(o)>> >> \o (IF IsUndef(v) THEN <<>> ELSE << <<"value", v>> >>))
RuleCases == << RuleOf("eq", Null), RuleOf("eq", N("0")), RuleOf("neq", False), RuleOf("eq", S("")), RuleOf("eq", True), RuleOf("neq", Tok("str")), RuleOf("gt", N("0")),
  RuleOf("gte", Tok("num")), RuleOf("lt", N("-1")), RuleOf("lte", Tok("num")), RuleOf("contains", S("")), RuleOf("starts_with", Tok("str")),
  RuleOf("ends_with", Tok("str")), RuleOf("exists", Undef), RuleOf("is_empty", Undef), RuleOf("eq", VarRef) >>
Steps == <<
  AStep("trigger", O(<< <<"eventName", Tok("str")>> >>)),
  AStep("delay", O(<< <<"duration", S("1 hour")>> >>)),
  AStep("send_email", O(<< <<"template", O(<< <<"id", Tok("id")>>, <<"variables", Tok("map")>> >>)>>,
        <<"subject", Tok("str")>>, <<"from", Tok("email")>>, <<"replyTo", Tok("email")>> >>)),
  AStep("send_email", O(<< <<"template", O(<< <<"id", Tok("id")>> >>)>>, <<"subject", S("")>> >>)),
  AStep("wait_for_event", O(<< <<"eventName", Tok("str")>>, <<"timeout", S("2 days")>>, <<"filterRule", Rule>> >>)),
  AStep("wait_for_event", O(<< <<"eventName", Tok("str")>> >>)),
  AStep("condition", Rule),
  AStep("contact_update", O(<< <<"firstName", Null>>, <<"lastName", VarRef>>, <<"unsubscribed", False>>,
        <<"properties", O(<< <<"camelKey", Null>>, <<"n", N("0")>>, <<"v", VarRef>>, <<"b", False>> >>)>> >>)),
  AStep("contact_update", O(<< <<"firstName", Tok("str")>> >>)),
  AStep("contact_update", O(<< <<"lastName", S("")>>, <<"unsubscribed", VarRef>> >>)),
  AStep("contact_delete", O(<<>>)),
  AStep("add_to_segment", O(<< <<"segmentId", Tok("id")>> >>)) >>
TriggerShape == << FR("eventName", VStr) >>
DelayShape == << FR("duration", << S("1 hour"), Tok("str") >>) >>
SendShape == << FR("template", << O(<< <<"id", Tok("id")>>, <<"variables", Tok("map")>> >>), O(<< <<"id", Tok("id")>> >>), O(<< <<"id", Tok("id")>>, <<"variables", O(<<>>)>> >>),
     O(<< <<"id", Tok("id")>>, <<"variables", O(<< <<"firstName", N("0")>>, <<"reply_to", VarRef>>, <<"list", A(<< S(""), N("0"), False, O(<< <<"a", S("")>> >>) >>)>>, <<"o", O(<< <<"eventName", False>> >>)>> >>)>> >>) >>),
  F("subject", VStr), F("from", << Tok("email"), S("") >>), F("replyTo", << Tok("email"), S("") >>) >>
WaitShape == << FR("eventName", VStr), F("timeout", << S("2 days"), S("") >>), F("filterRule", << Rule >> \o VRule \o RuleCases) >>
UpdShape == << F("firstName", << Tok("str"), S(""), Null, VarRef >>), F("lastName", << Tok("str"), S(""), Null, VarRef >>),
  F("unsubscribed", << False, True, VarRef >>),
  F("properties", << O(<< <<"camelKey", Null>>, <<"n", N("0")>>, <<"v", VarRef>>, <<"b", False>>, <<"s", S("")>> >>), Tok("flat"), O(<<>>) >>) >>
StepsOf(type, fs) == LET c == NestCases(fs) IN [i \in DOMAIN c |-> AStep(type, c[i])]
AllSteps == << StepsOf("trigger", TriggerShape), StepsOf("delay", DelayShape), StepsOf("send_email", SendShape), StepsOf("wait_for_event", WaitShape),
  StepsOf("contact_update", UpdShape), [i \in DOMAIN RuleCases |-> AStep("condition", RuleCases[i])],
  << AStep("condition", O(<< <<"type", S("or")>>, <<"rules", A(RuleCases)>> >>)), AStep("condition", O(<< <<"type", S("and")>>, <<"rules", A(<<>>)>> >>)) >>,
  << AStep("contact_delete", O(<<>>)), AStep("add_to_segment", O(<< <<"segmentId", Tok("id")>> >>)) >> >>
AStepsMany(dummy) == A([j \in 1 .. 60 |-> Steps[1 + ((j * 5) % Len(Steps))]])
SameStep == O(<< <<"key", TokId("safe", "step")>>, <<"type", S("delay")>>, <<"config", O(<< <<"duration", S("1 day")>> >>)>> >>)
Conn(t) == O(<< <<"from", Tok("safe")>>, <<"to", Tok("safe")>>, <<"type", S(t)>> >>)
VSteps == << A(Steps), A(<<>>) >> \o [i \in DOMAIN Steps |-> A(<< Steps[i] >>)]
          \o << A(<< Steps[5], Steps[1], Steps[5], Steps[3] >>), A(<< SameStep, SameStep >>), A(<< Sh("step", Steps[3]), Steps[1], Sh("step", Steps[3]) >>) >>
          \o [i \in DOMAIN AllSteps |-> A(AllSteps[i])] \o << Many(AStep("wait_for_event", O(<< <<"eventName", Tok("str")>> >>))), AStepsMany(0) >>
DupConn == O(<< <<"from", TokId("safe", "n1")>>, <<"to", TokId("safe", "n1")>>, <<"type", S("timeout")>> >>)
VConns == << A(<< Conn("default"), O(<< <<"from", Tok("safe")>>, <<"to", Tok("safe")>> >>), Conn("timeout"),
                 Conn("condition_met"), Conn("condition_not_met"), Conn("event_received") >>), A(<<>>), A(<< DupConn, Conn("default"), DupConn >>), A(<< Sh("connection", DupConn), Conn("default"), Sh("connection", DupConn) >>), Many(Conn("timeout")) >>
VStatus == Enum(<< "enabled", "disabled" >>)
AutomationShape == << FR("name", VStr), F("status", VStatus), FR("steps", VSteps), FR("connections", VConns) >>
AutomationUpdateShape == << F("name", VStr), F("status", VStatus), F("steps", VSteps), F("connections", VConns) >>

PageShape == << F("limit", << Tok("lim"), N("1"), N("100"), N("20"), N("101"), N("1000") >>), F("after", << Tok("q") >>), F("before", << Tok("q") >>) >>
VList(x) == << A(<< x, x >>), A(<< x >>), A(<<>>), A(<< x, x, x >>), A(<< [x EXCEPT !.id = "dup"], x, [x EXCEPT !.id = "dup"], [x EXCEPT !.id = "dup"] >>),
              A([j \in 1 .. 120 |-> x]) >>
AllMetrics == Enum(<< "received", "delivered", "complained", "suppressed", "bounced", "bounced_transient", "bounced_permanent",
  "bounced_undetermined", "opened", "clicked", "unsubscribed", "delivery_delayed", "failed", "sent", "unique_opened",
  "unique_clicked", "delivery_rate", "open_rate", "click_rate", "bounce_rate", "complaint_rate", "unsubscribe_rate" >>)
AllEvents == Enum(<< "email.sent", "email.scheduled", "email.delivered", "email.delivery_delayed", "email.complained",
  "email.bounced", "email.opened", "email.clicked", "email.received", "email.failed", "email.suppressed", "contact.created",
  "contact.updated", "contact.deleted", "domain.created", "domain.updated", "domain.deleted", "suppression.added",
  "suppression.removed" >>)
VEvents == << A(<< S("email.sent"), S("email.bounced") >>), A(<<>>), A(AllEvents), A(<< S("suppression.removed") >>),
  A(<< S("email.sent"), S("contact.created"), S("email.sent") >>) >>
MetricsShape == << F("startDate", << Tok("q") >>), F("endDate", << Tok("q") >>),
  F("timezone", << S("America/New_York"), Tok("q") >>), F("granularity", Enum(<< "daily", "hourly", "weekly", "monthly" >>)),
  F("metrics", << A(<< S("sent"), S("open_rate") >>), A(<< S("delivered") >>), A(<<>>), A(AllMetrics), A(<< S("sent"), S("bounced"), S("sent"), S("delivered"), S("complained") >>) >>),
  F("dimensions", << A(<< S("period"), S("domain") >>), A(<<>>), A(<< S("email"), S("broadcast"), S("domain"), S("period") >>), A(<< S("broadcast") >>), A(<< S("email") >>), A(<< S("domain") >>), A(<< S("period"), S("period") >>) >>),
  F("domainId", VList(Tok("q"))), F("emailId", VList(Tok("id"))), F("broadcastId", VList(Tok("id"))) >>

\* parameters
PId        == [p |-> "id"]
PObj(f)    == [p |-> "obj", f |-> f]
POpt(f)    == [p |-> "opt", f |-> f]     \* may be omitted altogether
PRo        == [p |-> "ro"]               \* request options, may be omitted
PVals(vs)  == [p |-> "vals", vs |-> vs]  \* one of these documents

PathDoc == [k |-> "path", segs |-> << S("custom"), Tok("id") >>, q |-> <<>>]
PathQ   == [k |-> "path", segs |-> << S("custom"), S("thing") >>, q |-> << <<"a", Tok("q")>>, <<"b", S("1")>> >>]
PPath   == PVals(<< PathDoc, PathQ >>)
PBody   == PVals(<< Tok("map"), O(<<>>), A(<< Tok("any"), Null >>), S("text"), Null, False, N("0") >>)
ContactSegRef == << FR("segmentId", VId) >>
ColumnShape == << F("email", VStr), F("firstName", VStr), F("lastName", VStr), F("unsubscribed", VStr),
  F("properties", << O(<< <<"camelKey", O(<< <<"column", Tok("str")>>, <<"type", S("boolean")>> >>)>> >>), O(<<>>), O(<< <<"k", O(<< <<"column", S("")>> >>)>>, <<"__proto__", O(<< <<"column", S("x")>>, <<"type", S("string")>> >>)>> >>) >>) >>
FileShape == << FR("file", << FileDoc("contacts.csv", "text/csv", 60), FileDoc("blob", "text/csv", 0),
                              FileDoc("odd name.bin", "application/octet-stream", 300), FileDoc("blob", "", 20) >>),
  F("columnMap", << O(<< <<"email", Tok("str")>>, <<"firstName", Tok("str")>>, <<"lastName", Tok("str")>>,
        <<"unsubscribed", Tok("str")>>, <<"properties", O(<< <<"camelKey", O(<< <<"column", Tok("str")>>,
        <<"type", S("number")>> >>)>>, <<"plain_key", O(<< <<"column", S("")>> >>)>> >>)>> >>),
      O(<<>>), O(<< <<"email", S("E-mail")>> >>), O(<< <<"lastName", S("")>> >>) >> \o NestCases(ColumnShape)),
  F("onConflict", Enum(<< "upsert", "skip" >>)), F("segments", VSegs), F("topics", VTopics) >>
ForwardBase == << FR("emailId", VId), FR("to", VAddr), FR("from", VFrom) >>

\* Alternative parameter lists of an operation
ParamsOf(op) ==
 CASE op = "apiKeys.create" -> << << PObj(<< FR("name", VStr), F("permission", Enum(<< "full_access", "sending_access" >>)), F("domain_id", VId) >>), PRo >> >>
   [] op \in {"apiKeys.list", "broadcasts.list", "contactProperties.list", "domains.list", "emails.list",
              "emails.receiving.list", "events.list", "logs.list", "oauthGrants.list", "segments.list",
              "audiences.list", "templates.list", "webhooks.list"} -> << << POpt(PageShape) >> >>
   [] op = "apiKeys.update" -> << << PId, PObj(<< FR("name", VStr) >>) >> >>
   [] op \in {"apiKeys.remove", "automations.get", "automations.remove", "automations.duplicate", "automations.stop",
              "broadcasts.get", "broadcasts.remove", "broadcasts.cancel", "contactProperties.get",
              "contactProperties.remove", "contacts.imports.get", "domains.get", "domains.remove", "domains.verify",
              "domains.claims.get", "domains.claims.verify", "emails.get", "emails.cancel", "events.get", "events.remove",
              "logs.get", "oauthGrants.revoke", "segments.get", "segments.remove", "audiences.get", "audiences.remove",
              "suppressions.get", "suppressions.remove", "templates.remove", "templates.get", "templates.duplicate",
              "templates.publish", "topics.get", "topics.remove", "webhooks.get", "webhooks.remove"} -> << << PId >> >>
   [] op = "automations.create" -> << << PObj(AutomationShape) >> >>
   [] op = "automations.list"   -> << << POpt(PageShape \o << F("status", VStatus) >>) >> >>
   [] op = "automations.update" -> << << PId, PObj(AutomationUpdateShape) >> >>
   [] op = "automations.runs.get" -> << << PObj(<< FR("automationId", VId), FR("runId", VId) >>) >> >>
   [] op = "automations.runs.list" -> << << PObj(<< FR("automationId", VId) >> \o PageShape
          \o << F("status", << A(<< S("running"), S("completed") >>), S("failed"), A(<< S("cancelled") >>), S("running"), S("completed"), S("cancelled"), A(<< S("completed") >>), A(<< S("failed") >>), A(<< S("running") >>), A(Enum(<< "cancelled", "failed", "completed", "running" >>)), A(<< S("failed"), S("running"), S("failed") >>) >>) >>) >> >>
   [] op \in {"batch.send", "batch.create"} -> << << PVals(<< A(<<>>) >>), PRo >> >>   \* see Gen
   [] op = "broadcasts.create" -> << << PObj(BroadcastShape), PRo >> >>
   [] op = "broadcasts.send"   -> << << PId, POpt(<< F("scheduledAt", VDate) >>) >> >>
   [] op = "broadcasts.recipients" -> << << PId, PObj(<< FR("type", Enum(<< "sent", "bounced", "clicked", "delivered", "opened", "complained", "unsubscribed", "suppressed" >>)) >> \o PageShape
          \o << F("email", << Tok("q"), Tok("email") >>), F("bounceType", Enum(<< "permanent", "transient", "undetermined" >>)) >>) >> >>
   [] op = "broadcasts.clickedLinks" -> << << PId, POpt(PageShape) >> >>
   [] op = "broadcasts.update" -> << << PId, PObj(BroadcastUpdateShape) >> >>
   [] op = "contactProperties.create" -> << << PObj(<< FR("key", VStr), FR("type", Enum(<< "string", "number" >>)),
          F("fallbackValue", << Tok("str"), S(""), Null, N("0"), Tok("num") >>) >>) >> >>
   [] op = "contactProperties.update" -> << << PObj(<< FR("id", VId),
          F("fallbackValue", << Tok("str"), S(""), Null, N("0"), Tok("num") >>) >>) >> >>
   [] op = "contacts.create" -> << << PObj(ContactCreateShape), PRo >>, << PObj(LegacyContactShape), PRo >> >>
   [] op = "contacts.list" -> << << POpt(PageShape) >>, << PObj(<< FR("segmentId", VId) >> \o PageShape) >>,
          << PObj(<< FR("audienceId", VId) >> \o PageShape) >>,
          << PObj(<< FR("segmentId", VId), FR("audienceId", VId) >> \o PageShape) >> >>
   [] op \in {"contacts.get", "contacts.remove"} -> << << PId >>, << PVals(<< Tok("email") >>) >>,
          << PObj(WhoId) >>, << PObj(WhoEmail) >>, << PObj(WhoBoth) >>, << PObj(WhoEmptyEmail) >>,
          << PObj(WhoId \o Aud) >>, << PObj(WhoEmail \o Aud) >>, << PObj(WhoBoth \o Aud) >> >>
   [] op = "contacts.update" -> << << PObj(WhoId \o ContactUpdateShape) >>, << PObj(WhoEmail \o ContactUpdateShape) >>,
          << PObj(WhoBoth \o ContactUpdateShape) >>, << PObj(WhoEmptyEmail \o ContactUpdateShape) >>,
          << PObj(WhoId \o Aud \o ContactUpdateShape) >>, << PObj(WhoEmail \o Aud \o ContactUpdateShape) >>,
          << PObj(WhoBoth \o Aud \o ContactUpdateShape) >> >>
   [] op = "contacts.imports.create" -> << << PObj(FileShape), PRo >> >>
   [] op = "contacts.imports.list" -> << << POpt(PageShape \o << F("status", Enum(<< "queued", "in_progress", "completed", "failed" >>)) >>) >> >>
   [] op = "contacts.segments.list" -> << << PObj(<< FR("contactId", VId) >> \o PageShape) >>,
          << PObj(WhoEmail \o PageShape) >>, << PObj(<< FR("contactId", VId) >> \o WhoEmail \o PageShape) >> >>
   [] op \in {"contacts.segments.add", "contacts.segments.remove"} -> << << PObj(<< FR("contactId", VId) >> \o ContactSegRef) >>,
          << PObj(WhoEmail \o ContactSegRef) >>, << PObj(<< FR("contactId", VId) >> \o WhoEmail \o ContactSegRef) >> >>
   [] op = "contacts.topics.update" -> << << PObj(WhoId \o << FR("topics", VTopics) >>) >>,
          << PObj(WhoEmail \o << FR("topics", VTopics) >>) >>, << PObj(WhoBoth \o << FR("topics", VTopics) >>) >> >>
   [] op = "contacts.topics.list" -> << << PObj(WhoId \o PageShape) >>, << PObj(WhoEmail \o PageShape) >>, << PObj(WhoBoth \o PageShape) >> >>
   [] op = "domains.create" -> << << PObj(DomainShape), PRo >> >>
   [] op = "domains.update" -> << << PObj(DomainUpdateShape) >> >>
   [] op = "domains.claims.create" -> << << PObj(ClaimShape), PRo >> >>
   [] op \in {"emails.send", "emails.create"} -> << << PObj(EmailFieldsShape(TRUE)), PRo >> >>
   [] op = "emails.update" -> << << PObj(<< FR("id", VId), FR("scheduledAt", VDate) >>) >> >>
   [] op = "emails.share"  -> << << PId, POpt(<< F("expiresIn", << Tok("num"), Tok("str"), N("0") >>) >>) >> >>
   [] op = "emails.metrics" -> << << POpt(MetricsShape) >> >>
   [] op \in {"emails.attachments.get", "emails.receiving.attachments.get"} -> << << PObj(<< FR("emailId", VId), FR("id", VId) >>) >> >>
   [] op \in {"emails.attachments.list", "emails.receiving.attachments.list"} -> << << PObj(<< FR("emailId", VId) >> \o PageShape) >> >>
   [] op = "emails.receiving.get" -> << << PId, POpt(<< F("html_format", Enum(<< "cid", "data_uri" >>)) >>) >> >>
   [] op = "emails.receiving.forward" -> << << PObj(ForwardBase), PRo >>,
          << PObj(ForwardBase \o << F("passthrough", << True >>) >>), PRo >>,
          << PObj(ForwardBase \o << FR("passthrough", << False >>), F("text", VStr), F("html", VHtml) >>), PRo >> >>
   [] op = "events.send" -> << << PObj(<< FR("event", VStr), FR("contactId", VId), F("payload", VAny) >>) >>,
          << PObj(<< FR("event", VStr), FR("email", VEmail), F("payload", VAny) >>) >> >>
   [] op = "events.create" -> << << PObj(<< FR("name", VStr), F("schema", << Tok("smap"), O(<<>>), Null >>) >>) >> >>
   [] op = "events.update" -> << << PId, PObj(<< FR("schema", << Tok("smap"), O(<<>>), Null >>) >>) >> >>
   [] op \in {"segments.create", "audiences.create"} -> << << PObj(<< FR("name", VStr) >>), PRo >> >>
   [] op = "suppressions.add"  -> << << PObj(<< FR("email", VEmail) >>) >> >>
   [] op = "suppressions.list" -> << << POpt(PageShape \o << F("origin", Enum(<< "bounce", "complaint", "manual" >>)) >>) >> >>
   [] op = "suppressions.batch.add" -> << << PObj(<< FR("emails", VList(Tok("email"))) >>) >> >>
   [] op = "suppressions.batch.remove" -> << << PObj(<< FR("emails", VList(Tok("email"))) >>) >>, << PObj(<< FR("ids", VList(Tok("id"))) >>) >> >>
   [] op = "templates.create" -> << << PObj(TemplateShape) >> >>
   [] op = "templates.update" -> << << PId, PObj(TemplateUpdateShape) >> >>
   [] op = "topics.create" -> << << PObj(<< FR("name", VStr), F("description", VStr), FR("defaultSubscription", Enum(<< "opt_in", "opt_out" >>)) >>) >> >>
   [] op = "topics.list"   -> << <<>> >>
   [] op = "topics.update" -> << << PObj(<< FR("id", VId), F("name", VStr), F("description", VStr) >>) >> >>
   [] op = "webhooks.create" -> << << PObj(<< FR("endpoint", << Tok("url") >>), FR("events", VEvents) >>), PRo >> >>
   [] op = "webhooks.update" -> << << PId, PObj(<< F("endpoint", << Tok("url") >>), F("events", VEvents), F("status", VStatus) >>) >> >>
   [] op = "get" -> << << PPath, PRo >> >>
   [] op \in {"post", "put", "patch", "delete"} -> << << PPath >>, << PPath, PBody, PRo >>, << PPath, PVals(<< Undef >>), PRo >> >>
=============================================================================
