----------------------------- MODULE StoreModel -----------------------------
(***************************************************************************)
(* Histories of calls on resources, through the SDK's plans (Api.tla)      *)
(* against the server of Store.tla, next to what the user expects of them. *)
(* Two calls may be under way at once; the server answers in any order.    *)
(***************************************************************************)
EXTENDS Sdk, Shapes, Json, IOUtils, FiniteSets
K == INSTANCE Store

Suite == IOEnv.SUITE
Seed  == atoi(IOEnv.SEED)
Deep  == IOEnv.TIER = "thorough"

VARIABLES p,      \* the program: creations, possible moves, final reads
          n,      \* calls issued
          srv,    \* the server's store
          abs,    \* the store the user has in mind
          made,   \* [call, path] of every resource made
          fl,     \* calls under way
          okay,   \* differences between result and expectation so far
          frame,  \* whether the last change left all other resources alone
          hist, over
vars == << p, n, srv, abs, made, fl, okay, frame, hist, over >>

(******************************** programs *********************************)
R_(k) == [k |-> "res", n |-> k]             \* the id of the k-th resource made
Mv(op, args) == [op |-> op, args |-> args]
E_(k) == TokId("email", "e" \o ToString(k))
Ob(f) == O(f)
V(ty) == Tok(ty)

Fam_(name, init, moves, reads) == [name |-> name, init |-> init, moves |-> moves, reads |-> reads]
ByIds(op) == << Mv(op, << R_(1) >>), Mv(op, << R_(2) >>) >>
StepA == O(<< <<"key", S("s1")>>, <<"type", S("delay")>>, <<"config", O(<< <<"duration", S("1 hour")>> >>)>> >>)
StepB == O(<< <<"key", S("s2")>>, <<"type", S("contact_delete")>>, <<"config", O(<<>>)>> >>)
ConnA == O(<< <<"from", S("s1")>>, <<"to", S("s2")>>, <<"type", S("default")>> >>)
VarA  == O(<< <<"key", S("v1")>>, <<"type", S("number")>>, <<"fallbackValue", N("0")>> >>)
VarB  == O(<< <<"key", S("v2")>>, <<"type", S("string")>>, <<"fallbackValue", Null>> >>)
Att   == O(<< <<"content", V("b64")>>, <<"filename", S("a.txt")>>, <<"contentType", S("text/plain")>>, <<"contentId", S("cid1")>> >>)

Families == <<
  Fam_("segments",
    << Mv("segments.create", << Ob(<< <<"name", V("str")>> >>) >>), Mv("audiences.create", << Ob(<< <<"name", V("str")>> >>) >>) >>,
    << Mv("segments.create", << Ob(<< <<"name", V("str")>> >>) >>), Mv("segments.get", << R_(1) >>), Mv("audiences.get", << R_(1) >>), Mv("segments.list", <<>>),
       Mv("audiences.list", <<>>), Mv("segments.remove", << R_(1) >>), Mv("audiences.remove", << R_(2) >>), Mv("segments.remove", << R_(2) >>) >>,
    ByIds("segments.get") \o << Mv("segments.list", <<>>), Mv("audiences.list", <<>>) >>),
  Fam_("contacts",
    << Mv("contacts.create", << Ob(<< <<"email", E_(1)>>, <<"firstName", V("str")>>, <<"unsubscribed", False>>, <<"properties", V("flat")>> >>) >>),
       Mv("contacts.create", << Ob(<< <<"email", E_(2)>>, <<"lastName", S("")>>, <<"unsubscribed", True>> >>) >>) >>,
    << Mv("contacts.create", << Ob(<< <<"email", E_(3)>> >>) >>),
       Mv("contacts.update", << Ob(<< <<"id", R_(1)>>, <<"firstName", V("str")>>, <<"unsubscribed", True>> >>) >>),
       Mv("contacts.update", << Ob(<< <<"email", E_(1)>>, <<"unsubscribed", False>>, <<"lastName", S("")>> >>) >>),
       Mv("contacts.update", << Ob(<< <<"id", R_(2)>>, <<"firstName", Null>>, <<"properties", V("flat")>> >>) >>),
       Mv("contacts.update", << Ob(<< <<"email", E_(2)>>, <<"id", R_(1)>>, <<"unsubscribed", False>> >>) >>),
       Mv("contacts.get", << R_(1) >>), Mv("contacts.get", << Ob(<< <<"email", E_(1)>> >>) >>), Mv("contacts.list", <<>>),
       Mv("contacts.remove", << R_(1) >>), Mv("contacts.remove", << Ob(<< <<"email", E_(2)>>, <<"id", R_(1)>> >>) >>), Mv("contacts.remove", << Ob(<< <<"id", R_(2)>> >>) >>) >>,
    << Mv("contacts.get", << R_(1) >>), Mv("contacts.get", << Ob(<< <<"id", R_(2)>> >>) >>), Mv("contacts.get", << E_(2) >>),
       Mv("contacts.get", << Ob(<< <<"email", E_(1)>>, <<"id", R_(2)>> >>) >>), Mv("contacts.list", <<>>) >>),
  Fam_("relations",
    << Mv("segments.create", << Ob(<< <<"name", V("str")>> >>) >>), Mv("segments.create", << Ob(<< <<"name", V("str")>> >>) >>),
       Mv("topics.create", << Ob(<< <<"name", V("str")>>, <<"defaultSubscription", S("opt_in")>> >>) >>),
       Mv("contacts.create", << Ob(<< <<"email", E_(1)>>, <<"segments", A(<< Ob(<< <<"id", R_(1)>> >>) >>)>>, <<"topics", A(<< Ob(<< <<"id", R_(3)>>, <<"subscription", S("opt_out")>> >>) >>)>> >>) >>),
       Mv("contacts.create", << Ob(<< <<"audienceId", R_(2)>>, <<"email", E_(2)>>, <<"firstName", V("str")>> >>) >>) >>,
    << Mv("contacts.segments.add", << Ob(<< <<"contactId", R_(4)>>, <<"segmentId", R_(2)>> >>) >>),
       Mv("contacts.segments.add", << Ob(<< <<"email", E_(2)>>, <<"segmentId", R_(1)>> >>) >>),
       Mv("contacts.segments.remove", << Ob(<< <<"contactId", R_(4)>>, <<"segmentId", R_(1)>> >>) >>),
       Mv("contacts.segments.remove", << Ob(<< <<"email", E_(2)>>, <<"segmentId", R_(2)>> >>) >>),
       Mv("contacts.topics.update", << Ob(<< <<"id", R_(4)>>, <<"topics", A(<< Ob(<< <<"id", R_(3)>>, <<"subscription", S("opt_in")>> >>) >>)>> >>) >>),
       Mv("contacts.topics.update", << Ob(<< <<"email", E_(2)>>, <<"topics", A(<< Ob(<< <<"id", R_(3)>>, <<"subscription", S("opt_out")>> >>) >>)>> >>) >>),
       Mv("contacts.update", << Ob(<< <<"audienceId", R_(2)>>, <<"id", R_(5)>>, <<"lastName", V("str")>> >>) >>),
       Mv("contacts.update", << Ob(<< <<"audienceId", R_(1)>>, <<"email", E_(2)>>, <<"lastName", V("str")>> >>) >>),
       Mv("contacts.remove", << Ob(<< <<"audienceId", R_(1)>>, <<"email", E_(1)>> >>) >>),
       Mv("contacts.list", << Ob(<< <<"segmentId", R_(1)>> >>) >>), Mv("segments.remove", << R_(1) >>),
       Mv("contacts.create", << Ob(<< <<"audienceId", R_(1)>>, <<"email", E_(3)>>, <<"unsubscribed", False>> >>) >>) >>,
    << Mv("contacts.segments.list", << Ob(<< <<"contactId", R_(4)>> >>) >>), Mv("contacts.segments.list", << Ob(<< <<"email", E_(2)>> >>) >>),
       Mv("contacts.topics.list", << Ob(<< <<"id", R_(4)>> >>) >>), Mv("contacts.topics.list", << Ob(<< <<"email", E_(2)>> >>) >>),
       Mv("contacts.list", << Ob(<< <<"segmentId", R_(1)>> >>) >>), Mv("contacts.list", << Ob(<< <<"audienceId", R_(2)>> >>) >>),
       Mv("contacts.get", << Ob(<< <<"audienceId", R_(2)>>, <<"email", E_(2)>> >>) >>), Mv("contacts.get", << Ob(<< <<"audienceId", R_(1)>>, <<"id", R_(5)>> >>) >>) >>),
  Fam_("contactProperties",
    << Mv("contactProperties.create", << Ob(<< <<"key", S("first")>>, <<"type", S("string")>>, <<"fallbackValue", V("str")>> >>) >>),
       Mv("contactProperties.create", << Ob(<< <<"key", S("second")>>, <<"type", S("number")>>, <<"fallbackValue", N("0")>> >>) >>) >>,
    << Mv("contactProperties.create", << Ob(<< <<"key", S("third")>>, <<"type", S("string")>> >>) >>),
       Mv("contactProperties.update", << Ob(<< <<"id", R_(1)>>, <<"fallbackValue", S("")>> >>) >>),
       Mv("contactProperties.update", << Ob(<< <<"id", R_(1)>>, <<"fallbackValue", Null>> >>) >>),
       Mv("contactProperties.update", << Ob(<< <<"id", R_(2)>>, <<"fallbackValue", V("num")>> >>) >>),
       Mv("contactProperties.get", << R_(2) >>), Mv("contactProperties.list", <<>>),
       Mv("contactProperties.remove", << R_(1) >>), Mv("contactProperties.remove", << R_(2) >>) >>,
    ByIds("contactProperties.get") \o << Mv("contactProperties.list", <<>>) >>),
  Fam_("domains",
    << Mv("domains.create", << Ob(<< <<"name", V("safe")>>, <<"region", S("eu-west-1")>>, <<"customReturnPath", V("safe")>>, <<"openTracking", False>> >>) >>),
       Mv("domains.create", << Ob(<< <<"name", V("safe")>>, <<"tls", S("enforced")>>, <<"clickTracking", True>>, <<"capabilities", Ob(<< <<"sending", S("enabled")>> >>)>> >>) >>) >>,
    << Mv("domains.update", << Ob(<< <<"id", R_(1)>>, <<"openTracking", True>> >>) >>),
       Mv("domains.update", << Ob(<< <<"id", R_(1)>>, <<"clickTracking", False>>, <<"tls", S("opportunistic")>> >>) >>),
       Mv("domains.update", << Ob(<< <<"id", R_(2)>>, <<"trackingSubdomain", S("")>>, <<"openTracking", False>> >>) >>),
       Mv("domains.verify", << R_(1) >>), Mv("domains.get", << R_(1) >>), Mv("domains.list", <<>>),
       Mv("domains.remove", << R_(1) >>), Mv("domains.remove", << R_(2) >>) >>,
    ByIds("domains.get") \o << Mv("domains.list", <<>>) >>),
  Fam_("apiKeys",
    << Mv("apiKeys.create", << Ob(<< <<"name", V("str")>>, <<"permission", S("full_access")>> >>) >>), Mv("apiKeys.create", << Ob(<< <<"name", V("str")>> >>) >>) >>,
    << Mv("apiKeys.update", << R_(1), Ob(<< <<"name", V("str")>> >>) >>), Mv("apiKeys.update", << R_(2), Ob(<< <<"name", S("")>> >>) >>),
       Mv("apiKeys.create", << Ob(<< <<"name", V("str")>>, <<"domain_id", V("safe")>> >>) >>), Mv("apiKeys.list", <<>>), Mv("apiKeys.remove", << R_(1) >>), Mv("apiKeys.remove", << R_(2) >>) >>,
    << Mv("apiKeys.list", <<>>) >>),
  Fam_("broadcasts",
    << Mv("broadcasts.create", << Ob(<< <<"from", V("email")>>, <<"subject", V("str")>>, <<"segmentId", V("safe")>>, <<"html", V("html")>>, <<"replyTo", A(<< V("email") >>)>>, <<"previewText", S("")>> >>) >>),
       Mv("broadcasts.create", << Ob(<< <<"from", V("email")>>, <<"subject", S("")>>, <<"audienceId", V("safe")>>, <<"text", V("str")>>, <<"name", V("str")>>, <<"topicId", Null>> >>) >>) >>,
    << Mv("broadcasts.update", << R_(1), Ob(<< <<"subject", V("str")>> >>) >>), Mv("broadcasts.update", << R_(1), Ob(<< <<"name", S("")>>, <<"text", V("str")>>, <<"previewText", V("str")>> >>) >>),
       Mv("broadcasts.update", << R_(2), Ob(<< <<"replyTo", V("email")>>, <<"segmentId", V("safe")>>, <<"html", S("")>> >>) >>),
       Mv("broadcasts.send", << R_(1), Ob(<< <<"scheduledAt", V("date")>> >>) >>), Mv("broadcasts.send", << R_(2) >>), Mv("broadcasts.cancel", << R_(1) >>),
       Mv("broadcasts.get", << R_(2) >>), Mv("broadcasts.list", <<>>), Mv("broadcasts.remove", << R_(1) >>), Mv("broadcasts.remove", << R_(2) >>) >>,
    ByIds("broadcasts.get") \o << Mv("broadcasts.list", <<>>) >>),
  Fam_("templates",
    << Mv("templates.create", << Ob(<< <<"name", V("str")>>, <<"html", V("html")>>, <<"alias", V("safe")>>, <<"variables", A(<< VarA, VarB >>)>> >>) >>),
       Mv("templates.create", << Ob(<< <<"name", V("str")>>, <<"html", S("")>>, <<"subject", Null>>, <<"replyTo", A(<<>>)>> >>) >>) >>,
    << Mv("templates.update", << R_(1), Ob(<< <<"subject", V("str")>>, <<"text", S("")>> >>) >>), Mv("templates.update", << R_(1), Ob(<< <<"variables", A(<< VarB >>)>>, <<"alias", Null>> >>) >>),
       Mv("templates.update", << R_(2), Ob(<< <<"name", V("str")>>, <<"from", V("email")>>, <<"replyTo", V("email")>> >>) >>),
       Mv("templates.publish", << R_(1) >>), Mv("templates.duplicate", << R_(1) >>), Mv("templates.duplicate", << R_(2) >>),
       Mv("templates.get", << R_(1) >>), Mv("templates.list", <<>>), Mv("templates.remove", << R_(1) >>), Mv("templates.remove", << R_(2) >>) >>,
    ByIds("templates.get") \o << Mv("templates.list", <<>>) >>),
  Fam_("topics",
    << Mv("topics.create", << Ob(<< <<"name", V("str")>>, <<"defaultSubscription", S("opt_in")>>, <<"description", S("")>> >>) >>),
       Mv("topics.create", << Ob(<< <<"name", V("str")>>, <<"defaultSubscription", S("opt_out")>> >>) >>) >>,
    << Mv("topics.update", << Ob(<< <<"id", R_(1)>>, <<"name", V("str")>> >>) >>), Mv("topics.update", << Ob(<< <<"id", R_(1)>>, <<"description", V("str")>> >>) >>),
       Mv("topics.update", << Ob(<< <<"id", R_(2)>>, <<"description", S("")>>, <<"name", S("")>> >>) >>),
       Mv("topics.get", << R_(2) >>), Mv("topics.list", <<>>), Mv("topics.remove", << R_(1) >>), Mv("topics.remove", << R_(2) >>) >>,
    ByIds("topics.get") \o << Mv("topics.list", <<>>) >>),
  Fam_("webhooks",
    << Mv("webhooks.create", << Ob(<< <<"endpoint", V("url")>>, <<"events", A(<< S("email.sent"), S("email.opened") >>)>> >>) >>),
       Mv("webhooks.create", << Ob(<< <<"endpoint", V("url")>>, <<"events", A(<<>>)>> >>) >>) >>,
    << Mv("webhooks.update", << R_(1), Ob(<< <<"status", S("disabled")>> >>) >>), Mv("webhooks.update", << R_(1), Ob(<< <<"events", A(<<>>)>>, <<"status", S("enabled")>> >>) >>),
       Mv("webhooks.update", << R_(2), Ob(<< <<"endpoint", V("url")>> >>) >>),
       Mv("webhooks.get", << R_(1) >>), Mv("webhooks.list", <<>>), Mv("webhooks.remove", << R_(1) >>), Mv("webhooks.remove", << R_(2) >>) >>,
    ByIds("webhooks.get") \o << Mv("webhooks.list", <<>>) >>),
  Fam_("events",
    << Mv("events.create", << Ob(<< <<"name", TokId("safe", "ev1")>>, <<"schema", V("smap")>> >>) >>), Mv("events.create", << Ob(<< <<"name", TokId("safe", "ev2")>>, <<"schema", Null>> >>) >>) >>,
    << Mv("events.update", << R_(1), Ob(<< <<"schema", Null>> >>) >>), Mv("events.update", << TokId("safe", "ev1"), Ob(<< <<"schema", Ob(<<>>)>> >>) >>), Mv("events.update", << R_(2), Ob(<< <<"schema", V("smap")>> >>) >>),
       Mv("events.create", << Ob(<< <<"name", V("safe")>> >>) >>), Mv("events.get", << TokId("safe", "ev2") >>), Mv("events.list", <<>>), Mv("events.remove", << R_(1) >>), Mv("events.remove", << TokId("safe", "ev2") >>) >>,
    ByIds("events.get") \o << Mv("events.get", << TokId("safe", "ev1") >>), Mv("events.list", <<>>) >>),
  Fam_("automations",
    << Mv("automations.create", << Ob(<< <<"name", V("str")>>, <<"status", S("disabled")>>, <<"steps", A(<< StepA, StepB >>)>>, <<"connections", A(<< ConnA >>)>> >>) >>),
       Mv("automations.create", << Ob(<< <<"name", S("")>>, <<"steps", A(<<>>)>>, <<"connections", A(<<>>)>> >>) >>) >>,
    << Mv("automations.update", << R_(1), Ob(<< <<"name", V("str")>> >>) >>), Mv("automations.update", << R_(2), Ob(<< <<"status", S("enabled")>>, <<"steps", A(<< StepA >>)>> >>) >>),
       Mv("automations.update", << R_(1), Ob(<< <<"steps", A(<<>>)>>, <<"connections", A(<<>>)>> >>) >>), Mv("automations.stop", << R_(1) >>), Mv("automations.duplicate", << R_(1) >>),
       Mv("automations.get", << R_(1) >>), Mv("automations.list", <<>>), Mv("automations.remove", << R_(1) >>), Mv("automations.remove", << R_(2) >>) >>,
    ByIds("automations.get") \o << Mv("automations.list", <<>>) >>),
  Fam_("suppressions",
    << Mv("suppressions.add", << Ob(<< <<"email", E_(1)>> >>) >>), Mv("suppressions.batch.add", << Ob(<< <<"emails", A(<< E_(2), E_(3) >>)>> >>) >>) >>,
    << Mv("suppressions.add", << Ob(<< <<"email", E_(4)>> >>) >>), Mv("suppressions.batch.add", << Ob(<< <<"emails", A(<< E_(5) >>)>> >>) >>),
       Mv("suppressions.batch.remove", << Ob(<< <<"ids", A(<< R_(1), R_(3) >>)>> >>) >>), Mv("suppressions.batch.remove", << Ob(<< <<"emails", A(<< E_(2) >>)>> >>) >>),
       Mv("suppressions.get", << R_(2) >>), Mv("suppressions.get", << E_(3) >>), Mv("suppressions.list", <<>>), Mv("suppressions.remove", << R_(1) >>), Mv("suppressions.remove", << E_(3) >>) >>,
    ByIds("suppressions.get") \o << Mv("suppressions.get", << E_(3) >>), Mv("suppressions.list", <<>>) >>),
  Fam_("emails",
    << Mv("emails.send", << Ob(<< <<"from", V("email")>>, <<"to", V("email")>>, <<"subject", V("str")>>, <<"html", V("html")>>, <<"replyTo", V("email")>>, <<"scheduledAt", V("date")>>, <<"attachments", A(<< Att >>)>> >>) >>),
       Mv("batch.send", << A(<< Ob(<< <<"from", V("email")>>, <<"to", A(<< V("email") >>)>>, <<"subject", S("")>>, <<"text", V("str")>> >>),
                                Ob(<< <<"from", V("email")>>, <<"to", V("email")>>, <<"subject", V("str")>>, <<"html", V("html")>>, <<"tags", A(<<>>)>> >>) >>) >>) >>,
    << Mv("emails.update", << Ob(<< <<"id", R_(1)>>, <<"scheduledAt", V("date")>> >>) >>), Mv("emails.update", << Ob(<< <<"id", R_(3)>>, <<"scheduledAt", V("date")>> >>) >>),
       Mv("emails.cancel", << R_(1) >>), Mv("emails.cancel", << R_(2) >>), Mv("emails.get", << R_(2) >>), Mv("emails.list", <<>>),
       Mv("emails.create", << Ob(<< <<"from", V("email")>>, <<"to", V("email")>>, <<"subject", V("str")>>, <<"text", S("")>>, <<"headers", V("hmap")>>, <<"topicId", Null>> >>) >>),
       Mv("batch.create", << A(<< Ob(<< <<"from", V("email")>>, <<"to", V("email")>>, <<"subject", V("str")>>, <<"html", V("html")>>, <<"text", V("str")>> >>) >>) >>) >>,
    << Mv("emails.get", << R_(1) >>), Mv("emails.get", << R_(2) >>), Mv("emails.get", << R_(3) >>), Mv("emails.list", <<>>) >>)
>>

\* one creation or update with each field of its shape, each value of it
CreateEach(op, fs) == LET c == EachCases(fs) IN [i \in DOMAIN c |-> Mv(op, << c[i] >>)]
UpdateEach(op, id, fs) == LET c == EachCases(fs) IN [i \in DOMAIN c |-> Mv(op, << id, c[i] >>)]
UpdateEachIn(op, who, fs) == LET c == EachCases(fs) IN [i \in DOMAIN c |-> Mv(op, << O(who \o c[i].f) >>)]
PairsOf(op, id, fs) == LET c == PairCases(fs) IN [i \in DOMAIN c |-> Mv(op, << id, c[i] >>)]
PairsIn(op, who, fs) == LET c == PairCases(fs) IN [i \in DOMAIN c |-> Mv(op, << O(who \o c[i].f) >>)]
\* the fields of a shape that are kept as given, apart from their names
Only(fs, names) == SelectSeq(fs, LAMBDA f : f.n \in names)
Not(fs, names) == SelectSeq(fs, LAMBDA f : f.n \notin names)
StepLists == << A(<< StepA, StepB >>), A(<<>>), A(<< StepB >>), A(<< StepA, StepA, StepB >>) >>
Stepped(fs) == [i \in DOMAIN fs |-> IF fs[i].n = "steps" THEN [fs[i] EXCEPT !.vs = StepLists] ELSE fs[i]]
ByObj(op) == ParamsOf(op)[1][1].f
Singles(name, dummy) ==
  CASE name = "segments" -> CreateEach("segments.create", ByObj("segments.create")) \o CreateEach("audiences.create", ByObj("audiences.create"))
    [] name = "contacts" ->
         CreateEach("contacts.create", << FR("email", VEmail) >> \o ContactBase)
         \o UpdateEachIn("contacts.update", << <<"id", R_(1)>> >>, ContactUpdateShape)
         \o UpdateEachIn("contacts.update", << <<"email", E_(2)>> >>, ContactUpdateShape)
         \o UpdateEachIn("contacts.update", << <<"email", E_(1)>>, <<"id", R_(2)>> >>, ContactUpdateShape)
         \o UpdateEachIn("contacts.update", << <<"id", R_(1)>>, <<"email", S("")>> >>, ContactUpdateShape)
         \o PairsIn("contacts.update", << <<"id", R_(1)>> >>, ContactUpdateShape)
    [] name = "relations" ->
         CreateEach("contacts.create", << FR("audienceId", << R_(2) >>), FR("email", VEmail) >> \o ContactBase)
         \o UpdateEachIn("contacts.update", << <<"audienceId", R_(2)>>, <<"id", R_(5)>> >>, ContactUpdateShape)
         \o UpdateEachIn("contacts.update", << <<"audienceId", R_(2)>>, <<"email", E_(2)>> >>, ContactUpdateShape)
         \o UpdateEachIn("contacts.update", << <<"audienceId", R_(1)>>, <<"email", E_(1)>>, <<"id", R_(5)>> >>, ContactUpdateShape)
         \o PairsIn("contacts.update", << <<"audienceId", R_(2)>>, <<"email", E_(2)>> >>, ContactUpdateShape)
    [] name = "contactProperties" ->
         CreateEach("contactProperties.create", ByObj("contactProperties.create"))
         \o UpdateEachIn("contactProperties.update", << <<"id", R_(1)>> >>, Not(ByObj("contactProperties.update"), {"id"}))
         \o UpdateEachIn("contactProperties.update", << <<"id", R_(2)>> >>, Not(ByObj("contactProperties.update"), {"id"}))
    [] name = "domains" -> CreateEach("domains.create", DomainShape)
         \o UpdateEachIn("domains.update", << <<"id", R_(1)>> >>, Not(DomainUpdateShape, {"id"}))
         \o PairsIn("domains.update", << <<"id", R_(2)>> >>, Not(DomainUpdateShape, {"id"}))
    [] name = "apiKeys" -> CreateEach("apiKeys.create", ByObj("apiKeys.create"))
         \o UpdateEach("apiKeys.update", R_(1), ParamsOf("apiKeys.update")[1][2].f)
    [] name = "broadcasts" -> CreateEach("broadcasts.create", BroadcastShape)
         \o UpdateEach("broadcasts.update", R_(1), BroadcastUpdateShape) \o PairsOf("broadcasts.update", R_(2), BroadcastUpdateShape)
    [] name = "templates" -> CreateEach("templates.create", Not(TemplateShape, {"alias"}) \o << F("alias", << TokId("safe", "al"), Null >>) >>)
         \o UpdateEach("templates.update", R_(1), TemplateUpdateShape) \o PairsOf("templates.update", R_(2), TemplateUpdateShape)
    [] name = "topics" -> CreateEach("topics.create", ByObj("topics.create"))
         \o UpdateEachIn("topics.update", << <<"id", R_(1)>> >>, Not(ByObj("topics.update"), {"id"}))
         \o PairsIn("topics.update", << <<"id", R_(2)>> >>, Not(ByObj("topics.update"), {"id"}))
    [] name = "webhooks" -> CreateEach("webhooks.create", ByObj("webhooks.create"))
         \o UpdateEach("webhooks.update", R_(1), ParamsOf("webhooks.update")[1][2].f) \o PairsOf("webhooks.update", R_(2), ParamsOf("webhooks.update")[1][2].f)
    [] name = "events" -> CreateEach("events.create", << FR("name", << TokId("safe", "ev3") >>), ByObj("events.create")[2] >>)
         \o UpdateEach("events.update", R_(1), ParamsOf("events.update")[1][2].f) \o UpdateEach("events.update", TokId("safe", "ev2"), ParamsOf("events.update")[1][2].f)
    [] name = "automations" -> CreateEach("automations.create", Stepped(AutomationShape))
         \o UpdateEach("automations.update", R_(1), Stepped(AutomationUpdateShape)) \o PairsOf("automations.update", R_(2), Stepped(AutomationUpdateShape))
    [] name = "emails" -> CreateEach("emails.send", Not(EmailFieldsShape(TRUE), {"attachments"}) \o << F("attachments", << A(<< Att >>), A(<<>>), A(<< AttFull, AttMin, AttOdd >>) >>) >>)
         \o UpdateEachIn("emails.update", << <<"id", R_(2)>> >>, << FR("scheduledAt", VDate) >>)
    [] OTHER -> <<>>
\* how many moves a history has, and whether two calls may overlap
Prog(f, par, depth, tag) == [f |-> f, par |-> par, depth |-> depth, tag |-> tag]
Programs == CatR(LAMBDA i :
  LET f == Families[i]
      one == Singles(f.name, 0)
      d == IF Deep THEN 3 ELSE 2
  IN  << Prog(f, FALSE, d, "1"), Prog(f, TRUE, d, "2") >>
      \o (IF one = <<>> THEN <<>> ELSE << Prog([f EXCEPT !.moves = one], FALSE, 1, "3") >>), 1, Len(Families))
ASSUME TLCSet(1, TLCEval(Programs))

(******************************** behaviour ********************************)
CId(k) == "c" \o ToString(k)
Rid(k) == "r" \o ToString(k)
\* rs: what stands for the resources made so far
RECURSIVE Subst(_, _, _)
Subst(d, rs, toks) ==
  CASE d.k = "res" -> rs[d.n]
    [] d.k = "o" -> O([i \in DOMAIN d.f |-> << d.f[i][1], Subst(d.f[i][2], rs, toks) >>])
    [] d.k = "a" -> A([i \in DOMAIN d.c |-> Subst(d.c[i], rs, toks)])
    [] d.k = "tok" /\ ~toks -> S(Str(d))
    [] OTHER -> d
ArgsNow(mv) == LET rs == [k \in DOMAIN made |-> S(Rid(k))] IN [i \in DOMAIN mv.args |-> Subst(mv.args[i], rs, FALSE)]
ArgsOut(mv) == LET rs == [k \in DOMAIN made |-> [k |-> "ref", call |-> made[k].call, path |-> made[k].path]]
               IN  [i \in DOMAIN mv.args |-> Subst(mv.args[i], rs, TRUE)]
RECURSIVE NeedsR(_)
NeedsR(d) == CASE d.k = "res" -> d.n
               [] d.k = "o" -> LET m == {NeedsR(d.f[i][2]) : i \in DOMAIN d.f} \cup {0} IN CHOOSE x \in m : \A y \in m : y <= x
               [] d.k = "a" -> LET m == {NeedsR(d.c[i]) : i \in DOMAIN d.c} \cup {0} IN CHOOSE x \in m : \A y \in m : y <= x
               [] OTHER -> 0
Possible(mv) == \A i \in DOMAIN mv.args : NeedsR(mv.args[i]) <= Len(made)

Init ==
  /\ \E i \in DOMAIN TLCGet(1) : p = TLCGet(1)[i]
  /\ n = 0 /\ srv = <<>> /\ abs = <<>> /\ made = <<>> /\ fl = <<>> /\ okay = "" /\ frame = TRUE /\ over = FALSE
  /\ hist = << [x |-> "new", c |-> "a", key |-> Tok("key"), opts |-> Undef], [x |-> "new", c |-> "b", key |-> Tok("key"), opts |-> Undef] >>

NI == Len(p.f.init)
NR == Len(p.f.reads)
Depth == p.depth
Total == NI + Depth + NR
\* the middle calls may overlap pairwise
Width == IF p.par /\ n >= NI /\ n < NI + Depth /\ Len(fl) < 2 THEN 2 ELSE 1
Moves == IF n < NI THEN << p.f.init[n + 1] >>
         ELSE IF n < NI + Depth THEN p.f.moves
         ELSE << p.f.reads[n - NI - Depth + 1] >>
Issue ==
  /\ n < Total /\ Len(fl) < Width
  \* the reads come when everything has settled
  /\ (n >= NI + Depth \/ n < NI) => Len(fl) = 0
  /\ \E i \in DOMAIN Moves :
       LET mv == Moves[i]
           k == n + 1
       IN  /\ Possible(mv)
           /\ n' = k
           /\ fl' = Append(fl, [k |-> k, op |-> mv.op, a |-> ArgsNow(mv)])
           /\ hist' = Append(hist, [x |-> "call", i |-> CId(k), c |-> IF k % 2 = 0 THEN "a" ELSE "b", op |-> mv.op, args |-> ArgsOut(mv),
                                    aw |-> TRUE, par |-> "", freeze |-> FALSE, same |-> "", nodrain |-> FALSE])
  /\ UNCHANGED << p, srv, abs, made, okay, frame, over >>

ResultOf(op, ans) ==
  OpResult(op, [kind |-> "http", status |-> ans.status, ok |-> ans.status < 300, bt |-> "json", d |-> ans.d, h |-> <<>>])
Reply(j) ==
  LET c == fl[j]
      plan == Plan(c.op, c.a, <<>>)
      body == IF plan.body.t = "json" THEN plan.body.d ELSE Undef
      ids == [i \in 1 .. 4 |-> Rid(Len(made) + i)]
      ans == K!Serve(srv, plan.m, plan.segs, body, ids)
      exp == K!Abs(abs, c.op, c.a, ids)
      x == ResultOf(c.op, ans)
      diff == IF x.t = "ok" THEN K!StoreDiff(exp, x.data, Null) ELSE K!StoreDiff(exp, Null, x.e.d)
      new == Len(ans.st) - Len(srv)
      many == ans.d.k = "o" /\ Get(ans.d, "data").k = "a"
      same(s, t) == \A a \in DOMAIN s : \E b \in DOMAIN t : t[b].id = s[a].id /\ t[b].fam = s[a].fam
  IN
  /\ srv' = ans.st
  /\ abs' = exp.st
  /\ okay' = IF okay # "" THEN okay ELSE IF diff = "" THEN "" ELSE c.op \o " " \o diff
  \* at most one resource changes or goes, apart from batches and a removed
  \* segment's relations
  /\ frame' = \/ c.op \in {"suppressions.batch.remove", "segments.remove", "audiences.remove"}
              \/ Cardinality({a \in DOMAIN abs : ~\E b \in DOMAIN exp.st : exp.st[b] = abs[a]}) <= 1
  /\ made' = IF new <= 0 THEN made
             ELSE made \o [i \in 1 .. new |-> [call |-> CId(c.k), path |-> IF many THEN << "data", "data", i - 1, "id" >> ELSE << "data", "id" >>]]
  /\ fl' = SubSeq(fl, 1, j - 1) \o SubSeq(fl, j + 1, Len(fl))
  /\ hist' = Append(hist, [x |-> "reply", i |-> CId(c.k), r |-> [kind |-> "store"]])
  /\ UNCHANGED << p, n, over >>

Stop ==
  /\ n = Total /\ fl = <<>> /\ ~over /\ over' = TRUE
  /\ PrintT("SC " \o ToJson([id |-> p.f.name \o "#" \o p.tag, seed |-> p.f.name \o ToString(Len(made)),
                              renderer |-> "ok", proc |-> "present", about |-> "", store |-> TRUE, steps |-> hist]))
  /\ UNCHANGED << p, n, srv, abs, made, fl, okay, frame, hist >>
Stay == over /\ UNCHANGED vars
Next == Issue \/ (\E j \in DOMAIN fl : Reply(j)) \/ Stop \/ Stay
Spec == Init /\ [][Next]_vars

(******************************* properties ********************************)
\* through the plans, the server does what the user expects
Agrees == okay = ""
Frame  == frame
\* both hold the same resources, in the same order
RECURSIVE IdsFrom(_, _)
IdsFrom(s, i) == IF i > Len(s) THEN <<>> ELSE << s[i].id >> \o IdsFrom(s, i + 1)
SameThings == IdsFrom(srv, 1) = IdsFrom(abs, 1)
              /\ \A i \in DOMAIN srv : srv[i].segs = abs[i].segs /\ srv[i].tops = abs[i].tops /\ Same(srv[i].f, abs[i].f)
NoTwins == \A i, j \in DOMAIN abs : i # j => abs[i].id # abs[j].id
=============================================================================
