-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* What every operation of the SDK asks of the API: given the operation's  *)
(* name and its argument documents, Plan gives either a local refusal or   *)
(* the request to send.  Requests are                                      *)
(*   [t: "req", m: method, segs: path segments, q: <<name, text>> pairs,   *)
(*    body: [t: "none"] or [t: "json", d: document, alt: documents also    *)
(*    acceptable] or [t: "form", parts], ro: request options document,     *)
(*    bv: validation mode or ""]                                           *)
(* Segments and query texts are decoded: how they are escaped on the wire  *)
(* is not part of the meaning.                                             *)
(***************************************************************************)
EXTENDS Doc

Arg(a, i) == IF i <= Len(a) THEN a[i] ELSE Undef
P(a, i)   == Str(Arg(a, i))
PF(a, i, f) == Str(Get(Arg(a, i), f))
RoOf(a, i)  == IF IsObj(Arg(a, i)) THEN Arg(a, i) ELSE O(<<>>)

NoBody   == [t |-> "none"]
JBody(d) == [t |-> "json", d |-> Json(d), alt |-> <<>>]
NoRo     == O(<<>>)

Req(m, segs, q, body, ro) ==
  [t |-> "req", m |-> m, segs |-> segs, q |-> q, body |-> body, ro |-> ro, bv |-> ""]
Refuse(name) == [t |-> "refuse", name |-> name, status |-> Null]

GET(segs)          == Req("GET", segs, <<>>, NoBody, NoRo)
GETQ(segs, q)      == Req("GET", segs, q, NoBody, NoRo)
DELETE(segs)       == Req("DELETE", segs, <<>>, NoBody, NoRo)
POST0(segs)        == Req("POST", segs, <<>>, NoBody, NoRo)
POST(segs, d)      == Req("POST", segs, <<>>, JBody(d), NoRo)
POSTO(segs, d, ro) == Req("POST", segs, <<>>, JBody(d), ro)
PATCH(segs, d)     == Req("PATCH", segs, <<>>, JBody(d), NoRo)

(************************** field translations *****************************)
AttachmentFields == << <<"content", "content">>, <<"filename", "filename">>,
  <<"path", "path">>, <<"contentType", "content_type">>, <<"contentId", "content_id">> >>

EmailFields == << <<"bcc", "bcc">>, <<"cc", "cc">>, <<"from", "from">>,
  <<"headers", "headers">>, <<"replyTo", "reply_to">>, <<"scheduledAt", "scheduled_at">>,
  <<"subject", "subject">>, <<"tags", "tags">>, <<"text", "text">>, <<"to", "to">>,
  <<"topicId", "topic_id">> >>

\* html is passed separately: given or rendered
EmailBody(d, html) ==
  LET base == Pick(d, EmailFields)
      att  == MapList(Get(d, "attachments"), LAMBDA x : Pick(x, AttachmentFields))
      tpl  == Get(d, "template")
      t    == IF Truthy(tpl) THEN Pick(tpl, << <<"id", "id">>, <<"variables", "variables">> >>) ELSE Undef
  IN  With(With(With(base, "html", html), "attachments", att), "template", t)

BroadcastFields == << <<"name", "name">>, <<"segmentId", "segment_id">>,
  <<"audienceId", "audience_id">>, <<"previewText", "preview_text">>, <<"from", "from">>,
  <<"replyTo", "reply_to">>, <<"subject", "subject">>, <<"text", "text">>,
  <<"topicId", "topic_id">> >>
BroadcastCreateFields == BroadcastFields \o << <<"send", "send">>, <<"scheduledAt", "scheduled_at">> >>

VariableFields == << <<"key", "key">>, <<"type", "type">>, <<"fallbackValue", "fallback_value">> >>
TemplateFields == << <<"name", "name">>, <<"subject", "subject">>, <<"text", "text">>,
  <<"alias", "alias">>, <<"from", "from">>, <<"replyTo", "reply_to">> >>
TemplateBody(d, html) ==
  With(With(Pick(d, TemplateFields), "html", html),
       "variables", MapList(Get(d, "variables"), LAMBDA x : Pick(x, VariableFields)))

DomainUpdateFields == << <<"clickTracking", "click_tracking">>, <<"openTracking", "open_tracking">>,
  <<"tls", "tls">>, <<"capabilities", "capabilities">>, <<"trackingSubdomain", "tracking_subdomain">> >>
ClaimFields == << <<"name", "name">>, <<"region", "region">>,
  <<"customReturnPath", "custom_return_path">>, <<"openTracking", "open_tracking">>,
  <<"clickTracking", "click_tracking">>, <<"trackingSubdomain", "tracking_subdomain">> >>
DomainFields == ClaimFields \o << <<"capabilities", "capabilities">>, <<"tls", "tls">> >>

ContactUpdateFields == << <<"unsubscribed", "unsubscribed">>, <<"firstName", "first_name">>,
  <<"lastName", "last_name">>, <<"properties", "properties">> >>
ContactLegacyFields == ContactUpdateFields \o << <<"email", "email">> >>
ContactFields == ContactLegacyFields \o << <<"segments", "segments">>, <<"topics", "topics">> >>

PropertyFields == << <<"key", "key">>, <<"type", "type">>, <<"fallbackValue", "fallback_value">> >>

StepConfig(type, c) ==
  CASE type = "trigger" -> Pick(c, << <<"eventName", "event_name">> >>)
    [] type = "send_email" -> Pick(c, << <<"template", "template">>, <<"subject", "subject">>,
                                         <<"from", "from">>, <<"replyTo", "reply_to">> >>)
    [] type = "wait_for_event" -> Pick(c, << <<"eventName", "event_name">>, <<"timeout", "timeout">>,
                                             <<"filterRule", "filter_rule">> >>)
    [] type = "contact_update" -> Pick(c, << <<"firstName", "first_name">>, <<"lastName", "last_name">>,
                                             <<"unsubscribed", "unsubscribed">>, <<"properties", "properties">> >>)
    [] type = "add_to_segment" -> Pick(c, << <<"segmentId", "segment_id">> >>)
    [] OTHER -> c
AutoStep(s) == With(Pick(s, << <<"key", "key">>, <<"type", "type">> >>),
                "config", StepConfig(Str(Get(s, "type")), Get(s, "config")))
Connection(c) == Pick(c, << <<"from", "from">>, <<"to", "to">>, <<"type", "type">> >>)
AutomationBody(d) ==
  With(With(Pick(d, << <<"name", "name">>, <<"status", "status">> >>),
            "steps", MapList(Get(d, "steps"), AutoStep)),
       "connections", MapList(Get(d, "connections"), Connection))

EventFields == << <<"event", "event">>, <<"contactId", "contact_id">>, <<"email", "email">>,
                  <<"payload", "payload">> >>

(******************************* queries ***********************************)
\* One <<name, text>> pair for each <<field, name>> that is set
QPick(d, pairs) ==
  LET m == SelectSeq(pairs, LAMBDA p : ~IsUndef(Get(d, p[1])))
  IN  [i \in DOMAIN m |->
        LET v == Get(d, m[i][1])
        IN  <<m[i][2], IF v.k = "a" THEN JoinTxt(v.c, 1) ELSE Str(v)>>]
PageFields == << <<"limit", "limit">>, <<"after", "after">>, <<"before", "before">> >>
Page(d) == QPick(d, PageFields)
MetricsFields == << <<"startDate", "start_date">>, <<"endDate", "end_date">>,
  <<"timezone", "timezone">>, <<"granularity", "granularity">>, <<"metrics", "metrics">>,
  <<"dimensions", "dimensions">>, <<"domainId", "domain_id">>, <<"emailId", "email_id">>,
  <<"broadcastId", "broadcast_id">> >>

(******************************* contacts **********************************)
\* Which contact an options document names; "" if none
ContactKey(d, idField) ==
  IF Truthy(Get(d, "email")) THEN Str(Get(d, "email"))
  ELSE IF Truthy(Get(d, idField)) THEN Str(Get(d, idField)) ELSE ""
ContactPath(d) ==
  IF Truthy(Get(d, "audienceId"))
  THEN <<"audiences", Str(Get(d, "audienceId")), "contacts", ContactKey(d, "id")>>
  ELSE <<"contacts", ContactKey(d, "id")>>
OnContact(d, idField, req) ==
  IF ContactKey(d, idField) = "" THEN Refuse("missing_required_field") ELSE req
ById(id, req) == IF id = "" THEN Refuse("missing_required_field") ELSE req

(************************* multipart import form ***************************)
Part(name, d) == [name |-> name, t |-> "text", d |-> d]
JPart(name, d) == [name |-> name, t |-> "json", d |-> Json(d)]
ColumnMap(d) == Pick(d, << <<"email", "email">>, <<"firstName", "first_name">>,
  <<"lastName", "last_name">>, <<"unsubscribed", "unsubscribed">>, <<"properties", "properties">> >>)
Absent(d) == d.k \in {"u", "z"}
ImportParts(d) ==
     << [name |-> "file", t |-> "file", d |-> Get(d, "file")] >>
  \o (IF Absent(Get(d, "columnMap")) THEN <<>> ELSE << JPart("column_map", ColumnMap(Get(d, "columnMap"))) >>)
  \o (IF Absent(Get(d, "onConflict")) THEN <<>> ELSE << Part("on_conflict", Get(d, "onConflict")) >>)
  \o (IF Absent(Get(d, "segments")) THEN <<>> ELSE << JPart("segments", Get(d, "segments")) >>)
  \o (IF Absent(Get(d, "topics")) THEN <<>> ELSE << JPart("topics", Get(d, "topics")) >>)

(*************************** React content *********************************)
\* The React nodes an operation must render, as a sequence of identities
NodeOf(d) == IF Get(d, "react").k = "react" THEN << Get(d, "react").v >> ELSE <<>>
RECURSIVE NodesOf(_, _)
NodesOf(c, i) == IF i > Len(c) THEN <<>> ELSE NodeOf(c[i]) \o NodesOf(c, i + 1)
Nodes(op, a) ==
  CASE op \in {"emails.send", "emails.create", "broadcasts.create", "templates.create"} -> NodeOf(Arg(a, 1))
    [] op = "broadcasts.update" -> NodeOf(Arg(a, 2))
    [] op \in {"batch.send", "batch.create"} /\ Arg(a, 1).k = "a" -> NodesOf(Arg(a, 1).c, 1)
    [] OTHER -> <<>>

\* html: a function from rendered node identities to documents
HtmlFor(d, html) ==
  IF Get(d, "react").k = "react" THEN html[Get(d, "react").v] ELSE Get(d, "html")

(******************************* the plans *********************************)
Validation(ro) ==
  IF Truthy(Get(ro, "batchValidation")) THEN Str(Get(ro, "batchValidation")) ELSE "strict"

RawPath(a) == Arg(a, 1)
RawBody(d) == IF IsUndef(d) THEN NoBody ELSE JBody(d)

Plan(op, a, html) ==
 LET a1 == Arg(a, 1)  a2 == Arg(a, 2)
     id == P(a, 1)
 IN CASE
    op = "apiKeys.create" -> POSTO(<<"api-keys">>, a1, RoOf(a, 2))
 [] op = "apiKeys.list"   -> GETQ(<<"api-keys">>, Page(a1))
 [] op = "apiKeys.update" -> PATCH(<<"api-keys", id>>, a2)
 [] op = "apiKeys.remove" -> DELETE(<<"api-keys", id>>)

 [] op = "automations.create"    -> POST(<<"automations">>, AutomationBody(a1))
 [] op = "automations.list"      -> GETQ(<<"automations">>, Page(a1) \o QPick(a1, << <<"status", "status">> >>))
 [] op = "automations.get"       -> GET(<<"automations", id>>)
 [] op = "automations.remove"    -> DELETE(<<"automations", id>>)
 [] op = "automations.update"    -> PATCH(<<"automations", id>>, AutomationBody(a2))
 [] op = "automations.duplicate" -> POST0(<<"automations", id, "duplicate">>)
 [] op = "automations.stop"      -> POST0(<<"automations", id, "stop">>)
 [] op = "automations.runs.get"  -> GET(<<"automations", PF(a, 1, "automationId"), "runs", PF(a, 1, "runId")>>)
 [] op = "automations.runs.list" -> GETQ(<<"automations", PF(a, 1, "automationId"), "runs">>,
                                         Page(a1) \o QPick(a1, << <<"status", "status">> >>))

 [] op \in {"batch.send", "batch.create"} ->
      [POSTO(<<"emails", "batch">>, MapList(a1, LAMBDA e : EmailBody(e, HtmlFor(e, html))), RoOf(a, 2))
         EXCEPT !.bv = Validation(RoOf(a, 2))]

 [] op = "broadcasts.create" -> POSTO(<<"broadcasts">>,
        With(Pick(a1, BroadcastCreateFields), "html", HtmlFor(a1, html)), RoOf(a, 2))
 [] op = "broadcasts.send" -> POST(<<"broadcasts", id, "send">>, Pick(a2, << <<"scheduledAt", "scheduled_at">> >>))
 [] op = "broadcasts.list" -> GETQ(<<"broadcasts">>, Page(a1))
 [] op = "broadcasts.get"  -> GET(<<"broadcasts", id>>)
 [] op = "broadcasts.recipients" -> GETQ(<<"broadcasts", id, "recipients">>,
        Page(a2) \o QPick(a2, << <<"type", "type">>, <<"email", "email">>, <<"bounceType", "bounce_type">> >>))
 [] op = "broadcasts.clickedLinks" -> GETQ(<<"broadcasts", id, "clicked-links">>, Page(a2))
 [] op = "broadcasts.remove" -> DELETE(<<"broadcasts", id>>)
 [] op = "broadcasts.cancel" -> POST0(<<"broadcasts", id, "cancel">>)
 [] op = "broadcasts.update" -> PATCH(<<"broadcasts", id>>,
        With(Pick(a2, BroadcastFields), "html", HtmlFor(a2, html)))

 [] op = "contactProperties.create" -> POST(<<"contact-properties">>, Pick(a1, PropertyFields))
 [] op = "contactProperties.list"   -> GETQ(<<"contact-properties">>, Page(a1))
 [] op = "contactProperties.get"    -> ById(id, GET(<<"contact-properties", id>>))
 [] op = "contactProperties.update" -> ById(PF(a, 1, "id"),
        PATCH(<<"contact-properties", PF(a, 1, "id")>>, Pick(a1, << <<"fallbackValue", "fallback_value">> >>)))
 [] op = "contactProperties.remove" -> ById(id, DELETE(<<"contact-properties", id>>))

 [] op = "contacts.create" ->
      IF HasKey(a1, "audienceId")
      THEN IF HasKey(a1, "segments") \/ HasKey(a1, "topics") THEN Refuse("invalid_parameter")
           ELSE POSTO(<<"audiences", PF(a, 1, "audienceId"), "contacts">>, Pick(a1, ContactLegacyFields), RoOf(a, 2))
      ELSE POSTO(<<"contacts">>, Pick(a1, ContactFields), RoOf(a, 2))
 [] op = "contacts.list" ->
      LET s == IF Absent(Get(a1, "segmentId")) THEN Get(a1, "audienceId") ELSE Get(a1, "segmentId")
      IN  GETQ(IF Truthy(s) THEN <<"segments", Str(s), "contacts">> ELSE <<"contacts">>, Page(a1))
 [] op = "contacts.get" ->
      IF a1.k = "s" THEN ById(id, GET(<<"contacts", id>>)) ELSE OnContact(a1, "id", GET(ContactPath(a1)))
 [] op = "contacts.update" -> OnContact(a1, "id", PATCH(ContactPath(a1), Pick(a1, ContactUpdateFields)))
 [] op = "contacts.remove" ->
      IF a1.k = "s" THEN ById(id, DELETE(<<"contacts", id>>)) ELSE OnContact(a1, "id", DELETE(ContactPath(a1)))
 [] op = "contacts.imports.create" ->
      Req("POST", <<"contacts", "imports">>, <<>>, [t |-> "form", parts |-> ImportParts(a1)], RoOf(a, 2))
 [] op = "contacts.imports.list" -> GETQ(<<"contacts", "imports">>, Page(a1) \o QPick(a1, << <<"status", "status">> >>))
 [] op = "contacts.imports.get"  -> GET(<<"contacts", "imports", id>>)
 [] op = "contacts.segments.list" -> OnContact(a1, "contactId",
        GETQ(<<"contacts", ContactKey(a1, "contactId"), "segments">>, Page(a1)))
 [] op = "contacts.segments.add" -> OnContact(a1, "contactId",
        POST0(<<"contacts", ContactKey(a1, "contactId"), "segments", PF(a, 1, "segmentId")>>))
 [] op = "contacts.segments.remove" -> OnContact(a1, "contactId",
        DELETE(<<"contacts", ContactKey(a1, "contactId"), "segments", PF(a, 1, "segmentId")>>))
 [] op = "contacts.topics.update" -> OnContact(a1, "id",
        PATCH(<<"contacts", ContactKey(a1, "id"), "topics">>, Get(a1, "topics")))
 [] op = "contacts.topics.list" -> OnContact(a1, "id",
        GETQ(<<"contacts", ContactKey(a1, "id"), "topics">>, Page(a1)))

 [] op = "domains.create" -> POSTO(<<"domains">>, Pick(a1, DomainFields), RoOf(a, 2))
 [] op = "domains.list"   -> GETQ(<<"domains">>, Page(a1))
 [] op = "domains.get"    -> GET(<<"domains", id>>)
 [] op = "domains.update" -> PATCH(<<"domains", PF(a, 1, "id")>>, Pick(a1, DomainUpdateFields))
 [] op = "domains.remove" -> DELETE(<<"domains", id>>)
 [] op = "domains.verify" -> POST0(<<"domains", id, "verify">>)
 [] op = "domains.claims.create" -> POSTO(<<"domains", "claim">>, Pick(a1, ClaimFields), RoOf(a, 2))
 [] op = "domains.claims.get"    -> GET(<<"domains", id, "claim">>)
 [] op = "domains.claims.verify" -> POST0(<<"domains", id, "claim", "verify">>)

 [] op \in {"emails.send", "emails.create"} ->
      POSTO(<<"emails">>, EmailBody(a1, HtmlFor(a1, html)), RoOf(a, 2))
 [] op = "emails.get"    -> GET(<<"emails", id>>)
 [] op = "emails.list"   -> GETQ(<<"emails">>, Page(a1))
 [] op = "emails.update" -> PATCH(<<"emails", PF(a, 1, "id")>>, Pick(a1, << <<"scheduledAt", "scheduled_at">> >>))
 [] op = "emails.cancel" -> POST0(<<"emails", id, "cancel">>)
 [] op = "emails.share"  -> POST(<<"emails", id, "share">>, Pick(a2, << <<"expiresIn", "expires_in">> >>))
 [] op = "emails.metrics" -> GETQ(<<"emails", "metrics">>,
        SelectSeq(QPick(a1, MetricsFields), LAMBDA p : p[2] # ""))
 [] op = "emails.attachments.get"  -> GET(<<"emails", PF(a, 1, "emailId"), "attachments", PF(a, 1, "id")>>)
 [] op = "emails.attachments.list" -> GETQ(<<"emails", PF(a, 1, "emailId"), "attachments">>, Page(a1))
 [] op = "emails.receiving.get"    -> GETQ(<<"emails", "receiving", id>>, QPick(a2, << <<"html_format", "html_format">> >>))
 [] op = "emails.receiving.list"   -> GETQ(<<"emails", "receiving">>, Page(a1))
 [] op = "emails.receiving.forward" -> GET(<<"emails", "receiving", PF(a, 1, "emailId")>>)
 [] op = "emails.receiving.attachments.get" ->
      GET(<<"emails", "receiving", PF(a, 1, "emailId"), "attachments", PF(a, 1, "id")>>)
 [] op = "emails.receiving.attachments.list" ->
      GETQ(<<"emails", "receiving", PF(a, 1, "emailId"), "attachments">>, Page(a1))

 [] op = "events.send"   -> POST(<<"events", "send">>, Pick(a1, EventFields))
 [] op = "events.create" -> POST(<<"events">>, a1)
 [] op = "events.get"    -> GET(<<"events", id>>)
 [] op = "events.list"   -> GETQ(<<"events">>, Page(a1))
 [] op = "events.update" -> PATCH(<<"events", id>>, a2)
 [] op = "events.remove" -> DELETE(<<"events", id>>)

 [] op = "logs.list" -> GETQ(<<"logs">>, Page(a1))
 [] op = "logs.get"  -> GET(<<"logs", id>>)
 [] op = "oauthGrants.list"   -> GETQ(<<"oauth", "grants">>, Page(a1))
 [] op = "oauthGrants.revoke" -> DELETE(<<"oauth", "grants", id>>)

 [] op \in {"segments.create", "audiences.create"} -> POSTO(<<"segments">>, a1, RoOf(a, 2))
 [] op \in {"segments.list", "audiences.list"}     -> GETQ(<<"segments">>, Page(a1))
 [] op \in {"segments.get", "audiences.get"}       -> GET(<<"segments", id>>)
 [] op \in {"segments.remove", "audiences.remove"} -> DELETE(<<"segments", id>>)

 [] op = "suppressions.add"  -> POST(<<"suppressions">>, a1)
 [] op = "suppressions.list" -> GETQ(<<"suppressions">>, Page(a1) \o QPick(a1, << <<"origin", "origin">> >>))
 [] op = "suppressions.get"  -> ById(id, GET(<<"suppressions", id>>))
 [] op = "suppressions.remove" -> ById(id, DELETE(<<"suppressions", id>>))
 [] op = "suppressions.batch.add"    -> POST(<<"suppressions", "batch", "add">>, a1)
 [] op = "suppressions.batch.remove" -> POST(<<"suppressions", "batch", "remove">>, a1)

 [] op = "templates.create"    -> POST(<<"templates">>, TemplateBody(a1, HtmlFor(a1, html)))
 [] op = "templates.remove"    -> DELETE(<<"templates", id>>)
 [] op = "templates.get"       -> GET(<<"templates", id>>)
 [] op = "templates.list"      -> GETQ(<<"templates">>, Page(a1))
 [] op = "templates.duplicate" -> POST0(<<"templates", id, "duplicate">>)
 [] op = "templates.publish"   -> POST0(<<"templates", id, "publish">>)
 [] op = "templates.update"    -> PATCH(<<"templates", id>>, TemplateBody(a2, Get(a2, "html")))

 [] op = "topics.create" -> POST(<<"topics">>, With(Without(a1, "defaultSubscription"),
        "default_subscription", Get(a1, "defaultSubscription")))
 [] op = "topics.list"   -> GET(<<"topics">>)
 [] op = "topics.get"    -> ById(id, GET(<<"topics", id>>))
 [] op = "topics.update" -> ById(PF(a, 1, "id"),
        [PATCH(<<"topics", PF(a, 1, "id")>>, Without(a1, "id")) EXCEPT !.body.alt = << Json(a1) >>])
 [] op = "topics.remove" -> ById(id, DELETE(<<"topics", id>>))

 [] op = "webhooks.create" -> POSTO(<<"webhooks">>, a1, RoOf(a, 2))
 [] op = "webhooks.get"    -> GET(<<"webhooks", id>>)
 [] op = "webhooks.list"   -> GETQ(<<"webhooks">>, Page(a1))
 [] op = "webhooks.update" -> PATCH(<<"webhooks", id>>, a2)
 [] op = "webhooks.remove" -> DELETE(<<"webhooks", id>>)

 \* the verbs themselves are public: a path, a body, request options
 [] op = "get"    -> Req("GET", RawPath(a).segs, RawPath(a).q, NoBody, RoOf(a, 2))
 [] op = "post"   -> Req("POST", RawPath(a).segs, RawPath(a).q, RawBody(a2), RoOf(a, 3))
 [] op = "put"    -> Req("PUT", RawPath(a).segs, RawPath(a).q, RawBody(a2), RoOf(a, 3))
 [] op = "patch"  -> Req("PATCH", RawPath(a).segs, RawPath(a).q, RawBody(a2), RoOf(a, 3))
 [] op = "delete" -> Req("DELETE", RawPath(a).segs, RawPath(a).q, RawBody(a2), RoOf(a, 3))

 \* publishing a template just created or duplicated, whose id is the argument
 [] op = "chain.publish" -> POST0(<<"templates", id, "publish">>)

Ops == <<
  "apiKeys.create", "apiKeys.list", "apiKeys.update", "apiKeys.remove",
  "automations.create", "automations.list", "automations.get", "automations.remove",
  "automations.update", "automations.duplicate", "automations.stop",
  "automations.runs.get", "automations.runs.list", "batch.send", "batch.create",
  "broadcasts.create", "broadcasts.send", "broadcasts.list", "broadcasts.get",
  "broadcasts.recipients", "broadcasts.clickedLinks", "broadcasts.remove",
  "broadcasts.cancel", "broadcasts.update", "contactProperties.create",
  "contactProperties.list", "contactProperties.get", "contactProperties.update",
  "contactProperties.remove", "contacts.create", "contacts.list", "contacts.get",
  "contacts.update", "contacts.remove", "contacts.imports.create", "contacts.imports.list",
  "contacts.imports.get", "contacts.segments.list", "contacts.segments.add",
  "contacts.segments.remove", "contacts.topics.update", "contacts.topics.list",
  "domains.create", "domains.list", "domains.get", "domains.update", "domains.remove",
  "domains.verify", "domains.claims.create", "domains.claims.get", "domains.claims.verify",
  "emails.send", "emails.create", "emails.get", "emails.list", "emails.update",
  "emails.cancel", "emails.share", "emails.metrics", "emails.attachments.get",
  "emails.attachments.list", "emails.receiving.get", "emails.receiving.list",
  "emails.receiving.forward", "emails.receiving.attachments.get",
  "emails.receiving.attachments.list", "events.send", "events.create", "events.get",
  "events.list", "events.update", "events.remove", "logs.list", "logs.get",
  "oauthGrants.list", "oauthGrants.revoke", "segments.create", "segments.list",
  "segments.get", "segments.remove", "audiences.create", "audiences.list",
  "audiences.get", "audiences.remove", "suppressions.add", "suppressions.list",
  "suppressions.get", "suppressions.remove", "suppressions.batch.add",
  "suppressions.batch.remove", "templates.create", "templates.remove", "templates.get",
  "templates.list", "templates.duplicate", "templates.publish", "templates.update",
  "topics.create", "topics.list", "topics.get", "topics.update", "topics.remove",
  "webhooks.create", "webhooks.get", "webhooks.list", "webhooks.update", "webhooks.remove",
  "get", "post", "put", "patch", "delete" >>
=============================================================================
