------------------------------- MODULE Hooks -------------------------------
(***************************************************************************)
(* Verification of webhook deliveries, symbolically.  A signature is a     *)
(* term [v, form, key, id, ts, pl]: the code of the message (id, ts, pl)   *)
(* under key, written with version v; form "exact" is that code, any other *)
(* form is some other text.  An attempt is                                 *)
(*   [secret: [key, form], id, ts: [t: text, n: number, ok: whether t is   *)
(*    n in decimal], sigs: sequence of terms, pl: name of the payload, miss] *)
(* where "" is a missing id or timestamp, and no terms a missing signature.*)
(***************************************************************************)
EXTENDS Doc, Integers

Tolerance == 300

\* the secret may come with its "whsec_" prefix or without
Usable(secret) == secret.form \in {"plain", "prefixed"}

\* a payload: its text, whether that text is JSON, and the document it is
Payload(t, j, d) == [t |-> t, j |-> j, d |-> d]
Qu == "\\u0022"
P1 == O(<< <<"type", S("email.sent")>>, <<"data", O(<< <<"email_id", S("e1")>>, <<"n", N("0.1")>> >>)>> >>)
Payloads ==
  [p1    |-> Payload("{" \o Qu \o "type" \o Qu \o ":" \o Qu \o "email.sent" \o Qu \o "," \o Qu \o "data" \o Qu \o ":{" \o Qu \o "email_id" \o Qu \o ":" \o Qu \o "e1" \o Qu \o "," \o Qu \o "n" \o Qu \o ":0.10}}", TRUE, P1),
   \* the same document, written otherwise
   p1ws  |-> Payload("{ " \o Qu \o "type" \o Qu \o ":" \o Qu \o "email.sent" \o Qu \o "," \o Qu \o "data" \o Qu \o ":{" \o Qu \o "email_id" \o Qu \o ":" \o Qu \o "e1" \o Qu \o "," \o Qu \o "n" \o Qu \o ":0.1}}\\u000a", TRUE, P1),
   p1nl  |-> Payload("{" \o Qu \o "type" \o Qu \o ":" \o Qu \o "email.sent" \o Qu \o "," \o Qu \o "data" \o Qu \o ":{" \o Qu \o "email_id" \o Qu \o ":" \o Qu \o "e1" \o Qu \o "," \o Qu \o "n" \o Qu \o ":0.10}}\\u000a", TRUE, P1),
   p2    |-> Payload("{" \o Qu \o "type" \o Qu \o ":" \o Qu \o "email.bounced" \o Qu \o "," \o Qu \o "caf\\u00e9" \o Qu \o ":" \o Qu \o "\\u65e5\\ud83d\\ude00" \o Qu \o "," \o Qu \o "__proto__" \o Qu \o ":{" \o Qu \o "a" \o Qu \o ":null}," \o Qu \o "data" \o Qu \o ":[1,false," \o Qu \o Qu \o "]}", TRUE,
              O(<< <<"type", S("email.bounced")>>, <<"caf\\u00e9", S("\\u65e5\\ud83d\\ude00")>>, <<"__proto__", O(<< <<"a", Null>> >>)>>, <<"data", A(<< N("1"), False, S("") >>)>> >>)),
   text  |-> Payload("not a json document", FALSE, Undef),
   empty |-> Payload("", FALSE, Undef),
   null  |-> Payload("null", TRUE, Null),
   ctl   |-> Payload("\\u0009[\\u000d\\u000a]", TRUE, A(<<>>))]

Fresh(a, now) == a.ts.ok /\ now - a.ts.n <= Tolerance /\ a.ts.n - now <= Tolerance
Signs(s, a) ==
  /\ s.v = "v1" /\ s.form = "exact"
  /\ s.key = a.secret.key /\ s.id = a.id /\ s.ts = a.ts.t /\ s.pl = a.pl
Present(a) == a.id # "" /\ a.ts.t # "" /\ Len(a.sigs) > 0
\* now: seconds
Accepts(a, now) ==
  /\ Usable(a.secret) /\ Present(a) /\ Fresh(a, now)
  /\ \E i \in DOMAIN a.sigs : Signs(a.sigs[i], a)
  /\ Payloads[a.pl].j
\* the differences between a verification (event) and this
HookTag(c, d) == [c |-> c, d |-> d]
HookTags(ev) ==
  LET ok == Accepts(ev.a, ev.now)
      \* a reason for the record only
      why == IF ok THEN "genuine" ELSE IF ~Usable(ev.a.secret) THEN "secret " \o ev.a.secret.form ELSE IF ~Present(ev.a) THEN "incomplete"
             ELSE IF ~Fresh(ev.a, ev.now) THEN "not fresh" ELSE IF ~Payloads[ev.a.pl].j THEN "not JSON" ELSE "not signed"
  IN  (IF ev.ok /\ ~ok THEN << HookTag("webhook.accepted", why) >>
       ELSE IF ~ev.ok /\ ok THEN << HookTag("webhook.rejected", why \o " " \o Str(Get(ev.v, "message"))) >>
       ELSE IF ok /\ ~Same(Payloads[ev.a.pl].d, ev.v) THEN << HookTag("webhook.payload", Diff(Payloads[ev.a.pl].d, ev.v, "")) >> ELSE <<>>)
   \o (IF ev.later THEN << HookTag("webhook.later", why) >> ELSE <<>>)
   \o (IF ev.modified THEN << HookTag("webhook.modified", why) >> ELSE <<>>)
=============================================================================
