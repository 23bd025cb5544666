------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* Two views of the resources behind the API.                              *)
(*                                                                         *)
(* Serve is the server: what it does with a request (method, path, body)   *)
(* and what it answers.  It knows collections, items, a few relations and  *)
(* actions, and nothing about the SDK.                                     *)
(*                                                                         *)
(* Abs is what a user of the SDK expects of a call: creating keeps exactly *)
(* the given fields (under their snake_case names), updating changes       *)
(* exactly the given fields of exactly the named resource, removing makes  *)
(* it unknown, reading shows what was kept.  It knows nothing of requests. *)
(*                                                                         *)
(* StoreModel.tla checks that calls made through the SDK's plans against   *)
(* Serve always give what Abs expects; Trace.tla checks the same of the    *)
(* real code.                                                              *)
(* A resource is [fam, id, f: fields, segs: segment ids, tops: <<topic,    *)
(* subscription>> pairs]; a store is a sequence of them, in order of       *)
(* creation.                                                               *)
(***************************************************************************)
EXTENDS Doc, Integers

Res(fam, id, f) == [fam |-> fam, id |-> id, f |-> f, segs |-> <<>>, tops |-> <<>>]
RECURSIVE CatS(_, _)
CatS(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o CatS(ss, i + 1)
\* the fields of d merged into those of f
RECURSIVE MergeF(_, _, _)
MergeF(f, d, i) ==
  IF i > Len(d.f) THEN f
  ELSE MergeF(IF \E j \in DOMAIN f.f : f.f[j][1] = d.f[i][1]
              THEN O([j \in DOMAIN f.f |-> IF f.f[j][1] = d.f[i][1] THEN d.f[i] ELSE f.f[j]])
              ELSE O(Append(f.f, d.f[i])), d, i + 1)
Merge(f, d) == MergeF(f, d, 1)
OnlyDefined(d) == O(SelectSeq(d.f, LAMBDA p : ~IsUndef(p[2])))
Ids(d) == IF d.k = "a" THEN [i \in DOMAIN d.c |-> Str(Get(d.c[i], "id"))] ELSE <<>>
Tops(d) == IF d.k = "a" THEN [i \in DOMAIN d.c |-> << Str(Get(d.c[i], "id")), Str(Get(d.c[i], "subscription")) >>] ELSE <<>>
In(x, s) == \E i \in DOMAIN s : s[i] = x
Add(s, x) == IF In(x, s) THEN s ELSE Append(s, x)
Remove(s, x) == SelectSeq(s, LAMBDA y : y # x)
RECURSIVE SetTops(_, _, _)
SetTops(t, u, i) ==
  IF i > Len(u) THEN t
  ELSE SetTops(IF \E j \in DOMAIN t : t[j][1] = u[i][1]
               THEN [j \in DOMAIN t |-> IF t[j][1] = u[i][1] THEN u[i] ELSE t[j]] ELSE Append(t, u[i]), u, i + 1)
Change(st, j, r) == [st EXCEPT ![j] = r]
Drop(st, j) == SubSeq(st, 1, j - 1) \o SubSeq(st, j + 1, Len(st))
Of(st, fam) == SelectSeq(st, LAMBDA r : r.fam = fam)
\* a removed segment is no longer anybody's
NoSegment(st, s) == [j \in DOMAIN st |-> [st[j] EXCEPT !.segs = Remove(@, s)]]

(******************************** the server *******************************)
Fams == {"segments", "contacts", "contact-properties", "domains", "api-keys", "broadcasts", "templates", "topics",
         "webhooks", "events", "automations", "suppressions", "emails"}
\* another name an item goes by in its path
AltKey(fam) == CASE fam \in {"contacts", "suppressions"} -> "email"
                 [] fam = "events" -> "name"
                 [] fam = "templates" -> "alias"
                 [] OTHER -> "none"
Where(st, fam, key) ==
  LET m == {j \in DOMAIN st : st[j].fam = fam /\ (st[j].id = key \/ Get(st[j].f, AltKey(fam)) = S(key))}
  IN  IF m = {} THEN 0 ELSE CHOOSE j \in m : \A i \in m : j <= i
Ans(st, status, d) == [st |-> st, status |-> status, d |-> d]
NotFound(st) == Ans(st, 404, O(<< <<"statusCode", N("404")>>, <<"name", S("not_found")>>, <<"message", S("Not found")>> >>))
Short(r)  == O(<< <<"object", S(r.fam)>>, <<"id", S(r.id)>> >>)
Full(r)   == O(<< <<"object", S(r.fam)>>, <<"id", S(r.id)>> >> \o Without(Without(r.f, "id"), "object").f)
ListOf(c) == O(<< <<"object", S("list")>>, <<"has_more", False>>, <<"data", A(c)>> >>)
Done(verb) == CASE verb = "send" -> "queued" [] verb = "cancel" -> "canceled" [] verb = "publish" -> "published"
                [] verb = "stop" -> "stopped" [] verb = "verify" -> "pending" [] OTHER -> ""

Create(st, fam, body, id) ==
  LET f == IF fam = "contacts" THEN Without(Without(body, "segments"), "topics") ELSE body
      r == [Res(fam, id, f) EXCEPT !.segs = IF fam = "contacts" THEN Ids(Get(body, "segments")) ELSE <<>>,
                                   !.tops = IF fam = "contacts" THEN Tops(Get(body, "topics")) ELSE <<>>]
  IN  Append(st, r)
RECURSIVE CreateAll(_, _, _, _, _)
CreateAll(st, fam, bodies, ids, i) ==
  IF i > Len(bodies) THEN st ELSE CreateAll(Create(st, fam, bodies[i], ids[i]), fam, bodies, ids, i + 1)
Delete(st, j) == LET n == Drop(st, j) IN IF st[j].fam = "segments" THEN NoSegment(n, st[j].id) ELSE n
RECURSIVE DeleteAll(_, _, _)
DeleteAll(st, keys, i) ==
  IF i > Len(keys) THEN st
  ELSE LET j == Where(st, "suppressions", keys[i]) IN DeleteAll(IF j = 0 THEN st ELSE Delete(st, j), keys, i + 1)
Texts(d) == IF d.k = "a" THEN [i \in DOMAIN d.c |-> Str(d.c[i])] ELSE <<>>
TopDoc(t) == O(<< <<"id", S(t[1])>>, <<"subscription", S(t[2])>> >>)

OnItem(st, m, j, body) ==
  IF j = 0 THEN NotFound(st)
  ELSE CASE m = "GET"    -> Ans(st, 200, Full(st[j]))
         [] m = "PATCH"  -> Ans(Change(st, j, [st[j] EXCEPT !.f = Merge(@, Without(body, "id"))]), 200, Short(st[j]))
         [] m = "DELETE" -> Ans(Delete(st, j), 200, O(Short(st[j]).f \o << <<"deleted", True>> >>))
         [] OTHER -> NotFound(st)

\* body: a document, Undef when there is none; ids: fresh identifiers
Serve(st, m, segs, body, ids) ==
  LET n == Len(segs)
      s == [i \in 1 .. 4 |-> IF i <= n THEN segs[i] ELSE ""]
      c == IF n >= 2 /\ s[1] = "contacts" THEN Where(st, "contacts", s[2]) ELSE 0
  IN
  CASE n = 2 /\ m = "POST" /\ segs = << "emails", "batch" >> /\ body.k = "a" ->
         Ans(CreateAll(st, "emails", body.c, ids, 1), 200,
             O(<< <<"data", A([i \in DOMAIN body.c |-> O(<< <<"id", S(ids[i])>> >>)])>> >>))
    [] n = 3 /\ m = "POST" /\ s[1] = "suppressions" /\ s[2] = "batch" /\ s[3] = "add" /\ body.k = "o" ->
         LET e == Texts(Get(body, "emails"))
         IN  Ans(CreateAll(st, "suppressions", [i \in DOMAIN e |-> O(<< <<"email", S(e[i])>> >>)], ids, 1), 200,
                 O(<< <<"data", A([i \in DOMAIN e |-> O(<< <<"id", S(ids[i])>> >>)])>> >>))
    [] n = 3 /\ m = "POST" /\ s[1] = "suppressions" /\ s[2] = "batch" /\ s[3] = "remove" /\ body.k = "o" ->
         Ans(DeleteAll(st, Texts(Get(body, "emails")) \o Texts(Get(body, "ids")), 1), 200, O(<< <<"data", A(<<>>)>> >>))
    [] n = 1 /\ s[1] \in Fams /\ m = "POST" /\ body.k = "o" ->
         Ans(Create(st, s[1], body, ids[1]), 201, O(<< <<"object", S(s[1])>>, <<"id", S(ids[1])>> >>))
    [] n = 1 /\ s[1] \in Fams /\ m = "GET" ->
         LET l == Of(st, s[1]) IN Ans(st, 200, ListOf([i \in DOMAIN l |-> Full(l[i])]))
    [] n = 2 /\ s[1] \in Fams /\ (m = "PATCH" => body.k = "o") -> OnItem(st, m, Where(st, s[1], s[2]), body)
    \* contacts of an audience, or segment
    [] n = 3 /\ s[1] = "audiences" /\ s[3] = "contacts" /\ m = "POST" /\ body.k = "o" ->
         IF Where(st, "segments", s[2]) = 0 THEN NotFound(st)
         ELSE LET t == Create(st, "contacts", body, ids[1])
              IN  Ans(Change(t, Len(t), [t[Len(t)] EXCEPT !.segs = << s[2] >>]), 201, O(<< <<"object", S("contacts")>>, <<"id", S(ids[1])>> >>))
    [] n = 4 /\ s[1] = "audiences" /\ s[3] = "contacts" /\ (m = "PATCH" => body.k = "o") ->
         LET j == Where(st, "contacts", s[4]) IN OnItem(st, m, IF j # 0 /\ In(s[2], st[j].segs) THEN j ELSE 0, body)
    [] n = 3 /\ s[1] = "segments" /\ s[3] = "contacts" /\ m = "GET" ->
         IF Where(st, "segments", s[2]) = 0 THEN NotFound(st)
         ELSE LET l == SelectSeq(Of(st, "contacts"), LAMBDA r : In(s[2], r.segs)) IN Ans(st, 200, ListOf([i \in DOMAIN l |-> Full(l[i])]))
    \* relations of a contact
    [] n = 3 /\ s[1] = "contacts" /\ s[3] = "segments" /\ m = "GET" ->
         IF c = 0 THEN NotFound(st)
         ELSE Ans(st, 200, ListOf([i \in DOMAIN st[c].segs |-> O(<< <<"id", S(st[c].segs[i])>> >>)]))
    [] n = 4 /\ s[1] = "contacts" /\ s[3] = "segments" /\ m \in {"POST", "DELETE"} ->
         IF c = 0 \/ Where(st, "segments", s[4]) = 0 THEN NotFound(st)
         ELSE Ans(Change(st, c, [st[c] EXCEPT !.segs = IF m = "POST" THEN Add(@, s[4]) ELSE Remove(@, s[4])]), 200, O(<< <<"id", S(s[4])>> >>))
    [] n = 3 /\ s[1] = "contacts" /\ s[3] = "topics" /\ m = "GET" ->
         IF c = 0 THEN NotFound(st) ELSE Ans(st, 200, ListOf([i \in DOMAIN st[c].tops |-> TopDoc(st[c].tops[i])]))
    [] n = 3 /\ s[1] = "contacts" /\ s[3] = "topics" /\ m = "PATCH" /\ body.k = "a" ->
         IF c = 0 THEN NotFound(st)
         ELSE Ans(Change(st, c, [st[c] EXCEPT !.tops = SetTops(@, Tops(body), 1)]), 200, O(<< <<"id", S(st[c].id)>> >>))
    \* actions
    [] n = 3 /\ s[1] \in Fams /\ m = "POST" /\ s[3] = "duplicate" ->
         LET j == Where(st, s[1], s[2])
         IN  IF j = 0 THEN NotFound(st)
             ELSE Ans(Append(st, [st[j] EXCEPT !.id = ids[1], !.f = Without(@, "alias")]), 201, O(<< <<"object", S(s[1])>>, <<"id", S(ids[1])>> >>))
    [] n = 3 /\ s[1] \in Fams /\ m = "POST" /\ Done(s[3]) # "" ->
         LET j == Where(st, s[1], s[2])
         IN  IF j = 0 THEN NotFound(st)
             ELSE Ans(Change(st, j, [st[j] EXCEPT !.f = Merge(Merge(@, IF body.k = "o" THEN body ELSE O(<<>>)), O(<< <<"status", S(Done(s[3]))>> >>))]), 200, Short(st[j]))
    [] OTHER -> NotFound(st)
(**************************** what users expect ****************************)
UpperCase == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerCase == "abcdefghijklmnopqrstuvwxyz"
UpAt(c) == LET m == {i \in 1 .. 26 : SubSeq(UpperCase, i, i) = c} IN IF m = {} THEN 0 ELSE CHOOSE i \in m : TRUE
RECURSIVE SnakeFrom(_, _)
SnakeFrom(x, i) ==
  IF i > Len(x) THEN ""
  ELSE LET c == SubSeq(x, i, i)  u == UpAt(c)
       IN  (IF u = 0 THEN c ELSE "_" \o SubSeq(LowerCase, u, u)) \o SnakeFrom(x, i + 1)
Snake(x) == SnakeFrom(x, 1)
SnakeKeys(d) == IF d.k = "o" THEN O([i \in DOMAIN d.f |-> << Snake(d.f[i][1]), d.f[i][2] >>]) ELSE d
\* lists of objects whose own fields are the SDK's, not the user's
Inner == {"attachments", "variables", "connections"}
Kept(d, without) ==
  LET g == SelectSeq(OnlyDefined(d).f, LAMBDA p : p[1] \notin without)
  IN  Json(O([i \in DOMAIN g |-> << Snake(g[i][1]), IF g[i][1] \in Inner THEN MapList(g[i][2], SnakeKeys) ELSE g[i][2] >>]))

Arg1(a) == IF Len(a) >= 1 THEN a[1] ELSE Undef
Arg2(a) == IF Len(a) >= 2 THEN a[2] ELSE Undef
FamOf(op) ==
  CASE op \in {"segments.create", "segments.get", "segments.list", "segments.remove",
               "audiences.create", "audiences.get", "audiences.list", "audiences.remove"} -> "segment"
    [] op \in {"contacts.create", "contacts.get", "contacts.list", "contacts.update", "contacts.remove"} -> "contact"
    [] op \in {"contactProperties.create", "contactProperties.get", "contactProperties.list", "contactProperties.update", "contactProperties.remove"} -> "property"
    [] op \in {"domains.create", "domains.get", "domains.list", "domains.update", "domains.remove", "domains.verify"} -> "domain"
    [] op \in {"apiKeys.create", "apiKeys.list", "apiKeys.update", "apiKeys.remove"} -> "key"
    [] op \in {"broadcasts.create", "broadcasts.get", "broadcasts.list", "broadcasts.update", "broadcasts.remove", "broadcasts.send", "broadcasts.cancel"} -> "broadcast"
    [] op \in {"templates.create", "templates.get", "templates.list", "templates.update", "templates.remove", "templates.publish", "templates.duplicate"} -> "template"
    [] op \in {"topics.create", "topics.get", "topics.list", "topics.update", "topics.remove"} -> "topic"
    [] op \in {"webhooks.create", "webhooks.get", "webhooks.list", "webhooks.update", "webhooks.remove"} -> "webhook"
    [] op \in {"events.create", "events.get", "events.list", "events.update", "events.remove"} -> "event"
    [] op \in {"automations.create", "automations.get", "automations.list", "automations.update", "automations.remove", "automations.stop", "automations.duplicate"} -> "automation"
    [] op \in {"suppressions.add", "suppressions.get", "suppressions.list", "suppressions.remove"} -> "suppression"
    [] op \in {"emails.send", "emails.create", "emails.get", "emails.list", "emails.update", "emails.cancel"} -> "email"
    [] OTHER -> ""
Creating == {"segments.create", "audiences.create", "contacts.create", "contactProperties.create", "domains.create", "apiKeys.create",
  "broadcasts.create", "templates.create", "topics.create", "webhooks.create", "events.create", "automations.create", "suppressions.add",
  "emails.send", "emails.create"}
Listing == {"segments.list", "audiences.list", "contacts.list", "contactProperties.list", "domains.list", "apiKeys.list",
  "broadcasts.list", "templates.list", "topics.list", "webhooks.list", "events.list", "automations.list", "suppressions.list", "emails.list"}
Reading == {"segments.get", "audiences.get", "contacts.get", "contactProperties.get", "domains.get", "broadcasts.get", "templates.get",
  "topics.get", "webhooks.get", "events.get", "automations.get", "suppressions.get", "emails.get"}
Removing == {"segments.remove", "audiences.remove", "contacts.remove", "contactProperties.remove", "domains.remove", "apiKeys.remove",
  "broadcasts.remove", "templates.remove", "topics.remove", "webhooks.remove", "events.remove", "automations.remove", "suppressions.remove"}
\* the resource is named in the first argument, or inside the only one
UpdateBy1 == {"apiKeys.update", "automations.update", "broadcasts.update", "events.update", "templates.update", "webhooks.update"}
UpdateIn  == {"contactProperties.update", "contacts.update", "domains.update", "emails.update", "topics.update"}
\* what an action leaves behind
Status(op) == CASE op = "broadcasts.send" -> "queued" [] op \in {"broadcasts.cancel", "emails.cancel"} -> "canceled"
                [] op = "templates.publish" -> "published" [] op = "automations.stop" -> "stopped" [] op = "domains.verify" -> "pending" [] OTHER -> ""
Duplicating == {"templates.duplicate", "automations.duplicate"}
Relations == {"contacts.segments.add", "contacts.segments.remove", "contacts.segments.list", "contacts.topics.update", "contacts.topics.list"}
InStore(op) == op \in Creating \cup Listing \cup Reading \cup Removing \cup UpdateBy1 \cup UpdateIn \cup Duplicating \cup Relations
                      \cup {"batch.send", "batch.create", "suppressions.batch.add", "suppressions.batch.remove"} \/ Status(op) # ""

\* which resource a call is about: its id, or another name; 0 if unknown
Names(fam, r, key) == r.id = key \/ (fam \in {"contact", "suppression"} /\ Get(r.f, "email") = S(key))
                      \/ (fam = "event" /\ Get(r.f, "name") = S(key))
At(st, fam, key) == LET m == {j \in DOMAIN st : st[j].fam = fam /\ Names(fam, st[j], key)} IN IF m = {} THEN 0 ELSE CHOOSE j \in m : TRUE
KeyIn(d, idField) == IF Truthy(Get(d, "email")) THEN Str(Get(d, "email")) ELSE Str(Get(d, idField))
Target(st, op, a) ==
  LET fam == FamOf(op)
      d == Arg1(a)
      k == IF d.k = "o" THEN (IF fam = "contact" THEN KeyIn(d, "id") ELSE Str(Get(d, "id"))) ELSE Str(d)
      j == At(st, fam, k)
      aud == IF fam = "contact" /\ d.k = "o" THEN Str(Get(d, "audienceId")) ELSE ""
  IN  IF j = 0 THEN 0 ELSE IF aud # "" /\ ~In(aud, st[j].segs) THEN 0 ELSE j

\* expectations of a result
Exp(st, t, ids, items) == [st |-> st, t |-> t, ids |-> ids, items |-> items]
Made(st, ids)  == Exp(st, "made", ids, <<>>)       \* names what it made
Okay(st)       == Exp(st, "done", <<>>, <<>>)      \* succeeds
Gone(st)       == Exp(st, "gone", <<>>, <<>>)      \* is told there is no such thing
Shows(st, r)   == Exp(st, "shows", <<>>, << r >>)
Lists_(st, rs) == Exp(st, "lists", <<>>, rs)
Pairs(st, ps)  == Exp(st, "pairs", <<>>, ps)

Gives(op, a) == LET d == Arg1(a) IN Kept(d, IF op = "contacts.create" THEN {"audienceId", "segments", "topics"} ELSE {})
Given(op, a) ==
  IF op \in UpdateBy1 THEN Kept(Arg2(a), {})
  ELSE Kept(Arg1(a), IF op = "contacts.update" THEN {"id", "email", "audienceId"} ELSE {"id"})
Fresh_(st, op, a, id) ==
  LET r == Res(FamOf(op), id, Gives(op, a))
      aud == Str(Get(Arg1(a), "audienceId"))
  IN  IF op # "contacts.create" THEN r
      ELSE [r EXCEPT !.segs = IF aud # "" THEN << aud >> ELSE Ids(Get(Arg1(a), "segments")), !.tops = Tops(Get(Arg1(a), "topics"))]
RECURSIVE AbsAll(_, _, _, _, _)
AbsAll(st, fam, fs, ids, i) == IF i > Len(fs) THEN st ELSE AbsAll(Append(st, Res(fam, ids[i], fs[i])), fam, fs, ids, i + 1)
AbsDrop(st, j) == LET n == Drop(st, j) IN IF st[j].fam = "segment" THEN NoSegment(n, st[j].id) ELSE n
RECURSIVE AbsDropAll(_, _, _)
AbsDropAll(st, keys, i) ==
  IF i > Len(keys) THEN st
  ELSE LET j == At(st, "suppression", keys[i]) IN AbsDropAll(IF j = 0 THEN st ELSE AbsDrop(st, j), keys, i + 1)

Abs(st, op, a, ids) ==
  LET fam == FamOf(op)
      d == Arg1(a)
      j == Target(st, op, a)
  IN
  CASE op = "contacts.create" /\ Str(Get(d, "audienceId")) # "" /\ At(st, "segment", Str(Get(d, "audienceId"))) = 0 -> Gone(st)
    [] op \in Creating -> Made(Append(st, Fresh_(st, op, a, ids[1])), << ids[1] >>)
    [] op \in {"batch.send", "batch.create"} ->
         Made(AbsAll(st, "email", [i \in DOMAIN d.c |-> Kept(d.c[i], {})], ids, 1), SubSeq(ids, 1, Len(d.c)))
    [] op = "suppressions.batch.add" ->
         LET e == Get(d, "emails").c
         IN  Made(AbsAll(st, "suppression", [i \in DOMAIN e |-> O(<< <<"email", e[i]>> >>)], ids, 1), SubSeq(ids, 1, Len(e)))
    [] op = "suppressions.batch.remove" -> Okay(AbsDropAll(st, Texts(Get(d, "emails")) \o Texts(Get(d, "ids")), 1))
    [] op = "contacts.list" /\ d.k = "o" /\ (Truthy(Get(d, "segmentId")) \/ Truthy(Get(d, "audienceId"))) ->
         LET s == Str(IF Truthy(Get(d, "segmentId")) THEN Get(d, "segmentId") ELSE Get(d, "audienceId"))
         IN  IF At(st, "segment", s) = 0 THEN Gone(st) ELSE Lists_(st, SelectSeq(Of(st, "contact"), LAMBDA r : In(s, r.segs)))
    [] op \in Listing -> Lists_(st, Of(st, fam))
    [] op \in Reading -> IF j = 0 THEN Gone(st) ELSE Shows(st, st[j])
    [] op \in Removing -> IF j = 0 THEN Gone(st) ELSE Okay(AbsDrop(st, j))
    [] op \in UpdateBy1 \cup UpdateIn ->
         IF j = 0 THEN Gone(st) ELSE Okay(Change(st, j, [st[j] EXCEPT !.f = Merge(@, Given(op, a))]))
    [] op \in Duplicating -> IF j = 0 THEN Gone(st) ELSE Made(Append(st, [st[j] EXCEPT !.id = ids[1], !.f = Without(@, "alias")]), << ids[1] >>)
    [] Status(op) # "" ->
         IF j = 0 THEN Gone(st)
         ELSE Okay(Change(st, j, [st[j] EXCEPT !.f =
                Merge(Merge(@, IF Arg2(a).k = "o" THEN Kept(Arg2(a), {}) ELSE O(<<>>)), O(<< <<"status", S(Status(op))>> >>))]))
    [] op \in Relations ->
         LET k == At(st, "contact", KeyIn(d, IF op \in {"contacts.topics.update", "contacts.topics.list"} THEN "id" ELSE "contactId"))
             s == Str(Get(d, "segmentId"))
         IN  IF k = 0 \/ (op \in {"contacts.segments.add", "contacts.segments.remove"} /\ At(st, "segment", s) = 0) THEN Gone(st)
             ELSE CASE op = "contacts.segments.add"    -> Okay(Change(st, k, [st[k] EXCEPT !.segs = Add(@, s)]))
                    [] op = "contacts.segments.remove" -> Okay(Change(st, k, [st[k] EXCEPT !.segs = Remove(@, s)]))
                    [] op = "contacts.segments.list"   -> Pairs(st, [i \in DOMAIN st[k].segs |-> O(<< <<"id", S(st[k].segs[i])>> >>)])
                    [] op = "contacts.topics.update"   -> Okay(Change(st, k, [st[k] EXCEPT !.tops = SetTops(@, Tops(Get(d, "topics")), 1)]))
                    [] OTHER -> Pairs(st, [i \in DOMAIN st[k].tops |-> TopDoc(st[k].tops[i])])
    [] OTHER -> Okay(st)

\* how what a user is shown differs from a resource; contact properties are
\* shown under the SDK's names
Field(fam, x) == IF fam = "property" /\ x = "fallback_value" THEN "fallbackValue" ELSE x
Extra == {"object", "id", "createdAt", "created_at"}
ShowDiff(r, d) ==
  IF d.k # "o" THEN ":" \o d.k
  ELSE IF Str(Get(d, "id")) # r.id THEN ".id"
  ELSE LET bad == {i \in DOMAIN r.f.f : ~Same(r.f.f[i][2], Get(d, Field(r.fam, r.f.f[i][1])))}
           names == {Field(r.fam, r.f.f[i][1]) : i \in DOMAIN r.f.f}
           more == {i \in DOMAIN d.f : d.f[i][1] \notin names \cup Extra /\ ~IsUndef(d.f[i][2])}
       IN  IF bad # {} THEN "." \o r.f.f[CHOOSE i \in bad : TRUE][1]
           ELSE IF more # {} THEN "+" \o d.f[CHOOSE i \in more : TRUE][1] ELSE ""
\* x: an expectation; data, error: of the result
StoreDiff(x, data, error) ==
  LET list == Get(data, "data")
  IN
  CASE x.t = "gone" -> IF error.k = "o" /\ Get(error, "statusCode") = N("404") THEN "" ELSE "not gone"
    [] error.k # "z" -> "fails: " \o Str(Get(error, "message"))
    [] x.t = "made" ->
         IF list.k = "a" THEN IF [i \in DOMAIN list.c |-> Str(Get(list.c[i], "id"))] = x.ids THEN "" ELSE "made others"
         ELSE IF << Str(Get(data, "id")) >> = x.ids THEN "" ELSE "made another"
    [] x.t = "done" -> ""
    [] x.t = "shows" -> ShowDiff(x.items[1], data)
    [] x.t = "lists" ->
         IF list.k # "a" \/ Len(list.c) # Len(x.items) THEN "lists other items"
         ELSE LET bad == {i \in DOMAIN x.items : ShowDiff(x.items[i], list.c[i]) # ""}
              IN  IF bad = {} THEN "" ELSE LET i == CHOOSE i \in bad : TRUE IN "item " \o ToString(i) \o ShowDiff(x.items[i], list.c[i])
    [] OTHER -> IF list.k = "a" /\ Same(A(x.items), A([i \in DOMAIN list.c |-> list.c[i]])) THEN "" ELSE "relates to others"
=============================================================================
