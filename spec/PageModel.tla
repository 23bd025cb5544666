----------------------------- MODULE PageModel -----------------------------
(***************************************************************************)
(* Users walking through collections: list, then again and again with the  *)
(* last item's id as the cursor while there is more; then back again with  *)
(* the first item's id.  The requests are those of Api!Plan, answered by   *)
(* Paging's server, whose collections may gain items at the front and lose *)
(* items during a walk.  Walks over different collections, or with         *)
(* different clients, interleave.                                          *)
(***************************************************************************)
EXTENDS Api, Paging, Shapes, Json, IOUtils, FiniteSets

Suite == IOEnv.SUITE
Seed  == atoi(IOEnv.SEED)
Deep  == IOEnv.TIER = "thorough"

VARIABLES p, coll, walks, births, hist, over
vars == << p, coll, walks, births, hist, over >>

(************************* the paginated operations ************************)
\* pre: arguments before the options; base: fields the options need; flt:
\* filters, as [fields of the options, query pairs an item must have]
L(op, pre, base, flt) == [op |-> op, pre |-> pre, base |-> base, flt |-> flt]
NoFilter == [o |-> <<>>, q |-> <<>>]
Flt(o, q) == [o |-> o, q |-> q]
Id0 == TokId("safe", "id0")
Id1 == TokId("safe", "id1")
Plain(op) == L(op, <<>>, <<>>, << NoFilter >>)
Lists ==
  [i \in 1 .. 13 |-> Plain(<< "apiKeys.list", "broadcasts.list", "contactProperties.list", "domains.list", "emails.list",
      "emails.receiving.list", "events.list", "logs.list", "oauthGrants.list", "segments.list", "audiences.list",
      "templates.list", "webhooks.list" >>[i])] \o
  << L("automations.list", <<>>, <<>>, << NoFilter, Flt(<< <<"status", S("enabled")>> >>, << <<"status", "enabled">> >>) >>),
     L("automations.runs.list", <<>>, << <<"automationId", Id0>> >>,
       << NoFilter, Flt(<< <<"status", S("failed")>> >>, << <<"status", "failed">> >>),
          Flt(<< <<"status", A(<< S("running"), S("failed") >>)>> >>, << <<"status", "running,failed">> >>) >>),
     L("broadcasts.recipients", << Id0 >>, <<>>,
       << Flt(<< <<"type", S("sent")>> >>, << <<"type", "sent">> >>),
          Flt(<< <<"type", S("bounced")>>, <<"bounceType", S("permanent")>> >>, << <<"type", "bounced">>, <<"bounce_type", "permanent">> >>),
          Flt(<< <<"type", S("clicked")>>, <<"email", S("a+b@x.example")>> >>, << <<"type", "clicked">>, <<"email", "a+b@x.example">> >>) >>),
     L("contacts.list", <<>>, <<>>, << NoFilter >>),
     L("contacts.list", <<>>, << <<"segmentId", Id0>> >>, << NoFilter >>),
     L("contacts.list", <<>>, << <<"audienceId", Id0>> >>, << NoFilter >>),
     L("contacts.imports.list", <<>>, <<>>, << NoFilter, Flt(<< <<"status", S("queued")>> >>, << <<"status", "queued">> >>) >>),
     L("contacts.segments.list", <<>>, << <<"contactId", Id0>> >>, << NoFilter >>),
     L("contacts.segments.list", <<>>, << <<"email", Id0>> >>, << NoFilter >>),
     L("contacts.topics.list", <<>>, << <<"id", Id0>> >>, << NoFilter >>),
     L("contacts.topics.list", <<>>, << <<"email", Id0>> >>, << NoFilter >>),
     L("emails.attachments.list", <<>>, << <<"emailId", Id0>> >>, << NoFilter >>),
     L("emails.receiving.attachments.list", <<>>, << <<"emailId", Id0>> >>, << NoFilter >>),
     L("suppressions.list", <<>>, <<>>, << NoFilter, Flt(<< <<"origin", S("bounce")>> >>, << <<"origin", "bounce">> >>) >>) >>

\* the items of a collection whose items are "c" \o 1 .. n; with a filter,
\* every other item does not satisfy it
\* (every kind of text among the first 17; some are only once possible)
ItemId(c, n) ==
  LET x == c \o "i" \o ToString(n)
      once(t) == S(IF n <= 17 THEN t ELSE x \o t)
  IN  CASE n % 17 = 1  -> TokId("q", x)
        [] n % 17 = 2  -> S(" " \o x)
        [] n % 17 = 3  -> S(x \o " ")
        [] n % 17 = 4  -> S(x \o "+b c")
        [] n % 17 = 5  -> S(x \o "&limit=7&after=z")
        [] n % 17 = 6  -> S(x \o "%2Fb%")
        [] n % 17 = 7  -> S(x \o "?q=1")
        [] n % 17 = 8  -> S(x \o "#frag")
        [] n % 17 = 9  -> once("0")
        [] n % 17 = 10 -> S(x \o "==")
        [] n % 17 = 11 -> S("../" \o x \o "/")
        [] n % 17 = 12 -> S("Z\\u00eb\\u65e5\\ud83d\\ude00" \o x)
        [] n % 17 = 13 -> once("null")
        [] n % 17 = 14 -> TokId("long", x)
        [] n % 17 = 15 -> S("UPPER" \o x \o "Case")
        [] n % 17 = 16 -> once("undefined")
        [] OTHER       -> S(x \o "\\u005cb\\u0022c,d;e")
Item(c, n, flt) == [id |-> Str(ItemId(c, n)), f |-> IF Len(flt.q) > 0 /\ n % 2 = 0 THEN <<>> ELSE flt.q, d |-> ItemId(c, n)]
Items(c, n, flt) == [i \in 1 .. (IF Len(flt.q) > 0 THEN 2 * n ELSE n) |-> Item(c, i, flt)]

(******************************** programs *********************************)
\* a walk: operation, filter, collection size, page size (0: not given), how
\* the options are passed ("fresh" objects, or one object the user updates,
\* or no options at all where nothing is asked for), which client
Wk(l, f, n, lim, opt, c) == [l |-> l, f |-> f, n |-> n, lim |-> lim, opt |-> opt, c |-> c]
Prog(id, ws, chg, ord) == [id |-> id, ws |-> ws, chg |-> chg, ord |-> ord]
RECURSIVE CatP(_, _)
CatP(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o CatP(ss, i + 1)
LimFor == 101                            \* a page size picked by the harness
Single ==
  CatP([k \in DOMAIN Lists |-> CatP([f \in DOMAIN Lists[k].flt |->
    LET l == Lists[k]  fl == l.flt[f]
        nm == l.op \o "#" \o ToString(k) \o "." \o ToString(f)
        small == CatP([n \in 1 .. 5 |-> CatP([lim \in 1 .. 5 |->
                   << Prog(nm, << Wk(l, fl, n - 1, lim, IF (n + lim) % 2 = 0 THEN "fresh" ELSE "reuse", "a") >>, 0, "seq") >>], 1)], 1)
        whole == << Prog(nm, << Wk(l, fl, 0, 0, "none", "a") >>, 0, "seq"),
                    Prog(nm, << Wk(l, fl, 3, 0, "none", "a") >>, 0, "seq"),
                    Prog(nm, << Wk(l, fl, 3, 100, "fresh", "a") >>, 0, "seq"),
                    Prog(nm, << Wk(l, fl, 20, 0, "none", "a") >>, 0, "seq"),
                    Prog(nm, << Wk(l, fl, 21, 0, "fresh", "a") >>, 0, "seq"),
                    Prog(nm, << Wk(l, fl, 21, 0, "reuse", "a") >>, 0, "seq"),
                    Prog(nm, << Wk(l, fl, 45, 0, "none", "a") >>, 0, "seq"),
                    Prog(nm, << Wk(l, fl, 17, 1, "fresh", "a") >>, 0, "seq"),
                    Prog(nm, << Wk(l, fl, 11, 4, "reuse", "a") >>, 0, "seq") >>
        \* the collection changes during the walk
        moving == CatP([n \in 1 .. 2 |-> CatP([lim \in 1 .. 2 |->
                   << Prog(nm, << Wk(l, fl, n + 1, lim, "fresh", "a") >>, IF Deep THEN 2 ELSE 1, "seq") >>], 1)], 1)
        \* two walks by turns: one operation, two collections sizes and
        \* limits; and with the next operation that reads another collection
        m == Lists[1 + ((k + 1) % Len(Lists))]
        two == << Prog(nm, << Wk(l, fl, 2, 1, "fresh", "a"), Wk(l, fl, 2, 0, "none", "b") >>, 0, "any"),
                  Prog(nm, << Wk(l, fl, 3, 2, "reuse", "a"), Wk(m, m.flt[1], 2, 1, "fresh", "a") >>, 0, "any"),
                  Prog(nm, << Wk(l, fl, 3, 1, "fresh", "a"), Wk(l, fl, 3, 0, "none", "a"), Wk(l, fl, 3, 2, "fresh", "a") >>, 0, "seq"),
                  \* pages of a given size and of the usual size by turns, on one client
                  Prog(nm, << Wk(l, fl, 25, 9, "fresh", "a"), Wk(l, fl, 25, 0, "none", "a") >>, 0, "turns"),
                  Prog(nm, << Wk(l, fl, 25, 0, "fresh", "a"), Wk(l, fl, 25, 6, "reuse", "a"), Wk(l, fl, 25, 100, "fresh", "b") >>, 0, "turns") >>
    IN  small \o whole \o moving \o two], 1)], 1)
Programs == Single
ASSUME TLCSet(1, TLCEval(Programs))

(********************************** walks **********************************)
CName(w) == "w" \o ToString(w)
\* walks of one program over the same operation with the same arguments share
\* its collection
SameColl(x, y) == x.l = y.l /\ x.f = y.f
CollOf(ws, w) == CHOOSE v \in DOMAIN ws : SameColl(ws[v], ws[w]) /\ \A u \in DOMAIN ws : SameColl(ws[u], ws[w]) => v <= u
MaxN(ws, w) == LET s == {ws[v].n : v \in {v \in DOMAIN ws : SameColl(ws[v], ws[w])}} IN CHOOSE n \in s : \A m \in s : m <= n

OptFields(wk, dir, cursor) ==
  wk.l.base \o wk.f.o \o (IF wk.lim = 0 THEN <<>> ELSE << <<"limit", N(ToString(wk.lim))>> >>)
  \o (IF cursor = 0 THEN <<>> ELSE << << dir, [k |-> "cursor"] >> >>)
ArgsOf(wk, dir, cursor) ==
  LET o == OptFields(wk, dir, cursor)
  IN  wk.l.pre \o (IF Len(o) = 0 /\ wk.opt = "none" THEN <<>> ELSE << O(o) >>)
\* the same with the cursor filled in
Filled(args, d) == [i \in DOMAIN args |-> IF args[i].k = "o" THEN O([j \in DOMAIN args[i].f |->
                      << args[i].f[j][1], IF args[i].f[j][2].k = "cursor" THEN d ELSE args[i].f[j][2] >>]) ELSE args[i]]
SegsOf(wk) == Plan(wk.l.op, ArgsOf(wk, "after", 0), <<>>).segs

\* the path as documents: identifiers are values the harness picks
SegsDoc(wk) ==
  LET segs == SegsOf(wk)
      back(x) == IF x = Str(Id0) THEN Id0 ELSE IF x = Str(Id1) THEN Id1 ELSE S(x)
  IN  [i \in DOMAIN segs |-> back(segs[i])]

Start == [dir |-> "after", page |-> 0, seen |-> <<>>, last |-> <<>>, more |-> TRUE, over |-> FALSE, back |-> <<>>]

ServerStep(w, items, ws) ==
  [x |-> "server", n |-> CName(w), segs |-> SegsDoc(ws[w]), items |-> [i \in DOMAIN items |-> [id |-> items[i].d, f |-> items[i].f]]]
Init ==
  \E j \in DOMAIN TLCGet(1) :
    /\ p = TLCGet(1)[j]
    /\ coll = [w \in DOMAIN p.ws |-> Items(CName(w), MaxN(p.ws, w), p.ws[w].f)]
    /\ walks = [w \in DOMAIN p.ws |-> Start]
    /\ births = 0 /\ over = FALSE
    /\ hist = << [x |-> "new", c |-> "a", key |-> Tok("key"), opts |-> Undef], [x |-> "new", c |-> "b", key |-> Tok("key"), opts |-> Undef] >>
              \o CatP([w \in DOMAIN p.ws |-> IF CollOf(p.ws, w) = w THEN << ServerStep(w, coll[w], p.ws) >> ELSE <<>>], 1)

Turn(w) ==
  CASE p.ord = "seq" -> \A v \in 1 .. w - 1 : walks[v].over
    [] p.ord = "turns" -> \A v \in DOMAIN walks : walks[v].over \/ v = w \/ walks[v].page > walks[w].page
                              \/ (walks[v].page = walks[w].page /\ v > w)
    [] OTHER -> TRUE
\* one page
Step(w) ==
  LET k == walks[w]  wk == p.ws[w]
      \* the next cursor: the end of the last page in the direction of the walk
      cur == IF k.page = 0 THEN 0 ELSE 1
      doc == IF k.page = 0 THEN Undef ELSE S(IF k.dir = "after" THEN k.last[Len(k.last)] ELSE k.last[1])
      args == ArgsOf(wk, k.dir, cur)
      plan == Plan(wk.l.op, Filled(args, doc), <<>>)
      r    == ServerPage(coll[CollOf(p.ws, w)], plan.q)
  IN
  /\ ~k.over /\ Turn(w)
  /\ hist' = Append(hist, [x |-> "page", w |-> CName(w), c |-> wk.c, op |-> wk.l.op, args |-> args, dir |-> k.dir, reuse |-> wk.opt = "reuse"])
  /\ walks' = [walks EXCEPT ![w] =
       LET k2 == [k EXCEPT !.page = @ + 1, !.last = r.ids, !.more = r.more,
                           !.seen = IF k.dir = "after" THEN @ \o r.ids ELSE @,
                           !.back = IF k.dir = "before" THEN r.ids \o @ ELSE @]
       IN  IF r.more THEN k2
           ELSE IF k.dir = "after" /\ Len(r.ids) > 0 THEN [k2 EXCEPT !.dir = "before"]
           ELSE [k2 EXCEPT !.over = TRUE]]
  /\ UNCHANGED << p, coll, births, over >>

\* an item appears at the front, or one that is nobody's cursor disappears
Change ==
  /\ p.chg > births
  /\ \E w \in DOMAIN p.ws :
       LET c == CollOf(p.ws, w)  k == walks[w] IN
       /\ c = w /\ ~k.over /\ k.page > 0
       /\ \/ LET n == [id |-> Str(ItemId("n", births)), f |-> p.ws[w].f.q, d |-> ItemId("n", births)]
                 l == << n >> \o coll[w]
             IN  coll' = [coll EXCEPT ![w] = l] /\ hist' = Append(hist, ServerStep(w, l, p.ws))
          \/ \E i \in DOMAIN coll[w] :
               /\ \A v \in DOMAIN walks : Len(walks[v].last) > 0 =>
                    coll[w][i].id \notin {walks[v].last[1], walks[v].last[Len(walks[v].last)]}
               /\ LET l == SubSeq(coll[w], 1, i - 1) \o SubSeq(coll[w], i + 1, Len(coll[w]))
                  IN  coll' = [coll EXCEPT ![w] = l] /\ hist' = Append(hist, ServerStep(w, l, p.ws))
  /\ births' = births + 1
  /\ UNCHANGED << p, walks, over >>

\* the items a list of ids stands for, as documents
AllItems(w) == Items(CName(CollOf(p.ws, w)), MaxN(p.ws, w), p.ws[w].f) \o [i \in 1 .. births |-> [id |-> Str(ItemId("n", i - 1)), d |-> ItemId("n", i - 1)]]
Docs(w, ids) == LET all == AllItems(w) IN [i \in DOMAIN ids |-> all[CHOOSE j \in DOMAIN all : all[j].id = ids[i]].d]

Finished == \A w \in DOMAIN walks : walks[w].over
Stop ==
  /\ Finished /\ ~over /\ over' = TRUE
  /\ PrintT("SC " \o ToJson([id |-> p.id, seed |-> p.id \o ToString(Len(hist)), renderer |-> "ok", proc |-> "present", about |-> "",
        steps |-> hist \o [w \in DOMAIN walks |->
          [x |-> "walked", w |-> CName(w), seen |-> Docs(w, walks[w].seen), back |-> Docs(w, walks[w].back)]]]))
  /\ UNCHANGED << p, coll, walks, births, hist >>
Stay == over /\ UNCHANGED vars
Next == (\E w \in DOMAIN walks : Step(w)) \/ Change \/ Stop \/ Stay
Spec == Init /\ [][Next]_vars

(******************************* properties ********************************)
Occ(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Sub(small, big) == \* small is a subsequence of big (no repetitions in either)
  /\ \A i \in DOMAIN small : \E j \in DOMAIN big : big[j] = small[i]
  /\ \A i, j \in DOMAIN small : i < j =>
       (CHOOSE n \in DOMAIN big : big[n] = small[i]) < (CHOOSE n \in DOMAIN big : big[n] = small[j])
\* never an item twice, nor out of order, nor one that the filters exclude
Fit(w) == IdsOf(SelectSeq(Items(CName(CollOf(p.ws, w)), MaxN(p.ws, w), p.ws[w].f), LAMBDA x : Fits(x, p.ws[w].f.q)))
New == [i \in 1 .. 9 |-> Str(ItemId("n", 9 - i))]
NoRepeat == \A w \in DOMAIN walks : Sub(walks[w].seen, New \o Fit(w)) /\ Sub(walks[w].back, New \o Fit(w))
            /\ \A x \in {walks[w].seen[i] : i \in DOMAIN walks[w].seen} : Occ(walks[w].seen, x) = 1
\* every item that was there all the time is visited
Complete == \A w \in DOMAIN walks :
  LET there == {x \in {Fit(w)[i] : i \in DOMAIN Fit(w)} : \E i \in DOMAIN coll[CollOf(p.ws, w)] : coll[CollOf(p.ws, w)][i].id = x}
      k == walks[w]
  IN  k.dir = "before" \/ k.over => \A x \in there : Occ(k.seen, x) = 1
Return == \A w \in DOMAIN walks :
  LET k == walks[w] IN
  (k.over /\ p.chg = 0 /\ Len(k.seen) > 0) =>
     k.back = SubSeq(k.seen, 1, Len(k.back)) /\ Len(k.seen) - Len(k.back) <= (IF p.ws[w].lim = 0 THEN 20 ELSE p.ws[w].lim)
\* a walk takes no more pages than it needs
Frugal == \A w \in DOMAIN walks : p.chg = 0 =>
  LET n == Len(Fit(w))  l == IF p.ws[w].lim = 0 THEN 20 ELSE p.ws[w].lim
  IN  walks[w].page <= 2 * ((n + l - 1) \div l) + 1
=============================================================================
