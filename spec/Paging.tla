------------------------------- MODULE Paging -------------------------------
(***************************************************************************)
(* A server that pages through collections as documented: `limit` items at *)
(* a time (20 unless given, 1 to 100), those right after the item `after`  *)
(* or those right before the item `before`, in the order of the            *)
(* collection; has_more says whether the collection goes on beyond.  Every *)
(* other query parameter is a filter: only items that have that value take *)
(* part.                                                                   *)
(* An item is [id: text, f: filter pairs it satisfies]; a query is a       *)
(* sequence of <<name, text>> pairs.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

DefaultLimit == 20
Control == {"limit", "after", "before"}

QGet(q, name) == IF \E i \in DOMAIN q : q[i][1] = name
                 THEN q[CHOOSE i \in DOMAIN q : q[i][1] = name][2] ELSE ""
QHas(q, name) == \E i \in DOMAIN q : q[i][1] = name
Fits(item, q) == \A i \in DOMAIN q : q[i][1] \in Control \/ \E j \in DOMAIN item.f : item.f[j] = q[i]

\* the number a limit text stands for; 0 if it is none
LimitOf(q) ==
  IF ~QHas(q, "limit") THEN DefaultLimit
  ELSE LET m == {n \in 1 .. 100 : ToString(n) = QGet(q, "limit")}
       IN  IF m = {} THEN 0 ELSE CHOOSE n \in m : TRUE

IdsOf(items) == [i \in DOMAIN items |-> items[i].id]
PageOf(c, more) == [ok |-> TRUE, ids |-> c, more |-> more]
BadPage == [ok |-> FALSE, ids |-> <<>>, more |-> FALSE]

ServerPage(items, q) ==
  LET fit == SelectSeq(items, LAMBDA x : Fits(x, q))
      all == IdsOf(fit)
      n   == LimitOf(q)
      at(x) == CHOOSE i \in DOMAIN all : all[i] = x
      min(a, b) == IF a < b THEN a ELSE b
  IN  IF n = 0 \/ (QHas(q, "after") /\ QHas(q, "before")) THEN BadPage
      ELSE IF QHas(q, "after")
      THEN IF ~\E i \in DOMAIN all : all[i] = QGet(q, "after") THEN BadPage
           ELSE LET k == at(QGet(q, "after"))
                IN  PageOf(SubSeq(all, k + 1, min(k + n, Len(all))), k + n < Len(all))
      ELSE IF QHas(q, "before")
      THEN IF ~\E i \in DOMAIN all : all[i] = QGet(q, "before") THEN BadPage
           ELSE LET k == at(QGet(q, "before"))
                IN  PageOf(SubSeq(all, IF k > n THEN k - n ELSE 1, k - 1), k > n + 1)
      ELSE PageOf(SubSeq(all, 1, min(n, Len(all))), n < Len(all))
=============================================================================
