-------------------------------- MODULE Doc --------------------------------
(***************************************************************************)
(* JSON-like documents as TLA+ values.                                     *)
(*                                                                         *)
(* A document is a record with a kind k:                                   *)
(*   "s" string   [v]      "n" number (its text, [v])   "b" boolean [v]    *)
(*   "z" null              "u" undefined / absent                          *)
(*   "o" object   [f: sequence of <<key, document>>]                       *)
(*   "a" array    [c: sequence of documents]                               *)
(* and, only inside arguments:                                             *)
(*   "react" a React element [v: its identity]                             *)
(*   "buf"  binary content [j: the document its JSON form is]              *)
(*   "date" a Date [v: its ISO text]                                       *)
(*   "url"  a base URL [href, origin, pre: path segments]                  *)
(*   "path" a request path [segs, q: query pairs]                          *)
(*   "hdr"  request headers [f: sequence of <<lower-case name, value>>]    *)
(*   "file" a file [name, type, b64]                                       *)
(* All strings are ASCII: other characters are written \uXXXX by whoever   *)
(* produces the document, injectively.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Undef == [k |-> "u"]
Null  == [k |-> "z"]
S(x)  == [k |-> "s", v |-> x]
N(x)  == [k |-> "n", v |-> x]
B(x)  == [k |-> "b", v |-> x]          \* x is "true" or "false"
True  == B("true")
False == B("false")
O(f)  == [k |-> "o", f |-> f]
A(c)  == [k |-> "a", c |-> c]

IsUndef(d) == d.k = "u"
IsObj(d)   == d.k = "o"

HasKey(d, key) == d.k = "o" /\ \E i \in DOMAIN d.f : d.f[i][1] = key
Get(d, key) ==
  IF HasKey(d, key)
  THEN d.f[CHOOSE i \in DOMAIN d.f : d.f[i][1] = key][2]
  ELSE Undef

\* JavaScript truthiness, for the kinds of documents used as arguments
Truthy(d) ==
  CASE d.k = "u" -> FALSE
    [] d.k = "z" -> FALSE
    [] d.k = "s" -> d.v # ""
    [] d.k = "n" -> d.v # "0"
    [] d.k = "b" -> d.v = "true"
    [] OTHER     -> TRUE

\* What a value becomes when it is serialised as JSON: absent fields vanish,
\* absent list elements become null.
RECURSIVE Json(_)
Json(d) ==
  CASE d.k = "o" ->
         LET m == [i \in DOMAIN d.f |-> <<d.f[i][1], Json(d.f[i][2])>>]
         IN  O(SelectSeq(m, LAMBDA p : ~IsUndef(p[2])))
    [] d.k = "a" ->
         A([i \in DOMAIN d.c |->
              LET j == Json(d.c[i]) IN IF IsUndef(j) THEN Null ELSE j])
    [] d.k = "buf"  -> d.j
    [] d.k = "date" -> S(d.v)
    [] OTHER -> d

\* The object with the given <<source key, target key>> fields of d
Pick(d, pairs) ==
  O(SelectSeq([i \in DOMAIN pairs |-> <<pairs[i][2], Get(d, pairs[i][1])>>],
              LAMBDA p : ~IsUndef(p[2])))

\* Lists of objects, mapped element by element; absent stays absent
MapList(d, F(_)) ==
  IF d.k = "a" THEN A([i \in DOMAIN d.c |-> F(d.c[i])]) ELSE d

\* Objects with one field replaced (or dropped when Undef)
With(d, key, val) ==
  LET rest == SelectSeq(d.f, LAMBDA p : p[1] # key)
  IN  O(IF IsUndef(val) THEN rest ELSE Append(rest, <<key, val>>))
Without(d, key) == O(SelectSeq(d.f, LAMBDA p : p[1] # key))

Keys(d) == {d.f[i][1] : i \in DOMAIN d.f}

\* "" if the documents are equal (objects as unordered), else where they differ
RECURSIVE Diff(_, _, _)
Diff(x, y, at) ==
  IF x = y THEN ""
  ELSE IF x.k # y.k THEN at \o ":" \o x.k \o "/" \o y.k
  ELSE CASE x.k = "o" ->
         LET kx == Keys(x)  ky == Keys(y)
             miss == {q \in kx : q \notin ky}
             extra == {q \in ky : q \notin kx}
             dk == {q \in kx \cap ky : Diff(Get(x, q), Get(y, q), at \o "." \o q) # ""}
         IN  IF miss # {} THEN at \o ".-" \o (CHOOSE q \in miss : TRUE)
             ELSE IF extra # {} THEN at \o ".+" \o (CHOOSE q \in extra : TRUE)
             ELSE IF dk # {} THEN LET q == CHOOSE q \in dk : TRUE
                                  IN  Diff(Get(x, q), Get(y, q), at \o "." \o q)
             ELSE IF Len(x.f) # Len(y.f) THEN at \o ":dup" ELSE ""
       [] x.k = "a" ->
         IF Len(x.c) # Len(y.c)
         THEN at \o ":len" \o ToString(Len(x.c)) \o "/" \o ToString(Len(y.c))
         ELSE LET di == {i \in DOMAIN x.c : Diff(x.c[i], y.c[i], at \o "[" \o ToString(i) \o "]") # ""}
              IN  IF di = {} THEN ""
                  ELSE LET i == CHOOSE i \in di : \A j \in di : i <= j
                       IN  Diff(x.c[i], y.c[i], at \o "[" \o ToString(i) \o "]")
       [] OTHER -> at \o ":value"

Same(x, y) == Diff(x, y, "") = ""

\* The text of a scalar, as used in a query or a path.  A generated document
\* may contain [k: "tok"], some value of a class: its text is symbolic.
Str(d) == CASE d.k \in {"s", "n", "b"} -> d.v
            [] d.k = "tok" -> "$" \o d.ty \o ":" \o d.id
            [] OTHER -> ""

RECURSIVE JoinTxt(_, _)
JoinTxt(c, i) ==
  IF i > Len(c) THEN ""
  ELSE (IF i = 1 THEN "" ELSE ",") \o Str(c[i]) \o JoinTxt(c, i + 1)
=============================================================================
