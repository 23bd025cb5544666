----------------------------- MODULE HookModel -----------------------------
(***************************************************************************)
(* Senders that sign messages, a clock, an adversary who has seen every    *)
(* signed message and has a key of its own, and a receiver that verifies   *)
(* what arrives, on several clients, remembering nothing.  What must hold  *)
(* is stated over who signed what and when, not over Hooks!Accepts.        *)
(***************************************************************************)
EXTENDS Hooks, Json, IOUtils, FiniteSets

Suite == IOEnv.SUITE
Seed  == atoi(IOEnv.SEED)
Deep  == IOEnv.TIER = "thorough"

VARIABLES now, frac, signed, tries, hist, over, mode
vars == << now, frac, signed, tries, hist, over, mode >>

T0 == 1700000000
Keys0 == {"k1", "k2"}          \* of honest senders; the adversary has "ka"
Msg(k, id, ts, pl) == [key |-> k, id |-> id, ts |-> ts, pl |-> pl]
Signed0 == {Msg("k1", "m1", T0, "p1"), Msg("k1", "m2", T0, "p2"), Msg("k2", "m1", T0, "p1"), Msg("k1", "m3", T0, "text"),
            Msg("k1", "m4", T0, "empty"), Msg("k1", "m5", T0, "null"), Msg("k1", "m6", T0, "ctl")}

Ts(n)  == [t |-> ToString(n), n |-> n, ok |-> TRUE]
Odd(x) == [t |-> x, n |-> 0, ok |-> FALSE]
Sec(k, form) == [key |-> k, form |-> form]
Code(k, id, ts, pl) == [v |-> "v1", form |-> "exact", key |-> k, id |-> id, ts |-> ts, pl |-> pl]
CodeOf(m) == Code(m.key, m.id, ToString(m.ts), m.pl)
\* miss: how a part that is missing is missing (empty, undefined, null, or no
\* such key)
At(s, id, ts, sigs, pl) == [secret |-> s, id |-> id, ts |-> ts, sigs |-> sigs, pl |-> pl, miss |-> "empty"]
Misses == {"empty", "undef", "null", "key"}
Forms == << "flip", "trunc", "longer", "none", "case", "zero", "noversion", "hex" >>

\* what the adversary can put into the signature field for this message: codes
\* it has seen, codes under its own key, and damaged ones
SigLists(s, id, ts, pl) ==
  LET own  == Code("ka", id, ts.t, pl)
      g    == CodeOf(CHOOSE m \in Signed0 : m.key = "k1" /\ m.id = "m1")
      g2   == CodeOf(CHOOSE m \in Signed0 : m.key = "k1" /\ m.id = "m2")
      h    == CodeOf(CHOOSE m \in Signed0 : m.key = "k2" /\ m.id = "m1")
      lists == << <<>>, << g >>, << h >>, << g2 >>, << own >>, << own, g >>, << g, own >>, << h, g2, own, g >>,
                  << [g EXCEPT !.v = "v2"] >>, << [g EXCEPT !.v = "v1a"], own >>, << [g EXCEPT !.v = "V1"] >>,
                  << [g EXCEPT !.v = "v2"], g >>, << [g EXCEPT !.v = ""], own >>, << g, g >>,
                  [i \in 1 .. 40 |-> IF i = 40 THEN g ELSE [own EXCEPT !.form = "flip"]] >>
               \o [i \in DOMAIN Forms |-> << [g EXCEPT !.form = Forms[i]] >>]
               \o << << [g EXCEPT !.form = "flip"], [g EXCEPT !.form = "trunc"], g >> >>
  IN  lists

\* the secrets a receiver may be set up with
Secrets == << Sec("k1", "plain"), Sec("k1", "prefixed"), Sec("k2", "plain"), Sec("ka", "prefixed"), Sec("k1", "empty"),
              Sec("k1", "bad"), Sec("k1", "onlyprefix"), Sec("k1", "undef") >>
Clocks == << -301, -300, -299, 0, 1, 299, 300, 301, 3600, 31536000 >>
OddTimes == << "", "abc", "NaN", "Infinity", "-", "now" >>
Clients == << "a", "b", "c" >>

(********************* attempts, one at a time *****************************)
\* the message is right, one thing after the other is not; then everything
Broad ==
  LET g(l) == SigLists(Sec("k1", "plain"), "m1", Ts(T0), "p1")[l]
      L == Len(SigLists(Sec("k1", "plain"), "m1", Ts(T0), "p1"))
  IN UNION {
      \* every signature field with every secret
      {[at |-> At(Secrets[s], "m1", Ts(T0), g(l), "p1"), c |-> c, d |-> d] : s \in DOMAIN Secrets, l \in 1 .. L, c \in {"a"}, d \in {0, 300}},
      \* every clock with every time given
      {[at |-> At(Secrets[s], "m1", ts, << Code("k1", "m1", ts.t, "p1") >>, "p1"), c |-> "b", d |-> Clocks[d]] :
          s \in {1, 2}, d \in DOMAIN Clocks, ts \in {Ts(T0)}},
      {[at |-> At(Secrets[1], "m1", ts, << CodeOf(Msg("k1", "m1", T0, "p1")) >>, "p1"), c |-> c, d |-> Clocks[d]] :
          d \in DOMAIN Clocks, c \in {"a", "c"},
          ts \in {Ts(T0), Ts(T0 + 1), Ts(T0 - 300), Ts(T0 + 3600), Ts(0), Ts(T0 + 31536000)} \cup {Odd(OddTimes[i]) : i \in DOMAIN OddTimes}},
      \* a time that is no number, properly signed by the adversary
      {[at |-> At(Sec("ka", "plain"), "m1", Odd(OddTimes[i]), << Code("ka", "m1", OddTimes[i], "p1") >>, "p1"), c |-> "a", d |-> d] :
          i \in DOMAIN OddTimes, d \in {0, 301}},
      \* parts missing, over codes for whatever could stand in for them
      {[at |-> [At(Sec(k, "plain"), "", Ts(T0), << Code(k, x, ToString(T0), "p1") >>, "p1") EXCEPT !.miss = m], c |-> "a", d |-> 0] :
          k \in {"k1", "ka"}, m \in Misses, x \in {"", "undefined", "null", "msg", "0", "m1"}},
      {[at |-> [At(Sec(k, "plain"), "m1", Odd(""), << Code(k, "m1", x, "p1") >>, "p1") EXCEPT !.miss = m], c |-> "b", d |-> d] :
          k \in {"k1", "ka"}, m \in Misses, x \in {"", "undefined", "null", "NaN", "0", ToString(T0)}, d \in {0, 1}},
      {[at |-> [At(Sec(k, "plain"), id, ts, <<>>, "p1") EXCEPT !.miss = m], c |-> "a", d |-> 0] :
          k \in {"k1", "ka"}, m \in Misses, id \in {"m1", ""}, ts \in {Ts(T0), Odd("")}},
      \* ids and payloads nearly those that were signed
      {[at |-> At(Secrets[1], id, Ts(T0), << CodeOf(Msg("k1", "m1", T0, "p1")) >>, "p1"), c |-> "c", d |-> 0] :
          id \in {" m1", "m1 ", "M1", "m1.", "m", "m11", "msg_m1"}},
      {[at |-> At(Sec("ka", "plain"), id, Ts(T0), << Code("ka", id, ToString(T0), pl) >>, pl), c |-> "c", d |-> 0] :
          id \in {" m1", "m1 ", "M1", "-", "0", "undefined", "msg_\\u00e9"}, pl \in {"p1", "p1nl"}},
      {[at |-> At(Sec("ka", "plain"), "m1", Ts(T0), << Code("ka", "m1", ToString(T0), x) >>, y), c |-> "a", d |-> 0] :
          x \in {"p1", "p1ws", "p1nl", "ctl"}, y \in {"p1", "p1ws", "p1nl", "ctl"}},
      \* every id and payload with every list of signatures
      {[at |-> At(Secrets[s], id, Ts(T0), g(l), pl), c |-> "a", d |-> 10] :
          s \in {1, 3}, id \in {"m1", "m2", ""}, l \in 1 .. L, pl \in {"p1", "p1ws", "p2", "text"}},
      \* genuine messages of every kind
      {[at |-> At(Sec(m.key, f), m.id, Ts(m.ts), << CodeOf(m) >>, m.pl), c |-> c, d |-> Clocks[d]] :
          m \in Signed0, f \in {"plain", "prefixed"}, c \in {"a", "b", "c"}, d \in DOMAIN Clocks},
      \* genuine codes over other messages
      {[at |-> At(Sec(k, "plain"), m.id, Ts(m.ts), << CodeOf(n) >>, m.pl), c |-> "a", d |-> 0] :
          m \in Signed0, n \in Signed0, k \in {"k1", "k2"}}
     }

(*************************** histories *************************************)
Short ==
  LET m1 == Msg("k1", "m1", T0, "p1")
      g  == << CodeOf(m1) >>
      t  == Ts(T0)
      k  == Sec("k1", "plain")
  IN  { [at |-> At(k, "m1", t, g, "p1"), c |-> "a", d |-> 0],
        [at |-> At(Sec("k1", "prefixed"), "m1", t, g, "p1"), c |-> "b", d |-> 0],
        [at |-> At(Sec("k2", "plain"), "m1", t, g, "p1"), c |-> "a", d |-> 0],
        [at |-> At(k, "m1", t, g, "p2"), c |-> "a", d |-> 0],
        [at |-> At(k, "m1", t, g, "p1ws"), c |-> "a", d |-> 0],
        [at |-> At(k, "m2", t, g, "p1"), c |-> "a", d |-> 0],
        [at |-> At(k, "m1", Ts(T0 + 302), g, "p1"), c |-> "a", d |-> 0],
        [at |-> At(k, "m2", t, << CodeOf(Msg("k1", "m2", T0, "p2")) >>, "p2"), c |-> "a", d |-> 0],
        [at |-> At(Sec("ka", "plain"), "m1", t, << Code("ka", "m1", t.t, "p1") >>, "p1"), c |-> "c", d |-> 0],
        [at |-> At(k, "m1", t, << Code("ka", "m1", t.t, "p1") >>, "p1"), c |-> "a", d |-> 0] }
Ticks == IF Deep THEN {0, 150, 302} ELSE {0, 302}
Depth == 3

Choices == IF mode = "broad" THEN Broad ELSE Short
Bound   == IF mode = "broad" THEN 1 ELSE Depth

ASSUME TLCSet(1, TLCEval(Broad))
ASSUME TLCSet(2, TLCEval(Short))

\* a client's API key may even be the webhook secret
Pre == << [x |-> "new", c |-> "a", key |-> [k |-> "tok", ty |-> "key", id |-> ""], opts |-> Undef],
          [x |-> "new", c |-> "b", key |-> [k |-> "tok", ty |-> "key", id |-> ""], opts |-> Undef],
          [x |-> "new", c |-> "c", key |-> [k |-> "secret", key |-> "k1", form |-> "prefixed"], opts |-> Undef] >>

Init ==
  /\ mode \in {"broad", "short"}
  /\ now = T0 /\ frac = 0 /\ signed = Signed0 /\ tries = <<>> /\ over = FALSE
  /\ hist = Pre

\* the payload texts an attempt speaks of
Texts(at) == [pl \in {at.pl} \cup {at.sigs[i].pl : i \in DOMAIN at.sigs} |-> Payloads[pl].t]

\* within a second nothing changes
Millis(tick) == IF tick \in {-301, -300, -299, 299, 300, 301} THEN {0, 437, 500, 999} ELSE IF tick \in {0, 1, 150, 3600} THEN {437} ELSE {0}
\* the clock moves, a message arrives and is verified
Attempt ==
  /\ ~over /\ Len(tries) < Bound
  /\ \E ch \in (IF mode = "broad" THEN TLCGet(1) ELSE TLCGet(2)) : \E tick \in (IF mode = "broad" THEN {ch.d} ELSE Ticks) :
     \E ms \in Millis(tick) :
       LET t == now + tick IN
       /\ now' = t /\ frac' = ms
       /\ tries' = Append(tries, [at |-> ch.at, now |-> t, ok |-> Accepts(ch.at, t)])
       /\ hist' = hist \o << [x |-> "clock", s |-> t, ms |-> ms], [x |-> "webhook", c |-> ch.c, a |-> ch.at, texts |-> Texts(ch.at)] >>
  /\ UNCHANGED << signed, over, mode >>
Stop ==
  /\ ~over /\ Len(tries) = Bound
  /\ over' = TRUE
  /\ PrintT("SC " \o ToJson([id |-> mode, seed |-> ToString(Cardinality({i \in DOMAIN tries : tries[i].ok})) , renderer |-> "ok", proc |-> "present", about |-> "", steps |-> hist]))
  /\ UNCHANGED << now, frac, signed, tries, hist, mode >>
Stay == over /\ UNCHANGED vars
Next == Attempt \/ Stop \/ Stay
Spec == Init /\ [][Next]_vars

(******************************* properties ********************************)
\* nobody but an honest sender gets a message accepted under its secret, and
\* only as it was signed
Authentic == \A i \in DOMAIN tries :
  (tries[i].ok /\ tries[i].at.secret.key \in Keys0) =>
     \E m \in signed : m.key = tries[i].at.secret.key /\ m.id = tries[i].at.id
                       /\ m.pl = tries[i].at.pl /\ ToString(m.ts) = tries[i].at.ts.t
\* and only within five minutes of its signing
Timely == \A i \in DOMAIN tries :
  (tries[i].ok /\ tries[i].at.secret.key \in Keys0) =>
     \E m \in signed : m.id = tries[i].at.id /\ tries[i].now - m.ts \in -300 .. 300
\* a genuine message delivered in time is accepted, whatever happened before
Accepted == \A i \in DOMAIN tries :
  LET a == tries[i].at IN
  (\E m \in signed : m.key = a.secret.key /\ m.id = a.id /\ ToString(m.ts) = a.ts.t /\ m.pl = a.pl
      /\ tries[i].now - m.ts \in -300 .. 300 /\ a.secret.form \in {"plain", "prefixed"}
      /\ (\E s \in DOMAIN a.sigs : a.sigs[s] = CodeOf(m)) /\ Payloads[m.pl].j)
  => tries[i].ok
\* the same message at the same time gets the same answer
Memoryless == \A i, j \in DOMAIN tries : (tries[i].at = tries[j].at /\ tries[i].now = tries[j].now) => tries[i].ok = tries[j].ok
=============================================================================
