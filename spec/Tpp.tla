-------------------------------- MODULE Tpp --------------------------------
(***************************************************************************)
(* Behaviour of the threadpp library as seen through its public API.       *)
(*                                                                         *)
(* The state is one record S.  Threads are "agents":                       *)
(*   main and the threads running user functions ("script"),               *)
(*   ready-made looping threads ("loop"), the one-shot threads behind      *)
(*   async/then without a thread id ("one") and pool workers ("work").     *)
(* Each agent has a stack of frames: API calls it is inside of, tasks it   *)
(* is running, and "post" frames (what the library does after a task       *)
(* returned: storing the result, launching continuations).                 *)
(*                                                                         *)
(* Visible actions: Call, Return, Begin, End (of a task), script start/end,*)
(* Quiet (nothing can run: quiescence or an idle jump of the clock).       *)
(* Hidden actions: the effects inside calls (Effect), Launch, Complete,    *)
(* Leave, WhenFire, Pick, ShutNotify, ShutDone, CvLeave.                   *)
(*                                                                         *)
(* Every guard that states a property carries the names of the aspects it  *)
(* belongs to; only the aspects in Enf are enforced, which lets one        *)
(* specification decide the properties one by one.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

CONSTANTS Enf,      \* enforced aspects
          TolLow,   \* clock granularity (time units)
          TolUp     \* slack of the virtual clock (time units)

VARIABLE S

E(tags) == tags \cap Enf # {}
G(tags, P) == IF tags \cap Enf = {} THEN TRUE ELSE P

Upd(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)

----------------------------------------------------------------------------
(* Vocabulary *)

PumpOps == {"process", "processfor", "wait", "waitfor", "sleep", "fwait", "fwaitfor", "get",
            "cvwait", "cvwaitfor", "mlock", "pwait", "pwaitall"}
TimedOps == {"waitfor", "sleep", "fwaitfor", "cvwaitfor", "shutdown"}
CvOps == {"cvwait", "cvwaitfor"}

NewAgent(kind) == [kind |-> kind,   \* script, loop, one, work
                   id |-> 0,        \* id it is registered under (0 none, -1 not known yet)
                   loc |-> 0,       \* id the thread itself is linked to
                   ex |-> FALSE,    \* notified for exit
                   q |-> <<>>,      \* inbox
                   nop |-> 0,       \* wake-ups sent to it that may make an empty wait return
                   dirty |-> FALSE, \* internal tasks may be in its inbox
                   fin |-> FALSE,   \* its function has returned
                   std |-> TRUE,    \* not started by the library: has to unregister itself
                   tail |-> FALSE,  \* just finished a task
                   cnt |-> 0,       \* tasks run (one-shot threads)
                   lt |-> 0,        \* when its last task ended
                   ltl |-> 0,       \* its scheduling delay at that time
                   lmax |-> 3,      \* pool worker: highest level it can have
                   nm |-> "",       \* name it is registered under
                   hn |-> "",       \* name a looping thread was made with
                   hm |-> FALSE,    \* there were hooks when it was made
                   hk |-> 0,        \* hooks it has called: 1 name, 2 name and start
                   pool |-> -1]

NewFrame(o, c) == [o |-> o, c |-> c, ph |-> 0, n |-> 0, kick |-> FALSE, nt |-> FALSE, L |-> <<>>,
                   any |-> FALSE, i |-> -1, qd |-> FALSE, z |-> "", thr |-> "", f0 |-> 0, od |-> <<>>,
                   lo |-> "no", le |-> 0, li |-> 0]   \* log hooks: were they set at the call, errors and infos reported

NewTask == [st |-> "new", kind |-> "once", fut |-> -1, k |-> 0, ta |-> -1, pol |-> "d", par |-> -1, vk |-> "I", as |-> "",
            \* a prophecy that only avoids useless guesses: position of the event at which the task begins
            \* (0: never, -1: no prophecy) and the thread it begins on
            ob |-> -1, oa |-> -1,
            own |-> -1]     \* the task whose function object runs this one when it is destroyed

NewFut(org) == [set |-> FALSE, res |-> "", conts |-> <<>>, rt |-> -1, org |-> org, ins |-> <<>>, rdy |-> {}, out |-> FALSE]

InitState ==
    [ag |-> (0 :> NewAgent("script")), stk |-> (0 :> <<>>), tk |-> <<>>, fut |-> <<>>, ref |-> <<>>,
     prm |-> <<>>, hnd |-> <<>>, um |-> <<>>, mx |-> <<>>, pl |-> <<>>, jb |-> <<>>, wh |-> <<>>, gb |-> <<>>,
     ini |-> 0, used |-> {}, main |-> 0, hooks |-> "no", logs |-> "no",
     kn |-> <<>>, tkn |-> <<>>, ekn |-> <<>>, fkn |-> <<>>, mkn |-> <<>>]

----------------------------------------------------------------------------
(* Helpers on states.  s is a state, a an agent. *)

Has(s, a) == a \in DOMAIN s.stk /\ s.stk[a] # <<>>
Top(s, a) == Last(s.stk[a])
SetTop(s, a, f) == [s EXCEPT !.stk[a][Len(s.stk[a])] = f]
Push(s, a, f) == [s EXCEPT !.stk[a] = Append(@, f)]

RECURSIVE Norm(_)
Norm(st) == IF st # <<>> /\ Last(st).o = "post" /\ Last(st).ph = 1 /\ Last(st).L = <<>> /\ Last(st).od = <<>>
            THEN Norm(Front(st)) ELSE st
Pop(s, a) == [s EXCEPT !.stk[a] = Norm(Front(@))]
Tidy(s, a) == [s EXCEPT !.stk[a] = Norm(@)]

Live(s) == {a \in DOMAIN s.ag : s.ag[a].id # 0}
Unknown(s) == {a \in DOMAIN s.ag : s.ag[a].id = -1}
AgentOf(s, k) == {a \in DOMAIN s.ag : s.ag[a].id = k}
IsLive(s, k) == k > 0 /\ AgentOf(s, k) # {}
The(X) == CHOOSE x \in X : TRUE

(* registers agent a under id v (known result of the call) if it has none *)
Register(s, a, v, nm) ==
    IF s.ag[a].id # 0 THEN s
    ELSE [s EXCEPT !.ag[a].id = v, !.ag[a].nm = nm, !.ag[a].ex = FALSE, !.ag[a].q = <<>>, !.used = @ \cup {v}]
RegisterOK(s, a, v) ==
    IF s.ag[a].id = -1 THEN TRUE
    ELSE IF s.ag[a].id # 0 THEN G({"ident"}, v = s.ag[a].id)
    ELSE G({"ident"}, v > 0 /\ v \notin s.used)

Own(s, a) == s.ag[a].loc          \* the id the thread sees as its own
(* a thread that is not registered (any more): it has no inbox, and nothing makes it wait *)
Stray(s, a) == s.ag[a].loc = 0 /\ (s.ag[a].kind = "script" \/ s.ag[a].fin)
StrayTag(s, a) == IF Stray(s, a) THEN {"stray"} ELSE {}
ExitSeen(s, a) == IF s.ag[a].loc = 0 THEN TRUE ELSE s.ag[a].ex
(* may have been told to exit: a pool that is destroyed tells its workers one after the other *)
ExitMay(s, a) == ExitSeen(s, a) \/ (s.ag[a].kind = "work" /\ s.ag[a].pool # -1 /\ ~s.pl[s.ag[a].pool].alive)

(* the result of a future is there: its continuations are launched by agent a, whose top frame
   collects them *)
MakeReady(s, a, f, res) ==
    IF s.fut[f].set THEN s
    ELSE LET s1 == [s EXCEPT !.fut[f].set = TRUE, !.fut[f].res = res, !.fut[f].conts = <<>>]
         IN SetTop(s1, a, [Top(s1, a) EXCEPT !.L = s.fut[f].conts \o @])

DropTask(s, a, x) ==
    LET s1 == [s EXCEPT !.tk[x].st = "dropped"]
    IN IF s.tk[x].fut = -1 THEN s1 ELSE MakeReady(s1, a, s.tk[x].fut, "broken")

RECURSIVE DropAll(_, _, _)
DropAll(s, a, xs) == IF xs = <<>> THEN s ELSE DropAll(DropTask(s, a, Last(xs)), a, Front(xs))

(* agent b stops being registered, and is a thread like any other from then on.  What was pending is dropped by agent a, or by another thread whose
   call happens to be busy with b: it lets go of b's inbox last *)
Inside(s, c) == Has(s, c) /\ Top(s, c).o \notin {"task", "post"}
Unregister(s, a, b) ==
    LET s1 == [s EXCEPT !.ag[b].id = 0, !.ag[b].loc = 0, !.ag[b].q = <<>>]
        q == s.ag[b].q
    IN {DropAll(s1, a, q)} \cup
       (IF \A i \in 1..Len(q) : s.tk[q[i]].fut = -1 THEN {}
        ELSE {SetTop(s1, c, [Top(s1, c) EXCEPT !.od = @ \o q]) : c \in {x \in DOMAIN s.stk \ {a} : Inside(s, x)}})
DropOrphans(s, a) ==
    LET q == Top(s, a).od IN Tidy(DropAll(SetTop(s, a, [Top(s, a) EXCEPT !.od = <<>>]), a, q), a)

(* Tasks are appended.  With a prophecy, orders that cannot match the order in which the tasks begin are not
   tried, and tasks nobody will ever see are kept sorted. *)
Turn(s, b, x) == IF s.tk[x].oa = b THEN s.tk[x].ob ELSE 0
Unseen(s, b, x) == s.tk[x].ob # -1 /\ Turn(s, b, x) = 0 /\ s.tk[x].fut = -1
InTurn(s, b, x) == s.tk[x].ob = -1 \/ ~E({"fifo"}) \/
    \A i \in 1..Len(s.ag[b].q) :
        LET y == s.ag[b].q[i] IN Turn(s, b, y) <= Turn(s, b, x) \/ Turn(s, b, x) = 0
RECURSIVE PutSorted(_, _, _, _)
PutSorted(s, b, q, x) ==
    IF q # <<>> /\ Unseen(s, b, Last(q)) /\ Last(q) > x THEN Append(PutSorted(s, b, Front(q), x), Last(q)) ELSE Append(q, x)
Enqueue(s, b, x) ==
    IF ~InTurn(s, b, x) THEN {}
    ELSE {[s EXCEPT !.ag[b].q = IF Unseen(s, b, x) THEN PutSorted(s, b, @, x) ELSE Append(@, x), !.tk[x].st = "queued"]}

(* internal wake-ups: the thread may find an empty task in its inbox *)
Dirty(s, a) == [s EXCEPT !.ag[a].dirty = TRUE]

RemoveAt1(q, x) == SelectSeq(q, LAMBDA y : y # x)
InSeq(q, x) == \E i \in 1..Len(q) : q[i] = x

RefOf(s, f) == IF f \in DOMAIN s.ref THEN s.ref[f] ELSE [s |-> -1, sh |-> FALSE]
St(s, f) == RefOf(s, f).s         \* state behind a future variable, -1 if invalid

(* which property a future belongs to, by the way it came to be *)
OrgTags(s, f) ==
    LET o == s.fut[f].org IN
    (CASE o = "async" -> {"policy"} [] o = "cont" -> {"cont"} [] o = "wall" -> {"wall"} [] o = "wany" -> {"wany"}
       [] o = "job" -> {"job", "pwait"} [] OTHER -> {})
    \cup (IF s.fut[f].res = "broken" THEN {"broken"} ELSE {})
TaskTags(s, x) ==
    IF x \notin DOMAIN s.tk THEN {"once"}
    ELSE CASE s.tk[x].kind = "async" -> {"once", "policy"} [] s.tk[x].kind = "cont" -> {"cont"}
           [] s.tk[x].kind = "job" -> {"job"} [] s.tk[x].kind = "dtor" -> {"dtor"} [] OTHER -> {"once"}

(* does z describe the result of future state f? *)
ResOK(s, f, z) ==
    /\ s.fut[f].set
    /\ IF s.fut[f].org = "wany" /\ s.fut[f].res = "any"
       THEN \E j \in s.fut[f].rdy : z = "v" \o ToString(j)
       ELSE z = s.fut[f].res
(* getting the result of when_all/when_any gives the inputs back *)
GiveBack(s, f) ==
    IF s.fut[f].org \notin {"wall", "wany"} \/ ~s.fut[f].set \/ s.fut[f].res = "broken" THEN s
    ELSE LET ins == s.fut[f].ins
             vs == {ins[j].f : j \in 1..Len(ins)}
         IN [s EXCEPT !.ref = [x \in DOMAIN s.ref |->
                 IF x \in vs
                 THEN LET j == CHOOSE i \in 1..Len(ins) : ins[i].f = x IN [s |-> ins[j].s, sh |-> ins[j].sh]
                 ELSE s.ref[x]],
                      !.gb = [x \in vs |-> s.fut[f].org] @@ @]
(* what the use of a future variable tells about: the call that handed the future back *)
VarTags(s, v) == IF v \in DOMAIN s.gb THEN {s.gb[v]} ELSE {}

Elapsed(fr, n) == n >= fr.c.n + fr.c.d - TolLow

CanPump(s, a) ==
    IF s.stk[a] = <<>> THEN s.ag[a].kind \in {"loop", "work"} \/ (s.ag[a].kind = "one" /\ s.ag[a].cnt = 0)
    ELSE Top(s, a).o \in PumpOps /\ Top(s, a).L = <<>> /\ Top(s, a).thr = "" /\ (Top(s, a).o = "pwaitall" => Top(s, a).ph = 1)

----------------------------------------------------------------------------
(* Calls *)

Unfinished(s, p) == {j \in DOMAIN s.jb : s.jb[j].pool = p /\ s.jb[j].st \in {"pend", "pick", "run"}}
Snapshot(s, a, c) ==
    CASE c.o = "exitq" -> ExitSeen(s, a)
      [] c.o \in {"ready", "err", "fwait", "fwaitfor", "get"} -> (St(s, c.f) # -1 /\ s.fut[St(s, c.f)].set)
      [] c.o = "then" -> St(s, c.f) = -1
      [] c.o = "vlive" -> \A b \in DOMAIN s.ag \ {a} : s.ag[b].fin
      [] c.o \in {"process", "processfor"} -> Range(s.ag[a].q)
      [] c.o \in {"invoke", "dispatch", "config"} -> IsLive(s, c.k)
      [] c.o = "notify" -> (IF IsLive(s, c.k)
                            THEN LET b == The(AgentOf(s, c.k)) IN
                                 IF b # a /\ Has(s, b) /\ Top(s, b).o = "wait" THEN Top(s, b).c.l ELSE -1
                            ELSE -1)
      [] c.o = "mlock" -> (c.x \in DOMAIN s.mx /\ s.mx[c.x] = a)
      [] c.o = "munlock" -> (c.x \in DOMAIN s.mx /\ s.mx[c.x] = a)
      [] c.o = "pwaitall" -> Unfinished(s, c.x)
      [] OTHER -> 0

CallOK(s, a) == a \in DOMAIN s.stk /\ (s.stk[a] = <<>> \/ Top(s, a).o = "task")

(* effects at the call itself: what only concerns the caller, or may be early *)
CallEffect(s, a, c) ==
    CASE c.o = "notify" ->
           IF IsLive(s, c.k) /\ c.k # Own(s, a)
           THEN [s EXCEPT !.ag[The(AgentOf(s, c.k))].nop = @ + 1] ELSE s
      [] c.o = "config" ->
           IF IsLive(s, c.k) THEN Dirty(s, The(AgentOf(s, c.k))) ELSE s
      [] c.o \in {"fwait", "fwaitfor", "get", "cvwait", "cvwaitfor", "mlock", "pwait", "pwaitall", "whenall", "whenany"} ->
           Dirty(s, a)
      [] c.o \in {"spawn", "sspawn"} ->
           [s EXCEPT !.ag = Upd(@, c.x, [NewAgent("script") EXCEPT !.std = (c.o = "sspawn")]), !.stk = Upd(@, c.x, <<>>),
                     !.hnd = Upd(@, c.x, [a |-> c.x, std |-> c.o = "sspawn", id |-> 0])]
      [] c.o = "mkthread" ->
           [s EXCEPT !.ag = Upd(@, c.x, [NewAgent("loop") EXCEPT !.hn = c.nm, !.hm = (s.hooks = "yes")]), !.stk = Upd(@, c.x, <<>>),
                     !.hnd = Upd(@, c.x, [a |-> c.x, std |-> FALSE, id |-> 0])]
      [] c.o = "promise" ->
           [s EXCEPT !.prm = Upd(@, c.x, [s |-> 500 + c.x, got |-> FALSE]),
                     !.fut = Upd(@, 500 + c.x, NewFut("promise"))]
      [] OTHER -> s

Call(s, e) ==
    LET a == e.t IN
    IF CallOK(s, a)
    THEN {LET s0 == CallEffect([s EXCEPT !.ag[a].tail = FALSE], a, e)
              s1 == IF e.dt = -1 THEN s0
                    ELSE [s0 EXCEPT !.tk = Upd(@, e.dt, [NewTask EXCEPT !.kind = "dtor", !.st = "armed", !.own = e.i])]
          IN Push(s1, a, [NewFrame(e.o, e) EXCEPT !.f0 = Snapshot(s, a, e), !.lo = s.logs])}
    ELSE {}

----------------------------------------------------------------------------
(* Effects inside calls (hidden).  Each returns the set of possible next states; the frame moves to
   phase 1.  c.R holds the result the call is going to report (c.ret: whether it returns at all). *)

Done1(s, a) == SetTop(s, a, [Top(s, a) EXCEPT !.ph = 1])

EffReg(s, a, b, v, own, nm) ==
    IF ~RegisterOK(s, b, v) THEN {}
    ELSE LET s1 == Register(s, b, v, nm) IN
         {Done1(IF own THEN [s1 EXCEPT !.ag[b].loc = s1.ag[b].id] ELSE s1, a)}

EffInit(s, a, c) ==
    IF s.ini > 0 THEN {Done1([s EXCEPT !.ini = @ + 1], a)}
    ELSE {[SetTop(x, a, [Top(x, a) EXCEPT !.n = 1]) EXCEPT
              !.ini = 1, !.main = x.ag[a].id, !.hooks = IF c.h % 2 = 1 THEN "yes" ELSE "no", !.logs = IF c.h >= 2 THEN "maybe" ELSE "no"] :
             x \in EffReg(s, a, a, c.R.v, TRUE, c.nm)}

EffUnreg(s, a) ==
    IF s.ag[a].loc = 0 THEN {SetTop(s, a, [Top(s, a) EXCEPT !.ph = 1, !.n = 2])}
    ELSE Unregister(Done1(s, a), a, a)

EffInvoke(s, a, c) ==
    LET nt == [NewTask EXCEPT !.k = c.k, !.as = c.as, !.ob = c.ob, !.oa = c.oa]
        s0 == [s EXCEPT !.tk = Upd(@, c.i, nt)]
    IN IF IsLive(s, c.k)
       THEN IF G({"once"} \cup StrayTag(s, a), c.R.v = 1) THEN {Done1(x, a) : x \in Enqueue(s0, The(AgentOf(s, c.k)), c.i)} ELSE {}
       ELSE IF G({"once", "ident"} \cup StrayTag(s, a), c.R.v = 0 \/ Top(s, a).f0 = TRUE)
            THEN {Done1([s0 EXCEPT !.tk[c.i].st = "dropped"], a)} ELSE {}

EffNexit(s, a, c) ==
    {Done1(IF IsLive(s, c.k) THEN [s EXCEPT !.ag[The(AgentOf(s, c.k))].ex = TRUE] ELSE s, a)}

(* only the library's own thread objects tell the thread to exit, by the id it was made with *)
EffJoin(s, a, h) ==
    IF h.a = -1 \/ h.std THEN {Done1(s, a)}
    ELSE {Done1([s EXCEPT !.ag[h.a].ex = (s.ag[h.a].id # 0 /\ s.ag[h.a].id = h.id) \/ @], a)}

(* workers of a pool being destroyed leave one by one *)
Going(s) == {b \in Live(s) : s.ag[b].kind = "work" /\ ~s.pl[s.ag[b].pool].alive}
EffList(s, a, c) ==
    LET known == {s.ag[b].id : b \in Live(s)} \ {-1}
        sure == {s.ag[b].id : b \in Live(s) \ Going(s)} \ {-1}
        got == Range(c.R.v)
        more == Cardinality(got \ known)
    IN IF G({"ident", "shut"},
            /\ sure \subseteq got
            /\ Cardinality(got) = Len(c.R.v)
            /\ more <= Cardinality(Unknown(s))
            /\ more >= Cardinality(Unknown(s) \ Going(s))
            /\ (got \ known) \cap s.used = {})
       THEN {Done1(s, a)} ELSE {}

RunningQueued(s, b) == Cardinality({i \in 1..Len(s.stk[b]) : s.stk[b][i].qd})
(* destructors on the stack: the task they belong to may count as running until it is destroyed *)
Destructing(s, b) == Cardinality({i \in 1..Len(s.stk[b]) : s.stk[b][i].i # -1 /\ s.tk[s.stk[b][i].i].kind = "dtor"})
EffPend(s, a, c) ==
    IF ~IsLive(s, c.k) THEN (IF G({"intro"}, c.R.v = 0) THEN {Done1(s, a)} ELSE {})
    ELSE LET b == The(AgentOf(s, c.k))
             lo == Len(s.ag[b].q) + RunningQueued(s, b)
             hi == lo + s.ag[b].nop + (IF s.ag[b].tail THEN 1 ELSE 0) + Destructing(s, b)
         IN IF G({"intro"}, c.R.v >= lo /\ (s.ag[b].dirty \/ c.R.v <= hi)) THEN {Done1(s, a)} ELSE {}

(* the detailed form also tells the name: the one the thread was first registered under, or its id *)
NameOf(s, b) == IF s.ag[b].nm = "" THEN ToString(s.ag[b].id) ELSE s.ag[b].nm
EffPname(s, a, c) ==
    IF G({"name"}, IF IsLive(s, c.k)
                   THEN LET b == The(AgentOf(s, c.k)) IN s.ag[b].kind \in {"one", "work"} \/ c.R.z = NameOf(s, b)
                   ELSE c.R.z = "")
    THEN EffPend(s, a, c) ELSE {}

EffSetv(s, a, c) ==
    LET f == s.prm[c.x].s IN
    IF f = -1 \/ c.R.z \notin {"", "-"} THEN {Done1(s, a)}
    ELSE IF s.fut[f].set THEN (IF G({"oneshot"}, FALSE) THEN {Done1(s, a)} ELSE {})
    ELSE {MakeReady(Done1(s, a), a, f, c.w)}

EffDrop(s, a, c) ==
    LET f == s.prm[c.x].s
        s1 == [s EXCEPT !.prm[c.x].s = -1]
    IN IF f = -1 \/ s.fut[f].set THEN {Done1(s1, a)}
       ELSE {MakeReady(Done1(s1, a), a, f, "broken")}

EffPassign(s, a, c) ==
    LET old == IF c.x \in DOMAIN s.prm THEN s.prm[c.x].s ELSE -1
        s1 == [s EXCEPT !.prm = Upd(Upd(@, c.x, s.prm[c.y]), c.y, [s |-> -1, got |-> FALSE])]
    IN IF old = -1 \/ s.fut[old].set THEN {Done1(s1, a)}
       ELSE {MakeReady(Done1(s1, a), a, old, "broken")}

NewOne(s, g) ==
    LET b == 1000 + g
        r == [NewAgent("one") EXCEPT !.id = -1, !.loc = -1]
    IN [s EXCEPT !.ag = Upd(@, b, r), !.stk = Upd(@, b, <<>>)]

EffThen(s, a, c) ==
    LET p == St(s, c.f) IN
    IF p = -1 THEN {Done1(s, a)}
    ELSE LET nt == [NewTask EXCEPT !.kind = "cont", !.fut = c.g, !.k = c.k, !.pol = c.p, !.par = p, !.vk = c.vk, !.as = c.as, !.ob = c.ob, !.oa = c.oa,
                                   !.ta = IF c.fresh = 1 THEN 1000 + c.g ELSE -1]
             s1 == [(IF c.fresh = 1 THEN NewOne(s, c.g) ELSE s) EXCEPT
                       !.tk = Upd(@, c.i, nt), !.fut = Upd(@, c.g, NewFut("cont")),
                       !.ref = Upd(IF s.ref[c.f].sh THEN @ ELSE [@ EXCEPT ![c.f].s = -1],
                                   c.g, [s |-> c.g, sh |-> FALSE])]
             s2 == Done1(s1, a)
         IN IF s.fut[p].set THEN {SetTop(s2, a, [Top(s2, a) EXCEPT !.L = <<c.i>>])}
            ELSE {[s2 EXCEPT !.fut[p].conts = Append(@, c.i)]}

EffAsync(s, a, c) ==
    LET nt == [NewTask EXCEPT !.kind = "async", !.fut = c.g, !.k = c.k, !.pol = c.p, !.vk = c.vk, !.as = c.as, !.ob = c.ob, !.oa = c.oa,
                              !.ta = IF c.fresh = 1 THEN 1000 + c.g ELSE -1]
        s1 == [(IF c.fresh = 1 THEN NewOne(s, c.g) ELSE s) EXCEPT
                  !.tk = Upd(@, c.i, nt), !.fut = Upd(@, c.g, NewFut("async")),
                  !.ref = Upd(@, c.g, [s |-> c.g, sh |-> FALSE])]
        s2 == Done1(s1, a)
    IN {SetTop(s2, a, [Top(s2, a) EXCEPT !.L = <<c.i>>])}

EffWhen(s, a, c, org) ==
    LET ins == [j \in 1..Len(c.fs) |-> [f |-> c.fs[j], s |-> s.ref[c.fs[j]].s, sh |-> s.ref[c.fs[j]].sh]]
        nf == [NewFut(org) EXCEPT !.ins = ins]
        r1 == [x \in DOMAIN s.ref |-> IF x \in Range(c.fs) THEN [s.ref[x] EXCEPT !.s = -1] ELSE s.ref[x]]
        s1 == [s EXCEPT !.fut = Upd(@, c.g, nf), !.ref = Upd(r1, c.g, [s |-> c.g, sh |-> FALSE]),
                        !.wh = Upd(@, c.g, a)]
    IN {Done1(IF c.fs = <<>>
              THEN [s1 EXCEPT !.fut[c.g].set = TRUE, !.fut[c.g].res = IF org = "wall" THEN "v0" ELSE "v-1",
                              !.wh = Upd(@, c.g, -1)]
              ELSE s1, a)}

LockFree(m, x) == x \notin DOMAIN m \/ m[x] = -1
EffUlock(s, a, c) == IF LockFree(s.um, c.x) THEN {Done1([s EXCEPT !.um = Upd(@, c.x, a)], a)} ELSE {}
EffUunlock(s, a, c) == {Done1([s EXCEPT !.um = Upd(@, c.x, -1)], a)}

(* entering a condition variable: registered as a waiter and the user's lock released *)
EffCv(s, a, c) == {Done1([s EXCEPT !.um = Upd(@, c.y, -1)], a)}

Waiting(fr, x) == fr.o \in CvOps /\ fr.c.x = x /\ fr.ph = 1 /\ ~fr.nt
WaitersOf(s, x) == {b \in DOMAIN s.stk : \E i \in 1..Len(s.stk[b]) : Waiting(s.stk[b][i], x)}
NotifyAgents(s, x, B) ==
    [s EXCEPT !.stk = [b \in DOMAIN s.stk |->
        IF b \notin B THEN s.stk[b]
        ELSE [i \in 1..Len(s.stk[b]) |-> IF Waiting(s.stk[b][i], x) THEN [s.stk[b][i] EXCEPT !.nt = TRUE]
                                         ELSE s.stk[b][i]]]]
EffCvAll(s, a, c) == {Done1(NotifyAgents(s, c.x, WaitersOf(s, c.x)), a)}
EffCvOne(s, a, c) ==
    LET w == WaitersOf(s, c.x) IN
    IF w = {} THEN {Done1(s, a)}
    ELSE {Done1(NotifyAgents(s, c.x, B), a) : B \in (SUBSET w) \ {{}}}

EffMlock(s, a, c) ==
    IF c.R.z # "" THEN {Done1(s, a)}
    ELSE IF G({"mtx"}, LockFree(s.mx, c.x)) THEN {Done1([s EXCEPT !.mx = Upd(@, c.x, a)], a)} ELSE {}
EffMtry(s, a, c) ==
    IF c.R.v = 1
    THEN (IF G({"mtx"}, LockFree(s.mx, c.x)) THEN {Done1([s EXCEPT !.mx = Upd(@, c.x, a)], a)} ELSE {})
    ELSE (IF G({"mtx"}, ~LockFree(s.mx, c.x)) THEN {Done1(s, a)} ELSE {})
EffMunlock(s, a, c) ==
    IF c.R.z \notin {"", "-"} THEN {Done1(s, a)}
    ELSE {Done1([s EXCEPT !.mx = Upd(@, c.x, -1)], a)}

TopLevel(w) == IF w[3] > 0 THEN 2 ELSE IF w[2] > 0 THEN 1 ELSE 0
Workers(p, w) == {2000 + 100 * p + i : i \in 0..(w[1] + w[2] + w[3] - 1)}
EffPool(s, a, c) ==
    LET W == Workers(c.x, c.w)
        r == [NewAgent("work") EXCEPT !.id = -1, !.loc = -1, !.dirty = TRUE, !.pool = c.x, !.lmax = TopLevel(c.w)]
    IN {Done1([s EXCEPT !.pl = Upd(@, c.x, [w |-> c.w, alive |-> TRUE]),
                        !.ag = @ @@ [b \in W |-> r], !.stk = @ @@ [b \in W |-> <<>>]], a)}
EffSched(s, a, c) ==
    LET nt == [NewTask EXCEPT !.kind = "job", !.fut = c.g, !.vk = c.vk, !.as = c.as]
        j == [pool |-> c.x, lv |-> c.l2, pr |-> c.a, hlv |-> c.l2, hpr |-> c.a, st |-> "pend", i |-> c.i, by |-> c.by,
              rp |-> FALSE]     \* its priority was changed
    IN {Done1([s EXCEPT !.tk = Upd(@, c.i, nt), !.fut = Upd(@, c.g, NewFut("job")),
                        !.ref = Upd(@, c.g, [s |-> c.g, sh |-> FALSE]), !.jb = Upd(@, c.g, j)], a)}
StopJobs(s, a, J) ==
    LET s1 == [s EXCEPT !.jb = [j \in DOMAIN s.jb |-> IF j \in J THEN [s.jb[j] EXCEPT !.st = "stop"] ELSE s.jb[j]]]
    IN DropAll(s1, a, SetToSeq({s.jb[j].i : j \in J}))
PendingOf(s, p) == {j \in DOMAIN s.jb : s.jb[j].pool = p /\ s.jb[j].st = "pend"}
EffJstop(s, a, c) ==
    {StopJobs(Done1(s, a), a, IF s.jb[c.j].st = "pend" THEN {c.j} ELSE {})}
EffPstopall(s, a, c) ==
    LET s1 == SetTop(s, a, [Top(s, a) EXCEPT !.ph = 1, !.any = TRUE]) IN {StopJobs(s1, a, PendingOf(s, c.x))}
EffPdestroy(s, a, c) ==
    LET s1 == SetTop(s, a, [Top(s, a) EXCEPT !.ph = 1, !.any = TRUE])
        s2 == [s1 EXCEPT !.pl[c.x].alive = FALSE]
    IN {StopJobs(s2, a, PendingOf(s, c.x))}
Lex(l1, p1, l2, p2) == l1 > l2 \/ (l1 = l2 /\ p1 > p2)     \* (l1,p1) is more urgent than (l2,p2)
EffJprio(s, a, c) ==
    LET j == s.jb[c.j] IN
    IF j.st # "pend" THEN {Done1(s, a)}
    ELSE LET up == Lex(c.l2, c.a, j.hlv, j.hpr)
             j1 == [j EXCEPT !.lv = c.l2, !.pr = c.a, !.rp = TRUE, !.hlv = IF up THEN c.l2 ELSE @, !.hpr = IF up THEN c.a ELSE @]
         IN {Done1([s EXCEPT !.jb[c.j] = j1], a)}
(* jobs that come after the call may be waited for as well, as long as it has not begun to wait *)
EffPwaitall(s, a, c) ==
    {SetTop(s, a, [Top(s, a) EXCEPT !.ph = 1, !.f0 = @ \cup Unfinished(s, c.x)])}
EffPcount(s, a, c) ==
    LET act == {j \in DOMAIN s.jb : s.jb[j].pool = c.x /\ s.jb[j].st \in {"pend", "pick", "run"}}
        fin == {j \in DOMAIN s.jb : s.jb[j].pool = c.x /\ s.jb[j].st = "fin"}
    IN IF G({"job"}, c.R.v >= Cardinality(act) /\ c.R.v <= Cardinality(act) + Cardinality(fin))
       THEN {Done1(s, a)} ELSE {}

AllOver(s, a) ==
    /\ \A b \in DOMAIN s.ag \ {a} : s.ag[b].fin /\ s.ag[b].kind # "one"
    /\ \A x \in DOMAIN s.tk : s.tk[x].st \in {"done", "dropped"}
    /\ Len(s.stk[a]) = 1

(* a value is alive once while an object stands for its result, and nowhere else; not judged while
   somebody is busy with results; a continuation may have taken it over *)
Touchers == {"setv", "get", "drop", "passign", "pswap", "getfut", "share", "copy", "fmove", "fswap", "fdrop", "then",
             "fwait", "fwaitfor", "process", "processfor"}
Touched(s, a) == \E b \in DOMAIN s.stk : \E i \in 1..Len(s.stk[b]) : s.stk[b][i].o \in Touchers /\ (b # a \/ i < Len(s.stk[b]))
LiveOK(s, a, w, v) ==
    LET fs == {f \in DOMAIN s.fut : s.fut[f].set /\ s.fut[f].res = w}
        held(f) == (\E r \in DOMAIN s.ref : s.ref[r].s = f) \/ (\E p \in DOMAIN s.prm : s.prm[p].s = f)
    IN IF fs = {} THEN v = 0
       ELSE \/ /\ \E f \in fs : \E x \in DOMAIN s.tk : s.tk[x].par = f
               /\ AllOver(s, a) => v <= Cardinality({f \in fs : held(f)})
            \/ v = Cardinality({f \in fs : ~s.fut[f].out /\ held(f)})

EffVlive(s, a, c) == IF G({"obj"}, Touched(s, a) \/ LiveOK(s, a, c.w, c.R.v)) THEN {Done1(s, a)} ELSE {}

EffShutdown(s, a, c) ==
    IF s.ini # 1
    THEN (IF G({"shut"}, c.R.v = -1) THEN {SetTop([s EXCEPT !.ini = IF @ = 0 THEN 0 ELSE @ - 1], a,
                                           [Top(s, a) EXCEPT !.ph = 3, !.n = IF s.ini = 0 THEN 2 ELSE 0])} ELSE {})
    ELSE {[SetTop(s1, a, [Top(s1, a) EXCEPT !.f0 = {}, !.n = 1]) EXCEPT !.ini = 0, !.logs = IF @ = "yes" THEN "maybe" ELSE @] :
             s1 \in IF s.ag[a].loc = 0 THEN {Done1(s, a)} ELSE Unregister(Done1(s, a), a, a)}

LinOps == {"init", "reg", "regn", "unreg", "invoke", "dispatch", "nexit", "join", "tassign", "mkthread", "spawn", "list", "pend", "pname",
           "setv", "drop", "passign", "then", "async", "whenall", "whenany", "ulock", "uunlock", "cvwait",
           "cvwaitfor", "cvone", "cvall", "mlock", "mtry", "munlock", "pool", "sched", "jstop", "pstopall", "pdestroy", "jprio",
           "pcount", "pwaitall", "shutdown", "vlive"}

Effect(s, a) ==
    LET fr == Top(s, a)
        c == fr.c
    IN CASE c.o = "init" -> EffInit(s, a, c)
         [] c.o = "reg" -> EffReg(s, a, a, c.R.v, TRUE, c.nm)
         [] c.o = "regn" -> EffReg(s, a, s.hnd[c.x].a, c.R.v, FALSE, c.nm)
         [] c.o = "spawn" -> EffReg(s, a, c.x, c.R.v, FALSE, c.nm)
         [] c.o = "mkthread" -> EffReg(s, a, c.x, c.R.v, FALSE, c.nm)
         [] c.o = "unreg" -> EffUnreg(s, a)
         [] c.o = "invoke" -> EffInvoke(s, a, c)
         [] c.o = "dispatch" -> IF c.k = Own(s, a) /\ c.k # 0 THEN {} ELSE EffInvoke(s, a, c)
         [] c.o = "nexit" -> EffNexit(s, a, c)
         [] c.o \in {"join", "tassign"} -> EffJoin(s, a, s.hnd[c.x])
         [] c.o = "list" -> EffList(s, a, c)
         [] c.o = "pwaitall" -> EffPwaitall(s, a, c)
         [] c.o = "pend" -> EffPend(s, a, c)
         [] c.o = "pname" -> EffPname(s, a, c)
         [] c.o = "setv" -> EffSetv(s, a, c)
         [] c.o = "drop" -> EffDrop(s, a, c)
         [] c.o = "passign" -> EffPassign(s, a, c)
         [] c.o = "then" -> EffThen(s, a, c)
         [] c.o = "async" -> EffAsync(s, a, c)
         [] c.o = "whenall" -> EffWhen(s, a, c, "wall")
         [] c.o = "whenany" -> EffWhen(s, a, c, "wany")
         [] c.o = "ulock" -> EffUlock(s, a, c)
         [] c.o = "uunlock" -> EffUunlock(s, a, c)
         [] c.o \in CvOps -> EffCv(s, a, c)
         [] c.o = "cvall" -> EffCvAll(s, a, c)
         [] c.o = "cvone" -> EffCvOne(s, a, c)
         [] c.o = "mlock" -> EffMlock(s, a, c)
         [] c.o = "mtry" -> EffMtry(s, a, c)
         [] c.o = "munlock" -> EffMunlock(s, a, c)
         [] c.o = "pool" -> EffPool(s, a, c)
         [] c.o = "sched" -> EffSched(s, a, c)
         [] c.o = "jstop" -> EffJstop(s, a, c)
         [] c.o = "pstopall" -> EffPstopall(s, a, c)
         [] c.o = "pdestroy" -> EffPdestroy(s, a, c)
         [] c.o = "jprio" -> EffJprio(s, a, c)
         [] c.o = "pcount" -> EffPcount(s, a, c)
         [] c.o = "shutdown" -> EffShutdown(s, a, c)
         [] c.o = "vlive" -> EffVlive(s, a, c)
         [] OTHER -> {}

(* a call that never returns (the run ended inside it) has no result to check: its effect is optional
   and only taken when it needs none *)
NeedsResult == {"init", "reg", "regn", "spawn", "mkthread", "list", "pend", "pname", "pcount", "invoke", "mtry", "vlive"}
EffectEnabled(s, a) ==
    /\ Has(s, a) /\ Top(s, a).o \in LinOps /\ Top(s, a).ph = 0
    /\ (Top(s, a).c.ret \/ Top(s, a).o \notin NeedsResult)
    /\ Top(s, a).L = <<>> /\ Top(s, a).thr = ""
    /\ (Top(s, a).o = "mlock" => Top(s, a).c.ret)

----------------------------------------------------------------------------
(* Launching continuations and asynchronous tasks: agent a works through the list of its top frame *)

TargetAgents(s, a, x) ==
    IF s.tk[x].ta # -1 THEN {s.tk[x].ta}
    ELSE IF s.tk[x].k = 0 THEN (IF Stray(s, a) THEN {} ELSE {a}) ELSE AgentOf(s, s.tk[x].k)

(* the target of x is the launching thread itself *)
OnThread(s, a, x) == s.tk[x].ta = -1 /\ (s.tk[x].k = 0 \/ s.tk[x].k = Own(s, a))

RemoveL(s, a, x) == SetTop(s, a, [Top(s, a) EXCEPT !.L = RemoveAt1(@, x)])
Launchable(s, a) ==
    IF ~Has(s, a) \/ Top(s, a).L = <<>> THEN {}
    ELSE IF Top(s, a).any THEN Range(Top(s, a).L) ELSE {Head(Top(s, a).L)}

Launch(s, a, x) ==
    IF OnThread(s, a, x) /\ s.tk[x].pol # "a" /\ E({"policy"}) THEN {}    \* runs in place
    ELSE LET T == {b \in TargetAgents(s, a, x) : s.ag[b].id # 0}
             s1 == RemoveL(s, a, x)
         IN IF T # {} THEN {Tidy(y, a) : y \in Enqueue(s1, The(T), x)}
            \* nobody to give it to: dropped some time before the launching operation is over
            ELSE {SetTop(s1, a, [Top(s1, a) EXCEPT !.od = Append(@, x)])}

(* the result of a finished task is stored *)
CompleteEnabled(s, a) == Has(s, a) /\ Top(s, a).o = "post" /\ Top(s, a).ph = 0
Complete(s, a) ==
    LET fr == Top(s, a)
        s1 == SetTop(s, a, [fr EXCEPT !.ph = 1])
    IN Tidy(MakeReady(s1, a, s.tk[fr.i].fut, fr.z), a)

(* a named looping thread calls the hooks given to init, the one for its name and then the one for its start,
   before it does anything else *)
Hooked(s, a) == G({"name"}, (s.hooks = "yes" /\ s.ag[a].hm /\ s.ag[a].hn # "") => s.ag[a].hk = 2)
Hook(s, e) ==
    LET a == e.t IN
    IF a \notin DOMAIN s.ag THEN (IF E({"name"}) THEN {} ELSE {s})
    ELSE IF /\ G({"name"}, (s.hooks = "yes" \/ s.ag[a].hm) /\ s.ag[a].kind = "loop" /\ s.stk[a] = <<>> /\ e.z = s.ag[a].hn /\ e.z # "")
            /\ G({"name"}, s.ag[a].hk = (IF e.w = "name" THEN 0 ELSE 1))
            /\ G({"name", "ident"}, e.w = "start" => (e.k > 0 /\ e.k = s.ag[a].id))
         THEN {[s EXCEPT !.ag[a].hk = IF e.w = "name" THEN 1 ELSE 2]} ELSE {}

(* The log hooks given to init.  A call that is refused, because the thread is not registered or the target is no
   id, is reported to the error hook on the calling thread before it returns; calls of registered threads with a
   proper target are not.  The first init and the last shutdown report to the info hook. *)
NamesTarget == {"invoke", "dispatch", "notify", "config", "pend", "pname"}
NeedsThread == {"getid", "exitq", "depth", "process", "wait", "cvwait"}
NeedsThreadFor == {"processfor", "waitfor", "cvwaitfor", "sleep"}
BadTarget(fr) == fr.o \in NamesTarget /\ fr.c.k = 0
Reportable(s, a, fr) ==
    \/ BadTarget(fr)
    \/ fr.o \in {"shutdown", "unreg"} /\ fr.n = 2
    \/ Stray(s, a) /\ (fr.o \in NeedsThread \/ (fr.o \in NeedsThreadFor /\ fr.c.d > 0))
Log(s, e) ==
    LET a == e.t IN
    IF ~E({"log"}) THEN {s}
    ELSE IF a \notin DOMAIN s.ag THEN {}
    ELSE IF ~Has(s, a) \/ (s.logs = "no" /\ Top(s, a).lo = "no") THEN {}
    ELSE LET fr == Top(s, a) IN
         IF e.w = "err"
         THEN (IF Stray(s, a) \/ BadTarget(fr) \/ (fr.o = "shutdown" /\ fr.n = 2)
               THEN {SetTop(s, a, [fr EXCEPT !.le = 1])} ELSE {})
         ELSE (IF fr.o \in {"init", "shutdown"} /\ fr.n = 1 THEN {SetTop(s, a, [fr EXCEPT !.li = 1])} ELSE {})
LoggedOK(s, a, fr) ==
    /\ (fr.lo = "yes" /\ s.logs = "yes" /\ Reportable(s, a, fr)) => fr.le = 1
    /\ (fr.o = "init" /\ fr.n = 1 /\ fr.c.h >= 2) => fr.li = 1
    /\ (fr.o = "shutdown" /\ fr.n = 1 /\ fr.lo = "yes") => fr.li = 1

(* library threads leave: looping threads once told to exit, one-shot threads after their one wait,
   threads started by the library when their function is over *)
LeaveEnabled(s, a) ==
    /\ s.ag[a].id # 0 /\ s.stk[a] = <<>> /\ Hooked(s, a)
    /\ \/ s.ag[a].kind \in {"loop", "work"} /\ s.ag[a].ex
       \/ s.ag[a].kind = "script" /\ s.ag[a].fin /\ ~s.ag[a].std
       \/ s.ag[a].kind = "one" /\ (s.ag[a].cnt > 0 \/ s.ag[a].ex \/ s.ag[a].nop > 0)
Leave(s, a) ==
    LET s1 == Push(s, a, [NewFrame("post", [l |-> 0]) EXCEPT !.ph = 1])
    IN {Tidy([s2 EXCEPT !.ag[a].fin = TRUE], a) : s2 \in Unregister(s1, a, a)}

(* when_all / when_any: the collecting future becomes ready on the thread that made the call *)
InputsSet(s, g) == {j \in 1..Len(s.fut[g].ins) : s.fut[s.fut[g].ins[j].s].set}
WhenReady(s, g) ==
    /\ s.wh[g] # -1 /\ ~s.fut[g].set
    /\ IF s.fut[g].org = "wall" THEN InputsSet(s, g) = 1..Len(s.fut[g].ins) ELSE InputsSet(s, g) # {}
WhenFire(s, g) ==
    LET a == s.wh[g]
        res == IF s.fut[g].org = "wall" THEN "v" \o ToString(Len(s.fut[g].ins)) ELSE "any"
        s1 == [s EXCEPT !.wh[g] = -1, !.fut[g].rdy = {j - 1 : j \in InputsSet(s, g)}]
        s2 == Push(s1, a, [NewFrame("post", [l |-> 0]) EXCEPT !.ph = 1])
    IN Tidy(MakeReady(s2, a, g, res), a)
(* the calling thread is gone: nobody collects any more.  What waits for the result is let go by that thread, or by one whose call completes the
   last input afterwards *)
WhenGone(s, g) == s.wh[g] # -1 /\ ~s.fut[g].set /\ s.ag[s.wh[g]].id = 0
WhenBreak(s, g) ==
    LET a == s.wh[g]
        s1 == [s EXCEPT !.wh[g] = -1]
        s2 == Push(s1, a, [NewFrame("post", [l |-> 0]) EXCEPT !.ph = 1])
    IN {Tidy(MakeReady(s2, a, g, "broken"), a)} \cup
       (IF s.fut[g].conts = <<>> THEN {}
        ELSE {MakeReady(s1, c, g, "broken") : c \in {x \in DOMAIN s.stk \ {a} : Has(s, x) /\ Top(s, x).o # "task"}})

(* a pool worker takes a job *)
Eligible(s, w, j) == s.ag[w].lmax <= s.jb[j].lv
(* workers that can only have a level <= m must not outnumber the workers configured for those levels *)
Feasible(s, p) ==
    \A m \in 0..2 :
        Cardinality({b \in DOMAIN s.ag : s.ag[b].kind = "work" /\ s.ag[b].pool = p /\ s.ag[b].lmax <= m})
          <= FoldLeft(LAMBDA x, y : x + y, 0, SubSeq(s.pl[p].w, 1, m + 1))
(* highest configured level <= m *)
LevelAt(w, m) == IF m >= 2 /\ w[3] > 0 THEN 2 ELSE IF m >= 1 /\ w[2] > 0 THEN 1 ELSE IF w[1] > 0 THEN 0 ELSE -1
Pick(s, j) ==
    LET job == s.jb[j]
        w == job.by
        p == job.pool
        lm == LevelAt(s.pl[p].w, IF job.lv < s.ag[w].lmax THEN job.lv ELSE s.ag[w].lmax)
        s1 == [s EXCEPT !.ag[w].lmax = lm, !.jb[j].st = "pick"]
    IN IF job.st # "pend" \/ w \notin DOMAIN s.ag \/ ~s.pl[p].alive THEN {}
       ELSE IF s.ag[w].id = 0 \/ ~CanPump(s, w) THEN {}
       ELSE IF \E i \in DOMAIN s.jb : s.jb[i].st = "pick" /\ s.jb[i].by = w THEN {}   \* one at a time
       ELSE IF ~G({"prio"}, lm >= 0 /\ Feasible(s1, p)) THEN {}
       ELSE IF ~G({"prio"}, \A i \in PendingOf(s, p) \ {j} :
                     s1.ag[w].lmax <= s.jb[i].lv => ~Lex(s.jb[i].lv, s.jb[i].pr, job.hlv, job.hpr)) THEN {}
       ELSE {s1}

(* shutdown: tell everybody who is registered (f0, once kick is set) to exit, then wait until nobody is registered *)
ShutEnabled(s, a) == Has(s, a) /\ Top(s, a).o = "shutdown" /\ Top(s, a).ph = 1 /\ Top(s, a).L = <<>>
ShutList(s, a) == IF Top(s, a).kick THEN {} ELSE {SetTop(s, a, [Top(s, a) EXCEPT !.kick = TRUE, !.f0 = Live(s)])}
ShutNotify(s, a, b) ==
    [SetTop(s, a, [Top(s, a) EXCEPT !.f0 = @ \ {b}]) EXCEPT !.ag[b].ex = (s.ag[b].id # 0) \/ @]
ShutDone(s, a) ==
    LET fr == Top(s, a) IN
    IF ~fr.kick \/ fr.f0 # {} \/ ~fr.c.ret THEN {}
    ELSE IF G({"shut"}, fr.c.R.v = Cardinality(Live(s))) 
         THEN {[SetTop(s, a, [fr EXCEPT !.ph = 3]) EXCEPT !.hooks = IF @ = "no" THEN @ ELSE "was"]} ELSE {}

(* a timed wait whose time is over (or a waiter told to exit) stops being a waiter *)
CvLeaveEnabled(s, a, n) ==
    /\ Has(s, a) /\ Top(s, a).o \in CvOps /\ Top(s, a).ph = 1 /\ ~Top(s, a).nt
    /\ (Top(s, a).o = "cvwaitfor" /\ Elapsed(Top(s, a), n)) \/ ExitMay(s, a)
CvLeave(s, a) == SetTop(s, a, [Top(s, a) EXCEPT !.ph = 2])

----------------------------------------------------------------------------
(* Task begin *)

Learn(s, a, k) == \* the id of an anonymous library thread becomes known
    IF s.ag[a].id = -1 \/ s.ag[a].loc = -1
    THEN [s EXCEPT !.ag[a].id = IF @ = -1 THEN k ELSE @, !.ag[a].loc = k, !.used = @ \cup {k}]
    ELSE [s EXCEPT !.ag[a].loc = IF @ = 0 THEN s.ag[a].id ELSE @]
IdOK(s, a, k) ==
    IF Stray(s, a) THEN G({"ident", "stray"}, k = 0)
    ELSE IF s.ag[a].id = -1 THEN G({"ident", "policy", "job"}, k > 0 /\ k \notin s.used)
    ELSE G({"ident", "once", "policy", "cont"}, k = (IF s.ag[a].loc > 0 THEN s.ag[a].loc ELSE s.ag[a].id))

BeginFrame(s, a, x, qd) ==
    Push(s, a, [NewFrame("task", [l |-> 0]) EXCEPT !.i = x, !.qd = qd])

ParentOK(s, e) ==
    LET p == s.tk[e.i].par IN
    p = -1 \/ G({"cont"} \cup OrgTags(s, p), ResOK(s, p, e.z))
AfterPeek(s, e) ==
    LET p == s.tk[e.i].par IN IF p = -1 THEN s ELSE GiveBack(s, p)

BeginInline(s, e) ==
    LET a == e.t IN
    IF e.i \in Launchable(s, a) /\ G(TaskTags(s, e.i) \cup {"policy"}, OnThread(s, a, e.i))
       /\ G({"policy"}, s.tk[e.i].pol # "a") /\ IdOK(s, a, e.k) /\ ParentOK(s, e)
    THEN {LET s1 == [RemoveL(s, a, e.i) EXCEPT !.tk[e.i].st = "run"]
          IN AfterPeek(BeginFrame(s1, a, e.i, FALSE), e)}
    ELSE {}

BeginDispatch(s, e) ==
    LET a == e.t IN
    IF Has(s, a) /\ Top(s, a).o = "dispatch" /\ Top(s, a).ph = 0 /\ Top(s, a).c.i = e.i /\ Top(s, a).c.k = Own(s, a) /\ Own(s, a) # 0
    THEN {LET s1 == SetTop([s EXCEPT !.tk = Upd(@, e.i, [NewTask EXCEPT !.st = "run", !.as = Top(s, a).c.as])], a,
                           [Top(s, a) EXCEPT !.ph = 2])
          IN BeginFrame(s1, a, e.i, FALSE)}
    ELSE {}

BeginQueued(s, e) ==
    LET a == e.t
        x == e.i
        q == s.ag[a].q
    IN IF /\ x \in DOMAIN s.tk /\ s.tk[x].st = "queued" /\ InSeq(q, x)
          /\ G({"fifo"}, Head(q) = x)
          /\ CanPump(s, a) /\ Hooked(s, a) /\ G({"once"} \cup StrayTag(s, a), ~Stray(s, a))
          /\ (Has(s, a) /\ Top(s, a).o = "processfor"
                \* its last look at the clock was after the previous task ended
                => G({"time", "proc"}, s.ag[a].lt <= Top(s, a).c.n + Top(s, a).c.d + TolUp + s.ag[a].ltl - Top(s, a).c.lg
                                   \/ s.ag[a].lt < Top(s, a).c.n)
                   /\ G({"time", "proc"}, Top(s, a).c.d > 0))
          /\ IdOK(s, a, e.k) /\ ParentOK(s, e)
       THEN {LET s1 == [Learn(s, a, e.k) EXCEPT !.ag[a].q = RemoveAt1(q, x), !.tk[x].st = "run", !.ag[a].cnt = @ + 1]
                 s2 == IF Has(s, a) THEN SetTop(s1, a, [Top(s1, a) EXCEPT !.n = @ + 1]) ELSE s1
             IN AfterPeek(BeginFrame(s2, a, x, TRUE), e)}
       ELSE {}

BeginJob(s, e) ==
    LET a == e.t
        J == {j \in DOMAIN s.jb : s.jb[j].i = e.i /\ s.jb[j].st = "pick" /\ s.jb[j].by = a}
    IN IF J # {} /\ CanPump(s, a) /\ IdOK(s, a, e.k)
       THEN {LET s1 == [Learn(s, a, e.k) EXCEPT !.jb[The(J)].st = "run", !.tk[e.i].st = "run"]
                 s2 == IF Has(s, a) THEN SetTop(s1, a, [Top(s1, a) EXCEPT !.n = @ + 1]) ELSE s1
             IN BeginFrame(s2, a, e.i, FALSE)}
       ELSE {}

(* the function object of a task is destroyed, once, after the task ran or was dropped, by whoever comes to do it *)
Over(s, x) == x \in DOMAIN s.tk /\ s.tk[x].st \in {"done", "dropped"}
BeginDtor(s, e) ==
    LET a == e.t
        s1 == IF a \in DOMAIN s.ag THEN s
              ELSE [s EXCEPT !.ag = Upd(@, a, NewAgent("work")), !.stk = Upd(@, a, <<>>)]
    IN IF /\ G({"dtor"}, s.tk[e.i].st = "armed" /\ Over(s, s.tk[e.i].own))
          /\ s1.stk[a] = <<>> \/ Top(s1, a).o # "task"
       THEN {BeginFrame([s1 EXCEPT !.tk[e.i].st = "run"], a, e.i, FALSE)} ELSE {}
(* everything that is over has been destroyed, unless a thread is held up destroying a whole inbox *)
Destroying(s) == \E a \in DOMAIN s.stk : \E i \in 1..Len(s.stk[a]) : s.stk[a][i].i # -1 /\ s.tk[s.stk[a][i].i].kind = "dtor"
Destroyed(s) == G({"dtor"}, Destroying(s) \/ \A y \in DOMAIN s.tk : s.tk[y].st = "armed" => ~Over(s, s.tk[y].own))

Begin(s0, e) ==
    IF e.i \in DOMAIN s0.tk /\ s0.tk[e.i].kind = "dtor" THEN BeginDtor(s0, e)
    ELSE
    LET s == IF e.t \in DOMAIN s0.ag THEN [s0 EXCEPT !.ag[e.t].tail = FALSE] ELSE s0
        R == IF e.t \notin DOMAIN s.ag THEN {}
             ELSE BeginInline(s, e) \cup BeginDispatch(s, e) \cup BeginQueued(s, e) \cup BeginJob(s, e)
        \* the callable got the arguments that were passed
        Intact == e.i \notin DOMAIN s.tk \/ G({"args"}, e.as = s.tk[e.i].as)
        \* it could be begun if other things were right
        Startable == \/ e.i \in Launchable(s, e.t)
                     \/ InSeq(s.ag[e.t].q, e.i) /\ CanPump(s, e.t)
                     \/ Has(s, e.t) /\ Top(s, e.t).o = "dispatch" /\ Top(s, e.t).c.i = e.i
    IN IF ~(\A x \in R : G({"args"}, e.as = x.tk[e.i].as)) THEN {}
       ELSE IF R # {} \/ E(TaskTags(s, e.i)) \/ ~Intact \/ (e.t \in DOMAIN s.ag /\ Startable) THEN R
       ELSE \* the aspect is not enforced: follow the run anyway
            LET s1 == IF e.t \in DOMAIN s.ag THEN s
                      ELSE [s EXCEPT !.ag = Upd(@, e.t, [NewAgent("work") EXCEPT !.id = -1]), !.stk = Upd(@, e.t, <<>>)]
            IN {BeginFrame([s1 EXCEPT !.tk = IF e.i \in DOMAIN @ THEN @ ELSE Upd(@, e.i, NewTask)], e.t, e.i, FALSE)}

(* Task end: promise-bearing tasks are followed by a post frame, an exception of a plain task travels to
   the call that ran it *)
End(s, e) ==
    LET a == e.t IN
    IF ~Has(s, a) \/ Top(s, a).o # "task" \/ Top(s, a).i # e.i THEN {}
    ELSE LET fr == Top(s, a)
             s1 == [s EXCEPT !.stk[a] = Front(@), !.tk[e.i].st = "done", !.ag[a].tail = fr.qd, !.ag[a].lt = e.n, !.ag[a].ltl = e.lg,
                             !.jb = [j \in DOMAIN s.jb |-> IF s.jb[j].i = e.i THEN [s.jb[j] EXCEPT !.st = "fin"] ELSE s.jb[j]]]
         IN IF s.tk[e.i].fut # -1
            THEN {Push(s1, a, [NewFrame("post", [l |-> 0]) EXCEPT !.i = e.i, !.qd = fr.qd,
                                            !.z = IF s.tk[e.i].vk = "V" /\ e.x = 0 THEN "v0" ELSE e.z])}
            ELSE IF e.x = 1 /\ Has(s1, a) THEN {SetTop(s1, a, [Top(s1, a) EXCEPT !.thr = e.z])}
            ELSE {s1}

----------------------------------------------------------------------------
(* Returns *)

At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE {}

FutTags(s, f) == {"fwake", "oneshot"} \cup (IF f = -1 THEN {} ELSE OrgTags(s, f))

WakeOK(s, a, fr) == fr.n > 0 \/ ExitMay(s, a) \/ s.ag[a].nop > 0 \/ s.ag[a].dirty
EatNop(s, a, fr) ==
    IF fr.n = 0 /\ ~ExitMay(s, a) /\ s.ag[a].nop > 0 THEN [s EXCEPT !.ag[a].nop = @ - 1] ELSE s

(* did the result arrive (call that stored it returned) well before the deadline? *)
SetBefore(s, f, deadline) == s.fut[f].rt >= 0 /\ s.fut[f].rt < deadline - TolLow - 1

RetWait(s, a, fr, e) ==
    IF G({"wake"}, WakeOK(s, a, fr)) THEN {Pop(EatNop(s, a, fr), a)} ELSE {}
RetWaitfor(s, a, fr, e) ==
    IF e.v = 1
    THEN (IF G({"time"}, Elapsed(fr, e.n)) /\ G(StrayTag(s, a), ~Stray(s, a)) THEN {Pop(s, a)} ELSE {})
    ELSE (IF fr.c.d <= 0 \/ G({"time", "wake"}, WakeOK(s, a, fr)) THEN {Pop(EatNop(s, a, fr), a)} ELSE {})
RetSleep(s, a, fr, e) ==
    IF G({"time"}, Elapsed(fr, e.n) \/ ExitMay(s, a)) THEN {Pop(s, a)} ELSE {}
RetProcess(s, a, fr, e) ==
    IF G({"once", "serve", "proc"}, ExitMay(s, a) \/ Own(s, a) = 0 \/ fr.f0 \cap Range(s.ag[a].q) = {}) THEN {Pop(s, a)} ELSE {}
RetProcessfor(s, a, fr, e) ==
    IF G({"proc"}, ExitMay(s, a) \/ Own(s, a) = 0 \/ Elapsed(fr, e.n) \/ fr.f0 \cap Range(s.ag[a].q) = {})
    THEN {Pop(s, a)} ELSE {}

RetFwait(s, a, fr, e) ==
    LET f == St(s, fr.c.f) IN
    IF f = -1 THEN (IF G({"oneshot", "obj"} \cup VarTags(s, fr.c.f), e.z = "nostate") THEN {Pop(s, a)} ELSE {})
    ELSE IF G({"oneshot", "obj"} \cup OrgTags(s, f) \cup VarTags(s, fr.c.f), e.z = "" /\ (s.fut[f].set \/ ExitMay(s, a))) THEN {Pop(s, a)} ELSE {}
RetFwaitfor(s, a, fr, e) ==
    LET f == St(s, fr.c.f) IN
    IF f = -1 THEN (IF G({"oneshot", "obj"} \cup VarTags(s, fr.c.f), e.z = "nostate") THEN {Pop(s, a)} ELSE {})
    ELSE IF /\ G({"oneshot", "obj"} \cup OrgTags(s, f) \cup VarTags(s, fr.c.f), e.z = "ready" => s.fut[f].set)
            /\ G({"time"}, e.z = "timeout" => (Elapsed(fr, e.n) /\ ~fr.f0 /\ ~SetBefore(s, f, fr.c.n + fr.c.d)))
            /\ G(StrayTag(s, a), e.z # "timeout")
            /\ G({"exit", "time"} \cup StrayTag(s, a), e.z = "deferred" => (ExitMay(s, a) /\ ~fr.f0))
            /\ G({"oneshot", "obj"} \cup OrgTags(s, f) \cup VarTags(s, fr.c.f), e.z \in {"ready", "timeout", "deferred"})
         THEN {Pop(s, a)} ELSE {}
RetGet(s, a, fr, e) ==
    LET f == St(s, fr.c.f)
        s1 == IF s.ref[fr.c.f].sh THEN s ELSE [s EXCEPT !.ref[fr.c.f].s = -1, !.fut = IF f = -1 THEN @ ELSE [@ EXCEPT ![f].out = @ \/ e.z # "broken"]]
    IN IF f = -1 THEN (IF G({"oneshot", "obj"} \cup VarTags(s, fr.c.f), e.z = "nostate") THEN {Pop(s, a)} ELSE {})
       ELSE IF G(FutTags(s, f) \cup VarTags(s, fr.c.f) \cup {"args", "obj"} \cup StrayTag(s, a),
                 ResOK(s, f, e.z) \/ (e.z = "broken" /\ ExitMay(s, a) /\ ~fr.f0))
            THEN {Pop(GiveBack(s1, f), a)} ELSE {}
RetReady(s, a, fr, e) ==
    LET f == St(s, fr.c.f) IN
    IF f = -1 THEN (IF G({"oneshot", "obj"} \cup VarTags(s, fr.c.f), e.z = "nostate") THEN {Pop(s, a)} ELSE {})
    ELSE IF G({"oneshot", "obj"} \cup OrgTags(s, f) \cup VarTags(s, fr.c.f), IF e.z = "1" THEN s.fut[f].set ELSE e.z = "0" /\ ~fr.f0) THEN {Pop(s, a)} ELSE {}
IsErr(res) == res = "broken" \/ (\E u \in 0..200 : res = "u" \o ToString(u))
RetErr(s, a, fr, e) ==
    LET f == St(s, fr.c.f) IN
    IF f = -1 THEN (IF G({"oneshot", "obj"} \cup VarTags(s, fr.c.f), e.z = "nostate") THEN {Pop(s, a)} ELSE {})
    ELSE IF G({"oneshot", "obj"} \cup OrgTags(s, f) \cup VarTags(s, fr.c.f),
              IF e.z = "1" THEN s.fut[f].set /\ IsErr(s.fut[f].res) ELSE e.z = "0" /\ (~fr.f0 \/ ~IsErr(s.fut[f].res)))
         THEN {Pop(s, a)} ELSE {}
RetSetv(s, a, fr, e) ==
    LET f == s.prm[fr.c.x].s
        want == IF f = -1 THEN "nostate" ELSE IF e.z = "" THEN "" ELSE "satisfied"
    IN IF /\ G({"oneshot", "obj"}, e.z = want)
          /\ G({"oneshot"}, e.z = "satisfied" => s.fut[f].set)
       THEN {Pop(IF f # -1 /\ e.z = "" THEN [s EXCEPT !.fut[f].rt = e.n] ELSE s, a)} ELSE {}
RetGetfut(s, a, fr, e) ==
    LET p == s.prm[fr.c.x] IN
    IF G({"oneshot", "obj"}, e.z = (IF p.s = -1 THEN "nostate" ELSE IF p.got THEN "retrieved" ELSE ""))
    THEN {Pop(IF e.z = "" /\ p.s # -1 THEN [s EXCEPT !.prm[fr.c.x].got = TRUE, !.ref = Upd(@, fr.c.f, [s |-> p.s, sh |-> FALSE])] ELSE s, a)}
    ELSE {}

RetCv(s, a, fr, e) ==
    LET to == fr.o = "cvwaitfor" /\ e.v = 1 IN
    IF /\ fr.ph \in {1, 2}
       /\ LockFree(s.um, fr.c.y)
       /\ G({"cv"} \cup StrayTag(s, a), e.h = 1)
       /\ G({"cv"}, fr.nt \/ ExitMay(s, a) \/ (fr.o = "cvwaitfor" /\ Elapsed(fr, e.n)))
       /\ G({"time"}, to => Elapsed(fr, e.n)) /\ G(StrayTag(s, a), to => fr.c.d <= 0)
       /\ G({"time", "cv"}, (fr.o = "cvwaitfor" /\ e.v = 0) => (fr.nt \/ ExitMay(s, a)))
    THEN {Pop([s EXCEPT !.um = Upd(@, fr.c.y, IF e.h = 1 THEN a ELSE -1)], a)} ELSE {}

JobOver(s, j) == s.jb[j].st \in {"fin", "stop"}
RetPwait(s, a, fr, e) ==
    IF G({"pwait"}, ExitMay(s, a) \/ JobOver(s, fr.c.j)) THEN {Pop(s, a)} ELSE {}
RetPwaitall(s, a, fr, e) ==
    IF fr.ph = 1 /\ G({"pwait"}, ExitMay(s, a) \/ \A j \in fr.f0 : JobOver(s, j)) THEN {Pop(s, a)} ELSE {}
RetPdestroy(s, a, fr, e) ==
    IF /\ fr.ph = 1
       /\ G({"pwait", "job"}, \A j \in DOMAIN s.jb : s.jb[j].pool = fr.c.x => JobOver(s, j))
       /\ \A b \in DOMAIN s.ag : (s.ag[b].kind = "work" /\ s.ag[b].pool = fr.c.x) => s.stk[b] = <<>>
    THEN {Pop([s EXCEPT !.ag = [b \in DOMAIN s.ag |->
              IF s.ag[b].kind = "work" /\ s.ag[b].pool = fr.c.x THEN [s.ag[b] EXCEPT !.id = 0, !.fin = TRUE] ELSE s.ag[b]]], a)}
    ELSE {}

Ended(s, b) == s.ag[b].fin
(* joining: the thread is over, and so is its registration *)
RetJoin(s, a, fr, e) ==
    LET b == s.hnd[fr.c.x].a IN
    IF b = -1 THEN {Pop(s, a)}                 \* it stood for no thread
    ELSE IF /\ fr.ph = 1 /\ G({"exit", "ident", "handle"}, Ended(s, b))
            /\ s.hnd[fr.c.x].std \/ s.ag[b].id = 0
         THEN {Pop([s EXCEPT !.hnd[fr.c.x].a = -1], a)} ELSE {}
RetTassign(s, a, fr, e) ==
    LET x == fr.c.x
        y == fr.c.y
        b == s.hnd[x].a
    IN IF /\ fr.ph = 1 /\ G({"exit", "handle"}, b = -1 \/ Ended(s, b))
          /\ b = -1 \/ s.ag[b].id = 0
          /\ G({"ident", "handle"}, s.hnd[y].a = -1 \/ e.v = s.hnd[y].id)
       THEN {Pop([s EXCEPT !.hnd[x] = s.hnd[y], !.hnd[y] = [s.hnd[x] EXCEPT !.a = -1]], a)} ELSE {}
Stands(h, v) == h.a = -1 \/ v = h.id          \* the id an object shows is that of its thread
RetTswap(s, a, fr, e) ==
    IF G({"handle"}, Stands(s.hnd[fr.c.y], e.v) /\ Stands(s.hnd[fr.c.x], e.w))
    THEN {Pop([s EXCEPT !.hnd[fr.c.x] = s.hnd[fr.c.y], !.hnd[fr.c.y] = s.hnd[fr.c.x]], a)} ELSE {}
NoThread == [a |-> -1, std |-> FALSE, id |-> 0]
RetTmove(s, a, fr, e) ==
    IF G({"handle"}, Stands(s.hnd[fr.c.y], e.v))
    THEN {Pop([s EXCEPT !.hnd = Upd([@ EXCEPT ![fr.c.y] = NoThread], fr.c.x, s.hnd[fr.c.y])], a)} ELSE {}
RetHid(s, a, fr, e) ==
    LET h == s.hnd[fr.c.x] IN
    IF G({"handle"}, Stands(h, e.v) /\ e.z = (IF h.a = -1 THEN "0" ELSE "1")) THEN {Pop(s, a)} ELSE {}

RetDispatch(s, a, fr, e) ==
    IF fr.c.k = Own(s, a) /\ fr.c.k # 0
    THEN (IF G({"once"}, fr.ph = 2 /\ (e.v = 1 \/ fr.thr # "")) THEN {Pop(s, a)} ELSE {})
    ELSE (IF fr.ph = 1 THEN {Pop(s, a)} ELSE {})
RetNotify(s, a, fr, e) ==
    IF fr.f0 = -1 \/ ~IsLive(s, fr.c.k) THEN {Pop(s, a)}
    ELSE LET b == The(AgentOf(s, fr.c.k)) IN
         IF b # a /\ Has(s, b) /\ Top(s, b).o = "wait" /\ Top(s, b).c.l = fr.f0
         THEN {Pop(SetTop(s, b, [Top(s, b) EXCEPT !.kick = TRUE]), a)} ELSE {Pop(s, a)}

Depth(s, a) == RunningQueued(s, a)
RetDepth(s, a, fr, e) ==
    IF G({"intro"} \cup StrayTag(s, a), IF Stray(s, a) THEN e.v = 0 ELSE IF s.ag[a].dirty \/ s.ag[a].kind = "work" THEN e.v >= Depth(s, a)
                                                       ELSE e.v \in Depth(s, a)..(Depth(s, a) + Destructing(s, a)))
    THEN {Pop(s, a)} ELSE {}

ArgOps == {"invoke", "dispatch", "async", "then", "sched"}
(* every task is over and nobody is left who could still hold one: the arguments are gone too *)
(* the frame has nothing left to do before it can return *)
Return(s, e) ==
    LET a == e.t IN
    IF ~Has(s, a) \/ Top(s, a).o # e.o \/ Top(s, a).L # <<>> \/ Top(s, a).od # <<>> THEN {}
    ELSE
    LET fr == Top(s, a) IN
    IF fr.thr # ""
    THEN \* a task threw: the exception comes out of the call that ran it
         (IF ~G({"intro", "once"}, e.z = fr.thr) THEN {}
          ELSE IF fr.o \in CvOps
               THEN (IF LockFree(s.um, fr.c.y) /\ G({"cv"}, e.h = 1)
                     THEN {Pop([s EXCEPT !.um = Upd(@, fr.c.y, IF e.h = 1 THEN a ELSE -1)], a)} ELSE {})
               ELSE {Pop(s, a)})
    ELSE IF e.z = "escaped" THEN {}                                      \* an exception nobody is entitled to throw
    ELSE IF ~G({"log"}, LoggedOK(s, a, fr)) THEN {}
    ELSE IF e.o \in ArgOps /\ ~G({"args"}, e.ca = fr.c.cx) THEN {}       \* the caller's own objects are intact
    ELSE
    CASE e.o = "init" -> IF fr.ph = 1 /\ G({"ident"}, e.v = s.ag[a].id)
                         THEN {Pop([s EXCEPT !.logs = IF fr.n = 1 /\ @ = "maybe" THEN "yes" ELSE @], a)} ELSE {}
      [] e.o = "reg" -> IF fr.ph = 1 /\ G({"ident"}, e.v = s.ag[a].id) THEN {Pop(s, a)} ELSE {}
      [] e.o = "config" -> \* an id that once was live is not given to another thread
            IF G({"once"} \cup StrayTag(s, a), IF e.v = 1 THEN fr.f0 ELSE ~IsLive(s, fr.c.k)) THEN {Pop(s, a)} ELSE {}
      [] e.o \in {"spawn", "mkthread"} -> IF fr.ph = 1 THEN {Pop([s EXCEPT !.hnd[fr.c.x].id = e.v], a)} ELSE {}
      [] e.o = "unreg" -> IF fr.ph = 1 THEN {Pop(s, a)} ELSE {}
      [] e.o \in {"regn", "invoke", "nexit", "list", "pend", "pname", "drop", "passign",
                  "whenall", "whenany", "ulock", "uunlock", "cvone", "cvall", "mtry", "pool", "sched",
                  "jstop", "pstopall", "jprio", "pcount", "vlive"} -> IF fr.ph = 1 THEN {Pop(s, a)} ELSE {}
      [] e.o \in {"then", "async"} ->
            IF fr.ph = 1 /\ G({"oneshot", "cont", "policy", "obj"}, e.z = (IF e.o = "then" /\ fr.f0 THEN "nostate" ELSE "")) THEN {Pop(s, a)} ELSE {}
      [] e.o = "shutdown" ->
            IF fr.ph = 3 /\ G({"shut"}, (e.v > 0) => Elapsed(fr, e.n))
            THEN {Pop([s EXCEPT !.ag[a].loc = IF s.ag[a].id = 0 THEN 0 ELSE @, !.logs = IF fr.n = 1 THEN "no" ELSE @], a)} ELSE {}
      [] e.o = "dispatch" -> RetDispatch(s, a, fr, e)
      [] e.o = "notify" -> RetNotify(s, a, fr, e)
      [] e.o = "getid" -> IF G({"ident"} \cup StrayTag(s, a), e.v = Own(s, a)) THEN {Pop(s, a)} ELSE {}
      [] e.o = "isreg" -> IF G({"ident"} \cup StrayTag(s, a), e.v = (IF Own(s, a) = 0 THEN 0 ELSE 1)) THEN {Pop(s, a)} ELSE {}
      [] e.o = "mainid" -> IF G({"ident", "shut"}, e.v = s.main) THEN {Pop(s, a)} ELSE {}
      [] e.o = "exitq" ->
            IF G({"exit"} \cup (IF s.ini = 0 THEN {"shut"} ELSE {}) \cup StrayTag(s, a), IF e.v = 1 THEN ExitMay(s, a) ELSE ~fr.f0) THEN {Pop(s, a)} ELSE {}
      [] e.o = "depth" -> RetDepth(s, a, fr, e)
      [] e.o \in {"process"} -> RetProcess(s, a, fr, e)
      [] e.o = "processfor" -> RetProcessfor(s, a, fr, e)
      [] e.o = "wait" -> RetWait(s, a, fr, e)
      [] e.o = "waitfor" -> RetWaitfor(s, a, fr, e)
      [] e.o = "sleep" -> RetSleep(s, a, fr, e)
      [] e.o = "join" -> RetJoin(s, a, fr, e)
      [] e.o = "tassign" -> RetTassign(s, a, fr, e)
      [] e.o = "tswap" -> RetTswap(s, a, fr, e)
      [] e.o = "tmove" -> RetTmove(s, a, fr, e)
      [] e.o = "tnull" -> {Pop([s EXCEPT !.hnd = Upd(@, fr.c.x, NoThread)], a)}
      [] e.o = "hid" -> RetHid(s, a, fr, e)
      [] e.o = "detach" -> {Pop([s EXCEPT !.hnd[fr.c.x].a = -1], a)}
      [] e.o = "fwait" -> RetFwait(s, a, fr, e)
      [] e.o = "fwaitfor" -> RetFwaitfor(s, a, fr, e)
      [] e.o = "get" -> RetGet(s, a, fr, e)
      [] e.o = "ready" -> RetReady(s, a, fr, e)
      [] e.o = "err" -> RetErr(s, a, fr, e)
      [] e.o = "valid" ->
            IF G({"oneshot", "cont", "obj"} \cup VarTags(s, fr.c.f), e.z = (IF St(s, fr.c.f) = -1 THEN "0" ELSE "1")) THEN {Pop(s, a)} ELSE {}
      [] e.o = "setv" -> IF fr.ph = 1 THEN RetSetv(s, a, fr, e) ELSE {}
      [] e.o = "getfut" -> RetGetfut(s, a, fr, e)
      [] e.o \in {"share", "copy"} ->
            {Pop([s EXCEPT !.ref = Upd(IF e.o = "share" THEN [@ EXCEPT ![fr.c.f].s = -1] ELSE @,
                                       fr.c.g, [s |-> s.ref[fr.c.f].s, sh |-> TRUE])], a)}
      [] e.o = "fnull" -> {Pop([s EXCEPT !.ref = Upd(@, fr.c.g, [s |-> -1, sh |-> fr.c.sh = 1])], a)}
      [] e.o = "fmove" -> {Pop([s EXCEPT !.ref = [Upd(@, fr.c.g, @[fr.c.f]) EXCEPT ![fr.c.f].s = -1]], a)}
      [] e.o = "fswap" -> {Pop([s EXCEPT !.ref = [@ EXCEPT ![fr.c.f] = s.ref[fr.c.g], ![fr.c.g] = s.ref[fr.c.f]]], a)}
      [] e.o = "pswap" -> {Pop([s EXCEPT !.prm = [@ EXCEPT ![fr.c.x] = s.prm[fr.c.y], ![fr.c.y] = s.prm[fr.c.x]]], a)}
      [] e.o = "fdrop" -> {Pop([s EXCEPT !.ref[fr.c.f].s = -1], a)}
      [] e.o = "mkready" ->
            {Pop([s EXCEPT !.fut = Upd(@, fr.c.g, [NewFut("ready") EXCEPT !.set = TRUE, !.res = fr.c.w, !.rt = e.n]),
                           !.ref = Upd(@, fr.c.g, [s |-> fr.c.g, sh |-> FALSE])], a)}
      [] e.o \in CvOps -> RetCv(s, a, fr, e)
      [] e.o = "mlock" ->
            IF /\ fr.ph = 1
               /\ G({"mtx"}, IF fr.f0 THEN e.z = "deadlk" ELSE e.z = "" \/ (e.z = "deadlk" /\ ~LockFree(s.mx, fr.c.x) /\ s.mx[fr.c.x] = a))
            THEN {Pop(s, a)} ELSE {}
      [] e.o = "munlock" ->
            IF fr.ph = 1 /\ G({"mtx"}, e.z = (IF fr.f0 THEN "" ELSE "nolock")) THEN {Pop(s, a)} ELSE {}
      [] e.o = "pwait" -> RetPwait(s, a, fr, e)
      [] e.o = "pwaitall" -> RetPwaitall(s, a, fr, e)
      [] e.o = "pdestroy" -> RetPdestroy(s, a, fr, e)
      [] e.o = "see" -> IF G({"sync"}, fr.c.x \in At(s.kn, a) => e.v = 1) THEN {Pop(s, a)} ELSE {}
      [] e.o = "census" -> IF G({"args"}, e.z = "" /\ (AllOver(s, a) => e.v = 0)) THEN {Pop(s, a)} ELSE {}
      [] OTHER -> {Pop(s, a)}

----------------------------------------------------------------------------
(* Scripts *)
ScriptStart(s, e) == IF e.t \in DOMAIN s.stk THEN {s} ELSE {}
ScriptEnd(s, e) == IF s.stk[e.t] = <<>> THEN {[s EXCEPT !.ag[e.t].fin = TRUE]} ELSE {}

----------------------------------------------------------------------------
(* Quiet: no thread can run.  Every thread must be blocked for a reason the specification accepts. *)

ServeTags(s, a) == {"serve"} \cup UNION {TaskTags(s, s.ag[a].q[i]) : i \in 1..Len(s.ag[a].q)}
Served(s, a) == G(ServeTags(s, a), s.ag[a].q = <<>>)
NotExiting(s, a) == G({"exit"} \cup StrayTag(s, a), ~ExitSeen(s, a))
(* told to exit, and nothing holds it that may *)
Idle(s, b) == /\ s.ag[b].ex /\ s.ag[b].id # 0
              /\ IF s.stk[b] = <<>> THEN s.ag[b].kind = "loop" ELSE Top(s, b).o \in PumpOps \ ({"mlock"} \cup CvOps)
(* dl: -1 at quiescence, otherwise the time the clock jumps to *)
(* lg: pairs <<agent, time it was kept from running by the scheduler>>: a delay that is not the library's *)
LagOf(lg, a) == FoldLeft(LAMBDA x, p : IF p[1] = a THEN p[2] ELSE x, 0, lg)
Overdue(fr, a, dl, lg) == dl < 0 \/ dl > fr.c.n + fr.c.d + TolUp + LagOf(lg, a) - fr.c.lg

(* "free": a call that does not wait is never held up, whatever the functions of the program do meanwhile.  Nothing
   excuses it, so that it is no matter of what is enforced: a deadlock there concerns every property. *)
HeldUpOK == FALSE

BlockedOK(s, a, dl, lg) ==
    LET fr == Top(s, a)
        InTime(tags) == G(tags, ~Overdue(fr, a, dl, lg))
    IN
    /\ fr.L = <<>> /\ fr.od = <<>>
    /\ CASE fr.thr # "" -> fr.o \in CvOps /\ ~LockFree(s.um, fr.c.y)
         [] fr.o = "wait" -> /\ Served(s, a) /\ NotExiting(s, a)
                              /\ G({"wake", "serve"}, fr.n = 0 /\ ~fr.kick)
         [] fr.o = "waitfor" -> Served(s, a) /\ NotExiting(s, a) /\ InTime({"time"}) /\ G({"serve", "time"}, fr.n = 0)
         [] fr.o = "sleep" -> Served(s, a) /\ NotExiting(s, a) /\ InTime({"time"})
         [] fr.o \in {"fwait", "get"} ->
              LET f == St(s, fr.c.f) IN
              /\ Served(s, a) /\ NotExiting(s, a)
              /\ G({"fwake"} \cup (IF f = -1 THEN {"obj"} ELSE OrgTags(s, f)), f # -1 /\ ~s.fut[f].set)
         [] fr.o = "fwaitfor" ->
              LET f == St(s, fr.c.f) IN
              /\ Served(s, a) /\ NotExiting(s, a) /\ InTime({"time"})
              /\ G({"fwake"} \cup (IF f = -1 THEN {"obj"} ELSE OrgTags(s, f)), f # -1 /\ ~s.fut[f].set)
         [] fr.o \in CvOps ->
              \/ fr.ph >= 1 /\ ~LockFree(s.um, fr.c.y)       \* must get the lock back first
              \/ /\ fr.ph = 1
                 /\ Served(s, a) /\ NotExiting(s, a) /\ G({"cv"}, ~fr.nt)
                 /\ (fr.o = "cvwaitfor" => InTime({"time"}))
         [] fr.o = "mlock" ->
              /\ (ExitSeen(s, a) \/ Served(s, a)) /\ G({"mtx"}, ~LockFree(s.mx, fr.c.x) /\ s.mx[fr.c.x] # a)
         [] fr.o = "ulock" -> fr.ph = 0 /\ ~LockFree(s.um, fr.c.x)
         [] fr.o = "pwait" -> Served(s, a) /\ NotExiting(s, a) /\ G({"pwait", "job"}, ~JobOver(s, fr.c.j))
         [] fr.o = "pwaitall" ->
              fr.ph = 1 /\ Served(s, a) /\ NotExiting(s, a) /\ G({"pwait", "job"}, \E j \in fr.f0 : ~JobOver(s, j))
         [] fr.o \in {"join", "tassign"} -> fr.ph = 1 /\ G({"exit", "handle"}, s.hnd[fr.c.x].a # -1 /\ ~Ended(s, s.hnd[fr.c.x].a))
                                              /\ G({"handle"}, ~Idle(s, s.hnd[fr.c.x].a))
         [] fr.o = "pdestroy" ->
              fr.ph = 1 /\ G({"pwait", "exit"}, \E b \in DOMAIN s.ag :
                  /\ s.ag[b].kind = "work" /\ s.ag[b].pool = fr.c.x /\ s.stk[b] # <<>>
                  /\ Top(s, b).o \notin (PumpOps \ ({"mlock"} \cup CvOps)))
         [] fr.o = "shutdown" ->
              fr.ph = 1 /\ G({"shut"}, fr.kick /\ fr.f0 = {} /\ Live(s) # {} /\ ~Overdue(fr, a, dl, lg))
         [] fr.o = "await" -> TRUE
         [] OTHER -> HeldUpOK

IdleOK(s, a) ==
    CASE s.ag[a].kind = "loop" -> s.ag[a].id = 0 \/ (Served(s, a) /\ Hooked(s, a) /\ G({"exit", "shut"}, ~s.ag[a].ex))
      [] s.ag[a].kind = "one" -> s.ag[a].id = 0 \/ (Served(s, a) /\ G({"policy", "cont"}, s.ag[a].cnt = 0) /\ G({"exit", "shut"}, ~s.ag[a].ex))
      [] s.ag[a].kind = "work" -> TRUE
      [] OTHER -> s.ag[a].fin /\ G({"ident", "shut"}, s.ag[a].std \/ s.ag[a].id = 0)

(* threads of the pool that are blocked where they cannot take jobs *)
Occupied(s, p) == {b \in DOMAIN s.ag : /\ s.ag[b].kind = "work" /\ s.ag[b].pool = p
                                       /\ s.ag[b].ex \/ (s.stk[b] # <<>> /\ ~CanPump(s, b))}
JobsOK(s) ==
    \A j \in DOMAIN s.jb :
        LET job == s.jb[j]
            can == FoldLeft(LAMBDA x, y : x + y, 0, SubSeq(s.pl[job.pool].w, 1, job.lv + 1))
        IN /\ G({"job", "pwait"} \cup (IF job.rp THEN {"prio"} ELSE {}),
                job.st = "pend" /\ s.pl[job.pool].alive => can <= Cardinality(Occupied(s, job.pool)))
           /\ G({"job", "pwait"}, job.st # "pick")

Pumping(s, a) == IF s.stk[a] = <<>> THEN s.ag[a].kind = "loop" /\ s.ag[a].id # 0 ELSE Top(s, a).o \in PumpOps
WhensOK(s) ==
    \A g \in DOMAIN s.wh :
        G({IF s.fut[g].org = "wall" THEN "wall" ELSE "wany"},
          WhenReady(s, g) => ~(Pumping(s, s.wh[g]) /\ s.ag[s.wh[g]].id # 0))

Quiet(s, e, dl) ==
    IF /\ \A a \in DOMAIN s.ag : IF s.stk[a] = <<>> THEN IdleOK(s, a) ELSE BlockedOK(s, a, dl, IF e.e = "k" THEN e.lg ELSE <<>>)
       /\ JobsOK(s) /\ WhensOK(s) /\ Destroyed(s)
    THEN {s} ELSE {}

----------------------------------------------------------------------------
(* Hidden steps, as a set of next states.  n: time of the next visible event. *)
Hidden(s, n) ==
    UNION {
      UNION {
        (IF EffectEnabled(s, a) THEN Effect(s, a) ELSE {}),
        UNION {Launch(s, a, x) : x \in Launchable(s, a)},
        (IF CompleteEnabled(s, a) THEN {Complete(s, a)} ELSE {}),
        (IF LeaveEnabled(s, a) THEN Leave(s, a) ELSE {}),
        (IF Has(s, a) /\ Top(s, a).od # <<>> THEN {DropOrphans(s, a)} ELSE {}),
        (IF ShutEnabled(s, a) THEN ShutList(s, a) \cup {ShutNotify(s, a, b) : b \in Top(s, a).f0} \cup ShutDone(s, a) ELSE {}),
        (IF CvLeaveEnabled(s, a, n) THEN {CvLeave(s, a)} ELSE {})
      } : a \in DOMAIN s.stk}
    \cup {WhenFire(s, g) : g \in {x \in DOMAIN s.wh : WhenReady(s, x)}}
    \cup UNION {WhenBreak(s, g) : g \in {x \in DOMAIN s.wh : WhenGone(s, x)}}
    \cup UNION {Pick(s, j) : j \in {x \in DOMAIN s.jb : s.jb[x].st = "pend"}}

----------------------------------------------------------------------------
(* What a thread has seen of the others.  Marks (put) stand for whatever else a thread has written; a thread that
   was handed something knows the marks the one that handed it over knew.  kn: of a thread; tkn: of a task handed
   over; ekn: when a task ended; fkn: when a result was stored; mkn: when a mutex was released. *)
Gain(f, x, k) == IF k \subseteq At(f, x) THEN f ELSE Upd(f, x, At(f, x) \cup k)
OfResult(s, f) ==
    At(s.fkn, f) \cup (IF s.fut[f].org # "wall" THEN {}
                       ELSE UNION {At(s.fkn, s.fut[f].ins[j].s) : j \in DOMAIN s.fut[f].ins})

KnowCall(s, s2, e, k) ==
    CASE e.o = "put" -> [s2 EXCEPT !.kn = Gain(@, e.t, {e.x})]
      [] e.o \in ArgOps -> [s2 EXCEPT !.tkn = Gain(@, e.i, k)]
      [] e.o = "setv" /\ e.ret /\ e.R.z = "" /\ s.prm[e.x].s # -1 -> [s2 EXCEPT !.fkn = Gain(@, s.prm[e.x].s, k)]
      [] e.o = "munlock" /\ e.x \in DOMAIN s.mx /\ s.mx[e.x] = e.t -> [s2 EXCEPT !.mkn = Gain(@, e.x, k)]
      [] e.o \in {"spawn", "sspawn"} -> [s2 EXCEPT !.kn = Gain(@, e.x, k)]
      [] OTHER -> s2

KnowReturn(s, s2, e) ==
    LET a == e.t
        fr == Top(s, a)
        f == IF e.o \in {"get", "fwait", "fwaitfor", "ready"} THEN St(s, fr.c.f) ELSE -1
        Learnt(k) == [s2 EXCEPT !.kn = Gain(@, a, k)]
    IN IF e.z = "escaped" \/ fr.thr # "" THEN s2
       ELSE IF f # -1
       THEN IF \/ e.o = "get" /\ e.z # "broken"
               \/ e.o = "fwait" /\ ~ExitMay(s, a)
               \/ e.o = "fwaitfor" /\ e.z = "ready"
               \/ e.o = "ready" /\ e.z = "1"
            THEN Learnt(OfResult(s, f)) ELSE s2
       ELSE CASE e.o = "mlock" /\ e.z = "" -> Learnt(At(s.mkn, fr.c.x))
              [] e.o = "mtry" /\ e.v = 1 -> Learnt(At(s.mkn, fr.c.x))
              [] e.o \in {"join", "tassign"} /\ s.hnd[fr.c.x].a # -1 -> Learnt(At(s.kn, s.hnd[fr.c.x].a))
              [] e.o = "pwait" /\ ~ExitMay(s, a) /\ fr.c.j \in DOMAIN s.jb -> Learnt(At(s.ekn, s.jb[fr.c.j].i))
              [] e.o = "pwaitall" /\ ~ExitMay(s, a) -> Learnt(UNION {At(s.ekn, s.jb[j].i) : j \in fr.f0})
              [] e.o = "pdestroy" ->
                    Learnt(UNION {At(s.kn, b) : b \in {x \in DOMAIN s.ag : s.ag[x].kind = "work" /\ s.ag[x].pool = fr.c.x}})
              [] OTHER -> s2

Know(s, s2, e) ==
    IF s.kn = <<>> /\ ~(e.e = "c" /\ e.o = "put") THEN s2
    ELSE CASE e.e = "c" -> KnowCall(s, s2, e, At(s.kn, e.t))
           [] e.e = "r" -> KnowReturn(s, s2, e)
           [] e.e = "b" ->
                 LET p == IF e.i \in DOMAIN s.tk THEN s.tk[e.i].par ELSE -1
                 IN [s2 EXCEPT !.kn = Gain(@, e.t, At(s.tkn, e.i) \cup (IF p = -1 THEN {} ELSE OfResult(s, p)))]
           [] e.e = "f" ->
                 LET k == At(s.kn, e.t)
                     f == s.tk[e.i].fut
                 IN [s2 EXCEPT !.ekn = Gain(@, e.i, k), !.fkn = IF f = -1 THEN @ ELSE Gain(@, f, k)]
           [] OTHER -> s2

Step(s, e) ==
    CASE e.e = "c" -> Call(s, e)
      [] e.e = "r" -> Return(s, e)
      [] e.e = "b" -> Begin(s, e)
      [] e.e = "f" -> End(s, e)
      [] e.e = "h" -> Hook(s, e)
      [] e.e = "l" -> Log(s, e)
      [] e.e = "S" -> ScriptStart(s, e)
      [] e.e = "E" -> ScriptEnd(s, e)
      [] e.e = "k" -> Quiet(s, e, e.n)
      [] e.e \in {"stuck", "done", "live"} -> Quiet(s, e, -1)
      [] OTHER -> {}
Visible(s, e) == IF e.e = "race" THEN (IF E({"sync"}) THEN {} ELSE {s})
                 ELSE {Know(s, x, e) : x \in Step(s, e)}
=============================================================================
