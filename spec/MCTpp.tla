------------------------------- MODULE MCTpp -------------------------------
(***************************************************************************)
(* Closed model: the library of Tpp together with users that run a small   *)
(* fixed program (read as JSON).  TLC visits every behaviour the           *)
(* specification allows for the program and checks                         *)
(*   - theorems: the property statements, formulated on what the users     *)
(*     observed (hist and the other history variables) and not with the    *)
(*     guards of Tpp;                                                      *)
(*   - consistency: whenever no step is possible, Tpp accepts the state as *)
(*     quiet, so the specification never asks for the impossible;          *)
(*   - the outcomes (what every user saw until nothing moved any more) are *)
(*     printed; the real code is run on the same program and its outcomes  *)
(*     must be among them.                                                 *)
(* Results of calls and the worker that takes a job are chosen when the    *)
(* effect happens (in recorded executions they are known at the call).     *)
(***************************************************************************)
EXTENDS Tpp, Json, IOUtils

Prog == ndJsonDeserialize(IOEnv.TPP_PROG)[1]

VARIABLES pc,    \* agent -> stack of [i, rest]: operations its script and its running tasks still have to call
          vid,   \* id variables of the program
          now,   \* clock
          sig,   \* flags that were signalled (await/signal of the program)
          hist,  \* agent -> what it observed
          beg,   \* tasks in the order they began: <<task, agent, thread id it saw>>
          told,  \* threads a call that notifies for exit was made for
          acc    \* target id -> tasks accepted for it, in the order the invocations took effect
mvars == <<S, pc, vid, now, sig, hist, beg, acc, told>>

ScriptOf(a) == LET X == {i \in 1..Len(Prog.scripts) : Prog.scripts[i].a = a}
               IN IF X = {} THEN <<>> ELSE Prog.scripts[The(X)].ops
BodyOf(x) == LET X == {i \in 1..Len(Prog.tasks) : Prog.tasks[i].i = x}
             IN IF X = {} THEN [ops |-> <<>>, z |-> "v" \o ToString(x), x |-> 0] ELSE Prog.tasks[The(X)]

Fresh(s) == 1 + Max(s.used \cup {0})
IdSeen(s, a) == IF Stray(s, a) THEN 0 ELSE IF s.ag[a].id = -1 THEN Fresh(s) ELSE IF s.ag[a].loc > 0 THEN s.ag[a].loc ELSE s.ag[a].id

MInit == /\ S = InitState
         /\ pc = (0 :> <<[i |-> -1, rest |-> ScriptOf(0)]>>)
         /\ vid = <<>> /\ now = 0 /\ sig = {} /\ hist = (0 :> <<>>) /\ beg = <<>> /\ acc = <<>> /\ told = {}

Note(a, x) == Upd(hist, a, Append(IF a \in DOMAIN hist THEN hist[a] ELSE <<>>, x))

(* agents that run a script of their own start once they were spawned *)
Start(a) ==
    /\ a \in DOMAIN S.stk \ DOMAIN pc /\ S.ag[a].kind = "script"
    /\ pc' = Upd(pc, a, <<[i |-> -1, rest |-> ScriptOf(a)]>>)
    /\ UNCHANGED <<S, vid, now, sig, hist, beg, acc, told>>

Resolve(a, op) ==
    CASE op.kt = "s" -> Own(S, a)
      [] op.kt = "v" -> IF op.kn \in DOMAIN vid THEN vid[op.kn] ELSE 0
      [] OTHER -> op.kn

DoCall(a) ==
    /\ a \in DOMAIN pc /\ pc[a] # <<>> /\ Last(pc[a]).rest # <<>>
    /\ LET top == Last(pc[a])
           op == Head(top.rest)
           c == [op EXCEPT !.t = a, !.n = now, !.k = Resolve(a, op), !.l = 100 * Len(pc[a]) + Len(top.rest)]
       IN /\ S' \in {Know(S, x, c) : x \in Call(S, c)}
          /\ pc' = [pc EXCEPT ![a][Len(pc[a])].rest = Tail(@)]
          /\ told' = told \cup
                CASE c.o = "nexit" -> AgentOf(S, c.k)
                  [] c.o \in {"join", "tassign"} -> {S.hnd[c.x].a}
                  [] c.o = "shutdown" -> DOMAIN S.ag
                  [] c.o = "pdestroy" -> {b \in DOMAIN S.ag : S.ag[b].pool = c.x}
                  [] OTHER -> {}
    /\ UNCHANGED <<vid, now, sig, hist, beg, acc>>

ScriptOver(a) ==
    /\ a \in DOMAIN pc /\ Len(pc[a]) = 1 /\ pc[a][1].rest = <<>> /\ pc[a][1].i = -1
    /\ ~S.ag[a].fin
    /\ S' \in ScriptEnd(S, [t |-> a])
    /\ UNCHANGED <<pc, vid, now, sig, hist, beg, acc, told>>

(* the result a call is going to report, chosen when its effect happens *)
NameSeen(s, k) == IF IsLive(s, k) THEN NameOf(s, The(AgentOf(s, k))) ELSE ""
Cand(s, a, c) ==
    LET vz(v, z) == [v |-> v, z |-> z]
        regof(b) == IF s.ag[b].id # 0 THEN s.ag[b].id ELSE Fresh(s)
    IN CASE c.o \in {"init", "reg"} -> {vz(regof(a), "")}
         [] c.o \in {"spawn", "mkthread"} -> {vz(regof(c.x), "")}
         [] c.o = "regn" -> {vz(regof(s.hnd[c.x].a), "")}
         [] c.o \in {"invoke", "dispatch"} -> {vz(0, ""), vz(1, "")}
         [] c.o = "pend" -> {vz(v, "") : v \in 0..4}
         [] c.o = "list" -> {vz(SetToSeq(X \cup {Fresh(s) + i : i \in 0..(Cardinality(Unknown(s)) - 1)}), "") :
                               X \in SUBSET ({s.ag[b].id : b \in Live(s)} \ {-1})}
         [] c.o = "pname" -> {vz(v, z) : v \in 0..4, z \in {"", NameSeen(s, c.k)}}
         [] c.o = "pcount" -> {vz(v, "") : v \in 0..4}
         [] c.o = "vlive" -> {vz(v, "") : v \in 0..2}
         [] c.o = "setv" -> LET f == s.prm[c.x].s IN
                            {vz(-1, IF f = -1 THEN "nostate" ELSE IF s.fut[f].set THEN "satisfied" ELSE "")}
         [] c.o = "mlock" -> {vz(-1, IF Top(s, a).f0 \/ (c.x \in DOMAIN s.mx /\ s.mx[c.x] = a) THEN "deadlk" ELSE "")}
         [] c.o = "munlock" -> {vz(-1, IF Top(s, a).f0 THEN "" ELSE "nolock")}
         [] c.o = "mtry" -> {vz(0, ""), vz(1, "")}
         [] c.o = "shutdown" -> {vz(-1, "")}
         [] OTHER -> {vz(-1, "")}
DoEffect(a) ==
    /\ EffectEnabled(S, a)
    /\ \E r \in Cand(S, a, Top(S, a).c) :
          LET s == SetTop(S, a, [Top(S, a) EXCEPT !.c.R = r])
              c == Top(S, a).c
          IN /\ S' \in Effect(s, a)
             /\ acc' = IF c.o \in {"invoke", "dispatch"} /\ IsLive(S, c.k) /\ r.v = 1
                       THEN Upd(acc, c.k, Append(IF c.k \in DOMAIN acc THEN acc[c.k] ELSE <<>>, c.i)) ELSE acc
    /\ UNCHANGED <<pc, vid, now, sig, hist, beg, told>>

DoShut(a) ==
    /\ ShutEnabled(S, a)
    /\ \/ S' \in ShutList(S, a)
       \/ \E b \in Top(S, a).f0 : S' = ShutNotify(S, a, b)
       \/ /\ Live(S) = {} \/ Elapsed(Top(S, a), now)
          /\ S' \in ShutDone(SetTop(S, a, [Top(S, a) EXCEPT !.c.R.v = Cardinality(Live(S))]), a)
    /\ UNCHANGED <<pc, vid, now, sig, hist, beg, acc, told>>

DoPick(j) ==
    /\ S.jb[j].st = "pend"
    /\ \E w \in {b \in DOMAIN S.ag : S.ag[b].kind = "work" /\ S.ag[b].pool = S.jb[j].pool} :
          /\ \A b \in DOMAIN S.ag : (S.ag[b].kind = "work" /\ S.ag[b].pool = S.jb[j].pool /\ b < w /\ S.ag[w].id = -1) => S.ag[b].id # -1
          /\ S' \in Pick([S EXCEPT !.jb[j].by = w], j)
    /\ UNCHANGED <<pc, vid, now, sig, hist, beg, acc, told>>

DoHidden ==
    /\ S' \in UNION {
          UNION {
            UNION {Launch(S, a, x) : x \in Launchable(S, a)},
            (IF CompleteEnabled(S, a) THEN {Complete(S, a)} ELSE {}),
            (IF LeaveEnabled(S, a) THEN Leave(S, a) ELSE {}),
            (IF Has(S, a) /\ Top(S, a).od # <<>> THEN {DropOrphans(S, a)} ELSE {}),
            (IF CvLeaveEnabled(S, a, now) THEN {CvLeave(S, a)} ELSE {})
          } : a \in DOMAIN S.stk}
        \cup {WhenFire(S, g) : g \in {x \in DOMAIN S.wh : WhenReady(S, x)}}
        \cup UNION {WhenBreak(S, g) : g \in {x \in DOMAIN S.wh : WhenGone(S, x)}}
    /\ UNCHANGED <<pc, vid, now, sig, hist, beg, acc, told>>

ParentZ(x) ==
    IF x \notin DOMAIN S.tk \/ S.tk[x].par = -1 THEN {""}
    ELSE LET p == S.tk[x].par IN
         IF S.fut[p].org = "wany" /\ S.fut[p].res = "any" THEN {"v" \o ToString(j) : j \in S.fut[p].rdy} ELSE {S.fut[p].res}
Startable(a) ==
    Range(S.ag[a].q) \cup Launchable(S, a)
    \cup (IF Has(S, a) /\ Top(S, a).o = "dispatch" THEN {Top(S, a).c.i} ELSE {})
    \cup {S.jb[j].i : j \in {x \in DOMAIN S.jb : S.jb[x].st = "pick" /\ S.jb[x].by = a}}
    \cup {x \in DOMAIN S.tk : S.tk[x].kind = "dtor" /\ S.tk[x].st = "armed" /\ Over(S, S.tk[x].own)}
DoBegin(a) ==
    /\ \E x \in Startable(a), z \in UNION {ParentZ(y) : y \in Startable(a)} :
          /\ z \in ParentZ(x)
          /\ S' \in Visible(S, [e |-> "b", t |-> a, i |-> x, k |-> IdSeen(S, a), n |-> now, z |-> z, as |-> ""])
          /\ pc' = Upd(pc, a, Append(IF a \in DOMAIN pc THEN pc[a] ELSE <<>>, [i |-> x, rest |-> BodyOf(x).ops]))
          /\ hist' = Note(a, <<"b", x, z>>)
          /\ beg' = Append(beg, <<x, a, IdSeen(S, a)>>)
    /\ UNCHANGED <<vid, now, sig, acc, told>>

(* hooks are called *)
DoHook(a) ==
    /\ S.ag[a].hk < 2 /\ S.ag[a].id # 0
    /\ \E w \in {"name", "start"} :
          /\ S' \in Visible(S, [e |-> "h", t |-> a, n |-> now, w |-> w, k |-> S.ag[a].id, z |-> S.ag[a].hn])
          /\ S' # S
          /\ hist' = Note(a, <<"h", -1, w>>)
    /\ UNCHANGED <<pc, vid, now, sig, beg, acc, told>>
DoLog(a) ==
    /\ Has(S, a)
    /\ \E w \in {"err", "info"} :
          /\ (IF w = "err" THEN Top(S, a).le ELSE Top(S, a).li) = 0
          /\ S' \in Visible(S, [e |-> "l", t |-> a, n |-> now, w |-> w])
          /\ S' # S
          /\ hist' = Note(a, <<"l", -1, w>>)
    /\ UNCHANGED <<pc, vid, now, sig, beg, acc, told>>

DoEnd(a) ==
    /\ a \in DOMAIN pc /\ pc[a] # <<>> /\ Last(pc[a]).i # -1 /\ Last(pc[a]).rest = <<>>
    /\ LET x == Last(pc[a]).i IN
       S' \in Visible(S, [e |-> "f", t |-> a, i |-> x, n |-> now, z |-> BodyOf(x).z, x |-> BodyOf(x).x, lg |-> 0])
    /\ pc' = [pc EXCEPT ![a] = Front(@)]
    /\ UNCHANGED <<vid, now, sig, hist, beg, acc, told>>

RetCand(s, a, fr) ==
    LET o == fr.o
        vz(v, z) == [v |-> v, z |-> z, h |-> 1]
    IN IF fr.thr # "" THEN {vz(0, fr.thr)}
       ELSE CASE o \in {"waitfor", "exitq", "isreg", "cvwaitfor", "see"} -> {vz(0, ""), vz(1, "")}
              [] o = "getid" -> {vz(Own(s, a), "")}
              [] o \in {"tassign", "tmove"} -> {vz(s.hnd[fr.c.y].id, "")}
              [] o = "tswap" -> {[v |-> s.hnd[fr.c.y].id, w |-> s.hnd[fr.c.x].id, z |-> "", h |-> 1]}
              [] o = "hid" -> {vz(s.hnd[fr.c.x].id, z) : z \in {"0", "1"}}
              [] o = "mainid" -> {vz(s.main, "")}
              [] o = "depth" -> {vz(v, "") : v \in 0..4}
              [] o = "dispatch" -> IF fr.c.k = Own(s, a) /\ fr.c.k # 0 THEN {vz(1, "")} ELSE {vz(fr.c.R.v, "")}
              [] o = "fwait" -> {vz(-1, ""), vz(-1, "nostate")}
              [] o = "fwaitfor" -> {vz(-1, z) : z \in {"ready", "timeout", "deferred", "nostate"}}
              [] o = "get" -> {vz(-1, z) : z \in {s.fut[f].res : f \in DOMAIN s.fut} \cup {"broken", "nostate"}
                                                  \cup {"v" \o ToString(j) : j \in 0..3}}
              [] o \in {"ready", "err", "valid"} -> {vz(-1, z) : z \in {"0", "1", "nostate"}}
              [] o \in {"getfut", "then", "async"} -> {vz(-1, z) : z \in {"", "retrieved", "nostate"}}
              [] OTHER -> {[v |-> fr.c.R.v, z |-> fr.c.R.z, h |-> 1]}
(* the program's own operations *)
EnvOK(fr) == CASE fr.o = "await" -> fr.c.x \in sig [] fr.o = "busy" -> now >= fr.c.n + fr.c.d [] OTHER -> TRUE
IdOps == {"init", "reg", "spawn", "mkthread", "regn", "getid", "mainid", "sched", "list", "hid", "tassign", "tmove", "tswap"}
Shown(o, r) == <<o, IF o \in IdOps THEN -1 ELSE r.v, r.z>>
DoReturn(a) ==
    /\ Has(S, a) /\ Top(S, a).o \notin {"task", "post"} /\ EnvOK(Top(S, a))
    /\ LET fr == Top(S, a) IN
       \E r \in RetCand(S, a, fr) :
          /\ S' \in Visible(S, [e |-> "r", t |-> a, o |-> fr.o, n |-> now, v |-> r.v, z |-> r.z, h |-> r.h, ca |-> fr.c.cx,
                                w |-> IF fr.o = "tswap" THEN r.w ELSE -1])
          /\ hist' = Note(a, Shown(fr.o, r))
          /\ vid' = IF fr.o \in {"init", "reg", "regn", "spawn", "mkthread"} THEN Upd(vid, fr.c.var, r.v) ELSE vid
          /\ sig' = IF fr.o = "signal" THEN sig \cup {fr.c.x} ELSE sig
    /\ UNCHANGED <<pc, now, beg, acc, told>>

(* time *)
Deadlines == {S.stk[a][i].c.n + S.stk[a][i].c.d :
                 <<a, i>> \in {<<b, j>> \in (DOMAIN S.stk) \X (1..6) : j <= Len(S.stk[b]) /\ S.stk[b][j].o \in TimedOps \cup {"busy", "processfor"}}}
Ahead == {d \in Deadlines : d > now}
Tick == /\ Ahead # {} /\ now' = Min(Ahead)
        /\ UNCHANGED <<S, pc, vid, sig, hist, beg, acc, told>>

Agents == DOMAIN S.stk
Move == \/ \E a \in Agents : Start(a) \/ DoCall(a) \/ ScriptOver(a) \/ DoEffect(a) \/ DoShut(a) \/ DoBegin(a) \/ DoEnd(a) \/ DoReturn(a)
                            \/ DoHook(a) \/ DoLog(a)
        \/ \E j \in DOMAIN S.jb : DoPick(j)
        \/ DoHidden
MNext == Move \/ Tick
MSpec == MInit /\ [][MNext]_mvars

Stuck == ~ENABLED Move
(* the run may be over: nothing has to happen any more (something still may, a wait may return for a wake-up
   that came earlier) *)
Final == /\ Quiet(S, [e |-> "done"], -1) # {}
         /\ ~\E a \in DOMAIN S.stk : Has(S, a) /\ Top(S, a).o = "await" /\ Top(S, a).c.x \in sig
Report == Final => PrintT(<<"OUT", ToJson([a \in {ToString(x) : x \in DOMAIN hist} |->
                                 hist[CHOOSE x \in DOMAIN hist : ToString(x) = a]])>>)

----------------------------------------------------------------------------
(* Consistency: what cannot move may rest *)
Busy == \E a \in DOMAIN S.stk : Has(S, a) /\ Top(S, a).o = "busy"
Consistent == (Stuck /\ ~Busy) => Quiet(S, [e |-> "k", lg |-> <<>>], IF Ahead = {} THEN -1 ELSE Min(Ahead)) # {}

(* Theorems *)
Begun == {beg[i][1] : i \in 1..Len(beg)}
Once == Cardinality(Begun) = Len(beg)
InPlace == \* what was queued for a thread runs on the thread that has that id
    \A k \in DOMAIN acc : \A i \in 1..Len(acc[k]) : \A n \in 1..Len(beg) :
        beg[n][1] = acc[k][i] => beg[n][3] = k
OrderOf(k) == SelectSeq([n \in 1..Len(beg) |-> beg[n][1]], LAMBDA x : InSeq(acc[k], x))
Fifo == \A k \in DOMAIN acc : IsPrefix(OrderOf(k), acc[k])
Refused == \* an invocation that returned false never runs
    \A a \in DOMAIN S.stk : \A i \in 1..Len(S.stk[a]) :
        LET fr == S.stk[a][i] IN (fr.o = "invoke" /\ fr.ph = 1 /\ fr.c.R.v = 0) => fr.c.i \notin Begun
OneShot == [][\A f \in DOMAIN S.fut : S.fut[f].set => (S'.fut[f].set /\ S'.fut[f].res = S.fut[f].res)]_mvars
(* everybody who read the result of a promise read the same one *)
Results(o) == {x \in UNION {Range(hist[a]) : a \in DOMAIN hist} : x[1] = o}
Waiters(f) == {a \in DOMAIN S.stk : Has(S, a) /\ Top(S, a).o \in {"fwait", "get", "fwaitfor"} /\ St(S, Top(S, a).c.f) = f}
ReadyReleases == Final => \A f \in DOMAIN S.fut : S.fut[f].set => \A a \in Waiters(f) : Top(S, a).L # <<>>
(* threads whose last completed lock operation gave them the (only) mutex of the program and that did not
   call anything else on it since *)
LockOps == {"mlock", "mtry", "munlock"}
Got(e) == (e[1] = "mlock" /\ e[3] = "") \/ (e[1] = "mtry" /\ e[2] = 1)
Holders == {a \in DOMAIN hist :
               LET h == SelectSeq(hist[a], LAMBDA e : e[1] \in LockOps)
               IN h # <<>> /\ Got(Last(h)) /\ ~\E i \in 1..Len(S.stk[a]) : S.stk[a][i].o \in LockOps}
Exclusive == Cardinality(Holders) <= 1
(* whoever got a result of the (only) promise of the program got the same *)
OneResult == Prog.onef => Cardinality({x[3] : x \in {y \in Results("get") : y[3] # "nostate" /\ ~(Prog.exits /\ y[3] = "broken")}}) <= 1
Drained == Final => \A a \in DOMAIN S.ag :
    (S.ag[a].id # 0 /\ ~S.ag[a].ex /\ (Pumping(S, a))) => S.ag[a].q = <<>>
ContsRun == \* at rest, continuations of a ready future are not forgotten
    Final => \A f \in DOMAIN S.fut : S.fut[f].set => S.fut[f].conts = <<>>
ExitStays == [][\A a \in DOMAIN S.ag : (S.ag[a].ex /\ S.ag[a].id # 0 /\ S'.ag[a].id = S.ag[a].id) => S'.ag[a].ex]_mvars
FreshIds == [][\A a \in DOMAIN S'.ag :
                 (S'.ag[a].id > 0 /\ (a \notin DOMAIN S.ag \/ S.ag[a].id = 0)) => S'.ag[a].id \notin S.used]_mvars

(* what a call reports is true when it returns *)
News(a) == a \in DOMAIN hist' /\ Len(hist'[a]) > (IF a \in DOMAIN hist THEN Len(hist[a]) ELSE 0) /\ Last(hist'[a])[1] \notin {"b", "h", "l"}
Ret(a) == Last(hist'[a])
CallOf(a) == Top(S, a).c
Told(a) == a \in told \/ S.ag[a].loc = 0
Truth(P(_)) == [][\A a \in DOMAIN S.stk : News(a) => P(a)]_mvars
ExitP(a) == (Ret(a)[1] = "exitq" /\ Ret(a)[2] = 1) => Told(a)
ExitTruth == Truth(ExitP)
TimeP(a) ==
    /\ (Ret(a)[1] \in {"waitfor", "cvwaitfor"} /\ Ret(a)[2] = 1) => now >= CallOf(a).n + CallOf(a).d
    /\ (Ret(a)[1] = "fwaitfor" /\ Ret(a)[3] = "timeout") => now >= CallOf(a).n + CallOf(a).d
    /\ (Ret(a)[1] = "sleep" /\ Ret(a)[3] = "") => (now >= CallOf(a).n + CallOf(a).d \/ Told(a))
TimeTruth == Truth(TimeP)
ShutP(a) == (Ret(a)[1] = "shutdown" /\ Ret(a)[2] >= 0) =>
    IF Ret(a)[2] = 0 THEN TRUE ELSE now >= CallOf(a).n + CallOf(a).d
ShutTruth == Truth(ShutP)
(* the moment shutdown decides *)
ShutEmpty == [][\A a \in DOMAIN S.stk :
                  (Has(S, a) /\ Top(S, a).o = "shutdown" /\ Top(S, a).ph = 1 /\ S'.stk[a] # <<>> /\ Top(S', a).ph = 3 /\ Top(S', a).c.R.v = 0)
                      => Live(S) = {}]_mvars
Ended1(j) == \/ \E i \in 1..Len(beg) : beg[i][1] = S.jb[j].i /\ S.tk[S.jb[j].i].st = "done"
             \/ S.tk[S.jb[j].i].st = "dropped"
PwaitP(a) ==
    /\ (Ret(a)[1] = "pwait" /\ ~Told(a)) => Ended1(CallOf(a).j)
    /\ (Ret(a)[1] = "pdestroy") => \A j \in DOMAIN S.jb : S.jb[j].pool = CallOf(a).x => Ended1(j)
PwaitTruth == Truth(PwaitP)
JoinP(a) == Ret(a)[1] = "join" => LET b == S.hnd[CallOf(a).x].a IN S.ag[b].fin /\ (S.hnd[CallOf(a).x].std \/ S.ag[b].id = 0)
JoinTruth == Truth(JoinP)
(* handed out by get: there is a result (or the thread was told to exit) *)
Behind(a) == St(S, CallOf(a).f)
GetP(a) == (Ret(a)[1] = "get" /\ Ret(a)[3] # "nostate") =>
    \/ Told(a) /\ Ret(a)[3] = "broken"
    \/ /\ Behind(a) # -1 /\ S.fut[Behind(a)].set
       /\ LET f == S.fut[Behind(a)]
              ready(j) == S.fut[f.ins[j].s].set
          IN /\ f.org = "wall" => \A j \in 1..Len(f.ins) : ready(j)
             /\ (f.org = "wany" /\ Ret(a)[3] # "broken") =>
                   \E j \in 1..Len(f.ins) : ready(j) /\ Ret(a)[3] = "v" \o ToString(j - 1)
GetTruth == Truth(GetP)
FwaitP(a) == (Ret(a)[1] = "fwait" /\ Ret(a)[3] = "") => (Told(a) \/ S.fut[Behind(a)].set)
FwaitTruth == Truth(FwaitP)
AsyncP(a) == (Ret(a)[1] = "async" /\ CallOf(a).fresh = 0 /\ CallOf(a).k = Own(S, a)) =>
    IF CallOf(a).p = "a" THEN TRUE ELSE CallOf(a).i \in Begun
AsyncTruth == Truth(AsyncP)
Queued(a) == \* with the async policy a task never runs inside the call that launches it
    \A i \in 1..Len(S.stk[a]) : LET fr == S.stk[a][i] IN (fr.o = "task" /\ fr.i \in DOMAIN S.tk /\ S.tk[fr.i].pol = "a") => fr.qd
AllQueued == \A a \in DOMAIN S.stk : Queued(a)
LockP(a) == Ret(a)[1] \in {"cvwait", "cvwaitfor"} => S'.um[CallOf(a).y] = a
LockTruth == Truth(LockP)
DepthP(a) == Ret(a)[1] = "depth" => Ret(a)[2] <= Len(pc[a]) - (IF pc[a][1].i = -1 THEN 1 ELSE 0)
DepthTruth == Truth(DepthP)
(* threads that are not registered: nothing holds them, they have no id, they are always told to leave *)
Loose(a) == S.ag[a].kind = "script" /\ S.ag[a].loc = 0
StrayFree == Final => \A a \in DOMAIN S.stk : (Has(S, a) /\ Loose(a)) => Top(S, a).o \notin (PumpOps \ {"mlock"})
StrayP(a) == Loose(a) =>
    CASE Ret(a)[1] \in {"isreg", "depth", "waitfor", "cvwaitfor"} -> Ret(a)[2] = 0
      [] Ret(a)[1] = "exitq" -> Ret(a)[2] = 1
      [] Ret(a)[1] = "fwaitfor" -> Ret(a)[3] \in {"ready", "deferred", "nostate"}
      [] Ret(a)[1] \in {"invoke", "dispatch"} -> (CallOf(a).k = 0 => Ret(a)[2] = 0)
      [] OTHER -> TRUE
StrayTruth == Truth(StrayP)
(* a continuation begins after its future is ready *)
ContAfter == \A n \in 1..Len(beg) : beg[n][1] \in DOMAIN S.tk =>
                (S.tk[beg[n][1]].par # -1 => S.fut[S.tk[beg[n][1]].par].set)
(* nobody is left behind when nothing has to happen any more *)
Collected == Final => \A g \in DOMAIN S.wh :
    LET ins == S.fut[g].ins
        set == {j \in 1..Len(ins) : S.fut[ins[j].s].set}
    IN (~S.fut[g].set /\ Len(ins) > 0 /\ S.wh[g] # -1 /\ S.ag[S.wh[g]].id # 0 /\ Pumping(S, S.wh[g])) =>
          IF S.fut[g].org = "wall" THEN Cardinality(set) < Len(ins) ELSE set = {}
Notified == Final => \A a \in DOMAIN S.stk :
    (Has(S, a) /\ Top(S, a).o \in CvOps /\ Top(S, a).nt) => S.um[Top(S, a).c.y] # -1
Released == Final => \A a \in DOMAIN S.stk :
    (Has(S, a) /\ Top(S, a).o \in {"wait", "waitfor", "sleep", "fwait", "fwaitfor", "get", "pwait", "pwaitall"}) => ~S.ag[a].ex
Worked == Final => \A j \in DOMAIN S.jb :
    S.jb[j].st = "pend" => \A b \in DOMAIN S.ag :
        (S.ag[b].kind = "work" /\ S.ag[b].pool = S.jb[j].pool /\ S.pl[S.jb[j].pool].alive /\ S.ag[b].id # 0 /\ S.stk[b] = <<>>)
            => \E l \in 1..3 : S.pl[S.jb[j].pool].w[l] > 0 /\ l - 1 > S.jb[j].lv
Gone == Final => \A a \in DOMAIN S.ag : (S.ag[a].kind \in {"loop", "one"} /\ S.ag[a].ex) => S.ag[a].id = 0
(* at rest, whoever is inside a call is inside one that waits *)
MayWait == {"wait", "waitfor", "sleep", "fwait", "get", "fwaitfor", "mlock", "ulock", "pwait", "pwaitall", "join", "tassign", "pdestroy", "shutdown",
            "await", "busy"} \cup CvOps
Free == Final => \A a \in DOMAIN S.stk : Has(S, a) => Top(S, a).o \in MayWait
(* in programs that look only for what they were handed, everything is seen *)
AllSeen == Prog.handed => \A x \in Results("see") : x[2] = 1
(* everybody who is registered and stays is listed, and nobody twice *)
ListP(a) == Ret(a)[1] = "list" =>
    /\ Cardinality(Range(CallOf(a).R.v)) = Len(CallOf(a).R.v)
    /\ (S.ag[a].kind = "script" /\ S.ag[a].loc > 0 /\ ~S.ag[a].ex) => S.ag[a].loc \in Range(CallOf(a).R.v)
ListTruth == Truth(ListP)
(* a thread is stood for by one object at most *)
OneHandle == \A x, y \in DOMAIN S.hnd : (x # y /\ S.hnd[x].a # -1) => S.hnd[x].a # S.hnd[y].a
(* a result has one reader that may use it up, or readers that share it *)
OneOwner == \A x, y \in DOMAIN S.ref : (x # y /\ S.ref[x].s # -1 /\ S.ref[x].s = S.ref[y].s) => (S.ref[x].sh /\ S.ref[y].sh)
(* nothing is alive twice once the others are done, and nothing for which no object is left *)
LiveP(a) == (Ret(a)[1] = "vlive" /\ Top(S, a).f0) =>
               /\ Ret(a)[2] <= 1
               /\ ((\A x \in DOMAIN S.ref : S.ref[x].s = -1) /\ (\A x \in DOMAIN S.prm : S.prm[x].s = -1)
                   /\ (\A x \in DOMAIN S.tk : S.tk[x].par = -1)) => Ret(a)[2] = 0
LiveTruth == Truth(LiveP)
(* whoever starts with hooks calls them first, and each once *)
HooksFirst == \A a \in DOMAIN hist : LET h == {i \in 1..Len(hist[a]) : hist[a][i][1] = "h"} IN
    h # {} => /\ h \subseteq {1, 2}
              /\ hist[a][1][3] = "name" /\ (2 \in h => hist[a][2][3] = "start")
(* what a function captured is destroyed after it ran, and not before it is certain that it will not run *)
Dtors == {x \in DOMAIN S.tk : S.tk[x].kind = "dtor"}
At1(x) == CHOOSE n \in 1..Len(beg) : beg[n][1] = x
DtorLast == \A x \in Dtors \cap Begun :
    S.tk[x].own \in Begun => /\ At1(S.tk[x].own) < At1(x)
                             /\ ~\E a \in DOMAIN pc : \E i \in 1..Len(pc[a]) : pc[a][i].i = S.tk[x].own
DtorAll == Final => \A x \in Dtors :
    (S.tk[x].own \in Begun /\ ~\E a \in DOMAIN pc : \E i \in 1..Len(pc[a]) : pc[a][i].i # -1) => x \in Begun
(* with log hooks, refusals are told before the call returns, and nothing else is *)
Before(a, k) == LET h == hist[a] IN Len(h) > k /\ h[Len(h) - k] = <<"l", -1, "err">>
LogP(a) == (Prog.logged /\ Ret(a)[1] \in {"invoke", "notify", "pend", "pname"}) =>
    IF CallOf(a).k = 0 THEN a \in DOMAIN hist /\ Before(a, 0)
    ELSE (S.ag[a].loc > 0) => (a \notin DOMAIN hist \/ ~Before(a, 0))
LogTruth == Truth(LogP)
(* a job that was stopped never runs *)
StoppedP == \A x \in DOMAIN S.tk : S.tk[x].st = "dropped" => x \notin Begun
=============================================================================
