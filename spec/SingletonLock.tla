----------------------------- MODULE SingletonLock -----------------------------
(* The steps of acquiring and releasing a singleton in several threads: why  *)
(* the operations of Singleton.tla are atomic.  Reads and writes of counters *)
(* are separate steps.  Without the lock (Locked = FALSE) all is lost.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Singles, MaxHold, MaxObjects, Locked
VARIABLES owner,     \* who has the lock, 0 for nobody
          server,    \* the current server, 0 for none
          deadsrv,   \* servers deleted
          map,       \* server -> singleton -> object (0: none)
          objs,      \* live objects: set of <<id, singleton>>
          refs,      \* object -> counter
          made,      \* number of objects ever made
          pc, cur, this, obj, val, hold, bad
vars == <<owner, server, deadsrv, map, objs, refs, made, pc, cur, this, obj, val, hold, bad>>
Ids == 1..MaxObjects
Init == /\ owner = 0 /\ server = 0 /\ deadsrv = {} /\ map = [s \in Ids |-> [n \in Singles |-> 0]] /\ objs = {} /\ refs = [i \in Ids |-> 0] /\ made = 0
        /\ pc = [t \in Threads |-> "idle"] /\ cur = [t \in Threads |-> CHOOSE n \in Singles : TRUE] /\ this = [t \in Threads |-> 0]
        /\ obj = [t \in Threads |-> 0] /\ val = [t \in Threads |-> 0] /\ hold = [t \in Threads |-> [n \in Singles |-> 0]] /\ bad = FALSE
Live(i) == \E n \in Singles : <<i, n>> \in objs
Uses(s) == bad \/ s = 0 \/ s \in deadsrv           \* a server that is not there is used
UsesObj(i) == bad \/ ~Live(i)
U(q) == UNCHANGED q
Servers == deadsrv \cup (IF server = 0 THEN {} ELSE {server})
Lock(t, from, to) == pc[t] = from /\ (Locked => owner = 0) /\ owner' = (IF Locked THEN t ELSE owner) /\ pc' = [pc EXCEPT ![t] = to]
                     /\ U(<<server, deadsrv, map, objs, refs, made, cur, this, obj, val, hold, bad>>)
(* ---- acquire *)
Coming == Cardinality({t \in Threads : pc[t] \in {"alock", "aserver", "afind", "acreate"}})
StartAcq(t) == /\ pc[t] = "idle" /\ made + Coming < MaxObjects /\ Cardinality(Servers) + Coming < MaxObjects
               /\ \E n \in Singles : hold[t][n] < MaxHold /\ cur' = [cur EXCEPT ![t] = n]
               /\ pc' = [pc EXCEPT ![t] = "alock"] /\ U(<<owner, server, deadsrv, map, objs, refs, made, this, obj, val, hold, bad>>)
AServer(t) == /\ pc[t] = "aserver"
              /\ IF server = 0 THEN LET s == CHOOSE x \in Ids : x \notin Servers /\ \A y \in Ids : y \notin Servers => x <= y IN
                                    server' = s /\ this' = [this EXCEPT ![t] = s] /\ map' = [map EXCEPT ![s] = [n \in Singles |-> 0]]
                 ELSE server' = server /\ this' = [this EXCEPT ![t] = server] /\ map' = map
              /\ pc' = [pc EXCEPT ![t] = "afind"] /\ U(<<owner, deadsrv, objs, refs, made, cur, obj, val, hold, bad>>)
AFind(t) == /\ pc[t] = "afind" /\ bad' = Uses(this[t])
            /\ LET i == map[this[t]][cur[t]] IN
               obj' = [obj EXCEPT ![t] = i] /\ pc' = [pc EXCEPT ![t] = IF i = 0 THEN "acreate" ELSE "aread"]
            /\ U(<<owner, server, deadsrv, map, objs, refs, made, cur, this, val, hold>>)
ACreate(t) == /\ pc[t] = "acreate" /\ made < MaxObjects
              /\ made' = made + 1 /\ objs' = objs \cup {<<made + 1, cur[t]>>} /\ obj' = [obj EXCEPT ![t] = made + 1] /\ refs' = [refs EXCEPT ![made + 1] = 0]
              /\ pc' = [pc EXCEPT ![t] = "ainsert"] /\ U(<<owner, server, deadsrv, map, cur, this, val, hold, bad>>)
AInsert(t) == /\ pc[t] = "ainsert" /\ bad' = Uses(server)
              /\ LET s == IF server = 0 THEN this[t] ELSE server
                     i == IF map[s][cur[t]] = 0 THEN obj[t] ELSE map[s][cur[t]] IN
                 map' = [map EXCEPT ![s][cur[t]] = i] /\ obj' = [obj EXCEPT ![t] = i]
              /\ pc' = [pc EXCEPT ![t] = "aread"] /\ U(<<owner, server, deadsrv, objs, refs, made, cur, this, val, hold>>)
ARead(t) == /\ pc[t] = "aread" /\ bad' = UsesObj(obj[t]) /\ val' = [val EXCEPT ![t] = refs[obj[t]]]
            /\ pc' = [pc EXCEPT ![t] = "awrite"] /\ U(<<owner, server, deadsrv, map, objs, refs, made, cur, this, obj, hold>>)
AWrite(t) == /\ pc[t] = "awrite" /\ bad' = UsesObj(obj[t]) /\ refs' = [refs EXCEPT ![obj[t]] = val[t] + 1]
             /\ hold' = [hold EXCEPT ![t][cur[t]] = @ + 1]
             /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ U(<<owner, server, deadsrv, map, objs, made, cur, this, obj, val>>)
Unlock(t) == /\ pc[t] = "unlock" /\ owner' = (IF Locked THEN 0 ELSE owner) /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ U(<<server, deadsrv, map, objs, refs, made, cur, this, obj, val, hold, bad>>)
(* ---- release *)
StartRel(t) == /\ pc[t] = "idle" /\ \E n \in Singles : hold[t][n] > 0 /\ cur' = [cur EXCEPT ![t] = n] /\ hold' = [hold EXCEPT ![t][n] = @ - 1]
               /\ pc' = [pc EXCEPT ![t] = "dlock"] /\ U(<<owner, server, deadsrv, map, objs, refs, made, this, obj, val, bad>>)
DFind(t) == /\ pc[t] = "dfind" /\ LET i == IF server = 0 THEN 0 ELSE map[server][cur[t]] IN
               /\ bad' = (Uses(server) \/ i = 0) /\ this' = [this EXCEPT ![t] = server]
               /\ obj' = [obj EXCEPT ![t] = i] /\ pc' = [pc EXCEPT ![t] = IF i = 0 THEN "unlock" ELSE "dread"]
            /\ U(<<owner, server, deadsrv, map, objs, refs, made, cur, val, hold>>)
DRead(t) == /\ pc[t] = "dread" /\ bad' = UsesObj(obj[t]) /\ val' = [val EXCEPT ![t] = refs[obj[t]]]
            /\ pc' = [pc EXCEPT ![t] = "dwrite"] /\ U(<<owner, server, deadsrv, map, objs, refs, made, cur, this, obj, hold>>)
DWrite(t) == /\ pc[t] = "dwrite" /\ bad' = UsesObj(obj[t]) /\ refs' = [refs EXCEPT ![obj[t]] = val[t] - 1]
             /\ pc' = [pc EXCEPT ![t] = IF val[t] <= 1 THEN "derase" ELSE "unlock"] /\ U(<<owner, server, deadsrv, map, objs, made, cur, this, obj, val, hold>>)
DErase(t) == /\ pc[t] = "derase" /\ bad' = Uses(this[t]) /\ map' = [map EXCEPT ![this[t]][cur[t]] = 0]
             /\ pc' = [pc EXCEPT ![t] = "ddelete"] /\ U(<<owner, server, deadsrv, objs, refs, made, cur, this, obj, val, hold>>)
DDelete(t) == /\ pc[t] = "ddelete" /\ bad' = UsesObj(obj[t]) /\ objs' = objs \ {<<obj[t], cur[t]>>}
              /\ pc' = [pc EXCEPT ![t] = "dempty"] /\ U(<<owner, server, deadsrv, map, refs, made, cur, this, obj, val, hold>>)
DEmpty(t) == /\ pc[t] = "dempty"
             /\ IF server # 0 /\ \A n \in Singles : map[server][n] = 0 THEN deadsrv' = deadsrv \cup {server} /\ server' = 0
                ELSE deadsrv' = deadsrv /\ server' = server
             /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ U(<<owner, map, objs, refs, made, cur, this, obj, val, hold, bad>>)
Next == ~bad /\ \E t \in Threads :
          \/ StartAcq(t) \/ Lock(t, "alock", "aserver") \/ AServer(t) \/ AFind(t) \/ ACreate(t) \/ AInsert(t) \/ ARead(t) \/ AWrite(t) \/ Unlock(t)
          \/ StartRel(t) \/ Lock(t, "dlock", "dfind") \/ DFind(t) \/ DRead(t) \/ DWrite(t) \/ DErase(t) \/ DDelete(t) \/ DEmpty(t)
Spec == Init /\ [][Next]_vars
Safe == ~bad
OneObject == \A n \in Singles : Cardinality({o \in objs : o[2] = n}) <= 1
HeldExists == \A t \in Threads : \A n \in Singles : hold[t][n] > 0 => server # 0 /\ map[server][n] # 0 /\ <<map[server][n], n>> \in objs
Quiet == \A t \in Threads : pc[t] = "idle"
RECURSIVE Sum(_, _)
Sum(T, n) == IF T = {} THEN 0 ELSE LET t == CHOOSE x \in T : TRUE IN hold[t][n] + Sum(T \ {t}, n)
Exactly == Quiet => \A n \in Singles : /\ (Sum(Threads, n) = 0 <=> ~\E o \in objs : o[2] = n)
                                       /\ (Sum(Threads, n) > 0 => refs[map[server][n]] = Sum(Threads, n))
NoneLeft == Quiet /\ (\A n \in Singles : Sum(Threads, n) = 0) => server = 0
(* each operation takes effect at one point: its unlocking *)
=============================================================================
