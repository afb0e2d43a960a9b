----------------------------- MODULE PipelineMC -----------------------------
(* All interleavings of a measurement with a simulation that follows        *)
(* Pipeline and distortions that ask for additional data at will. Data are  *)
(* modelled by their history: <<window, <<applied distortions>>>>.          *)
EXTENDS Pipeline
CONSTANTS MaxOd, MaxPd, MaxRd, Pots, MaxAsk

VARIABLES s, asks
vars == <<s, asks>>
W0 == <<"w0">>
WX == <<"wx">>
Ids(n) == [i \in 1..n |-> i]
Ctx(a, b, c, scan) == [op |-> IF scan THEN "scan" ELSE "csd", r1 |-> W0, r2 |-> W0, f1 |-> <<>>, f2 |-> <<>>, res |-> <<2>>,
                 od |-> IF scan THEN <<>> ELSE Ids(a), pd |-> Ids(b), rd |-> Ids(c), csd |-> 0, sensor |-> 0, scan |-> scan, want |-> <<"const">>]
Init == /\ \E a \in 0..MaxOd, b \in 0..MaxPd, c \in 0..MaxRd, scan \in BOOLEAN : s = Start(Ctx(a, b, c, scan))
        /\ asks = 0

Data(w, h) == <<w, h>>
Running(x) == IF x.stack # <<>> THEN Top(x).run ELSE x.run
RunIdx(x) == IF x.stack # <<>> THEN Top(x).j + 1 ELSE x.k + 1
CurOf(x) == IF x.stack # <<>> THEN Top(x).cur ELSE x.base
Window(x) == IF x.stack # <<>> THEN <<Top(x).v1, Top(x).v2, Top(x).res>> ELSE <<x.ctx.r1, x.ctx.r2, x.ctx.res>>
App(d, id, frz) == Data(d[1], Append(d[2], <<id, frz>>))

Events(x) ==
    LET win == Window(x) IN
    {[ev |-> "csd", id |-> 0, v1 |-> win[1], v2 |-> win[2], res |-> win[3], occ |-> Data(win, <<>>), lead |-> Data(win, <<>>)]}
    \cup (IF CurOf(x) = <<>> THEN {} ELSE
          {[ev |-> "occ", id |-> i, frozen |-> f, v1 |-> win[1], v2 |-> win[2], inp |-> CurOf(x)[1], linp |-> CurOf(x)[2], gen |-> TRUE]
              : i \in 1..MaxOd, f \in BOOLEAN}
          \cup (IF Running(x)
                THEN {[ev |-> "occ_end", id |-> RunIdx(x), frozen |-> x.stack # <<>>, out |-> App(CurOf(x)[1], RunIdx(x), x.stack # <<>>),
                       lout |-> App(CurOf(x)[2], RunIdx(x), x.stack # <<>>)]}
                     \cup (IF asks < MaxAsk THEN {[ev |-> "ask", id |-> RunIdx(x), v1 |-> WX, v2 |-> W0, res |-> <<1>>]} ELSE {})
                ELSE {})
          \cup (IF x.stack # <<>> /\ ~Running(x) THEN {[ev |-> "got", id |-> 0, occ |-> CurOf(x)[1], lead |-> CurOf(x)[2]]} ELSE {}))
    \cup {[ev |-> "pot", id |-> 0, v1 |-> IF x.ctx.scan THEN <<>> ELSE W0, v2 |-> IF x.ctx.scan THEN <<>> ELSE W0,
           s1 |-> IF x.ctx.scan THEN W0 ELSE <<>>, s2 |-> IF x.ctx.scan THEN W0 ELSE <<>>,
           inp |-> Occupations(x), out |-> [n \in 1..Pots |-> Data(<<"pot", n, Occupations(x)>>, <<>>)]]}
    \cup (IF x.ctx.scan THEN {[ev |-> "labels", id |-> 0, v1 |-> <<>>, v2 |-> <<>>, s1 |-> W0, s2 |-> W0, inp |-> x.pots0, out |-> <<x.pots0, x.pots0>>]} ELSE {})
    \cup {[ev |-> "pd", id |-> i, v1 |-> W0, v2 |-> W0, inp |-> x.pots[n], out |-> App(x.pots[n], i, FALSE)]
             : i \in 1..MaxPd, n \in DOMAIN x.pots}
    \cup {[ev |-> "resp", id |-> 0, inp |-> x.pots, out |-> Data(<<"resp", x.pots>>, <<>>)]}
    \cup (IF x.sig = <<>> THEN {} ELSE
             {[ev |-> "rd", id |-> i, v1 |-> W0, v2 |-> W0, inp |-> x.sig[1], out |-> App(x.sig[1], i, FALSE)] : i \in 1..MaxRd}
             \cup {[ev |-> "return", out |-> x.sig[1], occ |-> IF x.ctx.scan THEN (IF x.labels = <<>> THEN -1 ELSE x.labels[1]) ELSE CurOf(x)[1],
                    lead |-> IF x.ctx.scan THEN (IF x.labels = <<>> THEN -1 ELSE x.labels[2]) ELSE CurOf(x)[2]]})

Next == /\ ~s.over
        /\ \E e \in Events(s) : /\ Fails(s, e) = {}
                                /\ After(s, e) # s
                                /\ s' = After(s, e)
                                /\ asks' = IF e.ev = "ask" THEN asks + 1 ELSE asks
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* A finished measurement has passed every distortion exactly once, in order. *)
Full(n) == [i \in 1..n |-> <<i, FALSE>>]
Frozen(n) == [i \in 1..n |-> <<i, TRUE>>]
ExactlyOnce ==
    s.over => /\ (s.ctx.op = "csd" => s.base[1][2] = Full(Len(s.ctx.od)) /\ s.base[1][1] = <<W0, W0, <<2>>>>)
              /\ \A n \in DOMAIN s.pots : s.pots[n][2] = Full(Len(s.ctx.pd))
              /\ s.sig[1][2] = Full(Len(s.ctx.rd))
              /\ (s.ctx.op = "scan" => s.labels[1] = s.pots0)
(* Additional data carries exactly the distortions in front of the one that asked, frozen. *)
PrefixFrozen ==
    \A q \in DOMAIN s.stack : s.stack[q].cur # <<>> => s.stack[q].cur[1][2] = Frozen(s.stack[q].j)
(* Requests nest at most as deep as there are distortions (they terminate). *)
Bounded == /\ Len(s.stack) <= Len(s.ctx.od)
           /\ \A q \in DOMAIN s.stack : s.stack[q].lvl <= Len(s.ctx.od) - q
(* Nothing gets stuck: every measurement can be finished. *)
NotStuck == s.over \/ ENABLED Next
Finishes == <>(s.over)
=============================================================================
