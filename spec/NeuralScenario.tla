--------------------------- MODULE NeuralScenario ----------------------------
(* Networks of any layer kinds and histories of what is done to them.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Dbl
CONSTANTS MaxOps
VARIABLES c, ops
vars == <<c, ops>>
One(S) == RandomElement(S)
Coin(p) == One(1..100) <= p
Rat(i, d) == FStr(FDiv(F(i), F(d)))
Acts == {"logistic", "relu", "tanh", "linear", "gaussian", "sin", "cos", "softplus", "leaky", "selu", "loggy"}
(* what may evolve, and how the layer learns                                   *)
Options(last, ni, grow, z) ==
  LET e == One({0, 1, 5, 10, 50, 100}) IN
  [evolve_weights |-> Coin(50), evolve_functions |-> ~last /\ Coin(30), evolve_connect |-> Coin(35),
   sgd_weights |-> Coin(75), eta |-> Rat(e, 100), evolve_eta |-> Coin(30), eta_min |-> IF e >= 5 /\ Coin(60) THEN "0.03" ELSE "0",
   momentum |-> Rat(One({0, 0, 5, 9}), 10), decay |-> Rat(One({0, 0, 1, 10}), 100)]
  @@ (IF ~last /\ grow /\ Coin(50) THEN [evolve_neurons |-> TRUE, n_max |-> ni + One(0..3), max_neuron_grow |-> One(1..3)] ELSE <<>>)
(* a layer and the image shape <<height, width, channels>> it produces          *)
Size(sh) == sh[1] * sh[2] * sh[3]
Full(ty, last, n, z) ==
  [type |-> ty, activation |-> One(IF ty = "connected" THEN Acts ELSE Acts \ {"softplus"}), n_init |-> n] @@ Options(last, n, TRUE, z)
  @@ (IF ty = "lstm" THEN [recurrent_activation |-> One({"logistic", "tanh", "loggy"})] ELSE <<>>)
ConvOf(sh, sz, sd, pd, nf, z) ==
  <<[type |-> "convolutional", activation |-> One(Acts), height |-> sh[1], width |-> sh[2], channels |-> sh[3], n_init |-> nf, size |-> sz, stride |-> sd, pad |-> pd] @@ Options(FALSE, nf, TRUE, z),
    <<(sh[1] + 2 * pd - sz) \div sd + 1, (sh[2] + 2 * pd - sz) \div sd + 1, nf>>>>
PoolOf(sh, sz, sd, pd) ==
  <<[type |-> "maxpool", height |-> sh[1], width |-> sh[2], channels |-> sh[3], size |-> sz, stride |-> sd, pad |-> pd],
    <<(sh[1] + pd - sz) \div sd + 1, (sh[2] + pd - sz) \div sd + 1, sh[3]>>>>
Small(sh) == IF sh[1] < sh[2] THEN sh[1] ELSE sh[2]
ConvAny(sh, steady, z) ==
  LET pd == One(0..1) sz == IF steady THEN 1 ELSE One({k \in 1..3 : k <= Small(sh) + 2 * pd}) sd == One(1..2) IN ConvOf(sh, sz, sd, pd, One(1..3), z)
PoolAny(sh, steady, z) ==
  LET sz == IF steady THEN 1 ELSE One({k \in 1..3 : k <= Small(sh)}) pd == IF sz = 1 THEN 0 ELSE One(0..(sz - 1)) sd == One(1..2) IN PoolOf(sh, sz, sd, pd)
(* the shape of a layer that is not an image: a single row.  steady: the rows   *)
(* below may grow and shrink, so kernels larger than one cell may not fit        *)
Middle(sh, first, steady, z) ==
  LET u == One(IF first THEN {1, 1, 2, 3, 4, 5, 5, 5, 6, 7, 8, 9} ELSE 1..11) n == One(1..4) IN
  CASE u = 1 -> <<Full("connected", FALSE, n, z), <<1, n, 1>>>>
    [] u = 2 -> <<Full("recurrent", FALSE, n, z), <<1, n, 1>>>>
    [] u = 3 -> <<Full("lstm", FALSE, IF n > 3 THEN 3 ELSE n, z), <<1, IF n > 3 THEN 3 ELSE n, 1>>>>
    [] u = 4 -> <<Full("connected", FALSE, n, z), <<1, n, 1>>>>
    [] u \in {5, 6} -> ConvAny(sh, steady, z)
    [] u = 7 -> PoolAny(sh, steady, z)
    [] u = 8 -> (IF Size(sh) > 12 THEN <<[type |-> "avgpool", height |-> sh[1], width |-> sh[2], channels |-> sh[3]], <<1, 1, sh[3]>>>>
                ELSE <<[type |-> "upsample", height |-> sh[1], width |-> sh[2], channels |-> sh[3], stride |-> 2], <<2 * sh[1], 2 * sh[2], sh[3]>>>>)
    [] u = 9 -> <<[type |-> "avgpool", height |-> sh[1], width |-> sh[2], channels |-> sh[3]], <<1, 1, sh[3]>>>>
    [] u = 10 -> <<[type |-> "dropout", probability |-> Rat(One({0, 2, 5, 9}), 10)], sh>>
    [] u = 11 -> (IF Coin(50) THEN <<[type |-> "noise", probability |-> Rat(One({0, 3, 10}), 10), scale |-> Rat(One({1, 10}), 10)], sh>>
                                ELSE <<[type |-> "softmax", scale |-> Rat(One({5, 10, 20}), 10)], sh>>)
RECURSIVE Stack(_, _, _, _, _)
Stack(q, sh, k, steady, z) ==
  IF k = 0 THEN q
  ELSE \* bind the drawn layer once
       LET F1(m) == Stack(Append(q, m[1]), m[2], k - 1, steady \/ m[1].type \in {"connected", "recurrent", "lstm"}, z)
           pick == CHOOSE m \in {Middle(sh, q = <<>>, steady, z)} : TRUE IN F1(pick)
LastLayers(yd, z) ==
  LET u == One(1..10) IN
  IF u <= 6 THEN <<Full("connected", TRUE, yd, z)>>
  ELSE IF u = 7 THEN <<Full("recurrent", TRUE, yd, z)>>
  ELSE IF u = 8 THEN <<Full("lstm", TRUE, yd, z)>>
  ELSE <<Full("connected", TRUE, yd, z), [type |-> "softmax", scale |-> Rat(One({5, 10, 10}), 10)]>>
Noisy(sh, z) == IF Coin(50) THEN <<[type |-> "noise", probability |-> Rat(One({0, 3, 10}), 10), scale |-> Rat(One({1, 10}), 10)]>> ELSE <<[type |-> "dropout", probability |-> "0.3"]>>
Named(q) == [k \in {"layer_" \o ToString(i - 1) : i \in 1..Len(q)} |-> q[CHOOSE i \in 1..Len(q) : k = "layer_" \o ToString(i - 1)]]
Init == c = <<>> /\ ops = <<>>
Choose ==
  \E h \in {One(1..3)} : \E w \in {One(1..4)} : \E ch \in {One(1..2)} : \E yd \in {One(1..3)} : \E u \in {One(1..10)} : \E k \in {One(0..3)} :
  \E q \in {IF u = 1 THEN Noisy(<<h, w, ch>>, 0) ELSE Stack(<<>>, <<h, w, ch>>, k, FALSE, 0)} :
  \E t \in {LastLayers(yd, 0)} :
    c' = [xd |-> h * w * ch, yd |-> yd, seed |-> One(1..1000000), layers |-> q \o t, net |-> Named(q \o t)]
Val(z) == Rat(One(-20..20), 10)
X(z) == [i \in 1..c.xd |-> Val(i)]
(* outputs: changed when decoder layers are exchanged for classes               *)
Turns == {i \in 1..Len(ops) : ops[i].op = "toclass"}
Outs == IF Turns = {} THEN c.yd ELSE ops[CHOOSE i \in Turns : \A j \in Turns : j <= i].y
Y(z) == [i \in 1..Outs |-> Rat(One({-50, -10, 0, 0, 5, 10, 10, 100, 300}), 10)]
Op(z) ==
  LET u == One(1..100) IN
  IF u <= 35 THEN [op |-> "fwd", tr |-> Coin(50), x |-> X(z)]
  ELSE IF u <= 65 THEN [op |-> "learn", tr |-> Coin(80), x |-> X(z), t |-> Y(z)]
  ELSE IF u <= 75 THEN [op |-> "mut"]
  ELSE IF u <= 85 THEN [op |-> "mut1", k |-> One(0..4)]
  ELSE IF u <= 92 THEN [op |-> "copy"]
  ELSE IF u <= 95 THEN [op |-> "file"]
  ELSE IF u <= 97 THEN [op |-> "expand"]
  ELSE IF u <= 98 THEN [op |-> "toclass", y |-> One(1..4), d |-> One(0..3)]
  ELSE [op |-> "rand"]
Next ==
  \/ c = <<>> /\ Choose /\ ops' = <<>>
  \/ /\ c # <<>> /\ Len(ops) < MaxOps /\ UNCHANGED c
     /\ ops' = Append(ops, Op(0))
     /\ (Len(ops') = MaxOps => PrintT("SCN " \o ToJson(c @@ [ops |-> ops'])))
Spec == Init /\ [][Next]_vars
=============================================================================
