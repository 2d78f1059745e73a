------------------------------ MODULE Gen_C23 ------------------------------
(***************************************************************************)
(* C23: the calls that are to be accepted or rejected.  A call is an       *)
(* operation, a size and, argument by argument, a way in which it is right *)
(* or wrong; every combination is enumerated, so that a wrong argument is  *)
(* also met together with the arguments (all-zero matrices, empty          *)
(* repetitions, odd totals ...) for which the operation takes a shortcut.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Quick == IOEnv.WALRUS_TIER = "quick"
NV == IF Quick THEN 0..0 ELSE 0..4
Bit(b) == IF b THEN 1 ELSE 0
B == {0, 1}
N0 == IF Quick THEN {0, 1, 2, 3, 4, 6} ELSE 0..7
N1 == N0 \ {0}
(* ways to get a matrix wrong; "in" is asymmetric within the tolerance, "out" outside *)
MatDef == {"ok", "list", "wide", "tall", "asym", "in", "out", "nan", "nandiag", "asymlast"}
Base == {"real", "complex", "int", "zero", "diag"}
Tol == {"default", "loose", "strict"}
Mu == {"none", "ok", "short", "long", "one", "empty"}
Rpt == {"ok", "ones", "zero", "odd", "short", "long", "zeroshort", "neg", "frac", "negzero", "fraczero", "negodd"}
Ok(x) == ~(x.n = 0 /\ (x.d \notin {"ok", "list"} \/ x.b # "real"))
        /\ ~(x.n = 1 /\ x.d \in {"asym", "in", "out", "asymlast"})
        /\ (x.d \in {"in", "out"} => x.b \in {"real", "complex", "zero", "diag"})
        /\ (x.d \notin {"in", "out", "ok"} => x.t = "default")
        /\ ~(x.b = "int" /\ x.d \in {"nan", "nandiag"})
Sym == {x \in [n : N0, d : MatDef, b : Base, t : Tol, v : NV] : Ok(x)}
Some(S) == {x \in S : x.t = "default" \/ x.d \in {"in", "out"}}
Plus(f, S) == {[op |-> f.op, a |-> f, m |-> x] : x \in S}
Hafs == UNION {Plus([op |-> "hafnian", loop |-> l, how |-> h], Some(Sym)) : l \in B, h \in {"glynn", "inclexcl", "recursive", "approx"}}
Rep == UNION {Plus([op |-> "hafnian_repeated", loop |-> l, rpt |-> r, mu |-> mu, glynn |-> Bit(mu # "ok")],
              {x \in Some(Sym) : x.n \in {1, 2, 3} /\ (x.d \in {"ok", "in", "out"} \/ (mu \in {"none", "short"} /\ r \in {"ok", "zero", "odd", "short", "neg"}))}) : l \in B, r \in Rpt, mu \in Mu}
Lhaf == UNION {Plus([op |-> "loop_hafnian", rpt |-> r, mu |-> mu, glynn |-> g], [n : 1..4, d : {"ok"}, b : {"real", "complex", "zero"}, t : {"default"}, v : NV])
                 : r \in {"ok", "ones", "zero", "odd", "short", "long", "zeroshort"}, mu \in Mu, g \in B}
Ban == UNION {Plus([op |-> "hafnian_banded", loop |-> l], Some(Sym)) : l \in B}
Her == UNION {Plus([op |-> o, mu |-> mu, renorm |-> r, modified |-> md], {x \in Some(Sym) : x.n \in {1, 2, 3} /\ (x.d \in {"ok", "in", "out"} \/ mu \in {"none", "ok", "short"})})
                 : o \in {"hafnian_batched", "hermite"}, mu \in Mu, r \in B, md \in B}
Inte == Plus([op |-> "interferometer"], {x \in Some(Sym) : x.n \in {2, 4}})
Gen2 == {x \in [n : N0, d : {"ok", "list", "wide", "tall", "nan", "nandiag", "asym"}, b : Base, t : {"default"}, v : NV] : Ok(x)}
NoList(S) == {x \in S : x.d # "list"}
NoNan(S) == {x \in S : x.d \notin {"nan", "nandiag"}}
Per == UNION {Plus([op |-> "perm", how |-> h], {x \in Gen2 : x.n > 0}) : h \in {"bbfg", "ryser"}}
PerRep == UNION {Plus([op |-> "permanent_repeated", rpt |-> r], {x \in NoList(Gen2) : x.n \in {1, 2, 3}}) : r \in Rpt}
RecH == Plus([op |-> "recursive_hafnian"], {x \in NoList(NoNan(Gen2)) : x.n > 1})
Ref == UNION {Plus([op |-> "reference_hafnian", loop |-> l], {x \in NoList(NoNan(Gen2)) : x.n > 1}) : l \in B}
Tors == UNION {Plus([op |-> "tor", how |-> h], {x \in NoNan(Gen2) : x.b # "int"}) : h \in {"recursive", "direct"}} \cup Plus([op |-> "mtl"], {x \in NoNan(Gen2) : x.n > 0 /\ x.b # "int"})
LTors == UNION {Plus([op |-> o, mu |-> mu, garr |-> g, how |-> h], {x \in NoNan(Gen2) : x.n > 0 /\ x.n < 5 /\ x.b # "int"})
                 : o \in {"ltor"}, mu \in Mu \ {"none"}, g \in B, h \in {"recursive", "direct"}}
         \cup UNION {Plus([op |-> "lmtl", mu |-> mu, garr |-> g], {x \in NoNan(Gen2) : x.n > 0 /\ x.n < 5 /\ x.b # "int"}) : mu \in Mu \ {"none"}, g \in B}
(* counts *)
Pats(k) == [1..k -> 0..2]
Fock == {[op |-> "fock_prob", a |-> [op |-> "fock_prob", s |-> s, o |-> o]] : s \in Pats(2), o \in Pats(2)}
        \cup {[op |-> "fock_prob", a |-> [op |-> "fock_prob", s |-> s, o |-> o]] : s \in Pats(3), o \in {<<1, 1, 0>>, <<2, 0, 1>>, <<0, 0, 0>>}}
Thr == {[op |-> "fock_threshold_prob", a |-> [op |-> "fock_threshold_prob", rows |-> r, cols |-> c, ln |-> ln, ld |-> ld, fill |-> f]]
          : r \in 1..3, c \in 1..3, ln \in 0..4, ld \in 0..4, f \in {"zero", "one"}}
Grad == {[op |-> "grad_hermite", a |-> [op |-> "grad_hermite", n |-> n, mu |-> mu, renorm |-> r]] : n \in 1..3, mu \in Mu \ {"none"}, r \in B}
Batch == {[op |-> "batch", a |-> [op |-> "batch", n |-> n, mu |-> mu, rpt |-> r, sq |-> s, gamma |-> g]]
            : n \in 2..4, mu \in {"ok", "short", "long"}, r \in {"ok", "short", "long", "zero", "zeroshort"}, s \in {"ok", "wide", "tall"}, g \in B}
(* decompositions *)
Will == UNION {Plus([op |-> "williamson", pd |-> p], {x \in NoList(NoNan(Some([n : {1, 2, 3, 4, 6}, d : MatDef, b : {"real", "diag"}, t : Tol, v : NV]))) : Ok(x)})
               : p \in {"ok", "semi", "neg", "negone", "small"}}
Symp == UNION {Plus([op |-> o, kind |-> k], {[n |-> n, d |-> "ok", b |-> "real", t |-> "default", v |-> v] : n \in {2, 4, 6}, v \in NV})
               : o \in {"blochmessiah", "pre_iwasawa", "iwasawa", "fock_tensor"}, k \in {"ok", "identity", "passive", "in", "out", "scaled", "perturbed", "xpxp", "odd", "wide", "zero"}}
Tak == Plus([op |-> "takagi"], {x \in NoList(NoNan(Gen2)) : x.n > 0 /\ x.d \in {"ok", "wide", "tall"}})
Band == {[op |-> "random_banded", a |-> [op |-> "random_banded", N |-> n, w |-> w, real |-> r, top |-> t]] : n \in 1..6, w \in 0..8, r \in B, t \in B}
(* Gaussian states: kinds of covariance matrices, hbar, bipartitions *)
Cov == {"vacuum", "pure", "mixed", "thermal", "classical", "below", "inside", "asymin", "asymout", "justpure", "notpure", "odd", "wide", "flip", "xpxp", "nanv", "listv"}
States == [n : 1..3, cov : Cov, h : {"2", "1", "0.5"}, v : NV]
St(f, cs) == {[op |-> f.op, a |-> f, s |-> x] : x \in {x \in States : x.cov \in cs}}
Plain == Cov \ {"nanv", "listv"}
Square == Plain \ {"odd", "wide"}
Samp == UNION {St([op |-> "sample_state", f |-> f, mean |-> m], {"vacuum", "mixed", "classical", "listv", "nanv", "wide"}) : f \in {"hafnian", "torontonian"}, m \in B}
Clas == UNION {St([op |-> "sample_classical", f |-> f, mean |-> m], Plain) : f \in {"hafnian", "torontonian"}, m \in {"none", "ok", "short", "long", "matrix", "col"}}
Vonn == St([op |-> "vonneumann"], Plain)
Parts == {"none", "int", "list", "tuple", "array", "range", "str", "float", "high", "neg", "fracmode", "highlast", "inthigh", "intneg"}
Splits == {"none", "ok", "high", "neg", "frac", "zero"}
Ent == UNION {St([op |-> o, modes |-> m, split |-> s], Square \ {"asymin", "asymout", "inside"}) : o \in {"entropy", "negativity"}, m \in Parts, s \in {"none", "ok"}}
       \cup UNION {St([op |-> o, modes |-> "none", split |-> s], {"pure", "vacuum", "mixed"}) : o \in {"entropy", "negativity"}, s \in Splits}
Vec == UNION {St([op |-> o, check |-> c, mean |-> m], IF c = 1 THEN Square ELSE {"pure", "vacuum", "justpure", "mixed"}) : o \in {"state_vector", "amplitude"}, c \in B, m \in B}
       \cup St([op |-> "pure_distribution"], Square)
Tvd == UNION {St([op |-> "tvd", check |-> c, tol |-> t], IF c = 1 THEN Square ELSE {"vacuum", "pure", "mixed"}) : c \in B, t \in {"default", "loose", "strict"}}
Marg == UNION {St([op |-> "marginals", order |-> o, mean |-> m], {"mixed", "odd", "wide"}) : o \in 1..4, m \in {"ok", "short", "long"}}
Reds == {[op |-> o, a |-> [op |-> o, n |-> n, modes |-> m, how |-> h]] : o \in {"reduced_state", "reduced_gaussian"}, n \in 1..3,
           m \in {<<0>>, <<1>>, <<2>>, <<3>>, <<-1>>, <<0, 1>>, <<1, 0>>, <<0, 2>>, <<0, -1>>, <<-1, 0>>, <<0, 1, 2>>, <<2, 1, 3>>, <<0, 1, 2, 3>>, <<1, -3>>}, h \in {"int", "list", "tuple", "array"}}
Exp == {[op |-> "expand_passive", a |-> [op |-> "expand_passive", rows |-> r, cols |-> c, k |-> k]] : r \in 1..3, c \in 1..3, k \in 0..4}
Reo == {[op |-> "reorder", a |-> [op |-> "reorder", f |-> f, rows |-> r, cols |-> c]] : f \in {"xxpp_to_xpxp", "xpxp_to_xxpp"}, r \in 0..6, c \in 0..6}
Adj == {[op |-> "adj_scaling_torontonian", a |-> [op |-> "adj_scaling_torontonian", n |-> n, c |-> c]] : n \in 2..4, c \in {"-1", "-0.001", "0.5", "1", "1.9", "2.1", "3.5", "4.001", "7"}}
       \cup Plus([op |-> "adj_scaling"], {x \in [n : 1..4, d : {"ok"}, b : {"real", "zero", "diag"}, t : {"default"}, v : NV] : TRUE})
       \cup Plus([op |-> "adj_to_qmat"], {x \in [n : 2..4, d : {"ok", "wide", "tall"}, b : {"real", "complex"}, t : {"default"}, v : NV] : TRUE})
Resc == UNION {Plus([op |-> "rescale", pos |-> p, chk |-> c, sym |-> s, f |-> f], {x \in [n : 2..4, d : {"ok", "asym", "in", "out"}, b : {"real"}, t : Tol, v : NV] : Ok(x)})
               : p \in {"ok", "semi", "neg", "negin", "negout"}, c \in B, s \in B, f \in {"full", "thermal"}}
Loss == {[op |-> "loss_mat", a |-> [op |-> "loss_mat", eta |-> e, c |-> c]] : e \in {"0", "1", "0.3", "-0.1", "1.1", "-1e-9", "1.000001", "2"}, c \in 1..3}
        \cup {[op |-> "update_loss", a |-> [op |-> "update_loss", M |-> m, etas |-> es]] : m \in 1..3,
               es \in UNION {[1..k -> {"0.4", "1", "0", "1.2", "-0.2"}] : k \in 0..3}}
        \cup {[op |-> "update_noise", a |-> [op |-> "update_noise", M |-> m, k |-> k]] : m \in 1..3, k \in 0..4}
Fid == {[op |-> "fidelity", a |-> [op |-> "fidelity", l |-> l]] : l \in [1..4 -> {2, 4, 6}]} \cup {[op |-> "fidelity", a |-> [op |-> "fidelity", l |-> <<2, 2, 2, 2>>, rect |-> r]] : r \in 1..2}
Nan == {[op |-> "nan", a |-> [op |-> "nan", f |-> f, n |-> n, at |-> at]] : f \in {"tor", "ltor", "mtl", "lmtl", "Qmat", "Amat", "photon_mean", "photon_var", "prob", "threshold", "fidelity", "density", "hermite_y", "batched_mu", "repeated_mu", "charpoly"},
          n \in {2, 4}, at \in {"corner", "diag", "last"}}
ASSUME ndJsonSerialize(IOEnv.WALRUS_OUT,
  SetToSeq(Hafs) \o SetToSeq(Rep) \o SetToSeq(Lhaf) \o SetToSeq(Ban) \o SetToSeq(Her) \o SetToSeq(Inte) \o SetToSeq(Per) \o SetToSeq(PerRep) \o SetToSeq(RecH) \o SetToSeq(Ref)
  \o SetToSeq(Tors) \o SetToSeq(LTors) \o SetToSeq(Fock) \o SetToSeq(Thr) \o SetToSeq(Grad) \o SetToSeq(Batch) \o SetToSeq(Will) \o SetToSeq(Symp) \o SetToSeq(Tak)
  \o SetToSeq(Band) \o SetToSeq(Samp) \o SetToSeq(Clas) \o SetToSeq(Vonn) \o SetToSeq(Ent) \o SetToSeq(Vec) \o SetToSeq(Tvd) \o SetToSeq(Marg) \o SetToSeq(Reds)
  \o SetToSeq(Exp) \o SetToSeq(Reo) \o SetToSeq(Adj) \o SetToSeq(Resc) \o SetToSeq(Loss) \o SetToSeq(Fid) \o SetToSeq(Nan))
VARIABLE x
Init == x = 0
Next == x' = 1 /\ x = 0
=============================================================================
