------------------------------ MODULE Reweight ------------------------------
(* Candes-Wakin-Boyd reweighting: state is the weights w and the originals.   *)
EXTENDS Vec
NewWeights(w, w0, n, x) ==
    TLCEval([i \in DOMAIN w |->
        FMul(w[i], FDiv("1.0", FAdd("1.0", FDiv(FAbs(x[i]), FMul(n, w0[i])))))])
=============================================================================
