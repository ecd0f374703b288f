-------------------------------- MODULE Algo --------------------------------
(* One update of every solver, as a relation: XStep(c, s) is the set of       *)
(* states reachable from s (several only where a test sits on its boundary,   *)
(* where rounding may decide either way).  c holds the problem and the        *)
(* parameters of one solver object, s its iterates and internal parameters.   *)
EXTENDS Fista

None == "none"
Upd(u, v) == IF u = None THEN v ELSE FMul(u, v)       \* user update: v -> u*v

----------------------------------------------------------------------------
(* Forward-backward with FISTA acceleration                                   *)
FBInit(c) == [x |-> c.x0, z |-> c.x0, beta |-> c.beta, lam |-> c.lam, f |-> FistaInit(c)]
FBStep(c, s) ==
    LET g == Grad(c.p, s.z)
        y == VAxpy(s.z, FNeg(s.beta), g)
        xn == Prox(c.prox, y, Fac(y, s.beta))
        zi == VAxpy(s.x, s.lam, VSub(xn, s.x))
        Outcomes == IF c.fista THEN FistaRestart(c, s.f, s.z, xn, s.x) ELSE {[crit |-> FALSE, s |-> s.f]}
        Next(o) ==
            LET la == IF c.fista THEN FistaLambda(c, o.s) ELSE [lam |-> Upd(c.lamupd, s.lam), s |-> o.s]
                beta == IF c.betaupd # None THEN Upd(c.betaupd, s.beta)
                        ELSE IF c.fista THEN FistaBeta(c, o.s, s.beta) ELSE s.beta
            IN [x |-> xn, z |-> IF o.crit THEN xn ELSE zi, beta |-> beta, lam |-> la.lam, f |-> la.s]
    IN {Next(o) : o \in Outcomes}

----------------------------------------------------------------------------
(* Generalised forward-backward                                               *)
GFBInit(c) == [x |-> c.x0, z |-> [i \in 1..Len(c.proxs) |-> c.x0], gam |-> c.gam, lam |-> c.lam]
GFBStep(c, s) ==
    LET g == Grad(c.p, s.x)
        zn == TLCEval([i \in DOMAIN s.z |->
                 LET tmp == VAxpy(VSub(VScale("2.0", s.x), s.z[i]), FNeg(s.gam), g)
                     pr == Prox(c.proxs[i], tmp, Fac(tmp, FDiv(s.gam, c.w[i])))
                 IN VAxpy(s.z[i], s.lam, VSub(pr, s.x))])
        xn == TLCEval([k \in DOMAIN s.x |-> FSum([i \in DOMAIN zn |-> FMul(c.w[i], zn[i][k])])])
    IN {[x |-> xn, z |-> zn, gam |-> Upd(c.gamupd, s.gam), lam |-> Upd(c.lamupd, s.lam)]}

----------------------------------------------------------------------------
(* POGM: proximal optimised gradient method with restart                      *)
POGMInit(c) == [u |-> c.u0, x |-> c.x0, y |-> c.y0, z |-> c.z0, xi |-> "1.0", sig |-> "1.0", t |-> "1.0",
                g |-> Grad(c.p, c.x0)]
POGMStep(c, s) ==
    LET gr == Grad(c.p, s.x)
        u == VAxpy(s.x, FNeg(c.beta), gr)
        tn == FMul("0.5", FAdd("1.0", FSqrt(FAdd("1.0", FMul("4.0", FMul(s.t, s.t))))))
        r1 == FDiv(FSub(s.t, "1.0"), tn)
        r2 == FDiv(FMul(s.sig, s.t), tn)
        z == VAdd(VAxpy(VAxpy(u, r1, VSub(u, s.u)), r2, VSub(u, s.x)),
                  VScale(FDiv(FMul(r1, c.beta), s.xi), VSub(s.z, s.x)))
        xi == FMul(c.beta, FAdd("1.0", FAdd(r1, r2)))
        xn == Prox(c.prox, z, Fac(z, xi))
        gn == VAxpy(gr, FDiv("-1.0", xi), VSub(xn, z))
        yn == VAxpy(s.x, FNeg(c.beta), gn)
        v1 == FNeg(FRe(FVdot(gn, VSub(yn, s.y))))
        v2 == FRe(FVdot(gn, s.g))
        Restart == IF NearZero(v1, FMul(VNorm(gn), FAdd(VNorm(yn), VNorm(s.y)))) THEN {TRUE, FALSE} ELSE {FLt(v1, "0.0")}
        Damp == IF NearZero(v2, FMul(VNorm(gn), VNorm(s.g))) THEN {TRUE, FALSE} ELSE {FLt(v2, "0.0")}
        Next(re, da) ==
            [u |-> u, x |-> xn, y |-> yn, z |-> z, xi |-> xi, g |-> gn,
             t |-> IF re THEN "1.0" ELSE tn,
             sig |-> IF re THEN "1.0" ELSE IF da THEN FMul(s.sig, c.sigbar) ELSE s.sig]
    IN {Next(re, da) : re \in Restart, da \in Damp}

----------------------------------------------------------------------------
(* Condat primal-dual; the dual operator's weights w change when reweighted   *)
CondatInit(c) == [x |-> c.x0, y |-> c.y0, rho |-> c.rho, sig |-> c.sig, tau |-> c.tau, w |-> c.dual.w]
CondatStep(c, s) ==
    LET g == Grad(c.p, s.x)
        xa == VAxpy(VAxpy(s.x, FNeg(s.tau), g), FNeg(s.tau), LinAdj(c.lin, s.y))
        xp == Prox(c.prox, xa, Fac(xa, "1.0"))
        yt == VAxpy(s.y, s.sig, LinOp(c.lin, VSub(VScale("2.0", xp), s.x)))
        is == FDiv("1.0", s.sig)
        yp == VAxpy(yt, FNeg(s.sig), Prox([c.dual EXCEPT !.w = s.w], VScale(is, yt), Fac(yt, is)))
        Mix(new, old) == VAdd(VScale(s.rho, new), VScale(FSub("1.0", s.rho), old))
    IN {[x |-> Mix(xp, s.x), y |-> Mix(yp, s.y), rho |-> Upd(c.rhoupd, s.rho),
         sig |-> Upd(c.sigupd, s.sig), tau |-> Upd(c.tauupd, s.tau), w |-> s.w]}
CondatReweight(c, s) == [s EXCEPT !.w = VMul(s.w, c.rwf)]

----------------------------------------------------------------------------
(* Gradient descent family.  idx: iteration index within the current run.     *)
GDInit(c) == LET n == Len(c.x0) IN
    [x |-> c.x0, eta |-> c.eta, dir |-> VZero(n),
     speed |-> IF c.kind \in {"vanilla", "momentum"} THEN VConst(n, "1.0") ELSE VZero(n),
     bp |-> "1.0", gp |-> "1.0",
     mem |-> [k \in 1..(IF c.kind = "saga" THEN c.epoch ELSE 0) |-> VZero(n)]]
Sq(v) == VMap(LAMBDA a : LET m == FAbs(a) IN FMul(m, m), v)
GDStep(c, s, idx) ==
    LET g == Grad(c.p, s.x)
        bp == IF c.kind = "adam" THEN FMul(s.bp, c.beta) ELSE s.bp
        gp == IF c.kind = "adam" THEN FMul(s.gp, c.gamma) ELSE s.gp
        cyc == (idx % c.epoch) + 1
        dir == CASE c.kind = "momentum" -> VAxpy(g, c.beta, s.dir)
                 [] c.kind = "adam" -> VScale(FDiv("1.0", FSub("1.0", bp)),
                                              VAxpy(VScale(FSub("1.0", c.beta), g), c.beta, s.dir))
                 [] c.kind = "saga" -> VAdd(VSub(s.dir, s.mem[cyc]), g)
                 [] OTHER -> g
        speed == CASE c.kind = "ada" -> VAdd(s.speed, Sq(g))
                   [] c.kind = "rmsprop" -> VAxpy(VScale(FSub("1.0", c.gamma), Sq(g)), c.gamma, s.speed)
                   [] c.kind = "adam" -> VScale(FDiv("1.0", FSub("1.0", gp)),
                                                VAxpy(VScale(FSub("1.0", c.gamma), Sq(g)), c.gamma, s.speed))
                   [] OTHER -> s.speed
        eps == IF c.kind \in {"vanilla", "momentum"} THEN "0.0" ELSE c.eps
        step == VMap(LAMBDA a : FDiv(s.eta, FAdd(FSqrt(a), eps)), speed)
        xm == VSub(s.x, VMul(step, dir))
        epoch == idx % c.epoch = 0
    IN {[x |-> IF epoch THEN Prox(c.prox, xm, step) ELSE xm,
         dir |-> IF epoch /\ c.kind = "momentum" THEN VZero(Len(xm)) ELSE dir,
         speed |-> speed, bp |-> bp, gp |-> gp,
         mem |-> IF c.kind = "saga" THEN [s.mem EXCEPT ![cyc] = g] ELSE s.mem,
         eta |-> IF c.etaupd = None THEN s.eta ELSE FAdd(FMul(c.etaupd, s.eta), FMul(c.etaidx, FOf(idx)))]}

----------------------------------------------------------------------------
(* ADMM and fast ADMM.  The two user optimisers are affine in their warm      *)
(* start and observation; carry is the variable added to the constraint       *)
(* observation: "u" (the code's choice) or "mu" (the textbook's).             *)
Opt(o, init, obs) == VAdd(VAdd(MatVec(o.P, init), MatVec(o.Q, obs)), o.r)
ADMMInit(c) == [u |-> c.u0, v |-> c.v0, mu |-> c.mu0, vh |-> c.v0, muh |-> c.mu0, al |-> c.alpha, cc |-> "Infinity"]
Carry(c, s, carry) == IF carry = "u" THEN s.u ELSE IF c.fast THEN s.muh ELSE s.mu
ADMMObs1(c, s, carry) == VSub(VAdd(LinOp(c.B, IF c.fast THEN s.vh ELSE s.v), Carry(c, s, carry)), c.b)
ADMMStep(c, s, carry) ==
    LET vin == IF c.fast THEN s.vh ELSE s.v
        muin == IF c.fast THEN s.muh ELSE s.mu
        u == Opt(c.opt1, s.u, ADMMObs1(c, s, carry))
        au == LinOp(c.Aop, u)
        v == Opt(c.opt2, vin, VSub(VAdd(au, Carry(c, s, carry)), c.b))
        mu == VAdd(muin, VSub(VAdd(au, LinOp(c.B, v)), c.b))
    IN IF ~c.fast THEN {[s EXCEPT !.u = u, !.v = v, !.mu = mu]}
       ELSE LET cn == FAdd(VNorm(VSub(mu, muin)), FMul(c.tau, VNorm(LinOp(c.B, VSub(v, vin)))))
                lim == FMul(c.eta, s.cc)
                Go == IF ~Exact(c) /\ FClose(cn, lim, "1e-8", "1e-14") THEN {TRUE, FALSE} ELSE {FLt(cn, lim)}
                an == FDiv(FAdd("1.0", FSqrt(FAdd("1.0", FMul("4.0", FMul(s.al, s.al))))), "2.0")
                be == FDiv(FSub(s.al, "1.0"), an)
                Next(go) == IF go
                    THEN [u |-> u, v |-> v, mu |-> mu, vh |-> VAxpy(v, be, VSub(v, s.v)),
                          muh |-> VAxpy(mu, be, VSub(mu, s.mu)), al |-> an, cc |-> cn]
                    ELSE [u |-> u, v |-> v, mu |-> mu, vh |-> s.v, muh |-> s.mu, al |-> "1.0",
                          cc |-> FDiv(s.cc, c.eta)]
            IN {Next(go) : go \in Go}
=============================================================================
