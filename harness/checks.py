"""Registry of the symbolic checks: property -> harness runs."""
CHECKS = {}


def P(pid, title, level="model_checking", parts=(), **kw):
    CHECKS[pid] = dict(title=title, level=level, parts=list(parts), **kw)


def part(harness, runs, **kw):
    return dict(harness=harness, runs=runs, **kw)


def R(*args, **kw):
    return dict(args=list(args), **kw)


P("C01", "Calendar arithmetic", parts=[
    part("calendar", [R(m, c, n, reach=[m]) for c, L in (
        ("noleap", (("seconds", 60), ("days", 100), ("months", 30), ("delta", 60), ("construct", 60), ("order", 0))),
        ("standard", (("seconds", 40), ("days", 70), ("months", 13), ("delta", 40), ("construct", 40), ("order", 0))))
        for m, n in L]
         + [R("difference", "noleap", reach=["difference"])]
         + [R(m, c, n, reach=[m], tier="thorough", deadline=1500) for c in ("noleap", "standard")
            for m, n in (("seconds", 800), ("days", 800), ("months", 60), ("delta", 400), ("construct", 400))],
         bounds="years: any (no-leap) or 1896 1899 1900 1903 1999 2000 2023 2100 (standard); every month, day, second, microsecond; "
                "shift bounded by the last argument (days or months), seconds by as many days"),
])
P("C02", "Text forms of times", parts=[
    part("calendar", [R("text", "noleap", n, reach=["text"]) for n in (0, 1, 2, 4, 5, 6, 7, 8, 10, 12, 13)]
         + [R("free", "noleap", n, reach=["free"]) for n in range(5)] + [R("free", "noleap", 5, reach=["free"], tier="thorough")]
         + [R("units", "noleap", reach=["units"])],
         bounds="text: one field group symbolic at a time over its whole range (years 0-9999), the others at fixed values; "
                "free: every text of N characters; units: every count up to 6 digits per unit"),
])


def W(mode, *cfgs, **kw):
    """runs of a model harness: each configuration followed by the mode word"""
    return [R(*(c + " " + mode).split(), reach=[mode.split()[0]], **kw) for c in cfgs]


WORLD = "one configuration per run (grid, element order, levels, patches); initial fields are a base state plus symbolic " \
        "amplitudes in [-1,1] times fixed mode shapes or fixed pseudo-random node values"
P("C05", "Message exchange", parts=[
    part("dyn", W("decomp", "cart sw nx=4 ranks=2 ch=8", "cs sw n=2 ranks=2 ch=7", "cs sw n=2 ranks=3 ch=5", "cart nh tr nx=3 l=2 ranks=3 ns=1 ch=4",
                  "cs sw o=3 n=2 ranks=6", "cs nh tr n=2 l=2 o=3 ranks=4 np=0 ns=1")
         + W("decomp", "cart sw nx=4 ranks=2 ch=12", "cs sw n=2 ranks=3 ch=9", "cs sw n=2 ranks=4 ch=7", "cs sw step n=2 ranks=2 ch=4", tier="thorough", deadline=1500),
         bounds=WORLD + "; 2 to 6 processes; the first ch decisions (which process runs, which message is matched, whether it has arrived, buffered or "
         "rendezvous sends) are symbolic, later ones round-robin"),
])
P("C06", "Continuity across elements", parts=[
    part("dyn", W("dss", "cart sw", "cart sw o=3 n=3", "cart sw nx=4 np=4", "cart xz nx=3 nh", "cs sw", "cs sw o=3 n=2", "cs sw np=24 n=2", "cart nh tr",
                  "cart nh stag=cph", "cs nh tr o=3 l=2", "cs sw n=3 o=5", "cs nh stag=cph l=2 o=3"), bounds=WORLD),
])
P("C07", "Independence of the patch layout", parts=[
    part("dyn", W("decomp", "cart sw nx=4 np=4", "cart sw nx=3 np=2", "cart nh tr nx=4 np=2 l=2 ns=1 vert", "cs sw np=24 n=2 step", "cs sw np=54 n=3",
                  "cs nh tr np=24 n=2 ns=1 l=2 after hyp=4 nu=1e15", "cs sw np=24 n=2 hyp=4 nu=1e15 after", "cs sw np=24 n=2 topo=500 o=3",
                  "cart nh h=v2 v=v2 nx=4 np=4 l=2 ns=1"), bounds=WORLD),
])
P("C08", "Mass conservation", parts=[
    part("dyn", [R(*(s + " mass").split(), reach=["mass"]) for s in (
        "cart sw", "cart sw o=3 n=3", "cs sw", "cs sw o=3 n=2", "cs sw step n=2",
        "cart nh tr", "cart nh h=v2 v=v2 tr", "cart nh topo=500 ns=1", "cart nh vo=2 l=4 ns=1", "cart nh stag=cph ns=1", "cart nh ref o=3 ns=1",
        "cs nh ns=1", "cs nh topo=500 h=v2 v=v2 ns=1", "cs nh tr=2 l=2 ns=1",
        "cart nh expl tr ns=1", "cs nh expl tr ns=1 l=2 topo=500", "cart nh expl tr ns=1 vo=2 l=4 h=v2 v=v2", "cart nh expl tr ns=1 topo=500 h=v2 v=v2", "cart nh expl tr ns=1 topo=500")],
        bounds=WORLD),
])
P("C09", "Tracer consistency", parts=[
    part("dyn", [R(*(s + " consist").split(), reach=["consist"]) for s in (
        "cart nh tr=2 ns=1 l=2 o=3", "cart nh h=v2 v=v2 tr=2 ns=1 l=2", "cs nh tr=2 ns=1 l=2 o=3",
        "cart nh expl tr ns=1 l=2 o=3", "cart xz nh expl tr ns=1 l=3", "cs nh expl tr ns=1 l=2 topo=500 o=3", "cart nh expl tr ns=1 l=2 h=v2 v=v2")],
        bounds=WORLD),
])
P("C10", "Horizontal diffusion", parts=[
    part("diff", W("conserve pure", "cart sw hyp=2 nu=1e4", "cart sw hyp=4 nu=1e12", "cs sw hyp=2 nu=1e5", "cs sw hyp=4 nu=1e15 o=3 n=2", "cart nh tr hyp=4 nu=1e12",
                   "cart nh topo=400 hyp=2 nu=1e4", "cs nh h=v2 v=v2 hyp=4 nu=1e15")
         + W("conserve", "cart nh tr hyp=2 nu=1e4 ns=2", "cs nh tr hyp=4 nu=1e15 ns=2", "cart nh tr h=v2 v=v2 hyp=4 nu=1e12 ns=2")
         + W("uniform", "cart nh tr hyp=2 nu=1e4", "cart nh tr hyp=4 nu=1e12", "cs nh tr hyp=4 nu=1e15", "cs sw hyp=2 nu=1e5", "cart nh l=2 h=v2 v=v2 tr hyp=4 nu=1e12",
             "cs nh l=2 h=v2 v=v2 tr hyp=2 nu=1e5", "cart nh topo=400 tr hyp=4 nu=1e12")
         + W("laplacian", "cart nh tr n=3 hyp=2 nu=1e4", "cart sw n=3 hyp=2 nu=3e4", "cart nh tr h=v2 v=v2 n=3 hyp=2 nu=1e4")
         + W("veclap", "cart sw n=3 hyp=2 nus=1e4 nud=2e4 nuv=1e4", "cart nh n=3 hyp=2 nus=1e4 nud=2e4 nuv=3e4", "cart nh h=v2 v=v2 n=3 hyp=2 nus=1e4 nud=2e4 nuv=1e4")
         + W("sphlap", "cs sw hyp=2 o=6 n=2 nus=1e5 nud=3e5 nuv=1e5 tol=0.004 vtol=0.03", "cs nh tr l=2 hyp=2 o=6 n=2 nus=1e5 nud=1e5 nuv=2e5 tol=0.004 vtol=0.03",
             "cs nh tr l=2 hyp=2 h=v2 v=v2 n=3 nus=1e5 nud=1e5 nuv=2e5 tol=0.05 vtol=0.1", "cs nh tr l=2 stag=cph hyp=2 o=6 n=1 nus=1e5 nud=1e5 nuv=2e5 tol=0.05 vtol=0.2")
         + W("compose", "cart sw hyp=4 nus=1e12 nud=2e12 nuv=2e12", "cs sw hyp=4 nus=1e15 nud=2e15 nuv=2e15", "cart nh hyp=4 nus=1e12 nud=2e12 nuv=2e12",
             "cart nh h=v2 v=v2 hyp=4 nus=1e12 nud=2e12 nuv=2e12", "cs nh h=v2 v=v2 l=2 hyp=4 nus=1e15 nud=2e15 nuv=2e15"), bounds=WORLD),
])
P("C11", "Positive definite tracers", parts=[
    part("diff", W("filter", "cart nh tr hyp=2 nus=1e-30 l=2 o=3", "cs nh tr hyp=2 nus=1e-30 l=2 o=3", "cart nh l=2 h=v2 v=v2 tr hyp=2 nus=1e-30",
                   "cart nh tr=2 hyp=4 nus=1e-30 l=2 o=3 ns=1", "cart nh topo=400 tr hyp=2 nus=1e-30 l=2 o=3 ns=1", "cart nh tr hyp=2 nus=1e-30 l=2 o=3 scale=1e-15",
                   "cs nh h=v2 v=v2 tr hyp=2 nus=1e-30 l=2 scale=1e-15")
         + W("filter positive", "cart nh tr hyp=2 nus=1e-30 l=2", "cs nh tr hyp=2 nus=1e-30 l=2", "cart nh h=v2 v=v2 tr hyp=2 nus=1e-30 l=2"), bounds=WORLD),
])
P("C12", "Rayleigh sponge", parts=[
    part("diff", W("sponge", "cart nh ref ray tr", "cs nh ref ray tr", "cart xz ref ray tr", "cart nh h=v2 v=v2 ref ray tr", "cart nh stag=cph ref ray", "cs nh ref ray topo=800 stag=cph"),
         bounds=WORLD),
])
P("C18", "Time integrators", parts=[
    part("scheme", [R(*("cart xz nh nx=2 l=2 tr=4 order scheme=%s" % s).split(), reach=["order"]) for s in (
        "erk e=3", "erk/fe e=1", "erk/rk4 e=4", "erk/rk3 e=3", "erk/kgu35 e=3", "erk/ssprk53 e=3",
        "strang e=3 i=1", "strang/fe e=1 i=1", "strang/rk4 e=4 i=1", "strang/rk3 e=3 i=1", "strang/kgu35 e=3 i=1", "strang/ssprk53 e=3 i=1",
        "strang e=3 i=1 steps=3", "strang/rk4 e=4 i=1 steps=2", "strang/ssprk53 e=3 i=1 steps=2",
        "ars222 e=2 i=2", "ars232 e=2 i=2", "ark232 e=2 i=2", "gark2 e=2 i=2", "ars343 e=3 i=3", "ars343b e=3 i=3", "ars443 e=3 i=3", "ssp3_332 e=3 i=2")],
         bounds="four-component polynomial systems whose right-hand sides form each rooted tree of up to four nodes, every assignment of explicit and implicit "
                "terms, every step size in [0, 0.5]; 1 to 3 steps"),
])
P("C15", "Quadrature and polynomial tools", parts=[
    part("numer", [R("gauss", n, reach=["gauss"]) for n in range(1, 13)] + [R("lobatto", n, reach=["lobatto"]) for n in range(2, 13)]
         + [R("legendre", n, reach=["legendre"]) for n in range(11)]
         + [R("lagrange", n, k, reach=["lagrange"]) for n in range(1, 7) for k in range(3)] + [R("coeffs", n, k, reach=["coeffs"]) for n in range(1, 6) for k in range(3)]
         + [R("lagdiff", n, k, g, d, reach=["lagdiff"]) for n in (2, 3, 4, 5) for k in (0, 2) for g in range(n + 1) for d in (1, 2, 3) if d < n]
         + [R("fluxcorr", t, n, reach=["fluxcorr"]) for t in (1, 2) for n in (2, 3, 4, 5)] + [R("fluxcorr", 3, n, reach=["fluxcorr"]) for n in (3, 4, 5)]
         + [R("helpers", reach=["helpers"])] + [R("powers", n, reach=["powers"]) for n in range(7)] + [R("spacing", n, reach=["spacing"]) for n in (1, 2, 4, 5)],
         bounds="rules of 1 to 12 points on any interval within [-10,10]; Legendre degrees 0 to 10; 1 to 6 interpolation points in three arrangements, every polynomial with "
                "coefficients in [-1,1], every sample point within [-2,2]"),
])
P("C16", "Element and column operators", parts=[
    part("column", [R(*(cf + " " + m).split(), reach=[m]) for cf in (
        "cart nh l=3 vo=1", "cart nh l=4 vo=2", "cart nh l=6 vo=3", "cart nh l=8 vo=4", "cart nh l=5 vo=5", "cart nh l=6 vo=2 stretch=cubic", "cart nh l=9 vo=3 stretch=pwlinear",
        "cart nh l=6 vo=1 stretch=pwlinear", "cart nh l=6 vo=1 stretch=cubic", "cart nh l=6 vo=2 vdisc=fv", "cart nh l=6 vo=4 vdisc=fv") for m in ("exact", "flux", "laplace", "penalty")]
        + [R(*("cart nh o=%d hops" % o).split(), reach=["hops"]) for o in range(2, 10)],
        bounds="every polynomial of the stated degree with coefficients in [-1,1]; every column of values in [-1,1]; 3 to 9 levels, vertical orders 1 to 5, element orders 2 to 9"),
])
P("C17", "Vertical stretching", parts=[
    part("numer", [R("stretch", k, reach=["stretch"]) for k in range(3)], bounds="every pair of column coordinates in [0,1], all three stretching functions"),
    part("column", [R(*(cf + " levels").split(), reach=["levels"]) for cf in (
        "cart nh l=3 vo=1", "cart nh l=4 vo=2", "cart nh l=6 vo=3", "cart nh l=8 vo=4", "cart nh l=5 vo=5", "cart nh l=6 vo=2 stretch=cubic", "cart nh l=9 vo=3 stretch=pwlinear",
        "cart nh l=6 vo=1 stretch=pwlinear", "cart nh l=6 vo=1 stretch=cubic", "cart nh l=6 vo=2 vdisc=fv", "cart nh l=6 vo=2 vdisc=fv stretch=cubic", "cs nh l=4 vo=2", "cs nh l=6 vo=3 stretch=cubic")],
        bounds="3 to 9 levels, vertical orders 1 to 5; every polynomial the level weights must integrate"),
])
QUAD = ("pp", "pm", "mp", "mm", "yp", "ym")
P("C13", "Cubed-sphere coordinates", parts=[
    part("coords", [R(m, p, q, reach=[m]) for m in ("rll", "back", "vec") for p in range(6) for q in (("all",) if p < 4 else QUAD + ("o",))]
         + [R(m, p, q, reach=[m]) for m in ("rllabp", "backabp") for p in range(6) for q in (("all",) if p < 4 else ("pp", "mm"))]
         + [R("panels", s, d, reach=["panels"]) for s in range(6) for d in range(6) if s != d and (s, d) not in ((0, 2), (2, 0), (1, 3), (3, 1), (4, 5), (5, 4))]
         + [R("index", p, reach=["index"]) for p in range(6)] + [R("directions", reach=["directions"]), R("area", reach=["area"])],
         bounds="every point of every panel (the polar panels by quadrant, the coordinate axis and the pole itself; within 1e-6 of the axis only the axis), every vector with components in [-1,1], "
                "points up to 0.2 beyond either side of a panel edge; index spaces of 1 to 1000 elements"),
])
P("C04", "Restart", parts=[
    part("restart", W("restart noise", *(["cart xz nh l=4 nx=2 ns=0 tr steps=3 scheme=%s" % s for s in (
             "erk", "erk/rk4", "erk/rk3", "erk/kgu35", "erk/ssprk53", "ars222", "ars232", "ark232", "gark2", "ars343", "ars443", "ssp3_332", "strang")]
             + ["cart sw scheme=erk", "cart sw scheme=erk nx=4 np=4 ranks2=2", "cart sw nx=4 scheme=erk ranks=2", "cs sw o=3 n=2 scheme=erk", "cs sw o=2 n=2 np=24 scheme=erk ranks2=4",
                "cart nh o=3 l=4 ns=0 tr topo=300 scheme=ars343", "cs nh o=2 l=4 ns=0 tr=2 ref topo=300 scheme=ars232", "cart xz nh l=3 nx=2 ns=1 expl tr ref topo=500 scheme=erk",
                "cart nh o=3 l=4 ns=0 tr ray stretch=cubic f=45 scheme=ars343", "cs nh o=2 l=4 ns=0 tr ref hyp=4 nu=1e15 scheme=ars343", "cart nh l=4 ns=0 tr h=v2 v=v2 scheme=ars343 steps=3 at=2"]))
         + W("writing", "cart sw nx=3 np=2", "cart sw nx=3 ranks=2 ranks2=2 ch=6", "cart nh nx=5 ny=2 o=2 l=2 tr ranks=2 ranks2=2 ch=4", "cs sw n=2 o=2 ranks=3 ranks2=2 ch=5", "cart sw nx=4 ranks=2 ranks2=2 ch=8", "cs nh o=2 l=3 tr stag=cph ref ray topo=400", "cart nh o=3 l=6 vo=2 tr=2 np=2 stretch=cubic f=45 stag=cph",
             "cart nh o=3 l=6 vo=2 vdisc=fv bc=1212", "cart xz nh nx=3 l=3 tr=3 topo=200", "cs nh o=2 l=2 ranks=6 ranks2=3")
         + W("writing", "cs sw n=2 o=2 ranks=4 ranks2=6 ch=7", "cs nh o=2 l=2 tr ranks=3 ch=7", tier="thorough", deadline=1500)
         + W("bad", "cart sw scheme=erk", "cs nh o=2 l=4 ns=0 scheme=ars343"),
         bounds=WORLD + "; every node value carries its own symbolic perturbation (implicit vertical dynamics: the tracers only); every shortened length and every wrong check value of a file"),
])
P("C21", "Implicit column step", parts=[
    part("vert", W("column", *(["cart nh sign=%s l=4" % s for s in ("up", "down", "split")] + ["cs nh sign=%s l=4" % s for s in ("up", "down", "split")]
                   + ["cart nh sign=up l=4 tr ns=1", "cart nh sign=split l=3 tr=2 mix", "cart nh sign=down l=4 h=v2 v=v2", "cart nh sign=split l=4 tr mix h=v2 v=v2", "cs nh sign=up l=3 tr mix",
                      "cart nh sign=steady l=6 vo=2", "cart nh sign=up l=4 vo=2 tr", "cart nh sign=up l=2 tr=2", "cart xz nh sign=down l=5 tr=2", "cart nh sign=up l=5 stretch=cubic",
                      "cs nh sign=up l=4 topo=300 tr", "cs nh sign=up l=4 vo=2 stretch=pwlinear topo=200 h=v2 v=v2", "cart nh sign=split l=4 topo=500 tr h=v2 v=v2", "cart nh sign=up l=4 topo=500",
                      "cart nh sign=up l=4 copies=2", "cart nh nx=4 np=4 sign=up l=4 copies=4", "cs nh sign=up l=4 copies=3", "cs nh n=2 np=24 sign=up l=4 copies=4"]))
         + W("column", "cart nh sign=up l=6 vo=2", "cart nh sign=up l=8 vo=2 tr", "cart xz nh sign=up l=8 tr", "cart nh sign=steady l=9 vo=3 stretch=cubic", tier="thorough", deadline=1500),
         bounds="one column (all its copies) with every value of temperature variable, density, vertical velocity and tracers symbolic: 1% of potential temperature density, 5% of density and tracers, "
                "vertical velocity of one sign (0.25 to 2 m/s) or changing sign at mid-column; fixed neighbours and step size; 2 to 6 levels (thorough 9), vertical orders 1, 2, 3"),
])
P("C22", "Output", parts=[
    part("interp", W("points", "cart sw", "cart nh grid topo=500 l=4 vo=2 tr=5", "cart nh topo=500 l=3 o=3", "cs nh grid topo=500 l=2 tr=4 o=3", "cs sw raw o=3 n=2", "cs nh raw l=2 topo=500",
                     "cart nh eta l=4 vo=2 grid gx=2 gy=1", "cart nh eta l=4 vo=2 o=2", "cart nh noref ref grid l=2 vo=1 topo=300", "cs nh noref ref grid l=2 vo=1 topo=300",
                     "cs nh n=2 np=24 grid gx=12 gy=6 l=1", "cart nh nx=4 np=4 own topo=300 l=2", "cart nh eta z nz=1 l=2 vo=1 o=2", "cart nh eta z nz=1 l=4 vo=2 o=2", "cart nh eta z nz=3 l=2 vo=1 o=2",
                     "cart nh eta l=3 vo=1 o=2", "cart nh stag=cph grid l=3 topo=500", "cs nh vdisc=fv vo=2 l=4 grid topo=500", "cart nh vdisc=fv vo=2 grid l=4 topo=500 stag=cph",
                     "cart nh stretch=cubic eta l=4 vo=2 o=2 grid gx=2 gy=1")
         + W("file", "cart sw", "cart sw begin=7201 anytime last", "cart sw per=1 last", "cart sw per=-1 anytime", "cart nh l=2 tr=2", "cart nh l=2 tr=2 nodes user=2 diag", "cs nh l=2 tr diag user=1",
             "cs sw diag o=3", "cart sw nx=4 ranks=2 ch=6 diag", "cs sw ranks=3 ch=4", "cs nh l=2 ranks=6 o=3 diag tr", "cart nh nx=3 ranks=3 l=2 ch=4 nodes", "cs nh l=2 nz=3 o=3",
             "cart nh l=4 vo=2 stretch=cubic nz=5", "cart xz nh nx=2 l=3 gy=1 diag", "cart nh l=2 stag=cph", "cs nh l=2 n=2 np=24 o=2 gx=8 gy=6 diag user=1", "cs nh l=3 topo=300 stag=cph", "cart nh tr=5 l=2 nx=4 np=4"),
         nc_stub=True,
         bounds="fields are polynomials of the degree the elements represent, with four symbolic coefficients in [-1,1] and fixed pseudo-random ones per variable, panel and time; output points: a cell-centred "
                "output grid, or any point of a plane or a panel; output levels: the model's, evenly spaced ones, or any; three output times, one of them symbolic to the second within a day; 1 to 6 processes"),
])
P("C03", "Run loop", parts=[
    part("loop", [R(*a.split(), reach=["loop"]) for a in (
        "nothing", "steps=2", "steps=4 process", "steps=5 process date=2 per=2", "steps=3 per=1 date=1", "steps=3 per=3 process date=3 dt=20000 freq=60000",
        "steps=3 unit=us dt=200000 freq=900000 date=1 process", "steps=5 unit=d dt=5 freq=12 process per=2", "steps=4 unit=d dt=20 freq=60 date=1", "steps=3 unit=h dt=12 freq=30",
        "zero steps=5 per=2 process", "resume steps=3 per=2 process", "steps=6 unit=m dt=300 freq=1000 process per=4 date=2", "steps=8 dt=8000 freq=10800 process per=3 date=2")]
        + [R(*a.split(), reach=["loop"], tier="thorough", deadline=800) for a in ("steps=5 process", "steps=5 unit=h dt=24 freq=72 process", "steps=4 unit=us dt=200000 freq=900000 date=1 process per=2", "steps=10 process date=2 per=4")],
        bounds="runs of 1 to 8 steps (thorough 10); step up to 7200 s (also up to 20000 s, 0.2 s, 5 h, 24 h, 20 days), interval up to 20000 s (0.9 s, 16 h, 72 h, 60 days), run length anything up to the number of steps; "
               "starts just before the end of February and of the year, in mid-day and at midnight; 1 to 4 outputs per file or unlimited"),
])
P("C19", "State arithmetic", parts=[
    part("diag", W("algebra", "cart sw o=2", "cart sw o=2 op=copy to=3", "cs nh l=2 tr o=2 op=zero to=0", "cart nh l=2 tr o=2 op=zero to=1", "cart nh l=2 tr=2 o=2 op=short to=2 scheme=ars343", "cs nh l=1 tr=1 o=2 op=fresh to=1 scheme=ars343",
                   "cart nh l=2 tr o=2 op=fresh to=0", "cart nh stag=cph l=2 o=2 tr scheme=ars222 to=3", "cart nh l=2 tr n=1 o=2 op=copy to=2", "cart sw o=2 op=short to=0", "cs sw o=2 nx=2 np=24 op=fresh to=2 scheme=erk"),
         bounds="every coefficient in [-2,2] (zero included), two symbolic amplitudes in every seventh value; elements of order 2, 1 to 2 levels, up to 2 tracers, one and several patches"),
])
P("C20", "Totals", parts=[
    part("diag", W("totals", "cart sw", "cart nh l=2 tr=2", "cs nh l=2 o=3 ranks=6 tr topo=500", "cart nh o=2 l=2 ranks=2 nx=4 ch=5 tr=2", "cs sw o=2 ranks=2", "cart nh stag=cph l=3 o=2 tr topo=500",
                   "cart nh l=4 vo=2 o=2 stretch=cubic tr")
         + W("signs totals", "cart sw", "cart sw o=2 ranks=2 nx=4 ch=2", "cs nh o=2 l=2 tr topo=500", "cs nh l=2 o=2 ranks=6 tr", "cart nh l=2 tr=3 stag=cph o=2", "cart nh o=2 l=4 vo=2 tr")
         + W("energy", "cart sw", "cs sw", "cs sw topo=500 n=2 o=3", "cart sw topo=0.4", "cart nh l=2 o=2", "cart nh l=3 n=2 o=3 topo=500", "cs nh o=2 l=2 topo=500", "cs nh l=2 o=2 stag=cph topo=500",
             "cs nh l=4 vo=2 o=2 topo=500 stag=int", "cart nh l=6 vo=3 o=2 topo=800 stretch=cubic", "cart nh f=45 l=4 vo=2 vdisc=fv o=2 topo=300"),
         bounds=WORLD + "; two to three symbolic amplitudes, or two symbolic values of any sign up to 9 in magnitude; 1 to 6 processes with symbolic message schedules"),
])
P("C25", "Equation of state", parts=[part("diag", [R("eos", "set=%d" % k, reach=["eos"]) for k in range(7)],
    bounds="pressure 10 to 120000 Pa, potential temperature density 0.05 to 500, Exner pressure 0.05 to 1.2 cp; the default constants and one replaced set in each of the six orders")])
P("C28", "Derived fields", parts=[
    part("diag", W("stokes", "cart sw", "cs sw o=3", "cs nh l=2 topo=500 o=2", "cart nh l=2 np=2 nx=4", "cs sw n=2 o=4", "cart xz nh nx=3 l=2", "cart sw o=5 n=1", "cs sw n=2 o=2 np=24")
         + W("poly", "cart sw o=4 n=3", "cart nh o=4 n=3 l=2", "cart sw o=5 n=2", "cart sw o=3 nx=4", "cart xz nh nx=3 l=2", "cart sw o=6 nx=2 ny=3", "cart sw nx=4 np=4 o=4")
         + W("sphere", "cs sw o=6 n=2", "cs nh l=2 o=6 n=2", "cs sw o=5 n=2 tol=0.04", "cs sw o=8 n=1 tol=0.02", "cs sw o=4 n=3 tol=0.15", "cs sw o=6 n=2 np=24")
         + W("column", "cart nh l=3", "cs nh l=4 vo=2 topo=500 o=3", "cart nh l=6 vo=3 o=2 stretch=cubic topo=300", "cart nh l=4 vo=2 vdisc=fv o=2", "cart nh l=3 o=2 stag=cph topo=400", "cs nh l=6 vo=2 stretch=pwlinear topo=600 o=2"),
         bounds=WORLD + "; polynomial winds of degree up to three, rotation about any axis, gradients of spherical harmonics of degree one and two; 1 to 3 elements per side, element orders 2 to 8"),
])
P("C14", "Symmetries", parts=[
    part("motion", W("symm", "cart sw o=3 op=shiftx", "cart sw o=3 op=mirrory tr=2", "cart sw o=3 op=mirrorx f=0.8", "cart sw o=3 op=swap sq still tr=2", "cart sw o=4 op=turn sq still nu=1e12 after", "cart sw o=2 op=half topo=0.5 nx=3",
                      "cart sw o=2 n=3 op=swap sq still step scheme=ars343 tr tronly", "cart sw o=2 n=3 op=turn sq still step tr tronly", "cart sw o=3 op=mirrory np=2",
                      "cart nh l=2 o=2 n=3 op=shiftx", "cart nh l=3 o=3 op=half tr topo=500", "cart nh l=3 o=3 op=mirrorx vert f=0.8", "cart nh l=3 o=3 op=swap sq still tr=2 topo=800 vert stretch=cubic", "cart nh l=2 o=3 op=turn sq still stag=cph topo=500 vert",
                      "cart nh l=3 o=4 n=3 op=shiftx v=v2 h=v2", "cart nh o=4 l=3 n=3 h=v2 v=v2 op=swap sq still tr step calm tronly", "cart xz nh nx=3 l=2 o=3 op=mirrorx topo=100 vert tr",
                      "cart nh l=2 o=2 n=3 op=mirrory step tronly calm tr ray nu=1e12 topo=300", "cart nh l=2 o=2 n=3 op=shifty still step calm tr tronly dt=20 scheme=strang/ssprk53 massflux inud=1e4",
                      "cart nh l=3 o=3 op=swap sq still after vert tr ud=500 nu=1e4 hyp=2 tronly", "cart nh l=4 vo=2 n=3 o=2 n=3 op=turn sq still vert topo=400",
                      "cs sw o=3 op=turn tr", "cs sw o=3 op=mirrorz topo=300 tr", "cs sw o=3 op=cycle still", "cs sw o=4 n=2 op=turn topo=500", "cs sw o=4 n=2 op=turn step tronly tr topo=500 dt=100", "cs sw o=2 op=cycle step tr still nu=1e15 tronly",
                      "cs sw n=2 o=3 op=mirrorx still nu=1e5 after hyp=2 np=24", "cs nh l=2 o=2 op=turn vert", "cs nh l=2 o=3 op=tip still tr topo=500 vert", "cs nh l=3 o=2 op=invert still tr topo=500 expl step calm tronly dt=5 scheme=erk/kgu35",
                      "cs nh l=2 o=3 op=turn nu=1e15 after tr", "cs nh l=2 o=2 op=turn step tronly tr calm dt=100", "cs nh l=3 o=2 op=mirrorz stag=cph np=24 nx=2", "cs nh l=3 o=3 op=turn step tronly calm tr ray nu=1e14 topo=300 scheme=ars343",
                      "cs nh l=4 vo=2 o=2 op=mirrorz topo=1000 vert", "cs nh o=4 l=2 h=v2 v=v2 op=cycle still tr vert topo=400 nu=1e14 after", "cs nh o=3 l=2 op=tip still vert ud=5e4 tr after"),
         bounds=WORLD + "; node noise with a fixed and two symbolic amplitudes on 1 to 3 elements per side; where the vertical part upwinds, winds are fixed; whole nonhydrostatic steps with symbolic tracers only"),
])
P("C29", "States of rest", parts=[
    part("motion", W("rest", "cs sw o=3 topo=0.5 symtopo", "cs sw o=3 topo=500 tr", "cs nh l=3 o=3 tr", "cart sw topo=0.5", "cart sw topo=0.5 f=0.8 tr", "cs sw o=4 topo=1000 step dt=100", "cart sw topo=0.5 step scheme=ars343", "cs sw topo=300 after nu=1e15",
                      "cs nh l=2 o=2 stag=cph", "cs sw n=2 o=2 topo=800 np=24 step dt=50 scheme=erk/rk4", "cart nh l=3 tr vert", "cs nh l=4 vo=2 o=2 tr",
                      "cart sw flow tr", "cart nh l=3 flow tr=2 vert dt=20", "cart sw flow tr step dt=20", "cart nh l=3 flow stag=cph dt=20", "cart nh l=2 o=4 h=v2 v=v2 flow tr dt=20", "cart nh l=3 flow dt=20 after nu=1e12 tr", "cart xz nh nx=3 l=2 o=4 flow tr dt=20",
                      "cart nh l=4 vo=2 n=3 flow tr dt=5 stretch=cubic"),
         bounds=WORLD + "; symbolic depth, wind components, density and terrain height; time steps 5 to 100 s"),
])
P("C30", "Equations of motion", parts=[
    part("motion", W("tend", "cart sw o=4", "cart sw o=5 n=2 tr=2 zs f=0.8", "cart sw o=6 tr=2 f=0.8 zs", "cart sw o=3 n=3 tr", "cart nh l=3 o=4 tr=2", "cart nh l=3 o=4 tr=2 w", "cart nh l=3 o=4 tr=2 w level", "cart nh l=4 o=5 nx=3 tr=2 w level f=0.8",
                      "cart xz nh nx=3 l=2 o=4 tr", "cart nh l=3 stag=cph o=4", "cart nh l=2 o=4 tr=2 v=v2 h=v2", "cart nh l=2 o=6 tr=2", "cart nh l=2 o=4 nx=4 ny=2 tr f=-0.6")
         + W("sphtend", "cs sw o=6 n=2", "cs nh l=2 o=6 n=2 tr=2", "cs sw o=5 n=2 tol=0.04 tr", "cs nh l=2 o=4 n=3 tol=0.1 v=v2 h=v2 tr")
         + W("sphtend", "cs sw o=8 n=2 tol=0.002 tr", "cs nh l=3 o=6 n=3 tol=0.004 tr", tier="thorough", deadline=1500),
         bounds=WORLD + "; polynomial fields of degree one or two each (elements of order 3 to 6), three symbolic amplitudes in every coefficient; on the sphere rotation about any axis with speeds up to 50 m/s; flat terrain except for shallow water; away from the seam of the plane's period"),
])
