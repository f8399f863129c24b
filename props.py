import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
from vp.explore import Scenario as S

COMMON = [
 "floating point arithmetic is encoded as exact real arithmetic; equality obligations carry a stated tolerance that absorbs rounding",
 "branch conditions on NaN are not explored",
]
PROPS = {}

def q(tier, a, b):
    return a if tier == "quick" else b

def c01(tier):
    r = []
    for k in ("const", "zeta", "EAcurve", "BAcurve", "BAcurve2"):
        r.append(S("axial-" + k, "h_line", dict(mode="axial", kind=k, N=1 if "curve" in k else 2)))
        if "curve" in k:
            r.append(S("axial-%s-2" % k, "h_line", dict(mode="axial", kind=k, N=2, plumb=1), maxpaths=200))
    r.append(S("axial-retune", "h_line", dict(mode="axial", kind="const", N=2, retune=1)))
    return r
PROPS["C01"] = dict(scenarios=c01)
def c02(tier):
    r = []
    for sub in ("wet", "dry"):
        for w in ("drag", "fk"):
            r.append(S("loads-%s-%s" % (w, sub), "h_line", dict(mode="loads", what=w, sub=sub, N=2)))
    for w in ("drag", "fk"):
        r.append(S("loads-%s-mixed" % w, "h_line", dict(mode="loads", what=w, sub="mixed", N=2)))
    r.append(S("newton", "h_line", dict(mode="newton")))
    r.append(S("surface", "h_line", dict(mode="surface")))
    r.append(S("surface-edge0", "h_line", dict(mode="surface", kind="edge0")))
    r.append(S("surface-edge1", "h_line", dict(mode="surface", kind="edge1")))
    return r
PROPS["C02"] = dict(scenarios=c02)

def c04(tier):
    r = []
    for k in ("const", "curve", "press"):
        r.append(S("bend-" + k, "h_line", dict(mode="bending", kind=k)))
    for k in ("const", "curve"):
        for e in "AB":
            r.append(S("bend-%s-%s" % (e, k), "h_line", dict(mode="bending", kind=k, ends=e)))
    return r
PROPS["C04"] = dict(scenarios=c04)

def c05(tier):
    return [S("point-own", "h_obj", dict(mode="point")), S("point-lines", "h_obj", dict(mode="point", lines=1)), S("point-lines-2", "h_obj", dict(mode="point", lines=1, segs=2))]
PROPS["C05"] = dict(scenarios=c05)
def c07(tier):
    r = []
    for t in ("free", "pinned"):
        for w in ("grav", "drag", "solve"):
            r.append(S("body-%s-%s" % (t, w), "h_obj", dict(mode="body", type=t, what=w)))
    return r
PROPS["C07"] = dict(scenarios=c07)

def c06(tier):
    return [S("attach-" + w, "h_obj", dict(mode="attach", what=w)) for w in ("point", "rod", "pinrod", "line", "rodline")]
PROPS["C06"] = dict(scenarios=c06)
def c08(tier):
    r = []
    for sub in ("wet", "dry"):
        for a in ("xy", "x", "y", "cyc", "up"):
            r.append(S("rod-static-%s-%s" % (sub, a), "h_rod", dict(mode="loads", what="static", sub=sub, att=a)))
    for w in ("drag", "inertia"):
        for a in ("cyc", "x", "y", "up"):
            r.append(S("rod-%s-wet-%s" % (w, a), "h_rod", dict(mode="loads", what=w, sub="wet", att=a)))
    r.append(S("rod-drag-dry", "h_rod", dict(mode="loads", what="drag", sub="dry", att="x")))
    for side in ("up", "down"):
        r.append(S("rod-pierce-" + side, "h_rod", dict(mode="pierce", side=side)))
        r.append(S("rod-pierce-%s-edge" % side, "h_rod", dict(mode="pierce", side=side, edge="top")))
    r.append(S("rod-flip", "h_rod", dict(mode="flip", nudge=1)))
    r.append(S("rod-newton", "h_rod", dict(mode="newton")))
    r.append(S("rod-place", "h_rod", dict(mode="place")))
    return r
PROPS["C08"] = dict(scenarios=c08)

def c03(tier):
    r = [S("line-flat", "h_line", dict(mode="seabed"), maxpaths=200), S("rod-flat", "h_rod", dict(mode="seabed")),
         S("line-bathy", "h_sea", dict(mode="contact", what="line", nx=2, ny=2), maxpaths=200),
         S("rod-bathy", "h_sea", dict(mode="contact", what="rod", nx=2, ny=2))]
    return r
PROPS["C03"] = dict(scenarios=c03)
def c13(tier):
    return [S("grid", "h_sea", dict(mode="bathy", nx=3, ny=3)), S("grid-ticks", "h_sea", dict(mode="bathy", nx=3, ny=2, ticks=1)),
            S("grid-shuffled", "h_sea", dict(mode="bathy", nx=2, ny=3, shuffle=1, perm=2)), S("grid-42", "h_sea", dict(mode="bathy", nx=4, ny=2, perm=1))]
PROPS["C13"] = dict(scenarios=c13)

def c09(tier):
    r = []
    for sch in ("euler", "rk2"):
        r.append(S("coupled-" + sch, "h_step", dict(mode="coupled", scheme=sch)))
    r.append(S("coupled-substeps", "h_step", dict(mode="coupled", scheme="rk2", dtM=0.25, steps=1)))
    r.append(S("coupled-pinned", "h_step", dict(mode="coupled", scheme="rk2", pin=1)))
    r.append(S("pinned-reaction", "h_step", dict(mode="pinned")))
    r.append(S("attitude-body", "h_step", dict(mode="attitude", what="body")))
    r.append(S("attitude-rod", "h_step", dict(mode="attitude", what="rod")))
    return r
PROPS["C09"] = dict(scenarios=c09)

def c10(tier):
    r = []
    T = tier != "quick"
    M = 16 if not T else 64
    r.append(S("algebra", "h_time", dict(mode="algebra")))
    for sch, n, h in (("euler", 3, ""), ("heun", 3, ""), ("rk2", 2, ""), ("rk4", 1, ""), ("ab2", 3, "0.005"), ("ab3", 4, "0.005"), ("ab4", 5 if T else 4, "0.005"),
                      ("beuler2", 2, ""), ("midpoint2", 2, ""), ("aca2", 2, "")):
        r.append(S("chain-" + sch, "h_time", dict(mode="chain", scheme=sch, steps=n, plumb=1, h=h), maxpaths=M))
    r.append(S("chain-leuler", "h_time", dict(mode="chain", scheme="leuler", steps=3, plumb=1, h="0.01", dtM="0.01", even=1), maxpaths=M))
    r.append(S("chain-rk2-sub", "h_time", dict(mode="chain", scheme="rk2", steps=1, plumb=1, sub=2, dtM=0.005, h="0.008"), maxpaths=M))
    r.append(S("chain-rk2-3d", "h_time", dict(mode="chain", scheme="rk2", steps=1), maxpaths=M))
    r.append(S("chain-euler-3d", "h_time", dict(mode="chain", scheme="euler", steps=2, h="0.005"), maxpaths=M))
    for sch in ("rk2", "rk4"):
        r.append(S("chain-%s-reel" % sch, "h_time", dict(mode="chain", scheme=sch, steps=1, plumb=1, reel=1, h="0.005"), maxpaths=M))
    for sch in ("ab2", "ab3", "ab4", "beuler3", "midpoint3", "aca3", "wilson3", "anderson3"):
        r.append(S("constant-" + sch, "h_time", dict(mode="constant", scheme=sch, steps=4 if sch[:2] != "ab" else 6)))
    for sch in ("heun", "rk4", "ab3", "midpoint3", "aca3", "wilson3"):
        r.append(S("rest-" + sch, "h_time", dict(mode="rest", scheme=sch, axis=len(sch) % 3), maxpaths=M))
    r.append(S("rest-stationary", "h_time", dict(mode="rest", scheme="rk2", stationary=1), maxpaths=M))
    for a, b in (("rk2", "heun"), ("euler", "rk4")):
        r.append(S("switch-%s-%s" % (a, b), "h_time", dict(mode="switch", **{"from": a}, to=b), maxpaths=4))
    return r
PROPS["C10"] = dict(scenarios=c10)

def c11(tier):
    T = tier != "quick"
    r = [S("steady", "h_wave", dict(nudge=1, mode="current", cur="steady", nz=4)), S("steady-x", "h_wave", dict(mode="current", cur="steady", nz=3, dim=1, symz=1, bare=1)),
         S("steady-one", "h_wave", dict(nudge=1, mode="current", cur="steady", nz=1, dim=2)),
         S("steady-nodes", "h_wave", dict(nudge=1, mode="current", cur="steady", nz=3, nodes=1)),
         S("dynamic", "h_wave", dict(nudge=1, mode="current", cur="dynamic", nz=2, nt=3)), S("dynamic-xy", "h_wave", dict(mode="current", cur="dynamic", nz=3, nt=2, dim=2)),
         S("dynamic-gaps", "h_wave", dict(nudge=1, mode="current", cur="dynamic", nz=2, nt=3, times="0_2.5_7.5", bare=1)),
         S("dynamic-late", "h_wave", dict(nudge=1, mode="current", cur="dynamic", nz=1, nt=4, times="5_7.5_15_17.5", bare=1)),
         S("dynamic-uneven", "h_wave", dict(nudge=1, mode="current", cur="dynamic", nz=1, nt=3, times="0_2_5", bare=1)),
         S("4d-gaps", "h_wave", dict(nudge=1, mode="current", cur="4d", nz=1, nt=4, nx=1, ny=1, times="0_7.5_10_17.5", bare=1)),
         S("dynamic-once", "h_wave", dict(nudge=1, mode="current", cur="dynamic", nz=2, nt=1)),
         S("4d", "h_wave", dict(nudge=1, mode="current", cur="4d", nz=2, nt=2, nx=2, ny=2, bare=1), maxpaths=400), S("4d-spelling", "h_wave", dict(mode="current", cur="4d", nz=3, nt=2, nx=1, ny=2, spell=1, bare=1), maxpaths=200),
         S("4d-shuffled", "h_wave", dict(nudge=1, mode="current", cur="4d", nz=1, nt=1, nx=2, ny=3, shuffle=1)),
         S("external-steady", "h_wave", dict(nudge=1, mode="current", cur="steady", nz=3, ext=1)), S("external-dynamic", "h_wave", dict(mode="current", cur="dynamic", nz=3, nt=2, ext=1)),
         S("external-4d", "h_wave", dict(nudge=1, mode="current", cur="4d", nz=3, nt=2, nx=2, ny=1, ext=1))]
    return r
PROPS["C11"] = dict(scenarios=c11)

def c12(tier):
    T = tier != "quick"
    r = [S("sum-1", "h_wave", dict(nudge=1, mode="airy", n=1)), S("sum-2", "h_wave", dict(mode="airy", n=2)), S("sum-dirs", "h_wave", dict(mode="airy", n=2, dirs=1)),
         S("sum-deep", "h_wave", dict(nudge=1, mode="airy", n=1, deep=1, depth=400)), S("sum-nodes", "h_wave", dict(mode="airy", n=1, nodes=1)),
         S("sum-current", "h_wave", dict(nudge=1, mode="airy", n=1, cur="steady", nz=2, nodes=1)),
         S("spectrum", "h_wave", dict(nudge=1, mode="grid", nx=1, nz=2, n=2)), S("spectrum-x", "h_wave", dict(nudge=1, mode="grid", nx=2, nz=2, n=1)), S("spectrum-y", "h_wave", dict(mode="grid", nx=1, ny=2, nz=2, dirs=1, n=1)),
         S("spectrum-lattice", "h_wave", dict(nudge=1, mode="grid", nx=3, nz=2, lattice=1, lap=1, n=1)),
         S("spectrum-current", "h_wave", dict(nudge=1, mode="grid", nx=1, nz=2, n=1, cur="steady", dim=2)), S("spectrum-unified", "h_wave", dict(mode="grid", nx=1, nz=2, n=1, cur="steady", unify=1)),
         S("unified-steady-3", "h_wave", dict(nudge=1, mode="grid", nx=1, nz=3, n=1, cur="steady", unify=1)),
         S("unified-dynamic", "h_wave", dict(nudge=1, mode="grid", nx=1, nz=2, n=1, cur="dynamic", nt=3, unify=1)),
         S("unified-4d", "h_wave", dict(nudge=1, mode="grid", nx=2, ny=1, nz=2, n=1, cur="4d", nt=2, unify=1)),
         S("dynamic-apart", "h_wave", dict(nudge=1, mode="grid", nx=1, nz=2, n=1, cur="dynamic", nt=2)),
         S("record", "h_wave", dict(nudge=1, mode="grid", **{"from": "record"}, nx=1, nz=2, nt=4)), S("record-x", "h_wave", dict(mode="grid", **{"from": "record"}, nx=2, nz=2, nt=4, odd=1)),
         S("record-sub", "h_wave", dict(nudge=1, mode="grid", **{"from": "record"}, nx=1, nz=3, nt=4, sub=2))]
    return r
PROPS["C12"] = dict(scenarios=c12)

def c17(tier):
    r = [S("channels-" + k, "h_out", dict(mode="channels", sym=k), maxpaths=8) for k in ("vel", "pos", "att")]
    r.append(S("channels-bend", "h_out", dict(mode="channels", bend=1, units=0, sym="vel"), maxpaths=8))
    r.append(S("cadence", "h_out", dict(mode="cadence"), maxpaths=64))
    r.append(S("cadence-each", "h_out", dict(mode="cadence", each=1, steps=2)))
    return r
PROPS["C17"] = dict(scenarios=c17)

def c15(tier):
    r = []
    for sch in ("euler", "rk2", "ab3", "midpoint2"):
        r.append(S("lines-" + sch, "h_save", dict(scheme=sch, pre=2 if sch == "ab3" else 1, post=1), maxpaths=3))
    r.append(S("lines-file", "h_save", dict(scheme="rk4", via="file", pre=1, post=1), maxpaths=3))
    r.append(S("lines-bend", "h_save", dict(scheme="heun", via="file", bend=1), maxpaths=3))
    r.append(S("lines-reel", "h_save", dict(scheme="rk2", reel=1), maxpaths=3))
    r.append(S("rigid-euler", "h_save", dict(what="rigid", scheme="euler"), maxpaths=2))
    r.append(S("rigid-file", "h_save", dict(what="rigid", scheme="rk2", via="file"), maxpaths=2))
    return r

def c15codec(tier, r):
    from vp.codec import Codec
    ws = [("0x1p-3", "0x1p3", 6)]
    for k in ((6, 12, 20) if tier == "quick" else (6, 9, 12, 16, 20, 31, 60, 100)):
        ws.append(("0x1p%d" % k, "0x1p%d" % (k + 1), k + 3))
        ws.append(("0x1p-%d" % k, "0x1p-%d" % (k - 1), k + 3))
    c = S("codec", "h_codec", dict(), budget=240 if tier == "quick" else 1500)
    c.explorer, c.windows = Codec, ws
    return r + [c, S("codec-tiny", "h_codec", dict(tiny=1))]
PROPS["C15"] = dict(scenarios=lambda t: c15codec(t, c15(t)))

def c14(tier):
    return [S("index-" + k, "h_api", dict(mode="index", kind=k)) for k in ("body", "rod", "point", "line", "attached")] + [S("nodes-line", "h_api", dict(mode="nodes"), maxpaths=64), S("nodes-rod", "h_api", dict(mode="nodes", what="rod")),
            S("missing", "h_api", dict(mode="missing"), maxpaths=64), S("null", "h_api", dict(mode="null"), maxpaths=100)]
PROPS["C14"] = dict(scenarios=c14)

def c16(tier):
    return [S("dtM", "h_dt", dict(mode="given", dtM=1)), S("cfl", "h_dt", dict(mode="given", cfl=1)), S("default", "h_dt", dict(mode="given")),
            S("both", "h_dt", dict(mode="given", dtM=1, cfl=1)), S("set", "h_dt", dict(mode="given", dtM=1, set=1)),
            S("documented", "h_dt", dict(mode="given", dtM=1, doc=1)),
            S("substeps", "h_dt", dict(mode="substeps"), maxpaths=100), S("substeps-api", "h_dt", dict(mode="substeps", api=1), maxpaths=100)]
PROPS["C16"] = dict(scenarios=c16)

def c18(tier):
    r = [S("duration", "h_ic", dict(mode="duration")), S("duration-cut", "h_ic", dict(mode="duration", cut=1))]
    r.append(S("settled", "h_ic", dict(mode="converge"), maxpaths=100))
    r.append(S("settled-swap", "h_ic", dict(mode="converge", swap=1), maxpaths=100))
    for w in ("point", "line", "rod", "body"):
        r.append(S("scaled-" + w, "h_ic", dict(mode="scaled", what=w)))
    for d in (0, 1):
        r.append(S("held-%d" % d, "h_ic", dict(mode="held", dyn=d)))
        r.append(S("still-%d" % d, "h_ic", dict(mode="still", dyn=d)))
    return r
PROPS["C18"] = dict(scenarios=c18)

def c19(tier):
    r = []
    def A(name, model, **k):
        r.append(S(name, "h_input", dict(mode="alike", model=model, nudge=1, **k), maxpaths=2, budget=15, timeout=1))
    for i in range(1, 6):
        A("words-lines-%d" % i, "lines", word=i)
        A("words-rigid-%d" % i, "rigid", word=i)
    for i in range(1, 5):
        A("words-types-%d" % i, "types", word=i)
    for i in range(1, 6):
        A("headers-%d" % i, "rigid" if i % 2 else "lines", head=i)
    for i in (1, 2):
        A("options-%d" % i, "lines", opt=i)
    A("options-defaults", "lines", what="defaults")
    A("vectors", "rigid", vec=1)
    A("vectors-2", "rigid", vec=2)
    A("vectors-two", "rigid", vec=1, cd=2)
    A("points-with-force", "lines", full=1)
    A("layout-wide", "rigid", layout="wide")
    A("layout-dos", "lines", layout="dos")
    A("order-reversed", "rigid", order="reversed")
    A("order-mixed", "rigid", order="mixed")
    A("not-closed", "lines", close=0)
    A("channels", "lines", outcase=1)
    A("files-bare", "lines", what="files", bare=1)
    A("files-dot", "lines", what="files", bare=2)
    for w in ("point", "rodA", "rodB", "bodypoint", "bodyrod", "output"):
        r.append(S("refs-" + w, "h_input", dict(mode="refs", what=w), maxpaths=40))
    r.append(S("segments", "h_input", dict(mode="segments"), maxpaths=20))
    for w in ("line_type", "rod_type", "body", "rod", "point", "line"):
        r.append(S("fields-" + w, "h_input", dict(mode="fields", what=w), maxpaths=40))
    return r
PROPS["C19"] = dict(scenarios=c19)
