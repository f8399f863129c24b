"""Runs the check of one property: build, explore every scenario, discharge,
replay candidate counterexamples natively, write evidence."""
import fnmatch, json, os, shutil, sys, tempfile, time, re
from concurrent.futures import ThreadPoolExecutor
from . import build
from .explore import Explorer, Scenario

VERIF = build.VERIF


def brief(labels):
    """counts per obligation; components and nodes of one quantity are summed when there are many"""
    if len(labels) <= 60:
        return labels
    r = {}
    for k, L in labels.items():
        g = r.setdefault(re.sub(r"\d+", "#", re.sub(r"\.[xyz]$", ".#", k)), {})
        for a, n in L.items():
            g[a] = g.get(a, 0) + n
    return r

def load_findings():
    fn = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith("{"):
                out.append(json.loads(l))
    return out


def parse_native(fn):
    r = {"end": None, "obls": []}
    if not os.path.exists(fn):
        return r
    for l in open(fn):
        p = l.rstrip("\n").split(" ")
        if p[0] == "end":
            r["end"] = p[1]
        elif p[0] == "o":
            r["obls"].append((p[1] == "1", p[2], p[3], p[4], " ".join(p[5:])))
    return r


class Native:
    """lazy native builds for replay"""

    def __init__(self):
        self.exe = {}

    def get(self, h):
        if h not in self.exe:
            self.exe[h] = build.harness(h, native=True)
        return self.exe[h]


def replay(nat, E, label, wit, work):
    exe = nat.get(E.sc.harness)
    d, rc = E.execute(wit, "replay", exe)
    r = parse_native(os.path.join(d, "dump.txt"))
    ok = False
    detail = None
    if rc == -999:
        ok = label == "hang"
        detail = "the run does not terminate within 60 s"
    elif label.startswith("end:"):
        ok = r["end"] not in E.sc.expect_end and r["end"] not in ("assume",)
        detail = "the run ends with %s (exit %d)" % (r["end"], rc)
    else:
        for good, a, b, tol, lab in r["obls"]:
            if lab == label and not good:
                ok = True
                detail = "%s: got %s expected %s (tolerance %s)" % (lab, a, b, tol)
                break
    shutil.rmtree(d, ignore_errors=True)
    return ok, detail


def main(pid, tier):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    import props
    P = props.PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scs = P["scenarios"](tier)
    only = os.environ.get("VP_SC")
    if only:
        scs = [s for s in scs if re.search(only, s.name)]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev_fn = os.path.join(VERIF, "evidence", pid + ".json")
    work = tempfile.mkdtemp(prefix="vp_%s_" % pid, dir=os.environ.get("VP_TMP", "/tmp"))
    budget = P.get("budget", {}).get(tier, 420 if tier == "quick" else 3000)
    rc = 1
    try:
        exes = {}
        for hname in sorted(set(s.harness for s in scs)):
            exes[hname] = build.harness(hname)
        normexe = build.norm()
        tb = time.time() - t0
        deadline = time.time() + budget
        Es = []

        def go(s):
            w = os.path.join(work, re.sub(r"\W", "_", s.name))
            os.makedirs(w, exist_ok=True)
            dl = deadline
            if os.environ.get("VP_STOP") and any(e.viol for e in Es):
                dl = time.time() + 0.1  # mutation campaigns: one violation is enough
            E = getattr(s, "explorer", Explorer)(s, exes[s.harness], normexe, seed, w, dl)
            Es.append(E)
            return E.explore()
        with ThreadPoolExecutor(6) as ex:
            Es = list(ex.map(go, scs))
        # replay ------------------------------------------------------------
        nat = Native()
        known = [f for f in load_findings() if f.get("property") == pid and f.get("status") == "known"]
        violations, knowns, spurious = [], {}, []
        for E in Es:
            seen = {}
            for label, wit, info in E.viol:
                seen.setdefault(label, []).append((wit, info))
            for label, lst in seen.items():
                done = False
                for wit, info in lst[:6]:
                    ok, detail = replay(nat, E, label, wit, work)
                    if ok:
                        kf = None
                        for f in known:
                            if fnmatch.fnmatchcase(E.sc.name, f["scenario"]) and fnmatch.fnmatchcase(label, f["label"]):
                                kf = f
                        if kf:
                            knowns[kf["what"]] = 1
                        else:
                            violations.append((E, label, wit, detail))
                        done = True
                        break
                if not done:
                    spurious.append("%s/%s" % (E.sc.name, label))
        for f in knowns:
            print("KNOWN-FINDING: property=%s %s" % (pid, f))
        rdir = os.path.join(VERIF, "replays", pid)
        shutil.rmtree(rdir, ignore_errors=True)
        for n, (E, label, wit, detail) in enumerate(violations):
            if n >= 8:
                break
            dd = os.path.join(rdir, "v%d" % n)
            os.makedirs(dd, exist_ok=True)
            E.write_in(os.path.join(dd, "in.txt"), wit)
            with open(os.path.join(dd, "replay.sh"), "w") as f:
                f.write("#!/bin/sh\n# replays the counterexample against the real code (native build)\n"
                        "cd %s && exec python3 check.py --replay %s %s\n" % (VERIF, E.sc.harness, os.path.join(dd, "in.txt")))
            with open(os.path.join(dd, "README"), "w") as f:
                f.write("property %s scenario %s\nobligation: %s\n%s\n" % (pid, E.sc.name, label, detail))
            print("  counterexample: scenario %s, %s" % (E.sc.name, detail))
            print("VIOLATION property=%s replay=%s" % (pid, os.path.join(dd, "replay.sh")))
        # evidence ----------------------------------------------------------
        funs = sorted(set(f for E in Es for f in E.funs))
        repo_funs = sorted(set(re.sub(r"\s+\S*/source/", " @", f) for f in funs if "/repo/source/" in f or "/source/" in f and "Eigen" not in f))
        repo_funs = [f for f in repo_funs if "Eigen::" not in f.split("(")[0]]
        q = {}
        st = 0.0
        for E in Es:
            for k, v in E.stats.kinds.items():
                q[k] = q.get(k, 0) + v
            st += E.stats.t
        evals = sum(E.obl_total for E in Es)
        vac = [E.sc.name for E in Es if E.obl_total == 0]
        cov = {
            "executions": sum(E.runs for E in Es),
            "rule": "states = distinct path conditions explored; transitions = branch flips taken; each is one path of the real compiled code (LLVM IR of /repo's current tree, instrumented) from a "
                    "scenario with symbolic inputs; distinct = distinct path condition; every obligation on a path is decided "
                    "by the solver for all inputs of that path within the stated box",
            "samples": [{"scenario": E.sc.name, "input": E.sample_w} for E in Es[:3]],
            "obligations": evals,
            "discharged": sum(E.obl_solver for E in Es) + sum(L["path"] for E in Es for L in E.labels.values()),
            "solver_queries": q,
            "solver_time_s": round(st, 2),
            "build_time_s": round(tb, 1),
            "functions_encoded": repo_funs,
            "functions_encoded_count": len(repo_funs),
            "scenarios": [{
                "name": E.sc.name, "harness": E.sc.harness, "options": E.sc.args,
                "symbolic_inputs": len(E.syms), "box": {s["name"]: [s["lo"], s["hi"]] for s in E.syms},
                "paths": len(E.paths), "ends": E.ends, "dag_nodes": E.nodes,
                "infeasible_branches_proved": E.infeasible,
                "branches_undecided": sorted(set(E.undecided_br)), "n_branches_undecided": len(E.undecided_br),
                "frontier_not_explored": E.frontier_left,
                "obligations": E.obl_total, "undecided_obligations": sorted(set(E.undecided_obl))[:100],
                "labels": brief(E.labels), "translator_validation_runs": E.validated,
                "translator_mismatches": E.valid_mismatch,
                "values_lost": sorted(E.lost), "errors": E.errors[:5], "notes": sorted(E.notes),
            } for E in Es],
            "vacuous_scenarios": vac,
            "candidates_not_reproduced": spurious,
            "exhaustive": all(E.frontier_left == 0 and not E.undecided_br and not E.undecided_obl for E in Es),
        }
        with open(ev_fn, "w") as f:
            json.dump({
                "property": pid, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"),
                "coverage": dict(cov, states=sum(len(E.paths) for E in Es), transitions=sum(E.flipped for E in Es),
                                 traces_validated_against_impl=sum(E.validated for E in Es)),
                "assumptions": props.COMMON + P.get("assumptions", []),
                "wall_s": round(time.time() - t0, 2), "violations": len(violations),
            }, f, indent=1)
        for E in Es:
            print("[%s] %s: paths=%d runs=%d obl=%d solver-decided=%d open=%d infeasible=%d undecided-branches=%d frontier=%d nodes=%d val=%d/%d err=%d" % (
                pid, E.sc.name, len(E.paths), E.runs, E.obl_total, E.obl_solver + sum(L["path"] for L in E.labels.values()), len(E.undecided_obl), E.infeasible,
                len(E.undecided_br), E.frontier_left, E.nodes, E.validated, E.valid_mismatch, len(E.errors)))
            if os.environ.get("VP_VERBOSE"):
                print("   ends", E.ends, "lost", sorted(E.lost)[:8], "undec", sorted(set(E.undecided_obl))[:8], "ubr", sorted(set(E.undecided_br))[:12], "err", E.errors[:3])
                print("   cand", sorted(set(l for l, _, _ in E.viol))[:20], "spurious", spurious[:10])
        print("%s: %d paths, %d obligations, queries %s, solver %.1fs, wall %.1fs (build %.1fs)" % (
            pid, sum(len(E.paths) for E in Es), evals, q, st, time.time() - t0, tb))
        if vac:
            # a scenario that never reaches an obligation decides nothing
            print("warning: no obligation reached in", vac)
        rc = 1 if violations else 0
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept", work)
    return rc


def setup():
    """prebuild the engine (not /repo: every check compiles the tree it sees)"""
    sys.path.insert(0, VERIF)
    import props
    build.norm()
    build.rt(False)
    build.rt(True)
    hs = sorted(set(s.harness for P in props.PROPS.values() for s in P["scenarios"]("quick")))
    for hname in hs:
        build.harness(hname)
    return 0


def do_replay(harness, infile):
    import subprocess
    exe = build.harness(harness, native=True)
    d = tempfile.mkdtemp(prefix="vp_replay_")
    env = dict(os.environ, VP_IN=os.path.abspath(infile), VP_DUMP=os.path.join(d, "out.txt"), VP_SCRATCH=d)
    r = subprocess.run([exe], env=env, cwd=d)
    out = open(os.path.join(d, "out.txt")).read()
    bad = [l for l in out.split("\n") if l.startswith("o 0")]
    print("\n".join(l for l in out.split("\n") if l.startswith(("sym", "end"))))
    print("violated obligations:\n" + "\n".join(bad))
    shutil.rmtree(d, ignore_errors=True)
    return 1 if bad or r.returncode else 0
