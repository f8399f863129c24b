"""Path exploration of one scenario and discharge of its obligations."""
import itertools, json, os, re, shutil, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

Z3 = "z3-new" if shutil.which("z3-new") else "z3"
SLOTS = threading.Semaphore(max(2, (os.cpu_count() or 8)))


class Stats:
    def __init__(self):
        self.lock = threading.Lock()
        self.q = {"sat": 0, "unsat": 0, "unknown": 0}
        self.t = 0.0
        self.kinds = {}

    def add(self, kind, res, dt):
        with self.lock:
            self.q[res] = self.q.get(res, 0) + 1
            self.t += dt
            k = kind + ":" + res
            self.kinds[k] = self.kinds.get(k, 0) + 1


def solve(path, timeout, stats, kind, solver=None):
    """run an SMT-LIB file; returns (result, {name: value string})"""
    t0 = time.time()
    with SLOTS:
        try:
            cmd = [Z3, "-T:%d" % max(1, int(timeout)), "-memory:3000", path] if solver != "cvc5" else \
                ["cvc5", "--tlimit=%d" % int(timeout * 1000), "--produce-models", "--lang=smt2", path]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 5)
            out = r.stdout
        except subprocess.TimeoutExpired:
            out = "timeout"
    first = out.strip().split("\n")[0].strip() if out.strip() else ""
    res = first if first in ("sat", "unsat") else "unknown"
    if res == "unsat":
        # an error before the verdict would show up first; errors after an
        # unsat answer come only from get-value
        errs = [l for l in out.split("\n")[1:] if "(error" in l and "model is not available" not in l
                and "cannot get value" not in l.lower()]
        if errs:
            res = "unknown"
    vals = {}
    if res == "sat":
        for m in re.finditer(r"\((a\d+|i\d+) ((?:\(.*?\)|[^()\s]+)+)\)", out):
            vals[m.group(1)] = m.group(2)
    stats.add(kind, res, time.time() - t0)
    return res, vals


def num(s):
    s = s.strip().replace("?", "")
    m = re.fullmatch(r"\(_ bv(\d+) (\d+)\)", s)
    if m:
        v, w = int(m.group(1)), int(m.group(2))
        return v - (1 << w) if v >> (w - 1) else v
    if s.startswith("#x"):
        v = int(s[2:], 16); w = 4 * (len(s) - 2)
        return v - (1 << w) if v >> (w - 1) else v
    if s.startswith("#b"):
        v = int(s[2:], 2); w = len(s) - 2
        return v - (1 << w) if v >> (w - 1) else v

    def ev(t):
        t = t.strip()
        if t.startswith("("):
            inner = t[1:-1].strip()
            op = inner[0]
            rest = inner[1:].strip()
            parts, d, cur = [], 0, ""
            for ch in rest:
                if ch == "(":
                    d += 1
                if ch == ")":
                    d -= 1
                if ch == " " and d == 0:
                    if cur:
                        parts.append(cur)
                    cur = ""
                else:
                    cur += ch
            if cur:
                parts.append(cur)
            x = [ev(p) for p in parts]
            if op == "-":
                return -x[0] if len(x) == 1 else x[0] - x[1]
            if op == "/":
                return x[0] / x[1]
            raise ValueError(t)
        return Fraction(t)
    try:
        return float(ev(s))
    except Exception:
        return None


class Run:
    pass


class Scenario:
    """One harness configuration = one bounded symbolic problem."""

    def __init__(self, name, harness, args=None, maxpaths=64, samples=3000, budget=60, timeout=6, obl_timeout=8,
                 expect_end=("ok",), only=None, floor_complete=True):
        self.name, self.harness = name, harness
        self.args = args or {}
        self.maxpaths, self.samples, self.budget = maxpaths, samples, budget
        self.timeout, self.obl_timeout = timeout, obl_timeout
        self.expect_end = expect_end
        self.only = only


class Explorer:
    def __init__(self, sc, exe, normexe, seed, work, deadline):
        self.sc, self.exe, self.norm = sc, exe, normexe
        self.seed, self.work, self.deadline = seed, work, deadline
        self.stats = Stats()
        self.paths = {}
        self.viol = []        # candidate violations: (label, witness, info)
        self.undecided_br, self.infeasible, self.flipped = [], 0, 0
        self.undecided_obl = []
        self.obl_total = self.obl_solver = 0
        self.labels = {}
        self.funs = set()
        self.ends = {}
        self.validated = self.valid_mismatch = 0
        self.lost = {}
        self.nodes = 0
        self.runs = 0
        self.negcache = {}
        self.frontier_left = 0
        self.sample_w = None
        self.syms = []
        self.errors = []
        self.notes = set()
        self.refuted = set()

    def write_in(self, fn, wit):
        with open(fn, "w") as f:
            for k, v in self.sc.args.items():
                f.write("a %s %s\n" % (k, v))
            for k, v in wit.items():
                f.write("w %s %s\n" % (k, repr(v) if isinstance(v, float) else v))

    def execute(self, wit, tag, exe=None):
        d = os.path.join(self.work, tag)
        os.makedirs(d, exist_ok=True)
        self.write_in(os.path.join(d, "in.txt"), wit)
        env = dict(os.environ, VP_IN=os.path.join(d, "in.txt"), VP_DUMP=os.path.join(d, "dump.txt"), VP_SCRATCH=d)
        self.runs += 1
        with SLOTS:
            try:
                r = subprocess.run([exe or self.exe], env=env, cwd=d, stdout=subprocess.DEVNULL,
                                   stderr=subprocess.DEVNULL, timeout=60)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = -999
        return d, rc

    def normalise(self, d, start, samples=None, smt=1):
        with SLOTS:
            try:
                r = subprocess.run([self.norm, os.path.join(d, "dump.txt"), d, str(samples or self.sc.samples), str(self.seed),
                                    str(start), str(smt)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240)
            except subprocess.TimeoutExpired:
                self.errors.append("normaliser timeout")
                return None
        if r.returncode != 0:
            self.errors.append("normaliser failed rc=%d" % r.returncode)
            return None
        with open(os.path.join(d, "norm.json")) as f:
            return json.load(f)

    def one(self, item):
        wit, start, depth = item
        n = next(self.counter)
        d, rc = self.execute(wit, "p%d" % n)
        try:
            return self.one_(d, rc, wit, start)
        finally:
            if not os.environ.get("VP_KEEP"):
                shutil.rmtree(d, ignore_errors=True)

    def one_(self, d, rc, wit, start):
        new = []
        if not os.path.exists(os.path.join(d, "dump.txt")):
            self.errors.append("no dump (rc=%d)" % rc)
            if rc == -999:
                self.viol.append(("hang", dict(wit), {"end": "timeout"}))
            return new
        # cheap path signature first
        J = self.normalise(d, start)
        if J is None:
            return new
        if not self.syms:
            self.syms = J["syms"]
        key = tuple(c["h"] for c in J["cons"]) + (J["end"],)
        if key in self.paths:
            return new
        self.paths[key] = 1
        self.nodes = max(self.nodes, J["nodes"])
        self.funs.update(J["funs"])
        self.notes.update(J["notes"])
        for l in J["lost"]:
            self.lost[l.split(" ", 1)[1]] = 1
        self.ends[J["end"]] = self.ends.get(J["end"], 0) + 1
        full = {s["name"]: s["wit"] for s in J["syms"]}
        if self.sample_w is None:
            self.sample_w = full
        names = [s["name"] for s in J["syms"]]

        def towit(pt):
            return {n_: v for n_, v in zip(names, pt)}

        if J["end"] not in self.sc.expect_end and J["end"] != "assume":
            self.viol.append(("end:" + J["end"], full, {"end": J["end"]}))
        # obligations -----------------------------------------------------
        # (checked where they stand: a later assumption does not excuse them)
        self.check_obls(J, d, full, towit)
        # translator validation: another input on the same path
        if J["chk"] and self.validated < 3 and J["end"] == "ok":
            self.validate(J, towit(J["chk"]), key)
        # branch flips ----------------------------------------------------
        work = []
        for i, c in enumerate(J["cons"]):
            if i < start or c["assume"]:
                continue
            for pt in c.get("flips", []):
                self.flipped += 1
                new.append((towit(pt), i + 1, 0))
            if c["emit"] == 1:
                work.append((i, c))
            elif c["emit"] == 2 and not c.get("flips"):
                self.undecided_br.append(c["site"])

        def flip(t):
            i, c = t
            if time.time() > self.deadline:
                return ("undecided", i, c, None)
            ck = c["h"] if not c.get("flips") else None
            if ck and self.negcache.get(ck) == "unsat":
                return ("unsat", i, c, None)
            lf = os.path.join(d, "flip_%d.lin.smt2" % i)
            if os.path.exists(lf):
                r, _ = solve(lf, 3, self.stats, "branch")
                if r == "unsat":
                    if ck:
                        self.negcache[ck] = "unsat"
                    return ("unsat", i, c, None)
                lf2 = os.path.join(d, "flip_%d.lin2.smt2" % i)
                if os.path.exists(lf2):
                    r, _ = solve(lf2, 3, self.stats, "branch")
                    if r == "unsat":
                        return ("unsat", i, c, None)
            if ck and self.unk.get(ck, 0) >= 2:
                return ("undecided", i, c, None)
            r, vals = solve(os.path.join(d, "flip_%d.smt2" % i), self.sc.timeout, self.stats, "branch")
            if r == "unknown" and ck:
                self.unk[ck] = self.unk.get(ck, 0) + 1
            if r == "sat":
                w = dict(full)
                for k, v in vals.items():
                    nm = c.get("map", {}).get(k)
                    x = num(v)
                    if nm is not None and x is not None:
                        w[nm] = int(x) if isinstance(full.get(nm), int) and float(x).is_integer() else x
                return ("sat", i, c, w)
            return ("unsat" if r == "unsat" else "undecided", i, c, None)
        if work:
            with ThreadPoolExecutor(4) as ex:
                for st, i, c, w in ex.map(flip, work):
                    if st == "sat":
                        self.flipped += 1
                        new.append((w, i + 1, 0))
                    elif st == "unsat":
                        self.infeasible += 1
                    else:
                        self.undecided_br.append(c["site"])
        return new

    def validate(self, J, wit, key):
        d2, rc = self.execute(wit, "v%d" % next(self.counter))
        try:
            J2 = self.normalise(d2, 10**9, samples=1, smt=0)
            if not J2:
                return
            k2 = tuple(c["h"] for c in J2["cons"]) + (J2["end"],)
            if k2 != key or len(J2["obls"]) != len(J["chkval"]):
                return
            ok = True
            for o, (a, b) in zip(J2["obls"], J["chkval"]):
                for x, y in ((o["va"], a), (o["vb"], b)):
                    if isinstance(x, str) or isinstance(y, str):
                        continue
                    if abs(x - y) > 1e-6 * (1 + abs(x)) + abs(o["tol"] if not isinstance(o["tol"], str) else 0):
                        ok = False
            if ok:
                self.validated += 1
            else:
                self.valid_mismatch += 1
        finally:
            if not os.environ.get("VP_KEEP"):
                shutil.rmtree(d2, ignore_errors=True)

    def check_obls(self, J, d, full, towit):
        lin = [o for o in J["obls"] if o["st"] in ("ident", "bounded")]
        self.obl_total += len(J["obls"])
        opens = []
        for k, o in enumerate(J["obls"]):
            lab = o["label"]
            L = self.labels.setdefault(lab, {"n": 0, "ident": 0, "bounded": 0, "nonlinear": 0, "path": 0, "undecided": 0, "const": 0})
            L["n"] += 1
            if o.get("const"):
                L["const"] += 1
            va, vb, tol = o["va"], o["vb"], o["tol"]
            bad = False
            if o["kind"] == 3:
                bad = o["st"] == "path-false"
            elif isinstance(va, str) or isinstance(vb, str):
                bad = True
            elif o["kind"] == 1:
                bad = not abs(va - vb) <= tol
            else:
                bad = not va <= vb + tol
            if bad:
                self.viol.append((lab, full, {"a": va, "b": vb, "tol": tol, "how": "on the path's own input"}))
                continue
            if o["st"] in ("ident", "bounded"):
                L[o["st"]] += 1
            elif o["st"] == "path-true":
                L["path"] += 1
            else:
                opens.append((k, o, L))
        if lin:
            r, _ = solve(os.path.join(d, "obl_lin.smt2"), self.sc.obl_timeout, self.stats, "obligations")
            if r != "unsat":
                for o in lin:
                    self.undecided_obl.append(o["label"])
                    self.labels[o["label"]]["undecided"] += 1
            else:
                self.obl_solver += len(lin)

        def do(t):
            k, o, L = t
            for pt in o["bad"]:
                return ("cand", o, L, towit(pt))
            if o["st"] == "const-violated":
                return ("cand", o, L, full)
            if not o["smt"]:
                return ("undecided", o, L, None)
            if time.time() > self.deadline or self.unk_obl >= 8:
                return ("undecided", o, L, None)
            r, vals = solve(os.path.join(d, o["smt"]), self.sc.obl_timeout, self.stats, "obligations")
            if r == "unknown":
                r, vals = solve(os.path.join(d, o["smt"]), self.sc.obl_timeout, self.stats, "obligations", "cvc5")
            if r == "unsat":
                return ("unsat", o, L, None)
            if r == "sat":
                w = dict(full)
                for kk, v in vals.items():
                    nm = o.get("map", {}).get(kk)
                    x = num(v)
                    if nm is not None and x is not None:
                        w[nm] = x
                return ("cand", o, L, w)
            self.unk_obl += 1
            return ("undecided", o, L, None)
        if opens:
            with ThreadPoolExecutor(4) as ex:
                for st, o, L, w in ex.map(do, opens):
                    if st == "unsat":
                        L["nonlinear"] += 1
                        self.obl_solver += 1
                    elif st == "cand":
                        self.viol.append((o["label"], w, {"how": "model", "tol": o["tol"]}))
                    else:
                        L["undecided"] += 1
                        self.undecided_obl.append(o["label"])

    def explore(self):
        self.counter = itertools.count()
        self.unk = {}
        self.unk_obl = 0
        t_end = min(self.deadline, time.time() + self.sc.budget)
        queue = [({}, 0, 0)]
        for w in self.sc.args.get("_wit", []) if isinstance(self.sc.args.get("_wit"), list) else []:
            queue.append((w, 0, 0))
        width = 4
        pending = set()
        from concurrent.futures import wait, FIRST_COMPLETED
        with ThreadPoolExecutor(width) as ex:
            while queue or pending:
                while queue and len(pending) < width and len(self.paths) + len(pending) < self.sc.maxpaths and time.time() < t_end:
                    # spread over branch depths
                    pending.add(ex.submit(self.one, queue.pop(0)))
                if not pending:
                    break
                done, pending = wait(pending, return_when=FIRST_COMPLETED)
                for f in done:
                    queue.extend(f.result())
        self.frontier_left = len(queue)
        return self
