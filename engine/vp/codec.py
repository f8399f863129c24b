"""The functions that turn a number into its saved 64 bit pattern and back,
decided bit by bit with CBMC: their current source text is handed to CBMC as C,
one query per window of magnitudes, all mantissas and both signs symbolic."""
import os, re, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from . import build
from .explore import Explorer, SLOTS


def functions(text):
    """free, non-template functions defined in a C++ text: [(name, text)]"""
    text = re.sub(r"/\*.*?\*/", lambda m: "\n" * m.group(0).count("\n"), text, flags=re.S)
    text = re.sub(r"//[^\n]*", "", text)
    out = []
    for m in re.finditer(r"(?m)^((?:[A-Za-z_][\w:<>]*[\s*&]+)+)([A-Za-z_]\w*)\s*\(([^;{}()]*)\)\s*(?:noexcept\s*)?\{", text):
        head = text[:m.start()].rstrip()
        if re.search(r"template\s*<[^<>]*>$", head) or "::" in m.group(1):
            continue
        d, i = 0, m.end() - 1
        while i < len(text):
            if text[i] == "{":
                d += 1
            elif text[i] == "}":
                d -= 1
                if d == 0:
                    break
            i += 1
        out.append((m.group(2), text[m.start():i + 1]))
    return out


MAIN = """
double nondet_double(void);
int main(void)
{
	double f = nondet_double();
	double a = f < 0 ? -f : f;
	__CPROVER_assume(a >= LO && a < HI);
	long long p = pack754((long double)f, 64, 11);
	double g = (double)unpack754(p, 64, 11);
	__CPROVER_assert(g == f, "the number is restored");
	return 0;
}
"""
INC = "#include <stdbool.h>\n#include <stdint.h>\n#include <stddef.h>\n#include <limits.h>\n#define constexpr const\n"


class Codec(Explorer):
    def explore(self):
        self.sample_w = {"f": 1.0}
        src = os.path.join(build.REPO, "source", "IO.cpp")
        fs = functions(open(src).read())
        names = [n for n, _ in fs]
        if "pack754" not in names or "unpack754" not in names:
            self.notes.add("pack754/unpack754 not found as free functions: codec not decided here")
            return self
        # callees of the two, transitively
        need, todo = [], ["unpack754", "pack754"]
        D = dict(fs)
        while todo:
            n = todo.pop()
            if n in need:
                continue
            need.append(n)
            todo += [k for k in names if k != n and re.search(r"\b%s\s*\(" % re.escape(k), D[n])]
        decl = "".join(re.match(r"(?s)(.*?)\{", D[n]).group(1).strip() + ";\n" for n in need)
        c = os.path.join(self.work, "codec.c")
        macros = "\n".join(re.findall(r"(?m)^#define\s+(?!MOORDYN)\w+(?:\([^)]*\))?[^\n\\]*$", open(src).read()))
        open(c, "w").write(INC + macros + "\n" + decl + "\n".join(D[n] for n in need) + MAIN)
        for n in need:
            self.funs.add(n + "\t" + src)
        self.syms = [{"name": "f", "lo": w[0], "hi": w[1]} for w in self.sc.windows]
        self.obl_total = len(self.sc.windows)
        lab = "the number is restored"
        L = self.labels[lab] = {"n": self.obl_total, "ident": 0, "bounded": 0, "nonlinear": 0, "path": 0, "undecided": 0, "const": 0, "cbmc": 0}

        def one(w):
            lo, hi, unw = w
            t0 = time.time()
            left = min(self.sc.budget, self.deadline - t0)
            if left < 5:
                return w, "unknown", None, 0
            with SLOTS:
                try:
                    r = subprocess.run(["cbmc", c, "-DLO=" + lo, "-DHI=" + hi, "--unwind", str(unw), "--unwinding-assertions", "--no-standard-checks", "--trace"],
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left, cwd=self.work)
                    out = r.stdout
                except subprocess.TimeoutExpired:
                    out = ""
            res, wit = "unknown", None
            if "VERIFICATION SUCCESSFUL" in out and "no body for" not in out:
                res = "unsat"
            elif re.search(r"main\.assertion\.1\].*FAILURE", out):
                m = re.search(r"(?m)^\s*f=\S+ \(([01 ]{64,})\)", out)
                if m:
                    import struct
                    b = m.group(1).replace(" ", "")
                    if len(b) == 64:
                        wit = struct.unpack(">d", int(b, 2).to_bytes(8, "big"))[0]
                        res = "sat"
            return w, res, wit, time.time() - t0
        with ThreadPoolExecutor(8) as ex:
            for w, res, wit, dt in ex.map(one, self.sc.windows):
                self.stats.add("codec", res, dt)
                self.runs += 1
                if res == "unsat":
                    L["cbmc"] += 1
                    self.obl_solver += 1
                    self.paths[w[0]] = 1
                elif res == "sat":
                    self.viol.append((lab, {"f": wit}, None))
                    self.paths[w[0]] = 1
                else:
                    L["undecided"] += 1
                    self.undecided_obl.append("%s <= |f| < %s" % (w[0], w[1]))
        self.ends = {"ok": len(self.paths)}
        return self
