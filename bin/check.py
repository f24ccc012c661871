#!/usr/bin/env python3
"""check.py PROPERTY [--only PROOF] [--verbose]

Decides one property of /repo by discharging the contracts in /verif/contracts with CBMC, from the
current sources of /repo.  See DESIGN.md for the method.  Exit 0: held on everything explored.
Exit 1: a line  VIOLATION property=<id> replay=<path> [no-failing-input-found].
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, resource, shutil, signal
import subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
CACHE = os.path.join(WORK, "cache")
CDIR = os.path.join(VERIF, "contracts")
GENERATED = ["osc_parser", "osc_scanner", "osc_expr_parser", "osc_expr_scanner",
             "osc_legacy_parser", "osc_legacy_scanner"]
CFLAGS = ["-std=c99", "-DLINUX_VERSION", "-D_XOPEN_SOURCE=500", "-w"]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
DEADLINE = T0 + (780 if TIER == "quick" else 6 * 3600)
JOBS = max(2, os.cpu_count() or 4)
VERBOSE = False
os.environ["LC_ALL"] = "C.UTF-8"


def log(*a):
    print(*a, flush=True)


def left():
    return DEADLINE - time.time()


def run(cmd, timeout=None, cwd=None, mem_gb=12, env=None):
    """-> (rc, stdout, stderr); rc None on timeout"""
    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd,
                         preexec_fn=pre, env=env, stdin=subprocess.DEVNULL)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o.decode("utf8", "replace"), e.decode("utf8", "replace")


# ------------------------------------------------------------------------------- sources
class Tree:
    """A private copy of /repo's current working tree with the generated parsers, and object caches."""

    def __init__(self):
        self.dir = os.path.join(WORK, "src-%d" % os.getpid())
        os.makedirs(CACHE, exist_ok=True)
        os.makedirs(self.dir)
        for f in os.listdir(REPO):
            if re.search(r"\.(c|h|r|y|l)$", f) and not re.match(r"osc_\w*(parser|scanner)\.[ch]$", f):
                shutil.copy2(os.path.join(REPO, f), self.dir)
        shutil.copytree(os.path.join(REPO, "contrib"), os.path.join(self.dir, "contrib"))
        ps = []
        for g in GENERATED:
            cmd = gen_cmd(g)
            ps.append((g, subprocess.Popen(cmd, cwd=self.dir, stdout=subprocess.DEVNULL,
                                           stderr=subprocess.PIPE)))
        self.generr = {}
        for g, p in ps:
            e = p.communicate()[1]
            if p.returncode:
                self.generr[g] = e.decode("utf8", "replace")
        h = hashlib.sha256()
        for f in sorted(os.listdir(self.dir)):
            if f.endswith((".h", ".r")):
                h.update(f.encode() + open(os.path.join(self.dir, f), "rb").read())
        self.hkey = h.hexdigest()
        self.locks = {}
        self.lk = threading.Lock()

    def path(self, mod):
        return os.path.join(self.dir, mod + ".c")

    def obj(self, mod, kind, hooks=False, promote=False):
        """compile one library module: kind 'gb' (goto binary) or 'o' (native, ASan)"""
        src = self.path(mod)
        flags = list(CFLAGS) + ["-I", self.dir] + (["-DLIBO_CONTRACTS"] if hooks else []) + (["-include", os.path.join(CDIR, "vc_promote.h")] if promote else [])
        key = hashlib.sha256((self.hkey + kind + str(hooks) + (open(os.path.join(CDIR, "vc_promote.h")).read() if promote else "")).encode() + open(src, "rb").read()).hexdigest()[:24]
        out = os.path.join(CACHE, "%s-%s.%s" % (mod.replace("/", "_"), key, kind))
        with self.lk:
            lk = self.locks.setdefault(out, threading.Lock())
        with lk:
            if os.path.exists(out):
                return out
            tmp = out + ".tmp%d" % os.getpid() + (".o" if kind == "o" else ".gb")
            if kind == "gb":
                cmd = ["goto-cc", "-DOSC_MATCH_CONTRACT_LIMIT=12"] + flags + ["-c", src, "-o", tmp]
            else:
                cmd = ["clang", "-g1", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address"] + flags + ["-c", src, "-o", tmp]
            rc, o, e = run(cmd, timeout=300)
            if rc != 0:
                raise BuildError("%s: %s" % (mod, (o + e)[-1500:]))
            os.rename(tmp, out)
            return out

    def defs(self):
        """library function name -> module, from the native objects"""
        with self.lk:
            if getattr(self, "_defs", None) is None:
                d = {}
                for m in self.modules() + ["contrib/strptime"]:
                    self.lk.release()
                    try:
                        o = self.obj(m, "o")
                    finally:
                        self.lk.acquire()
                    for l in run(["nm", "--defined-only", o], timeout=60)[1].split("\n"):
                        f = l.split()
                        if len(f) == 3 and f[1] == "T":
                            d.setdefault(f[2], m)
                self._defs = d
            return self._defs

    def modules(self):
        ms = [f[:-2] for f in os.listdir(self.dir) if f.endswith(".c")]
        return sorted(m for m in ms if m not in ("osc_expr_u",))

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def gen_cmd(g):
    """the Makefile's own rules"""
    if g.endswith("parser"):
        return ["bison", "-p", g + "_", "-d", "-o", g + ".c", g + ".y"]
    return ["flex", "-o", g + ".c", "--prefix=" + g + "_", "--header-file=" + g + ".h", g + ".l"]


class BuildError(Exception):
    pass


# ------------------------------------------------------------------------------- contract files
class Contract:
    def __init__(self, proto, line):
        self.proto = proto.strip().rstrip(";")
        m = re.match(r"^(.*?)\b(\w+)\s*\((.*)\)$", self.proto, re.S)
        self.ret, self.name, params = m.group(1).strip(), m.group(2), m.group(3).strip()
        self.params = [] if params in ("", "void") else [p.strip() for p in params.split(",")]
        self.args = [re.search(r"(\w+)\s*(?:\[\w*\])?$", p).group(1) for p in self.params]
        self.line = line
        self.requires, self.assigns, self.ensures, self.frees = [], None, [], None

    def subst(self, e, ret, old):
        out, i = "", 0
        while True:
            j = e.find("OLD(", i)
            if j < 0 or (j and (e[j - 1].isalnum() or e[j - 1] == "_")):
                out += e[i:] if j < 0 else e[i:j + 4]
                if j < 0:
                    break
                i = j + 4
                continue
            out += e[i:j]
            d, k = 1, j + 4
            while d:
                d += {"(": 1, ")": -1}.get(e[k], 0)
                k += 1
            out += old(e[j + 4:k - 1])
            i = k
        return re.sub(r"\bRET\b", ret, out)

    def dfcc(self, fname):
        s = "#line %d \"%s\"\n%s\n" % (self.line, fname, self.proto)
        for ln, e in self.requires:
            s += "#line %d \"%s\"\n__CPROVER_requires(%s)\n" % (ln, fname, e)
        if self.assigns is not None:
            s += "__CPROVER_assigns(%s)\n" % self.assigns
        if self.frees is not None:
            s += "__CPROVER_frees(%s)\n" % self.frees
        for ln, lab, e in self.ensures:
            s += "#line %d \"%s\"\n__CPROVER_ensures(%s)\n" % (
                ln, fname, self.subst(e, "__CPROVER_return_value", lambda x: "__CPROVER_old(%s)" % x))
        return s + ";\n"

    def rac(self, fname):
        olds = []

        def old(x):
            if x not in olds:
                olds.append(x)
            return "vc_old_%d" % olds.index(x)
        void = self.ret == "void"
        ens = [(ln, lab, self.subst(e, "vc_ret", old)) for ln, lab, e in self.ensures]
        s = "static %s %s__rac(%s) {\n" % (self.ret, self.name, ", ".join(self.params) or "void")
        for ln, e in self.requires:
            s += "#line %d \"%s\"\n\tREQUIRE(%s);\n" % (ln, fname, e)
        for i, x in enumerate(olds):
            s += "\t__typeof__(%s) vc_old_%d = (%s);\n" % (x, i, x)
        s += "\t%s%s(%s);\n" % ("" if void else "%s vc_ret = " % self.ret, self.name, ", ".join(self.args))
        for ln, lab, e in ens:
            s += "#line %d \"%s\"\n\tENSURE(\"%s.%s\", %s);\n" % (ln, fname, self.name, lab, e)
        s += "" if void else "\treturn vc_ret;\n"
        s += "}\n#define %s %s__rac\n" % (self.name, self.name)
        return s


class Proof:
    def __init__(self, line, text, mod):
        toks = re.findall(r'(\w+)(?:=("[^"]*"|\S+))?', text)
        self.name = toks[0][0]
        self.a = {k: v.strip('"') for k, v in toks[1:]}
        self.line, self.mod = line, mod
        self.prop = self.a.get("prop")
        self.enforce = self.a.get("enforce")
        self.replace = [x for x in self.a.get("replace", "").split(",") if x]
        self.loops = self.a.get("loops") == "1"
        self.unwind = int(self.a.get("unwind", "0"))
        self.kind = self.a.get("kind", "proof")
        self.bound = self.a.get("bound", "")
        self.tier = self.a.get("tier", "quick")
        self.sweep = float(self.a.get("sweep", "6"))
        self.nocbmc = self.a.get("cbmc") == "0"
        self.timeout = int(self.a.get("timeout", "400"))
        self.functions = [x for x in self.a.get("functions", "").split(",") if x]


def expand(lines):
    """//@ for A,B in x,y | z,w ... //@ endfor : textual repetition with ${A}, ${B}"""
    out, i = [], 0
    while i < len(lines):
        m = re.match(r"^//@\s*for\s+(\S+)\s+in\s+(.*)$", lines[i])
        if not m:
            out.append(lines[i])
            i += 1
            continue
        names = m.group(1).split(",")
        j = i + 1
        while not re.match(r"^//@\s*endfor", lines[j]):
            j += 1
        for alt in m.group(2).split("|"):
            vals = [v.strip() for v in alt.split(",")]
            for l in lines[i + 1:j]:
                for n, v in zip(names, vals):
                    l = l.replace("${%s}" % n, v)
                out.append(l)
        i = j + 1
    return out


class Module:
    """One contract file: text with //@ directives"""

    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-2]
        self.items = []           # ("text", str) | ("contract", Contract)
        self.contracts, self.proofs, self.sources = {}, {}, []
        self.load(path)

    def load(self, path):
        lines = expand(open(path).read().split("\n"))
        text, tl, cur = [], 1, None
        fname = os.path.basename(path)

        def flush(next_line):
            nonlocal text, tl
            if text:
                self.items.append(("text", "#line %d \"%s\"\n" % (tl, fname) + "\n".join(text) + "\n"))
            text, tl = [], next_line
        i = 0
        while i < len(lines):
            m = re.match(r"^//@\s*(\w+)\s*(.*)$", lines[i])
            if not m:
                text.append(lines[i])
                i += 1
                continue
            ln = i + 1
            word, rest = m.group(1), m.group(2)
            while rest.endswith("\\"):
                i += 1
                rest = rest[:-1].rstrip() + " " + re.sub(r"^//@?\s*", "", lines[i])
            i += 1
            if word == "contract":
                flush(i + 1)
                cur = Contract(rest, ln)
                self.items.append(("contract", cur, fname))
                self.contracts[cur.name] = cur
            elif word == "requires":
                cur.requires.append((ln, rest))
            elif word == "assigns":
                cur.assigns = rest
            elif word == "frees":
                cur.frees = rest
            elif word == "ensures":
                lab, e = rest.split(":", 1)
                cur.ensures.append((ln, lab.strip(), e.strip()))
            elif word == "sources":
                self.sources += rest.split()
            elif word == "import":
                flush(i + 1)
                self.load(os.path.join(CDIR, rest.strip()))
            elif word == "proof":
                p = Proof(ln, rest, self)
                self.proofs[p.name] = p
            else:
                raise SystemExit("%s:%d: unknown directive %s" % (path, ln, word))
            tl = tl if text else i + 1
        flush(0)

    def generate(self, mode, proof=None):
        """mode 'native' | 'inline' | 'dfcc'"""
        s = '#include "vc.h"\n'
        for it in self.items:
            if it[0] == "text":
                s += it[1]
            elif mode == "dfcc":
                c = it[1]
                if c.name == proof.enforce or c.name in proof.replace:
                    s += c.dfcc(it[2])
            else:
                s += it[1].rac(it[2])
        if mode == "native":
            s += "\nconst struct { const char *name; void (*fn)(void); } vc_proofs[] = {\n"
            s += "".join('\t{"%s", %s},\n' % (p, p) for p in self.proofs)
            s += "};\nconst int vc_nproofs = %d;\n" % len(self.proofs)
        return s

    def label_at(self, line, fname):
        for c in self.contracts.values():
            for ln, lab, _ in c.ensures:
                if ln == line:
                    return "%s.%s" % (c.name, lab)
            for ln, _ in c.requires:
                if ln == line:
                    return "%s.requires" % c.name
        return None


def all_modules():
    return [Module(p) for p in sorted(glob.glob(os.path.join(CDIR, "*.c"))) if not p.endswith("vc_native.c")]


# ------------------------------------------------------------------------------- verification
BASE = ["--no-signed-overflow-check", "--no-undefined-shift-check", "--no-pointer-primitive-check",
        "--no-malloc-may-fail", "--no-standard-checks"]
CHECKS = ["--bounds-check", "--pointer-check", "--div-by-zero-check", "--unwinding-assertions",
          "--no-malloc-may-fail", "--drop-unused-functions"]


class Result:
    def __init__(self, proof):
        self.proof = proof
        self.status = "undecided"      # proved | failed | undecided | error
        self.obligations = self.discharged = 0
        self.failures = []             # dicts: id, label, class, text, inputs
        self.solver_s = self.wall_s = 0.0
        self.reason = ""
        self.covers = 0
        self.cmds = []
        self.output = ""
        self.backend = ""
        self.nobody = []
        self.linked = []
        self.unwind = proof.unwind


def classify(pid, desc):
    if "unwind" in pid or "unwinding assertion" in desc or "recursion" in pid:
        return "unwind"
    if "loop_invariant" in pid or "loop_step" in pid or "loop_decreases" in pid or "loop_assigns" in pid \
       or "decreases" in desc and "loop" in desc or "invariant" in desc and "loop" in desc.lower():
        return "loop-contract"
    if "assigns" in pid or "assignable" in desc:
        return "frame"
    if "precondition" in pid and "contract" in desc:
        return "callee-precondition"
    if "postcondition" in pid or re.search(r"\.assertion\.", pid):
        return "postcondition"
    return "memory-safety"


def cbmc_proof(tree, proof, wd, unwind=None, loops=None, limit=None):
    r = Result(proof)
    t0 = time.time()
    unwind = proof.unwind if unwind is None else unwind
    loops = proof.loops if loops is None else loops
    r.unwind = unwind
    mod = proof.mod
    dfcc = bool(proof.enforce or proof.replace or loops)
    base = os.path.join(wd, "%s-u%d-l%d" % (proof.name, unwind, loops))
    try:
        srcs = proof.a.get("files", "").split(",") if proof.a.get("files") else mod.sources
        srcs = list(srcs)
        open(base + ".c", "w").write(mod.generate("dfcc" if (proof.enforce or proof.replace) else "inline", proof))
        flags = CFLAGS + ["-DVC_CBMC", "-DVC_PROOF_" + proof.name, "-I", CDIR, "-I", tree.dir] + (["-DLIBO_CONTRACTS"] if loops else [])
        if dfcc and "osc_mem" not in srcs:
            srcs.append("osc_mem")
        defs = tree.defs()
        import fnmatch
        absent = sorted({d for x in proof.a.get("absent", "").split(",") if x for d in fnmatch.filter(tree.defs(), x)})
        stubs = set(proof.a.get("stub", "").split(",")) | set(absent)
        while True:
            gbs = [tree.obj(s, "gb", hooks=loops, promote=proof.a.get("promote") == "1") for s in srcs]
            rc, o, e = run(["goto-cc"] + flags + ["--function", proof.name, base + ".c"] + gbs + ["-o", base + ".gb"], timeout=120)
            if rc != 0:
                raise BuildError((o + e)[-3000:])
            rc, o, e = run(["goto-instrument", "--reachable-call-graph", base + ".gb"], timeout=60)
            called = set(re.findall(r"-> (\w+)", o))
            more = sorted({defs[f] for f in called if f in defs and f not in stubs} - set(srcs))
            if not more:
                break
            srcs += more
        r.linked = srcs
        gb = base + ".gb"
        if absent:      # must not be reached: their bodies become assert(false)
            cmd = ["goto-instrument"]
            for f in absent:
                cmd += ["--remove-function-body", f]
            rc, o, e = run(cmd + [gb, base + ".a0.gb"], timeout=120)
            if rc == 0:
                rc, o, e = run(["goto-instrument", "--generate-function-body", "(%s)" % "|".join(absent),
                                "--generate-function-body-options", "assert-false", base + ".a0.gb", base + ".a.gb"], timeout=120)
            if rc != 0:
                raise BuildError((o + e)[-2000:])
            gb = base + ".a.gb"
        if dfcc:
            rc, o, e = run(["goto-instrument", "--no-malloc-may-fail", "--add-library", gb, base + ".lib.gb"], timeout=120)
            if rc != 0:
                raise BuildError((o + e)[-2000:])
            gb = base + ".dfcc.gb"
            legacy = proof.a.get("legacy") == "1"   # without dynamic frames: needed where variadic functions have bodies
            cmd = ["goto-instrument", "--no-malloc-may-fail"] + ([] if legacy else ["--dfcc", proof.name])
            for v in ["osc_mem_alloc_fp", "osc_mem_free_fp", "osc_mem_resize_fp"] + [v for v in proof.a.get("keepstatic", "").split(",") if v] if not legacy else []:
                cmd += ["--nondet-static-exclude", v]
            if proof.enforce:
                cmd += ["--enforce-contract", proof.enforce]
            for g in proof.replace:
                cmd += ["--replace-call-with-contract", g]
            if loops:
                cmd += ["--apply-loop-contracts"]
            cmd += [base + ".lib.gb", gb]
            rc, o, e = run(cmd, timeout=200)
            r.cmds.append(" ".join(cmd[:-2]))
            if rc != 0:
                raise BuildError((o + e)[-3000:])
    except BuildError as ex:
        r.status, r.reason, r.output = "error", "build: " + str(ex)[-1600:], str(ex)
        r.wall_s = time.time() - t0
        return r
    cmd = ["cbmc"] + BASE + CHECKS + ["--function", proof.name] * (not dfcc or proof.a.get("legacy") == "1")
    if unwind:
        cmd += ["--unwind", str(unwind)]
    if proof.a.get("unwindset"):
        cmd += ["--unwindset", proof.a["unwindset"]]
    if proof.a.get("slice", "1") == "1" and not dfcc:
        cmd += ["--slice-formula"]
    solver = proof.a.get("solver", "sat")
    if solver in ("cvc5", "z3"):
        cmd += ["--" + solver]
    elif solver not in ("sat",):
        cmd += ["--sat-solver", solver]
    r.backend = {"sat": "CBMC/MiniSat2"}.get(solver, "CBMC/" + solver)
    cmd += proof.a.get("flags", "").split(":") if proof.a.get("flags") else []
    r.cmds.append(" ".join(cmd) + " " + os.path.basename(gb))
    tmo = max(10, min(proof.timeout if TIER == "quick" else proof.timeout * 6, left() - 60))
    if limit:
        tmo = min(tmo, limit)
    for bits in [proof.a["object_bits"]] if "object_bits" in proof.a else [None, "10", "13"]:
        full = cmd + (["--object-bits", bits] if bits else [])
        rc, o, e = run(full + ["--verbosity", "9", gb], timeout=tmo)
        if "too many addressed objects" not in o + e:
            break
    cmd = full
    r.wall_s = time.time() - t0
    r.output = e[-3000:]
    if rc is None:
        r.reason = "solver timeout after %ds" % tmo
        return r
    results, fname, fn = None, "", ""
    for l in o.split("\n"):
        if l.startswith("** Results:"):
            results = []
            continue
        m = re.match(r"Runtime decision procedure: ([\d.e+-]+)s", l)
        if m:
            r.solver_s += float(m.group(1))
        if results is None:
            continue
        m = re.match(r"\[(\S+)\] (?:(?:file (\S+) )?line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", l)
        if m:
            results.append({"property": m.group(1), "description": m.group(4), "status": m.group(5),
                            "sourceLocation": {"file": m.group(2) or fname, "line": m.group(3) or "0", "function": fn}})
            continue
        m = re.match(r"(\S+) function (\S+)$", l)
        if m:
            fname, fn = m.groups()
    msgs = (o + "\n" + e).split("\n")
    if "** Results:" not in o or not re.search(r"^\*\* \d+ of \d+ failed", o, re.M):
        r.status, r.reason = "error", "cbmc gave no result (rc %s): %s" % (rc, (o[-200:] + e[-300:]).strip())
        if rc in (-9, -6, 134, 137, 6) or "bad_alloc" in o + e or "out of memory" in (o + e).lower():
            r.status, r.reason = "undecided", "solver memory limit or abort (rc %s) %s" % (rc, e[-900:] if VERBOSE else "")
        return r
    m = re.search(r"^\*\* (\d+) of (\d+) failed", o, re.M)
    if int(m.group(2)) != len(results):
        r.status, r.reason = "error", "cannot parse cbmc's result list (%d of %s)" % (len(results), m.group(2))
        return r
    reached = None
    for p in results:
        d, pid, st = p.get("description", ""), p["property"], p["status"]
        if d == "VC_REACHED":
            reached = (reached or False) or st == "FAILURE"
            continue
        if d.startswith("VC_COVER"):
            r.covers += 1
            if st != "FAILURE":
                r.failures.append({"id": pid, "label": d, "class": "vacuity", "text": "case not reachable"})
            continue
        if "builtin-library" in p.get("sourceLocation", {}).get("file", ""):
            # obligations inside CBMC's own contract library: counted with the rest
            pass
        r.obligations += 1
        if st == "SUCCESS":
            r.discharged += 1
        elif st == "FAILURE":
            sl = p.get("sourceLocation", {})
            lab = mod.label_at(int(sl.get("line", 0) or 0), sl.get("file", "")) if "postcondition" in pid else None
            cl = classify(pid, d)
            if lab is None:
                lab = d if cl == "postcondition" else "%s:%s" % (cl, pid)
            r.failures.append({"id": pid, "label": lab, "class": cl, "text": d,
                               "where": "%s:%s" % (os.path.basename(sl.get("file", "")), sl.get("line", ""))})
        else:
            r.reason = "obligation %s: %s" % (pid, st)
    r.gb, r.cbmc_cmd = gb, cmd
    r.nobody = sorted({m.group(1) for x in msgs for m in [re.search(r"no body for (?:function|callee) (\w+)", x)] if m and not m.group(1).startswith("nondet_")})
    undef = [f for f in r.failures if "undefined function should be unreachable" in f["text"]]
    if undef:
        r.failures = []
        r.status, r.reason = "error", "call of a function without a body"
        return r
    if reached is False or reached is None:
        # vacuous only if nothing failed before it
        if not r.failures:
            r.failures.append({"id": "VC_REACHED", "label": "vacuity", "class": "vacuity",
                               "text": "end of the harness is not reachable"})
    if r.obligations == 0:
        r.status, r.reason = "error", "no obligation generated"
    elif r.failures:
        r.status = "failed"
        if all(f["class"] in ("unwind", "vacuity") for f in r.failures):
            r.status, r.reason = "undecided", "unwinding bound %d too small or case unreachable: %s" % (
                unwind, ", ".join(sorted(set(f["label"] for f in r.failures)))[:300])
    elif r.discharged == r.obligations:
        r.status = "proved"
    return r


def trace_inputs(r, fail, limit=300):
    """rerun for one obligation with a trace; return the list of recorded inputs or None"""
    cmd = r.cbmc_cmd + ["--property", fail["id"], "--trace", "--json-ui", r.gb]
    rc, o, e = run(cmd, timeout=max(10, min(limit, left() - 40)))
    if rc is None:
        return None
    try:
        js = json.loads(o)
    except Exception:
        return None
    for x in js:
        for p in x.get("result", []):
            if p["property"] == fail["id"] and p["status"] == "FAILURE" and "trace" in p:
                ins = []
                for st in p["trace"]:
                    if st.get("stepType") == "input" and st.get("inputID") == "vcin":
                        v = st["values"][0]
                        b = v.get("binary")
                        ins.append(int(b, 2) if b else int(re.sub(r"[^\d-]", "", v.get("data", "0")) or 0))
                fail["trace_tail"] = [s for s in p["trace"] if s.get("stepType") == "failure"]
                return ins
    return None


# ------------------------------------------------------------------------------- native side
class Native:
    def __init__(self, tree):
        self.tree, self.bins, self.lk = tree, {}, threading.Lock()
        self.lib = None
        self.err = {}

    def build_lib(self):
        with cf.ThreadPoolExecutor(JOBS) as ex:
            mods = self.tree.modules() + ["contrib/strptime"]
            self.lib = list(ex.map(lambda m: self.tree.obj(m, "o"), mods))

    def binary(self, mod, wd):
        with self.lk:
            if mod.name in self.bins:
                return self.bins[mod.name]
            src = os.path.join(wd, mod.name + ".native.c")
            open(src, "w").write(mod.generate("native"))
            out = os.path.join(wd, mod.name + ".native")
            if self.lib is None:
                self.build_lib()
            cmd = ["clang", "-g1", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address"] + CFLAGS + \
                  ["-Wno-everything", "-I", CDIR, "-I", self.tree.dir, src, os.path.join(CDIR, "vc_native.c")] + self.lib + ["-lm", "-o", out]
            rc, o, e = run(cmd, timeout=300)
            if rc != 0:
                raise BuildError("native harness %s: %s" % (mod.name, (o + e)[-2500:]))
            self.bins[mod.name] = out
            return out

    def env(self):
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=43:allocator_may_return_null=1:abort_on_error=0:max_allocation_size_mb=2048:detect_stack_use_after_return=0"
        return env

    def replay(self, mod, proof, inputs, wd, big=0):
        """-> (failed?, label, log, inputs used)"""
        f = os.path.join(wd, "rep-%s-%d.json" % (proof, time.time_ns()))
        json.dump({"proof": proof, "big": big, "inputs": inputs}, open(f, "w"))
        rc, o, e = run([self.binary(mod, wd), proof, "replay", f, f + ".out"], timeout=60, mem_gb=0, env=self.env())
        if rc in (0, 3):
            return False, None, e, inputs
        if rc == 2:
            return False, None, e, inputs
        m = re.search(r"VCFAIL label=(\S+)", e)
        lab = m.group(1) if m else ("termination" if rc is None else "memory-safety")
        if os.path.exists(f + ".out"):
            try:
                inputs = json.load(open(f + ".out"))["inputs"]
            except Exception:
                pass
        return True, lab, e, inputs

    def sweep(self, mod, proof, wd, seconds, seed):
        out = os.path.join(wd, "sweep-%s.json" % proof)
        if os.path.exists(out):
            os.unlink(out)
        rc, o, e = run([self.binary(mod, wd), proof, "random", str(seed), "%.2f" % seconds, out],
                       timeout=seconds + 60, mem_gb=0, env=self.env())
        m = re.search(r"VCSWEEP runs=(\d+) completed=(\d+)", e)
        if rc == 0 and m:
            return None, int(m.group(1)), int(m.group(2))
        m = re.search(r"VCFAIL label=(\S+)", e)
        lab = m.group(1) if m else ("termination" if rc is None else "memory-safety")
        inputs, big = None, 0
        if os.path.exists(out):
            try:
                d = json.load(open(out))
                inputs, big = d["inputs"], d["big"]
            except Exception:
                pass
        return {"label": lab, "inputs": inputs, "big": big, "log": e[-4000:]}, 0, 0


# ------------------------------------------------------------------------------- property check
def main():
    global VERBOSE
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--only")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-sweep", action="store_true")
    ap.add_argument("--no-cbmc", action="store_true")
    a = ap.parse_args()
    VERBOSE = a.verbose
    os.makedirs(WORK, exist_ok=True)
    wd = os.path.join(WORK, "run-%s-%d" % (a.property, os.getpid()))
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    tree = Tree()
    try:
        return check(a, tree, wd)
    finally:
        tree.cleanup()
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(wd, ignore_errors=True)


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) proof=(\w+) label=(\S+) (.*)", l)
            if m:
                out.append(m.groups())
    return out


def check(a, tree, wd):
    prop = a.property
    mods = all_modules()
    proofs = [p for m in mods for p in m.proofs.values() if p.prop == prop]
    if a.only:
        import fnmatch
        proofs = [p for p in proofs if any(fnmatch.fnmatch(p.name, g) for g in a.only.split(","))]
    if TIER == "quick":
        proofs = [p for p in proofs if p.tier == "quick"]
    if not proofs:
        log("no proof for", prop)
        return 2
    known = [k for k in known_findings() if k[0] == prop]
    known_proofs = {k[1] for k in known}
    native = Native(tree)
    results, sweeps, errors = {}, {}, []
    violations = []

    def one_cbmc(p):
        if p.nocbmc or a.no_cbmc:
            return None
        r = cbmc_proof(tree, p, wd)
        if r.status == "error" and p.loops:      # stale loop annotation: bounded fallback
            r2 = cbmc_proof(tree, p, wd, unwind=int(p.a.get("fallback_unwind", "6")), loops=False)
            r2.reason = "loop contracts could not be applied (%s); bounded" % r.reason[:200] + r2.reason
            if r2.status == "proved":
                r2.status = "undecided"
            r = r2
        tries = 0
        while r.status == "undecided" and r.reason.startswith("unwinding") and tries < 2 and left() > 120 \
                and any(f["class"] == "unwind" for f in r.failures):
            tries += 1
            r = cbmc_proof(tree, p, wd, unwind=r.unwind * 2 + 2)
        if VERBOSE:
            log("  %-34s %-9s %d/%d  %.1fs (solver %.1fs) %s %s" % (p.name, r.status, r.discharged, r.obligations, r.wall_s, r.solver_s, r.reason[:1500],
                [f["label"] + "@" + f.get("where", "") for f in r.failures][:8]))
        return r

    # native first: building it is quick, and its result is wanted in any case
    try:
        native.build_lib()
        for m in {id(p.mod): p.mod for p in proofs}.values():
            native.binary(m, wd)
    except BuildError as ex:
        log("cannot build the code under test natively:", str(ex)[-3000:])
        return 2

    scale = float(os.environ.get("VERIF_SWEEP", "1" if TIER == "quick" else "20"))

    def one_sweep(p):
        if a.no_sweep or p.sweep <= 0:
            return None
        s = native.sweep(p.mod, p.name, wd, max(0.5, p.sweep * scale), SEED)
        if VERBOSE:
            log("  %-34s sweep %s" % (p.name, "FAIL %s" % s[0]["label"] if s[0] else "%d runs, %d completed" % s[1:]))
        return s

    order = sorted(proofs, key=lambda p: -float(p.a.get("cost", "1")))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fc = {p.name: ex.submit(one_cbmc, p) for p in order}
        fs = {p.name: ex.submit(one_sweep, p) for p in order}
        for p in proofs:
            results[p.name] = fc[p.name].result()
            sweeps[p.name] = fs[p.name].result()

    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)

    def violation(p, label, inputs, big, detail, concrete):
        if p.name in known_proofs and any(k[1] == p.name and (k[2] == label or k[2] == "*") for k in known):
            return
        path = os.path.join(rdir, "%s-%s.json" % (prop, p.name))
        json.dump({"property": prop, "proof": p.name, "obligation": label, "big": big, "inputs": inputs,
                   "detail": detail, "failing_input": concrete,
                   "reproduce": "cd /verif && bin/replay %s" % path}, open(path, "w"), indent=1)
        violations.append((p, label, path, concrete))

    def follow(p):
        """one proof's outcome -> violation or None"""
        r, s = results[p.name], sweeps[p.name]
        if s and s[0]:
            f = s[0]
            if f["inputs"] is not None:
                ok, lab, lg, ins = native.replay(p.mod, p.name, f["inputs"], wd, f["big"])
                if ok:
                    f["label"] = lab
            return (p, f["label"], f["inputs"], f["big"],
                    {"by": "run-time contract sweep on the real code", "log": f["log"],
                     "verifier": [x for x in (r.failures if r else [])][:20]}, True)
        if r is None or r.status != "failed":
            return None
        fails = [f for f in r.failures if f["class"] not in ("unwind", "vacuity")]
        fails.sort(key=lambda f: {"postcondition": 0, "memory-safety": 1}.get(f["class"], 2))
        t_end = min(time.time() + 150, DEADLINE - 25)

        def try_traces(rr, fs, by):
            for f in fs:
                if time.time() > t_end:
                    return None
                ins = trace_inputs(rr, f, t_end - time.time())
                if ins is None:
                    continue
                ok, lab, lg, ins2 = native.replay(p.mod, p.name, ins, wd, 0)
                if ok:
                    return (p, f["label"], ins2, 0, {"by": by, "obligation": f, "native": lg[-4000:]}, True)
            return None
        v = try_traces(r, fails[:3], "verifier counterexample replayed on the real code")
        if v:
            return v
        if (p.enforce or p.loops or p.replace) and time.time() < t_end:
            # without the abstraction of contracts: bounded search for a failing input
            r2 = cbmc_proof(tree, bounded_copy(p), wd, unwind=int(p.a.get("fallback_unwind", "6")), loops=False, limit=max(10, t_end - time.time()))
            v = try_traces(r2, [f for f in r2.failures if f["class"] not in ("unwind", "vacuity")][:3], "bounded counterexample replayed on the real code")
            if v:
                return v
        s2 = native.sweep(p.mod, p.name, wd, min(15, max(1, DEADLINE - 15 - time.time())), SEED + 1)
        if s2[0]:
            return (p, s2[0]["label"], s2[0]["inputs"], s2[0]["big"], {"by": "search on the real code", "log": s2[0]["log"], "obligation": fails[0]}, True)
        return (p, fails[0]["label"], None, 0, {"by": "verifier", "failed obligations": fails, "verifier_output": r.output, "commands": r.cmds}, False)

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for v in ex.map(follow, proofs):
            if v:
                violation(*v)

    # ---- known findings: still there?
    for k in known:
        log("KNOWN-FINDING: property=%s %s" % (prop, k[3]))

    # ---- evidence
    ob = sum(r.obligations for r in results.values() if r)
    di = sum(r.discharged for r in results.values() if r)
    pr = {p.name: p for p in proofs}
    full = [n for n, r in results.items() if r and pr[n].kind == "proof"]
    bnd = [n for n, r in results.items() if r and pr[n].kind != "proof"]
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json"))) if os.path.exists(os.path.join(VERIF, "MANIFEST.json")) else {"checks": []}
    level = next((c["level"] for c in man["checks"] if c["property"] == prop), "proof")
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))] if os.path.exists(os.path.join(VERIF, "properties.jsonl")) else []
    fun_full = sorted({f for n in full for f in proof_functions(pr[n])})
    fun_bnd = sorted({f for n in bnd for f in proof_functions(pr[n])} - set(fun_full))
    pobl = sum(results[n].obligations for n in full)
    pdis = sum(results[n].discharged for n in full)
    cov = {
        "obligations": pobl, "discharged": pdis,
        "checker_cmd": "bin/check %s  (per proof: goto-cc; goto-instrument --dfcc --enforce-contract/--replace-call-with-contract/--apply-loop-contracts where contracts are enforced modularly; cbmc %s)" % (prop, " ".join(CHECKS)),
        "trusted_base": ["CBMC 6.11.0 front end, symbolic execution and MiniSat/cvc5 back ends", "CBMC's models of the C library (malloc, memcpy, strlen, strcmp, ...)",
                         "contracts/vc.h and the harnesses in contracts/", "LP64 little-endian target, as built by the Makefile's linux target"],
        "functions_under_contract": fun_full,
        "functions_bounded_only": fun_bnd,
        "bounded_obligations": {"obligations": sum(results[n].obligations for n in bnd), "discharged": sum(results[n].discharged for n in bnd),
                                "note": "checked within the stated bound only; not counted as proved"},
        "backends": sorted({r.backend for r in results.values() if r and r.backend}),
        "solver_s": round(sum(r.solver_s for r in results.values() if r), 2),
        "proofs": [{"name": n, "kind": pr[n].kind, "bound": pr[n].bound, "status": r.status if r else "run-time contract only",
                    "obligations": r.obligations if r else 0, "discharged": r.discharged if r else 0, "covers": r.covers if r else 0,
                    "solver_s": round(r.solver_s, 2) if r else 0, "unwind": r.unwind if r else 0, "reason": r.reason if r else "",
                    "linked_modules": r.linked if r else [], "externals_without_model": r.nobody if r else [],
                    "contract": pr[n].enforce or "", "callees_by_contract": pr[n].replace,
                    "sweep_completed": sweeps[n][2] if sweeps[n] else 0} for n, r in results.items()],
        "runtime_contract_sweep": {"executions": sum(s[2] for s in sweeps.values() if s), "note": "same contracts executed on the real code under ASan with seeded random inputs, beyond the bounds above; supplements, not counted as proof"},
        "explanation": "Contracts on the real functions, discharged by CBMC from /repo's current source. Proofs of kind 'proof' are unbounded (loop-free over full-domain inputs, loops bounded by operand width or constants with unwinding assertions, or loop contracts); kind 'bounded' are stated-bound stand-ins.",
    }
    assumptions = ["allocation does not fail", "signed integer overflow and shifts behave as two's complement (as compiled)",
                   "no concurrent mutation of the arguments during a call"]
    for p in proofs:
        if p.a.get("assume"):
            assumptions.append("%s: %s" % (p.name, p.a["assume"]))
        if p.kind != "proof":
            assumptions.append("%s is bounded: %s" % (p.name, p.bound))
    for n, r in results.items():
        if r and r.status in ("undecided", "error"):
            assumptions.append("UNDECIDED on this run: %s (%s)" % (n, r.reason[:200]))
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - T0, 1), "violations": len(violations)}
    if not a.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    log("%s: %d proofs, %d/%d obligations discharged (%d/%d unbounded), sweep %d executions, %.0f s" % (
        prop, len(proofs), di, ob, pdis, pobl, cov["runtime_contract_sweep"]["executions"], time.time() - T0))
    for n, r in results.items():
        if r and r.status in ("undecided", "error"):
            log("UNDECIDED %s: %s" % (n, r.reason[:300]))
    for p, lab, path, conc in violations:
        log("VIOLATION property=%s replay=%s%s" % (prop, path, "" if conc else " no-failing-input-found"))
    return 1 if violations else 0


def bounded_copy(p):
    import copy
    q = copy.copy(p)
    q.enforce, q.replace, q.loops = None, [], False
    q.a = dict(p.a)
    return q


def proof_functions(p):
    fs = list(p.functions)
    if p.enforce:
        fs.append(p.enforce)
    return fs


if __name__ == "__main__":
    sys.exit(main())
