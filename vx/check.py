#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property on /repo's current tree.

1. extracts the functions of /repo/src which are under contract (vx.py) and has Verus discharge all obligations;
2. builds the harness against /repo and runs the bounded search for failing inputs of this property.
Exit 0: every obligation of this property discharged or (undecided ones) the bounded search found nothing.
Exit 1 + VIOLATION line: a failed obligation, or a failing input, or both.  Exit 2: /repo does not build."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vx, rtok, vacuity

REPO = os.environ.get("VX_REPO", "/repo")
T0 = time.time()
# messages about what we inserted to help the proof, not about the contract
AUX = ("invariant not satisfied", "loop invariant", "assertion failed", "decreases not satisfied", "could not prove termination", "assert_by", "assertion not satisfied", "loop ensures not satisfied", "assert forall")
RLIMIT = ("resource limit", "rlimit", "timed out", "canceled")

def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)

# ---------------------------------------------------------------------------------------------- Verus
class Proof:
    def __init__(self):
        self.blocks, self.failed, self.undecided, self.lost = [], [], [], {}
        self.verified = self.errors = 0
        self.smt_ms = 0
        self.functions = []
        self.fatal = None
        self.rounds = self.reseeded = 0
        self.cmd = ""
        self.wall = 0.0
        self.version = ""

def run_verus(gen, rlimit, extra=()):
    cmd = ["verus", gen, "--triggers-mode", "silent", "--output-json", "--time-expanded", "--multiple-errors", "5", "--num-threads", "8", "--rlimit", str(rlimit), *extra, "--", "--error-format=json"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=os.path.dirname(gen))
    try:
        out = json.loads(p.stdout)
    except ValueError:
        out = None
    diags = []
    for l in p.stderr.split("\n"):
        if l.startswith("{"):
            try: d = json.loads(l)
            except ValueError: continue
            if d.get("level") == "error": diags.append(d)
    return cmd, out, diags, p.stderr

def block_at(blocks, line):
    for b in blocks:
        if b.lines and b.lines[0] <= line <= b.lines[1]: return b
    return None

def diag_lines(d):
    return [s["line_start"] for s in d.get("spans", []) if s.get("is_primary")], [s["line_start"] for s in d.get("spans", [])]

VERIF_MSG = re.compile(r"not satisfied|assertion failed|overflow|underflow|division by zero|termination|resource limit|rlimit|cannot (?:prove|show)|might not|unreachable|unwind|failed this|decreases|recommend", re.I)

def prove(work, rlimit=60, cdir=None, extra=(), skip=()):
    pr = Proof()
    t0 = time.time()
    gen = os.path.join(work, "gen.rs")
    stub = {}
    cdir = cdir or os.path.join(ROOT, "contracts")
    while True:
        pr.rounds += 1
        try:
            text, blocks = vx.generate(REPO, cdir, stub, skip)
        except Exception as e:                      # the extractor itself gave up
            pr.fatal = "extraction: %s" % e
            return pr
        open(gen, "w").write(text)
        pr.blocks = blocks
        cmd, out, diags, err = run_verus(gen, rlimit, extra)
        pr.cmd = " ".join(cmd)
        res = (out or {}).get("verification-results", {})
        done = out is not None and "verified" in res and not res.get("encountered-vir-error") and not res.get("encountered-error", False) or \
            (out is not None and res.get("verified", 0) + res.get("errors", 0) > 0 and not res.get("encountered-vir-error"))
        if done: break
        # front end refused something: find the blocks and stub them
        hit = {}
        for d in diags:
            prim, alls = diag_lines(d)
            for ls in (prim, alls):
                bs = [block_at(blocks, l) for l in ls]
                bs = [b for b in bs if b is not None and b.kind == "item" and b.name not in stub and b.status != "lost"]
                if bs:
                    for b in bs: hit.setdefault(b.name, d["message"])
                    break
        # prefer blocks whose source differs from the annotated text
        changed = {b.name for b in blocks if b.status == "aligned"}
        pick = {n: m for n, m in hit.items() if n in changed} or hit
        pick = {n: m for n, m in pick.items() if next(b for b in blocks if b.name == n).is_fn} or pick
        if not pick or pr.rounds > 12:
            pr.fatal = "front end: " + "; ".join(sorted({d["message"] for d in diags})[:5] or [err[-400:]])
            pr.wall = time.time() - t0
            return pr
        for n, m in pick.items(): stub[n] = m.split("\n")[0][:200]
    pr.verified, pr.errors = res["verified"], res["errors"]
    pr.version = str((out.get("verus") or {}).get("version", ""))
    for b in blocks:
        if b.status == "lost": pr.lost[b.name] = b.note
    glines = text.split("\n")
    def span_text(l): return glines[l - 1] if 0 < l <= len(glines) else ""
    def whose(d, b, prim):
        """the properties a failed obligation is about: the tags of the clause, else those of the function"""
        if "postcondition" in d["message"]:
            sp = [s for s in d.get("spans", []) if s.get("is_primary")]
            tags = [t for s in sp for l in range(s["line_start"], s["line_end"] + 1) for c in re.findall(r"/\*((?:C\d\d ?)+)\*/", span_text(l)) for t in c.split()]
            if tags: return [p for p in b.props if p in tags]
            # C01 is about panics, overflow and allocation
            if len(b.props) > 1: return [p for p in b.props if p != "C01"]
        return b.props
    def aux(d, b, prim):
        return any(re.match(r"\s*(lemma|axiom)_\w+\s*\(", span_text(s["line_start"])[s["column_start"] - 1:]) for s in d.get("spans", []) if s.get("is_primary"))
    def judge(diags, blocks):
        fl, un = [], []
        for d in diags:
            msg = d["message"]
            if msg.startswith("aborting due to"): continue
            prim, alls = diag_lines(d)
            b = None
            for l in prim + alls:
                b = block_at(blocks, l)
                if b: break
            if b is None: continue
            low = msg.lower()
            props, hint = whose(d, b, prim), aux(d, b, prim)
            rec = dict(block=b.name, file=b.path[0], status=b.status, message=msg, props=props, rendered=d.get("rendered", ""), src=getattr(b, "src_line", None), where=b.where)
            if any(x in low for x in RLIMIT): un.append(dict(rec, why="solver resource limit"))
            elif b.kind == "raw": un.append(dict(rec, why="a lemma about the specification does not go through"))
            elif b.status == "aligned" and (hint or any(x in low for x in AUX)): un.append(dict(rec, why="a hint for the proof no longer fits the changed text"))
            elif b.status == "aligned" and getattr(b, "new_fns", 0): un.append(dict(rec, why="a new inner function or closure, which has no contract"))
            else: fl.append(rec)
        return fl, un
    pr.failed, pr.undecided = judge(diags, blocks)
    # a proof found once is a proof: what one solver seed leaves open is asked again with others
    for s in (7, 23):
        if not (pr.failed or pr.undecided): break
        _, out2, diags2, _ = run_verus(gen, rlimit, (*extra, "--smt-option", "smt.random_seed=%d" % s, "--smt-option", "sat.random_seed=%d" % s))
        if not ((out2 or {}).get("verification-results") or {}).get("verified"): break
        pr.reseeded += 1
        f2, u2 = judge(diags2, blocks)
        bad = {x["where"] for x in f2 + u2}
        if {x["where"] for x in pr.failed + pr.undecided} <= bad: break
        pr.failed, pr.undecided = [x for x in pr.failed if x["where"] in bad], [x for x in pr.undecided if x["where"] in bad]
    if pr.reseeded:
        left = len({x["where"] for x in pr.failed + pr.undecided})
        if left < pr.errors: pr.verified, pr.errors = pr.verified + pr.errors - left, left
    for b in blocks:
        if any(x["where"] == b.where for x in pr.failed + pr.undecided): b.bad = True
    t = out["times-ms"]
    for m in t.get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            pr.functions.append((f["function"], f["time-micros"], f["success"]))
    pr.smt_ms = sum(f[1] for f in pr.functions) / 1000.0
    pr.wall = time.time() - t0
    for b in blocks:
        if "C01" in b.props and getattr(b, "new_allocs", 0):
            pr.undecided.append(dict(block=b.name, file=b.path[0], status=b.status, message="allocation without contract", why="a new allocation", props=["C01"], rendered="", src=getattr(b, "src_line", None)))
    # new methods in a trait impl we model: they may replace a default method which the contracts assume
    try:
        for f, impl, fn in vx.extra_methods(REPO, blocks):
            names = [b for b in blocks if b.kind == "item" and b.path[:2] == [f, impl]]
            pr.undecided.append(dict(block=f"{f} | {impl} | {fn}", file=f, status="new", message="method without contract", why="new method in a trait impl",
                                     props=sorted({p for b in names for p in b.props}), rendered="", src=None))
    except Exception as e:
        pr.undecided.append(dict(block="trait impls", file="", status="?", message=str(e), why="scan failed", props=[], rendered="", src=None))
    return pr

def ends(work, pr):
    """functions whose end Verus thinks nobody reaches: their contracts would say nothing (thorough tier)"""
    text, fns = vacuity.inject(open(os.path.join(work, "gen.rs")).read())
    gen = os.path.join(work, "ends.rs")
    open(gen, "w").write(text)
    _, out, diags, err = run_verus(gen, 20)
    if not ((out or {}).get("verification-results") or {}).get("errors"): return None
    at = sorted({l for d in diags for l in sum(diag_lines(d), [])})
    blocks = []
    for n, m, a, b in fns:
        # requires false by design: reached means that rustc refuses the literal
        if not any(a <= l <= b for l in at) and n not in ("vx_compile_error", "vx_no_arm"): blocks.append((n, block_at(pr.blocks, a)))
    return len(fns), blocks

def trusted_scan(blocks):
    """assumed things in the generated file: external bodies, axioms, assume specifications"""
    out = []
    for b in blocks:
        if b.status == "lost": continue
        if b.kind != "raw":
            out += ["ASSUME inside %s: %s" % (b.name, x) for x in re.findall(r"\b(?:assume|admit)\([^;]*", "".join(re.findall(r"⟦(?!~)([^⟧]*)⟧", b.text)))]
            continue
        for m in re.finditer(r"(?:assume_specification[^\[]*\[\s*([^\]]*)\])|(?:axiom\s+fn\s+(\w+))|(?:verifier::external_body\s*\]\s*(?:\w+(?:\([^)]*\))?\s+)*(?:fn|struct)\s+(\w+))|(?:external_type_specification[^;]*?struct\s+\w+[^(]*\(([^)]*)\))|\b(admit|assume)\(", b.text):
            g = [x for x in m.groups() if x]
            kind = "assumed specification of std/dep function" if m.group(1) else "axiom" if m.group(2) else "assumed contract (external body)" if m.group(3) else "external type" if m.group(4) else "ASSUME"
            out.append("%s: %s [%s]" % (kind, g[0].strip() if g else "?", os.path.basename(b.where.split(":")[0])))
    return sorted(set(out))

# ---------------------------------------------------------------------------------------------- harness
def cargo_env(target):
    e = dict(os.environ)
    e.update(CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTFLAGS="-A float_literal_f32_fallback", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    return e

class Harness:
    def __init__(self, pid, work, seed, scale):
        self.pid, self.work, self.seed, self.scale = pid, work, seed, scale
        self.rep, self.err, self.repo_broken, self.rerun = None, None, False, ""
        self.wall = 0.0
        self.abort = None

    def copy(self):
        d = os.path.join(self.work, "harness")
        if not os.path.exists(d):
            shutil.copytree(os.path.join(ROOT, "harness"), d, ignore=shutil.ignore_patterns("target"))
            if REPO != "/repo":
                t = open(d + "/Cargo.toml").read().replace('path = "/repo"', 'path = "%s"' % REPO)
                open(d + "/Cargo.toml", "w").write(t)
        return d

    def build(self, bin, env):
        p = subprocess.run(["cargo", "build", "--offline", "--bin", bin, "-q"], cwd=self.copy(), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode == 0, p.stdout

    def run(self):
        t0 = time.time()
        try: self._run()
        except Exception as e: self.err = "harness: %r" % e
        self.wall = time.time() - t0

    def _run(self):
        env = cargo_env(os.path.join(self.work, "target"))
        if self.pid == "C04": self.literals(env, 60)
        if self.pid != "C17":
            ok, out = self.build("h", env)
            if not ok:
                lib = subprocess.run(["cargo", "build", "--offline", "-q", "-p", "bvh_anim"], cwd=self.copy(), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                self.repo_broken = lib.returncode != 0
                self.err = "harness does not build:\n" + out[-3000:]
                return
            exe = os.path.join(self.work, "target/debug/h")
            self.execute([exe, self.pid, str(self.seed), str(self.scale)], env)
        else:
            self.literals(env, int(120 * self.scale))

    def literals(self, env, n):
        """bvh! literals: a program is generated and compiled"""
        if self.pid != "C17": env = dict(env, CHANNELS_ONLY="1")
        lits = os.path.join(self.work, "lits_gen.rs")
        subprocess.run([sys.executable, os.path.join(ROOT, "tools/genlits.py"), str(self.seed), str(n), lits], check=True)
        env["LITS"] = lits
        ok, out = self.build("lits", env)
        if not ok:
            if self.pid != "C17": return
            ok2, out2 = self.build("h", env)
            if not ok2:
                self.repo_broken, self.err = True, "harness does not build:\n" + out2[-3000:]
                return
            # the library builds, the literals do not: a literal of the documented form is refused
            m = re.search(r"^error[^\n]*(?:\n[^\n]*){0,12}", out, re.M)
            self.rep = dict(evaluations=0, distinct_nontrivial=0, generators={}, failures_seen=1, samples=[],
                            failures=[dict(gen="literal", k=0, input="literals of genlits.py %d %d" % (self.seed, n), error="bvh! does not compile a literal of the documented form:\n" + (m.group(0) if m else out[-1500:]))])
            return
        self.execute([os.path.join(self.work, "target/debug/lits")], env)

    def execute(self, cmd, env):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=400, env=env)
        except subprocess.TimeoutExpired:
            self.abort = "the bounded search did not end within 400 s (an operation of the library does not terminate?)"
            return
        try:
            rep = json.loads(p.stdout.strip().split("\n")[-1])
            for f in rep["failures"]: f["seed"] = self.seed
            if self.rep is None: self.rep = rep
            else:
                for k in ("evaluations", "distinct_nontrivial", "failures_seen"): self.rep[k] += rep[k]
                for k in ("failures", "samples"): self.rep[k] += rep[k]
                self.rep["generators"].update(rep["generators"])
        except ValueError:
            # the process died: stack overflow, abort, out of memory
            self.abort = "the process running the library died (status %s): %s" % (p.returncode, p.stderr[-1500:])

RERUN = "cd /verif/harness && CARGO_TARGET_DIR=/tmp/bvh_replay cargo run --offline -q --bin h -- %s %d case %s %d"

# ---------------------------------------------------------------------------------------------- main
def load_props():
    return {d["id"]: d for d in map(json.loads, open(os.path.join(ROOT, "properties.jsonl")))}

def known_findings(pid):
    out = []
    f = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-harness", action="store_true")
    a = ap.parse_args()
    pid, tier = a.id, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = load_props()[pid]
    build = os.path.join(ROOT, ".build")
    os.makedirs(build, exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=build)
    try:
        return decide(pid, tier, seed, prop, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def decide(pid, tier, seed, prop, work):
    conf = json.load(open(os.path.join(HERE, "conf.json")))
    scale = conf["scale"][tier].get(pid, conf["scale"][tier]["default"])
    h = Harness(pid, work, seed, scale)
    box = {}
    th = threading.Thread(target=h.run)
    # lemmas which only some properties need and nothing else depends on
    skip = {f for f, ps in conf["leaves"].items() if pid not in ps}
    def vrun(): box["p"] = prove(work, rlimit=60 if tier == "quick" else 200, skip=skip)
    tv = threading.Thread(target=vrun)
    th.start(); tv.start(); th.join(); tv.join()
    pr = box.get("p")
    if pr is None:
        pr = Proof(); pr.fatal = "prover thread died"
    if h.repo_broken:
        print("ERROR: /repo does not build\n" + (h.err or ""))
        return 2
    # --- the proof's verdict for this property
    needs = conf.get("needs", {}).get(pid, [])
    mine = [b for b in pr.blocks if b.serves(pid, needs)]
    rests = {b.name for b in pr.blocks if b.serves(pid, needs) == 2}
    failed = [f for f in pr.failed if pid in f["props"]]
    und = [u for u in pr.undecided if pid in u["props"] or u["block"] in rests] + \
        [dict(f, why="a function which the proof rests on does not meet its contract") for f in pr.failed if pid not in f["props"] and f["block"] in rests]
    lost = {n: w for n, w in pr.lost.items() if next(b for b in pr.blocks if b.name == n).serves(pid, needs)}
    fns = [b for b in mine if b.is_fn]
    if pr.fatal: log("proof undecided:", pr.fatal)
    for f in failed: log("FAILED OBLIGATION", f["file"], f["block"], ":", f["message"])
    for u in und: log("undecided", u["block"], ":", u["message"], "(%s)" % u["why"])
    for n, w in lost.items(): log("not extractable", n, ":", w)
    vac = ends(work, pr) if tier == "thorough" and not pr.fatal else None
    for n, b in (vac or (0, []))[1]:
        log("nobody reaches the end of", n)
        if b is None or b.serves(pid, needs): und.append(dict(block=b.name if b else n, why="its contract may be vacuous", message="the end of %s is never reached" % n))
    # --- the bounded search; deeper when the proof left something open
    deeper = False
    if h.rep is not None and not h.rep["failures"] and (failed or und or lost or pr.fatal) and tier == "quick":
        deeper = True
        h2 = Harness(pid, work, seed + 1000003, scale * (2 if pid == "C17" else conf["deeper"]))
        h2.run()
        if h2.rep is not None:
            for k in ("evaluations", "distinct_nontrivial", "failures_seen"): h.rep[k] += h2.rep[k]
            h.rep["failures"] += h2.rep["failures"]
            h.rep["seed2"] = h2.seed
        h.wall += h2.wall; h.abort = h2.abort
    fails = (h.rep or {}).get("failures", [])
    listed = known_findings(pid)
    new = []
    for f in fails:
        k = [t for (key, t) in listed if key in f["error"]]
        if k: print("KNOWN-FINDING: property=%s %s" % (pid, k[0]))
        else: new.append(f)
    violation = bool(failed or new or h.abort)
    # --- evidence
    aux = [b for b in mine if b.kind == "raw"]
    lemmas = sum(len(re.findall(r"\bproof fn\b", b.text)) for b in aux)
    nbad = len({b.name for b in fns if getattr(b, "bad", False)}) + sum(1 for b in aux if getattr(b, "bad", False))
    obligations = len(fns) + lemmas
    discharged = 0 if pr.fatal else obligations - nbad - len([n for n in lost if any(b.name == n for b in fns)])
    cov = {}
    level = conf["level"].get(pid, "proof")
    if level == "proof":
        cov.update(obligations=obligations, discharged=discharged, checker_cmd=re.sub(r"/\S*/gen\.rs", "gen.rs", pr.cmd) + "   (gen.rs: vx/vx.py -o gen.rs, made from /repo/src on this run)",
                   trusted_base=conf["trusted"] + conf.get("trusted_by_property", {}).get(pid, []) + trusted_scan(pr.blocks))
    else:
        cov["explanation"] = conf["explain"].get(pid, "")
    cov.update(
        obligations_are="one per function under contract (its whole verification condition: postconditions, callee preconditions, invariants, overflow, bounds, termination) plus one per lemma, of those this property depends on",
        functions_under_contract=[dict(function=b.name, file=b.path[0], lines=getattr(b, "src_line", None), text=b.status + ("" if b.status != "lost" else ": " + b.note),
                                       rewrites=[list(x) for x in b.info.get("rewrites", [])]) for b in fns],
        not_decided_by_proof=[dict(function=n, why=w) for n, w in lost.items()] + [dict(function=u["block"], why=u["why"] + ": " + u["message"]) for u in und] + ([dict(function="all", why=pr.fatal)] if pr.fatal else []),
        failed_obligations=[dict(function=f["block"], file=f["file"], message=f["message"]) for f in failed],
        back_end="Verus %s (Z3)" % pr.version, verus_total_verified=pr.verified, verus_total_errors=pr.errors, solver_ms=round(pr.smt_ms), verus_wall_s=round(pr.wall, 1), front_end_rounds=pr.rounds, solver_reseeded=pr.reseeded,
        bounded_only=conf["bounded"].get(pid, []))
    if tier == "thorough": cov["ends_reached"] = dict(functions_and_lemmas=vac[0], not_reached=[n for n, _ in vac[1]], meaning="assert(false) at the end of each function and lemma is refused, as it must be") if vac else "not decided"
    rule = conf["rule"].get(pid, conf["rule"]["default"])
    if h.rep is not None:
        cov.update(evaluations=h.rep["evaluations"], distinct_nontrivial=h.rep["distinct_nontrivial"], rule=rule, samples=h.rep["samples"][:3] or [dict(note="no sample small enough")],
                   generators=h.rep.get("generators", {}), bounded_wall_s=round(h.wall, 1), deeper_search=deeper)
    else:
        cov.update(evaluations=0, distinct_nontrivial=0, rule=rule, samples=[dict(note="the bounded part did not run: " + str(h.err or h.abort)[:500])])
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=conf["assumptions"] + conf.get("assumptions_by_property", {}).get(pid, []),
              wall_s=round(time.time() - T0, 1), violations=len(failed) + len(new) + (1 if h.abort else 0))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=False)
    log("%s %s: %d/%d obligations discharged (Verus total %d verified, %d errors, %.0f ms solver); bounded: %s cases, %s failures" %
        (pid, tier, discharged, obligations, pr.verified, pr.errors, pr.smt_ms, (h.rep or {}).get("evaluations"), (h.rep or {}).get("failures_seen")))
    if h.err: log(h.err)
    if not violation:
        if h.rep is None:
            # nothing decided the open part
            if failed or und or lost or pr.fatal or obligations == 0:
                print("ERROR: neither the proof nor the bounded search decided this property")
                return 2
        return 0
    # --- replay
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-%s.txt" % (pid, seed))
    with open(path, "w") as o:
        o.write("property %s: %s\n%s\n\n" % (pid, prop["title"], prop["statement"]))
        for f in new:
            o.write("FAILING INPUT (generator %s, case %s): %s\n  %s\n" % (f["gen"], f["k"], f["input"], f["error"]))
            if f["gen"] != "literal":
                o.write("  replay on the real code: " + RERUN % (pid, f.get("seed", seed), f["gen"], f["k"]) + "\n")
            else:
                o.write("  replay: python3 /verif/tools/genlits.py %d %d /tmp/l.rs; cd /verif/harness && LITS=/tmp/l.rs CARGO_TARGET_DIR=/tmp/bvh_replay cargo run --offline -q --bin lits\n" % (seed, int(120 * scale)))
        if h.abort: o.write("ABORT: %s\n" % h.abort)
        for f in failed:
            o.write("\nFAILED OBLIGATION in %s (%s, lines %s): %s\n%s\n" % (f["block"], f["file"], f["src"], f["message"], f["rendered"]))
        for u in und: o.write("\nundecided: %s: %s (%s)\n%s\n" % (u["block"], u["message"], u["why"], u["rendered"]))
        if failed: o.write("\nverifier: %s; regenerate with: python3 /verif/vx/vx.py -o /tmp/gen.rs && verus /tmp/gen.rs\n" % pr.cmd)
    found = bool(new or h.abort)
    for f in new[:2]: log("failing input:", f["input"][:600], "->", f["error"][:600])
    if h.abort: log(h.abort)
    print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if found else " no-failing-input-found"))
    return 1

if __name__ == "__main__":
    sys.exit(main())
