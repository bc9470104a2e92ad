#!/usr/bin/env python3
"""Decides one property: check.py <property>.

Translates /repo's current source, lets Verus discharge the obligations of
every function the property depends on, probes the contracts for vacuity and
cross-checks with the model-based search. See DESIGN.md.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time, zlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
T0 = time.time()
RLIMIT = "60"

pid = sys.argv[1]
seed = int(os.environ.get("VERIF_SEED", "0") or 0)
tier = os.environ.get("VERIF_TIER", "quick")
if tier not in ("quick", "thorough"):
    tier = "quick"


def env():
    e = dict(os.environ)
    paths = ["/opt/veriftools/go1.27.3/bin", "/usr/local/bin", "/usr/bin", "/bin"]
    e["PATH"] = ":".join(p for p in paths if os.path.isdir(p)) + ":" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GO111MODULE="on", CGO_ENABLED="0")
    e.setdefault("HOME", "/root")
    return e


ENV = env()


def die(msg, code=3):
    print("ERROR: " + msg)
    sys.exit(code)


def sh(cmd, cwd=None, timeout=600, extra=None):
    e = dict(ENV)
    if extra:
        e.update(extra)
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        return subprocess.CompletedProcess(cmd, 124, x.stdout or "", (x.stderr or "") if isinstance(x.stderr, str) else "timeout")


def cheats():
    """Annotations and lemma modules must not assume anything."""
    bad = re.compile(r"\b(assume|admit|external_body|external|assume_specification|unimplemented|unreached|axiom)\b")
    out = []
    for f in sorted(os.listdir(SPEC)):
        if f == "prelude.rs" or not (f.endswith(".rs") or f.endswith(".con")):
            continue
        for i, l in enumerate(open(os.path.join(SPEC, f)), 1):
            t = l.split("//")[0]
            if f.endswith(".con") and (l.startswith("#") or l.startswith("@trusted")):
                continue
            if bad.search(t):
                out.append("%s:%d: %s" % (f, i, l.strip()))
    return out


class Unusable(Exception):
    """The current source could not be brought before the verifier."""


class Run:
    """One translation and one Verus run."""

    def __init__(self, tmp, name, g2v, only=None, stub=(), probe=""):
        self.gen = os.path.join(tmp, name + ".rs")
        rep = os.path.join(tmp, name + ".json")
        cmd = [g2v, "-repo", REPO, "-spec", SPEC, "-out", self.gen, "-report", rep]
        if only:
            cmd += ["-only", ",".join(sorted(only))]
        if stub:
            cmd += ["-stub", ",".join(sorted(stub))]
        if probe:
            cmd += ["-probe", probe]
        r = sh(cmd, timeout=120)
        if r.returncode != 0:
            raise Unusable("the source cannot be translated: " + (r.stderr or r.stdout).strip())
        self.rep = json.load(open(rep))
        self.fns = {f["name"]: f for f in self.rep["functions"]}
        self.lines = open(self.gen).read().split("\n")

    def where(self, line):
        for f in self.rep["functions"]:
            if f.get("gen_from", 0) <= line < f.get("gen_to", 0):
                return f["name"]
        return None

    def fn_line(self, line):
        """Name of the generated function around a line outside translated ones."""
        for i in range(line - 1, -1, -1):
            m = re.match(r"\s*pub (?:open |closed |broadcast )?(?:proof |spec )?fn (\w+)", self.lines[i])
            if m:
                return m.group(1)
        return "?"

    def src(self, line):
        for i in range(min(line, len(self.lines)) - 1, -1, -1):
            m = re.match(r"\s*// src (\S+)", self.lines[i])
            if m:
                return m.group(1)
        return "?"

    def modules(self, libs=True):
        """Modules with translated functions and the lemma modules they use, directly or not."""
        text = {}
        name = None
        for l in self.lines:
            m = re.match(r"pub mod (\w+) \{", l)
            if m:
                name = m.group(1)
                text[name] = []
            if name:
                text[name].append(l)
        home = {}
        for n, ls in text.items():
            if n.startswith("lib_"):
                for l in ls:
                    m = re.match(r"\s*pub (?:broadcast )?proof fn (\w+)", l)
                    if m:
                        home[m.group(1)] = n
        todo = {n for n in text if not n.startswith("lib_")}
        out = set()
        while todo:
            n = todo.pop()
            out.add(n)
            if libs:
                words = set(re.findall(r"\w+", "\n".join(text[n])))
                todo |= {home[w] for w in words if w in home} - out
        return sorted(out)

    def unhide(self):
        """Verus stops when a hidden definition is out of a function's reach: drops the hints that hide any."""
        self.lines = [re.sub(r"\bhide\(\w+\);", "", l) if "hide(" in l else l for l in self.lines]
        open(self.gen, "w").write("\n".join(self.lines))

    def verify(self, multiple="4", timeout=600, rlimit=RLIMIT, libs=True, retry=True):
        self.cmd = ["verus", os.path.basename(self.gen), "--crate-type=lib", "--triggers-mode", "silent", "--rlimit", rlimit,
                    "--num-threads", "8", "--multiple-errors", multiple, "--output-json", "--time-expanded", "--error-format=json"]
        for m in self.modules(libs):
            self.cmd += ["--verify-only-module", m]
        t = time.time()
        r = sh(self.cmd, cwd=os.path.dirname(self.gen), timeout=timeout)
        self.wall = time.time() - t
        self.diags = []
        other = []
        for l in r.stderr.split("\n"):
            try:
                self.diags.append(json.loads(l))
            except ValueError:
                if l.strip():
                    other.append(l)
        self.slow = r.returncode == 124
        if self.slow:
            self.out, self.errs, self.broken, self.verified, self.errors, self.rendered = {}, [], False, 0, 1, ""
            return
        try:
            self.out = json.loads(r.stdout)
        except ValueError:
            if retry:
                self.unhide()
                return self.verify(multiple, timeout, rlimit, libs, False)
            raise Unusable("verus gave no result: " + " ".join(other)[:2000] + r.stdout[:500])
        vr = self.out.get("verification-results", {})
        self.verified, self.errors = vr.get("verified", 0), vr.get("errors", 0)
        self.errs = [d for d in self.diags if d.get("level") == "error" and not d["message"].startswith("aborting due to")]
        # errors of the translation itself, before any obligation was tried
        self.broken = (vr.get("encountered-error") or vr.get("encountered-vir-error")) and self.verified == 0 and self.errors == 0
        self.rendered = "".join(d.get("rendered") or "" for d in self.errs)

    def module_of(self, line):
        for i in range(min(line, len(self.lines)) - 1, -1, -1):
            m = re.match(r"pub mod (\w+) \{", self.lines[i])
            if m:
                return m.group(1)
        return None

    def again(self):
        """Gives a few failed queries a second chance with other solver seeds: a proof found with any seed counts."""
        self.second = []
        bad = {}
        for d in self.errs:
            sp = spans(d)
            if not sp:
                return
            bad.setdefault((self.module_of(sp[0]["line_start"]), self.fn_line(sp[0]["line_start"])), []).append(d)
        if not bad or len(bad) > 4 or any(m is None for m, _ in bad):
            return
        jobs = [(m, f, s) for m, f in sorted(bad) for s in ("7", "23")]

        def one(job):
            m, f, s = job
            r = sh(["verus", os.path.basename(self.gen), "--crate-type=lib", "--triggers-mode", "silent", "--rlimit", str(2 * int(RLIMIT)),
                    "--num-threads", "1", "--multiple-errors", "0", "--output-json", "--verify-only-module", m, "--verify-function", f,
                    "--smt-option", "smt.random_seed=" + s], cwd=os.path.dirname(self.gen), timeout=150)
            try:
                vr = json.loads(r.stdout)["verification-results"]
            except (ValueError, KeyError):
                return None
            return (m, f) if vr.get("success") and vr.get("errors") == 0 and vr.get("verified", 0) > 0 else None

        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for k in sorted({x for x in ex.map(one, jobs) if x}):
                self.errs = [d for d in self.errs if not any(d is b for b in bad[k])]
                self.verified += 1
                self.errors -= 1
                self.second.append(k[1])

    def times(self):
        out = {}
        for m in self.out.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                out[f["function"].split("::", 1)[1]] = f["time"]
        return out


def spans(d):
    p = [s for s in d["spans"] if s["is_primary"]]
    return p + [s for s in d["spans"] if not s["is_primary"]]


def closure(fns, roots):
    seen, todo = set(), list(roots)
    while todo:
        n = todo.pop()
        if n in seen or n not in fns:
            continue
        seen.add(n)
        todo += set(fns[n].get("calls") or []) - set(fns[n].get("inlined") or [])
    return seen


def build_harness(tmp):
    ov = os.path.join(tmp, "overlay.json")
    json.dump({"Replace": {REPO + "/zz_verif_test.go": os.path.join(VERIF, "harness", "verif_test.go")}}, open(ov, "w"))
    b = os.path.join(tmp, "harness.test")
    r = sh(["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", b, "."], cwd=REPO, timeout=300)
    if r.returncode != 0:
        die("the harness does not build against /repo: " + (r.stderr + r.stdout)[-3000:])
    return b


def search(tmp, binary, prop, secs, count):
    out = os.path.join(tmp, "search.json")
    if os.path.exists(out):
        os.remove(out)
    r = sh([binary, "-test.run", "^TestVerifSearch$", "-test.timeout", str(secs + 200) + "s"], cwd=tmp, timeout=secs + 240,
           extra={"VERIF_PROP": prop, "VERIF_SEED": str(seed), "VERIF_SECS": str(secs), "VERIF_COUNT": str(count), "VERIF_OUT": out})
    if not os.path.exists(out):
        # a fatal error of the Go runtime cannot be recovered inside the process
        return {"histories": 0, "distinct": 0, "evaluations": 0, "samples": [], "fail": "", "crash": (r.stdout + r.stderr)[-3000:]}
    return json.load(open(out))


def known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"open: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main(tmp):
    props = json.load(open(os.path.join(SPEC, "props.json")))
    if pid not in props:
        die("no such property: " + pid)
    prop = props[pid]
    bad = cheats()
    if bad:
        die("the annotations contain unchecked assumptions:\n" + "\n".join(bad))
    g2v = os.path.join(tmp, "g2v")
    r = sh(["go", "build", "-o", g2v, "."], cwd=os.path.join(VERIF, "g2v"), timeout=300)
    if r.returncode != 0:
        die("the translator does not build: " + r.stderr)
    binary = build_harness(tmp)

    # which functions matter
    plan = Run(tmp, "plan", g2v)
    roots = prop["roots"]
    gone = [f for f in roots if plan.fns.get(f, {}).get("status", "missing") == "missing"]
    stub = set()
    for attempt in range(12):
        need = closure(plan.fns, roots)
        main_run = Run(tmp, "gen", g2v, only=need, stub=stub)
        main_run.verify()
        if not main_run.broken:
            main_run.again()
            break
        new = set()
        for d in main_run.errs:
            for s in spans(d):
                f = main_run.where(s["line_start"])
                if f and f not in stub:
                    new.add(f)
        if not new:
            raise Unusable("the generated file is not accepted:\n" + main_run.rendered[:4000])
        stub |= new
    else:
        raise Unusable("the generated file is not accepted")

    fns = main_run.fns
    open_roots = sorted(gone + [n for n in need if plan.fns[n]["status"] in ("uncontracted", "missing")])
    unsupported = sorted(n for n in need if fns.get(n, {}).get("status") == "unsupported")
    trusted = sorted(n for n in need if fns.get(n, {}).get("status") == "trusted")
    under = sorted(n for n in need if fns.get(n, {}).get("status") == "translated")
    inlined = sorted({i for n in under for i in (fns[n].get("inlined") or [])})

    # failed obligations that concern this property
    failed, others = [], []
    for d in main_run.errs:
        sp = spans(d)
        if not sp:
            others.append(d["message"])
            continue
        tags, where = None, None
        for s in sp:
            m = re.search(r"/\*\[([\w, ]+)\]\*/", main_run.lines[s["line_start"] - 1])
            if m and tags is None:
                tags = [t.strip() for t in m.group(1).split(",")]
            where = where or main_run.where(s["line_start"])
        # a failed precondition is reported at the call, the failed clause elsewhere
        lib = where is None
        if lib:
            where = main_run.fn_line(sp[0]["line_start"])
        if tags is not None and pid not in tags:
            continue
        at = main_run.src(sp[-1]["line_start"] if d["message"].startswith("postcondition") else sp[0]["line_start"])
        failed.append({"function": where, "lemma": lib, "message": d["message"], "source": at,
                       "obligation": main_run.lines[sp[0]["line_start"] - 1].strip()[:300], "text": d.get("rendered") or ""})
    if main_run.slow:
        failed.append({"function": "?", "lemma": False, "message": "the verifier did not finish", "source": "?", "obligation": "all", "text": " ".join(main_run.cmd)})
    if main_run.errors and not failed and not main_run.errs:
        die("verus reports errors without diagnostics")

    # vacuity
    vac = {"entry": 0, "exit": 0, "unreachable_exits": [], "not_callable": [], "undecided": []}
    if not failed and under:
        for kind in ("entry", "exit"):
            # the exits take as long as the proof itself: the quick tier takes a quarter of the functions, by seed
            rest = {f for f in under if tier == "quick" and kind == "exit" and (zlib.crc32(re.sub("^Node(?:Leaf|4|16|48|256)_", "", f).encode()) + seed) % 4}
            pr = Run(tmp, "probe_" + kind, g2v, only=need, stub=stub | rest, probe=kind)
            pr.verify(multiple="40", rlimit="12", libs=False)
            if pr.broken or pr.slow:
                die("the probe file is not accepted:\n" + pr.rendered[:3000])
            hit, gone = set(), set()
            for d in pr.errs:
                if "esource limit" in d["message"]:
                    f = [pr.where(s["line_start"]) or pr.fn_line(s["line_start"]) for s in spans(d)]
                    gone |= set(x for x in f if x)
                for s in spans(d):
                    if "// probe" in pr.lines[s["line_start"] - 1]:
                        hit.add(s["line_start"])
            per = {}
            for i, l in enumerate(pr.lines, 1):
                if "// probe" in l:
                    n = pr.where(i) or pr.fn_line(i)
                    # the copies of a split function share its exits
                    per.setdefault(n, {}).setdefault(pr.src(i), []).append(i)
            for n, at in per.items():
                # the search for a contradiction ran out of resources: none was found
                if n in gone:
                    vac["undecided"].append(n)
                    continue
                got = [a for a, ls in at.items() if any(l in hit for l in ls)]
                # a method need not be callable on every kind of node
                kin = re.match(r"Node(?:Leaf|4|16|48|256)_(\w+)$", n)
                if not got and kin and any(l in hit for k in per if re.match(r"Node(?:Leaf|4|16|48|256)_%s$" % kin.group(1), k) for ls in per[k].values() for l in ls):
                    vac["not_callable"].append(n)
                    continue
                if not got:
                    die("vacuous contract: the %s of %s is unreachable under its annotations" % (kind, n))
                if kind == "exit":
                    vac["unreachable_exits"] += ["%s (%s)" % (n, a) for a in at if a not in got]
            vac[kind] = len(per)
        vac["undecided"] = sorted(set(vac["undecided"]))
        vac["not_callable"] = sorted(set(vac["not_callable"]))

    complete = not open_roots and not unsupported and not prop.get("bounded_only")
    ev = {
        "property": pid, "tier": tier, "seed": seed,
        "level": "proof" if complete else "exploration",
        "coverage": {}, "assumptions": [], "wall_s": 0, "violations": 0,
    }
    lemmas = [k for k in main_run.times() if k.startswith("lib_")]
    t = main_run.times()
    solver_ms = sum(t.values())
    cov = ev["coverage"]
    cov["obligations"] = main_run.verified + main_run.errors
    cov["discharged"] = main_run.verified
    cov["obligation_unit"] = "one Verus query per translated function or lemma: its postconditions, loop invariants, measures, callee preconditions, index and arithmetic bounds"
    cov["functions_under_contract"] = under
    cov["functions_expanded_in_place"] = inlined
    cov["lemmas"] = len(lemmas)
    cov["back_end"] = "Verus %s, Z3" % main_run.out.get("times-ms", {}).get("verus-build", {}).get("version", "?")
    cov["solver_ms"] = solver_ms
    cov["checker_cmd"] = " ".join(main_run.cmd)
    cov["proved_with_another_seed"] = main_run.second
    cov["vacuity_probes"] = vac
    cov["trusted_base"] = (["contract of %s: %s" % (n, fns[n].get("detail", "")) for n in trusted]
                           + ["memory model and Go primitives in spec/prelude.rs", "translation by g2v", "Verus and Z3"])
    if not complete:
        cov["bounded_reason"] = {"no_contract": open_roots, "outside_subset": {n: fns[n].get("detail", "") for n in unsupported}}
    ev["assumptions"] = json.load(open(os.path.join(SPEC, "assumptions.json"))) + prop.get("assumptions", [])

    # search: a short cross-check, a stand-in, or the hunt for a failing input
    if failed:
        secs, count = (240 if tier == "quick" else 400), 10 ** 9
    elif complete:
        secs, count = (8 if tier == "quick" else 60), 10 ** 9
    else:
        secs, count = (30 if tier == "quick" else 120), 10 ** 9
    res = search(tmp, binary, prop.get("oracle", pid), secs, count)
    cov["evaluations"] = res["evaluations"]
    cov["distinct_nontrivial"] = res["distinct"]
    cov["rule"] = ("random histories of tree and transaction operations over several key shapes, compared with a Go map; "
                   "distinct operation sequences are counted" + ("" if complete else "; this bounded search stands in for the functions listed in bounded_reason"))
    cov["samples"] = res.get("samples") or []
    cov["search_histories"] = res["histories"]
    cov["search_secs"] = secs

    viol = []
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-%s-%d.json" % (pid, tier, seed))
    if res.get("fail") or res.get("crash"):
        known_hit = [k for k in known() if k[0] in (res.get("fail") or "")]
        if known_hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, known_hit[0][1]))
        else:
            res["failed_obligations"] = failed
            json.dump(res, open(path, "w"), indent=1)
            print("failing input: " + (res.get("fail") or "the process crashed") + "\n  " + " ".join(res.get("text") or []))
            for f in failed[:5]:
                print("failed obligation: %s in %s (%s): %s" % (f["message"], f["function"], f["source"], f["obligation"]))
            print("replay with: %s/replay.sh %s" % (VERIF, path))
            viol.append("VIOLATION property=%s replay=%s" % (pid, path))
    elif failed:
        known_hit = [k for k in known() if any(k[0] == f["function"] for f in failed)]
        if known_hit and len({f["function"] for f in failed}) == len({k[0] for k in known_hit}):
            print("KNOWN-FINDING: property=%s %s" % (pid, known_hit[0][1]))
        else:
            json.dump({"property": pid, "failed_obligations": failed, "searched_histories": res["histories"]}, open(path, "w"), indent=1)
            for f in failed[:8]:
                print("failed obligation: %s in %s (%s): %s" % (f["message"], f["function"], f["source"], f["obligation"]))
            viol.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
    ev["violations"] = len(viol)
    ev["wall_s"] = round(time.time() - T0, 1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for n in unsupported:
        print("bounded: %s is outside the translated subset: %s" % (n, fns[n].get("detail", "")))
    if open_roots:
        print("bounded: no contract for " + " ".join(open_roots))
    print("%s: %d of %d obligations discharged, %d functions under contract, %d histories searched, %.0f s"
          % (pid, main_run.verified, main_run.verified + main_run.errors, len(under), res["histories"], time.time() - T0))
    for v in viol:
        print(v)
    return 1 if viol else 0


def stand_in(tmp, why):
    """The verifier cannot be asked about this source at all: a bounded search, labelled as such."""
    prop = json.load(open(os.path.join(SPEC, "props.json")))[pid]
    secs = 90 if tier == "quick" else 300
    res = search(tmp, os.path.join(tmp, "harness.test"), prop.get("oracle", pid), secs, 10 ** 9)
    viol = []
    if (res.get("fail") or res.get("crash")) and not any(k[0] in (res.get("fail") or "") for k in known()):
        path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (pid, tier, seed))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        json.dump(res, open(path, "w"), indent=1)
        print("failing input: " + (res.get("fail") or "the process crashed") + "\n  " + " ".join(res.get("text") or []))
        viol.append("VIOLATION property=%s replay=%s" % (pid, path))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": res["evaluations"], "distinct_nontrivial": res["distinct"], "samples": res.get("samples") or [], "search_secs": secs,
                       "obligations": 0, "discharged": 0, "bounded_reason": why[:2000],
                       "rule": "random histories of tree and transaction operations, compared with a Go map; no obligation was discharged, this bounded search stands in"},
          "assumptions": [], "wall_s": round(time.time() - T0, 1), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("bounded: nothing was proved, a search of %d histories stands in: %s" % (res["histories"], why[:2000]))
    for v in viol:
        print(v)
    return 1 if viol else 0


if __name__ == "__main__":
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        try:
            code = main(tmp)
        except Unusable as x:
            code = stand_in(tmp, str(x))
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            print("kept " + tmp)
    sys.exit(code)
