#!/usr/bin/env python3
"""check.py Cnn [--tier quick|thorough] [--replay FILE]

Extracts the functions property Cnn depends on from /repo's current source, has Verus
discharge their contracts, and runs the crate itself on a bounded set of cases, which
gives failing inputs for refuted obligations. See DESIGN.md, "Outcome rules"."""
import concurrent.futures, json, os, re, resource, subprocess, sys, threading, time
from props import PROPS, is_direct

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
SRC = os.path.join(REPO, "src/sqrid")
T0 = time.time()

SMT_FAIL = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "assertion not satisfied",
            "invariant not satisfied", "possible arithmetic", "possible division", "decreases not satisfied",
            "could not prove termination", "loop invariant", "unreachable", "possible bit shift", "precondition",
            "constant evaluation", "requires not satisfied", "possible overflow")
LIMIT = ("resource limit", "rlimit", "solver", "timed out")


def sh(cmd, timeout, **kw):
    def limit():
        os.setsid()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=limit, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return -999, o, e


# ---------------------------------------------------------------- the crate itself
def known(pid):
    """findings on record for a property: key -> what fails"""
    r = {}
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
        if m and m[1] == pid:
            r[m[2]] = m[3].strip()
    return r


class Native:
    """Runs the bounded cases of one property on the crate built from REPO."""

    def __init__(self, pid, seed, tier, work):
        self.pid, self.seed, self.tier, self.work = pid, seed, tier, work
        self.profile = "debug"      # or "plain": as a release build, with neither debug assertions nor overflow checks
        self.state = "not run"      # clean | fail | no-build | no-answer
        self.case = self.msg = None
        self.evals = self.nontrivial = self.skipped = 0
        self.samples = []
        self.met = set()            # findings on record, met again
        self.log = ""
        self.wall = 0.0
        self.const_error = None

    def build(self):
        d = os.path.join(VERIF, "native")
        if REPO != "/repo":  # development runs against a copy
            import shutil
            d2 = os.path.join(self.work, "native")
            os.makedirs(d2, exist_ok=True)
            shutil.copytree(os.path.join(d, "src"), os.path.join(d2, "src"), dirs_exist_ok=True)
            t = open(os.path.join(d, "Cargo.toml")).read().replace('"/repo"', json.dumps(REPO))
            open(os.path.join(d2, "Cargo.toml"), "w").write(t)
            if os.path.exists(os.path.join(d, "Cargo.lock")):
                shutil.copy(os.path.join(d, "Cargo.lock"), d2)
            d = d2
        tgt = os.path.join(d, "target")
        prof = ["--profile", self.profile] if self.profile != "debug" else []
        cmd = ["cargo", "build", "--offline", "--target-dir", tgt] + prof + ["--features"]
        rc, o, e = sh(cmd + [self.pid], 500, cwd=d)
        self.log += e[-6000:]
        self.bin = os.path.join(tgt, self.profile, "native")
        m = re.search(r"^error\[E0080\].*?(?=^error|\Z)", e, re.M | re.S) if rc else None
        if m and not re.search(r"^error\[E(?!0080)", e, re.M):
            # the crate compiles, but a constant of it cannot be evaluated for the types of a case
            self.const_error = m[0][:1500]
        elif rc and sh(cmd + [self.pid + ",unmade"], 500, cwd=d)[0] == 0:
            # all compiles but the cases on the types that sqrid_create!, grid_create!, ... make
            m = re.search(r"^error.*?(?=^error|\Z)", e, re.M | re.S)
            self.const_error = "what the macros make cannot be used: " + (m[0][:1500] if m else "")
        return rc == 0

    def exec(self, args, timeout):
        def limit():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        p = subprocess.Popen([self.bin, self.pid, "--seed", str(self.seed)] + [a for k in known(self.pid) for a in ("--known", k)] + args, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=limit)
        try:
            o, _ = p.communicate(timeout=timeout)
            return p.returncode, o
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            o, _ = p.communicate()
            return -999, o

    def run(self):
        t = time.time()
        try:
            self.run_()
        finally:
            self.wall = time.time() - t

    def run_(self):
        if not self.build():
            self.state = "no-build"
            if self.const_error:
                self.state, self.case, self.msg = "fail", "types used", self.const_error
            return
        args = ["--thorough"] if self.tier == "thorough" else []
        budget = 1200 if self.tier == "thorough" else 150
        self.cases(args, budget)
        if self.state == "clean":
            self.plain(args, budget)

    def plain(self, args, budget):
        """The same cases with the settings of a release build"""
        n = Native(self.pid, self.seed, self.tier, self.work)
        n.profile = "plain"
        if not n.build():
            self.log += "\nno plain build: " + n.log[-2000:]
            return
        n.cases(args, budget)
        self.plain_state, self.plain_evals = n.state, n.evals
        if n.state == "fail":
            self.state, self.case, self.msg, self.profile, self.bin = "fail", n.case, n.msg, "plain", n.bin
        self.log += n.log[-3000:]

    def cases(self, args, budget=150):
        args = args + ["--budget", str(int(budget))]
        rc, o = self.exec(args, budget + 100)
        self.read(o)
        if rc == 0:
            self.state = "clean"
        elif rc == 3:
            self.state = "fail"
        else:  # killed, aborted or hung: the last case traced is the one
            tr = os.path.join(self.work, "trace.txt")
            rc2, o2 = self.exec(args + ["--trace", tr, "--hang", "20"], budget + 100)
            self.read(o2)
            if rc2 == 0:
                self.state = "clean"
                self.log += f"\nfirst run ended with {rc} and the second passed\n"
            elif rc2 == 3:
                self.state = "fail"
            else:
                last = ""
                try:
                    last = open(tr, errors="replace").read().strip("\n")
                except OSError:
                    pass
                what = "does not return" if "HANG" in o2 else f"ends the process (status {rc2})"
                if last and rc2 != -999:
                    self.state, self.case, self.msg = "fail", last, what
                else:
                    self.state = "no-answer"
                self.log += o2[-3000:]

    def read(self, o):
        for l in o.splitlines():
            if l.startswith("SAMPLE "):
                self.samples.append(l[7:])
            elif l.startswith("COUNT "):
                a = l.split()
                self.evals, self.nontrivial = int(a[1]), int(a[2])
            elif l.startswith("SKIPPED "):
                self.skipped = int(l.split()[1])
            elif l.startswith("FINDING "):
                self.met.add(l[8:])
            elif l.startswith("FAIL "):
                self.case = l[5:]
            elif l.startswith("MSG "):
                self.msg = l[4:]


# ---------------------------------------------------------------- the deductive part
class Deductive:
    def __init__(self, pid, tier, seed, work):
        self.pid, self.tier, self.seed, self.work = pid, tier, seed, work
        self.cfg = PROPS[pid]
        self.why_not = None       # the deductive part gave no answer at all
        self.failures = []        # dict(key, kind, message, line, text, direct)
        self.undischarged = {}    # key -> reason
        self.functions = []
        self.result = {}
        self.smt_ms = 0
        self.dropped, self.missing, self.notes, self.trusted = [], [], [], []
        self.cmd = ""
        self.output = ""
        self.wall = 0.0
        self.vacuous = None
        self.reruns = 0

    def extract(self, external, skip, vac=False, shared=()):
        out = os.path.join(self.work, "out.rs")
        rep = os.path.join(self.work, "rep.json")
        cmd = [VX, "--src", SRC, "--spec", os.path.join(VERIF, "spec"), "--out", out, "--report", rep,
               "--modules", ",".join(self.cfg["modules"])]
        if skip:
            f = os.path.join(self.work, "skip.txt")
            open(f, "w").write("\n".join(skip))
            cmd += ["--skip-file", f]
        for k in sorted(external):
            cmd += ["--external", k]
        for k in sorted(shared):
            cmd += ["--shared", k]
        if vac:
            cmd += ["--vacuity"]
        rc, o, e = sh(cmd, 120)
        if rc != 0:
            self.why_not = "extraction failed: " + (e or o)[-1500:]
            return None
        self.text = open(out).read().split("\n")
        return json.load(open(rep))

    def verus(self, extra=(), timeout=420):
        cmd = ["verus", "out.rs", "--crate-type", "lib", "--no-trait-conflicts", "--num-threads", "8",
               "--output-json", "--time-expanded", "--error-format=json", *extra]
        self.cmd = "cd work/%s && %s" % (self.pid, " ".join(cmd))
        rc, o, e = sh(cmd, timeout, cwd=self.work)
        diags = []
        for l in e.splitlines():
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level") == "error":
                    diags.append(d)
            elif l.strip():
                diags.append({"level": "error", "message": l, "spans": [], "rendered": l}) if "panicked" in l else None
        try:
            res = json.loads(o)
        except ValueError:
            res = None
        return rc, res, [d for d in diags if d and not d["message"].startswith("aborting due to")]

    def key_at(self, line):
        best = None
        for f in self.rep["functions"]:
            if f["line0"] <= line <= f["line1"] and (best is None or f["line1"] - f["line0"] < best["line1"] - best["line0"]):
                best = f
        return best["key"] if best else None

    def locate(self, d):
        """function an error belongs to, line, and text of the failing clause"""
        spans = [s for s in d.get("spans", []) if s.get("file_name", "").endswith("out.rs")]
        if not spans:
            return None, 0, ""
        prim = [s for s in spans if s["is_primary"]] or spans
        body = [s for s in spans if "function body" in (s.get("label") or "") or "exit" in (s.get("label") or "")]
        order = body + prim + spans
        if "precondition" in d["message"]:
            order = prim + spans
        p = prim[0]
        text = " ".join(t["text"].strip() for t in p.get("text", []))[:300]
        clause = [s for s in spans if "failed" in (s.get("label") or "")]
        if clause:
            text += " | fails: " + " ".join(t["text"].strip() for t in clause[0].get("text", []))[:300]
        for s in order:
            k = self.key_at(s["line_start"])
            if k:
                return k, s["line_start"], text
        return None, p["line_start"], text

    def run(self):
        t = time.time()
        try:
            self.run_()
        except Exception as e:  # never let a bug of the driver decide
            self.why_not = f"driver: {type(e).__name__} {e}"
        finally:
            self.wall = time.time() - t

    def skiplist(self, rep):
        only = self.cfg.get("only", {})
        return [f["key"] for f in rep["functions"]
                if f["module"] in only and not re.search(only[f["module"]], f["key"])]

    def run_(self):
        external = {}
        rep = self.extract(external, [])
        if rep is None:
            return
        skip = self.skiplist(rep)
        for attempt in range(12):
            rep = self.extract(external, skip)
            if rep is None:
                return
            self.rep = rep
            left = 640 - (time.time() - T0)
            if left < 60:
                self.why_not = "out of time"
                return
            rc, res, diags = self.verus(timeout=min(420, left))
            if rc == -999:
                self.why_not = "the verifier did not finish in time"
                return
            hard = [d for d in diags if not self.is_smt(d)]
            if hard or res is None or res["verification-results"].get("encountered-vir-error"):
                # not accepted by the front end: set the functions aside and try again
                new = {}
                for d in hard:
                    k, line, _ = self.locate(d)
                    if k and k not in external:
                        new[k] = "not accepted by the verifier's front end: " + d["message"][:200]
                if not new:
                    self.output = "\n".join(d.get("rendered") or d["message"] for d in hard)[-4000:]
                    self.why_not = "the extracted text is not accepted by the verifier: " + (hard[0]["message"] if hard else "no output")[:300]
                    return
                external.update(new)
                self.reruns += 1
                continue
            break
        else:
            self.why_not = "too many functions are not accepted by the verifier"
            return
        self.result = res
        # functions whose body was set aside are accepted by the verifier without proving anything
        res["verification-results"]["verified"] -= sum("// VX-EXTERNAL" in l for l in self.text)
        fails = self.collect(diags)
        if fails and (res is not None):
            # a solver seed or resource limit must not decide, nor whether a loop is told of a local
            # that its invariant does not mention: more tries
            cmd0, text0 = self.cmd, self.text
            for shared in (False, True):
                if not fails or 700 - (time.time() - T0) < 60 or (self.native and self.native.state == "fail"):
                    break
                if not all(x["key"] for x in fails):
                    break
                keys = {x["key"] for x in fails}
                if shared:
                    keys = {f["key"] for f in self.rep["functions"] if f["key"] in keys and f.get("loops")}
                    if not keys:
                        break
                    r = self.extract(external, skip, shared=keys)
                    if r is None:
                        break
                    self.rep = r
                extra = ["--rlimit", "80" if shared else "40"] + ([] if shared else ["--smt-option", "smt.random_seed=7"])
                for m in sorted({f["module"] for f in self.rep["functions"] if f["key"] in keys}):
                    extra += ["--verify-module", m]
                rc2, res2, diags2 = self.verus(extra=extra, timeout=min(240, 760 - (time.time() - T0)))
                self.reruns += 1
                if rc2 == -999 or res2 is None or [d for d in diags2 if not self.is_smt(d)]:
                    continue
                keys2 = {x["key"] for x in self.collect(diags2)}
                fixed = {x["key"] for x in fails if x["key"] in keys and x["key"] not in keys2}
                if fixed:
                    self.notes.append("discharged on a further attempt (%s): " % ("loops keep what is known before them" if shared else "other solver seed")
                                      + ", ".join(sorted(fixed)))
                    vr = self.result["verification-results"]
                    vr["verified"] += len(fixed)
                    vr["errors"] = max(0, vr["errors"] - len(fixed))
                    fails = [x for x in fails if x["key"] not in fixed]
            self.cmd, self.text, self.rep = cmd0, text0, rep
        for x in fails:
            if x["kind"] == "limit" or x["key"] is None:
                self.undischarged[x["key"] or ("ghost item at line %d: %s" % (x["line"], x["text"]))] = x["message"]
            else:
                self.failures.append(x)
        for k, why in external.items():
            self.undischarged[k] = why
        self.functions = rep["functions"]
        for f in rep["functions"]:
            if f["status"] == "external" and f["key"] not in self.undischarged:
                self.undischarged[f["key"]] = f["reason"]
            # a method of a trait that the contracts do not know about: users reach it through the trait
            if f["status"] == "unspecified" and f["key"].startswith("<"):
                self.undischarged.setdefault(f["key"], "overrides a provided method of the trait and has no contract")
        for m, k in rep["missing"]:
            if k.startswith(("trait ", "impl ", "<")) or "::" in k or True:
                self.undischarged.setdefault(k, "the contract has no function to go with (renamed, removed or derived)")
        # Locals of the contract were matched with those of the code by their order only: an
        # obligation that fails there may be about the wrong variable.
        guessed = {n[7:] for n in rep["notes"] if n.startswith("LOCALS ")}
        for x in [x for x in self.failures if x["key"] in guessed]:
            self.failures.remove(x)
            self.undischarged[x["key"]] = "contract matched to renamed locals by order: " + x["message"]
        self.dropped = rep["dropped"]
        self.notes += [n for n in rep["notes"] if not n.startswith("LOCALS ")]
        self.smt_ms = res["times-ms"]["smt"]["total"]
        self.scan_trusted()
        if self.tier == "thorough" and not self.failures:
            self.vacuity(external, skip)

    def is_smt(self, d):
        m = d["message"].lower()
        return any(x in m for x in SMT_FAIL) or any(x in m for x in LIMIT) and d.get("code") is None

    def collect(self, diags):
        r = []
        for d in diags:
            k, line, text = self.locate(d)
            m = d["message"]
            kind = "limit" if any(x in m.lower() for x in LIMIT) else "refuted"
            r.append(dict(key=k, kind=kind, message=m, line=line, text=text, rendered=(d.get("rendered") or "")[:3000],
                          direct=bool(k and is_direct(self.pid, k))))
        return r

    def scan_trusted(self):
        t = []
        for i, l in enumerate(self.text):
            s = l.strip()
            if "assume_specification" in s:
                t.append("assumed contract of the standard library: " + s[s.find("["):][:140])
            elif "// VX-EXTERNAL" in s:
                k = self.key_at(i + 1)
                f = next((f for f in self.rep["functions"] if f["key"] == k), None)
                if f and f["status"] == "skipped":
                    continue
                t.append("body not verified, contract assumed: " + (k or s)[:140] + (f" ({f['reason']})" if f and f["reason"] else ""))
            elif "external_body" in s:
                nxt = next((x.strip() for x in self.text[i + 1:i + 4] if "fn " in x), "")
                k = self.key_at(i + 2) or self.key_at(i + 1)
                f = next((f for f in self.rep["functions"] if f["key"] == k), None) if k else None
                if f and f["status"] == "skipped":
                    continue
                t.append("contract assumed, body not verified: " + (k or nxt)[:140] + (f" ({f['reason']})" if f and f["reason"] else ""))
            elif re.search(r"\b(assume|admit)\(", s):
                k = self.key_at(i + 1)
                t.append("assumption in " + (k or "ghost code") + ": " + s[:160])
        seen, out = set(), []
        for x in t:
            if x not in seen:
                seen.add(x)
                out.append(x)
        self.trusted = out

    def vacuity(self, external, skip):
        """with `assert(false)` at the start of every body, every verified function must fail"""
        if self.extract(external, skip, vac=True) is None:
            self.why_not = None
            return
        rep = json.load(open(os.path.join(self.work, "rep.json")))
        self.rep = rep
        rc, res, diags = self.verus(extra=["--multiple-errors", "0"], timeout=900)
        failed = {self.locate(d)[0] for d in diags}
        marked = set()
        lines = self.text
        for f in rep["functions"]:
            if f["status"] == "verified" and any("VX-VACUITY" in l for l in lines[f["line0"] - 1:f["line1"]]):
                marked.add(f["key"])
        self.vacuous = dict(checked=len(marked), vacuous=sorted(marked - failed))


def main():
    global VX
    pid = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    work = os.path.join(os.environ.get("VX_WORK", os.path.join(VERIF, "work")), pid)
    os.makedirs(work, exist_ok=True)
    nat = Native(pid, seed, tier, work)
    if "--replay" in args:
        r = json.load(open(args[args.index("--replay") + 1]))
        if not r.get("case"):
            print(r.get("verifier_output", "no failing input was found"))
            return 1
        nat.profile = r.get("profile", "debug")
        if not nat.build():
            print(nat.log)
            return 1 if nat.const_error else 2
        nat.seed = r.get("seed", seed)
        nat.tier = r.get("tier", tier)
        rc, o = nat.exec((["--thorough"] if r.get("tier") == "thorough" else []) + ["--only", r["case"], "--hang", "20"], 300)
        print(o)
        return 0 if rc == 0 else 1
    th = threading.Thread(target=nat.run)
    th.start()
    ded = Deductive(pid, tier, seed, work)
    ded.native = nat
    rc, o, e = sh(["cargo", "build", "--offline"], 500, cwd=os.path.join(VERIF, "extract"))
    VX = os.path.join(VERIF, "extract/target/debug/vx")
    if rc != 0:
        ded.why_not = "the extractor does not build: " + e[-800:]
    else:
        ded.run()
    th.join()
    return report(pid, tier, seed, nat, ded, work)


def report(pid, tier, seed, nat, ded, work):
    direct_fail = [f for f in ded.failures if f["direct"]]
    dep_fail = [f for f in ded.failures if not f["direct"]]
    # an obligation is refuted or lost and no input was found: look harder
    if (ded.failures or ded.undischarged or ded.why_not) and nat.state == "clean" and tier == "quick" and time.time() - T0 < 560:
        n2 = Native(pid, seed, "thorough", work)
        n2.bin = nat.bin
        n2.cases(["--thorough"], min(150, 700 - (time.time() - T0)))
        if n2.state == "clean" and time.time() - T0 < 600:
            n2.plain(["--thorough"], min(60, 700 - (time.time() - T0)))
        n2.evals = max(n2.evals, nat.evals)
        nat2 = n2 if n2.state in ("clean", "fail") else nat
        if nat2 is n2:
            nat.extended = True
            nat2.log = nat.log + n2.log
            nat2.wall = nat.wall
            nat = nat2
            nat.extended = True
    violation = None
    if nat.state == "fail":
        violation = "input"
    elif direct_fail:
        violation = "obligation"
    path = ""
    if violation:
        rdir = os.path.join(os.path.dirname(work), "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}.json")
        r = dict(property=pid, seed=seed, tier=nat.tier, profile=nat.profile,
                 case=nat.case if nat.state == "fail" else None, what=nat.msg,
                 failed_obligations=[dict(function=f["key"], obligation=f["message"], clause=f["text"], line=f["line"]) for f in ded.failures],
                 verifier_output="\n".join(f["rendered"] for f in ded.failures)[:20000],
                 checker_cmd=ded.cmd,
                 replay_with=f"python3 /verif/check.py {pid} --replay {path}")
        json.dump(r, open(path, "w"), indent=1)
    vr = (ded.result or {}).get("verification-results", {})
    verified, errors = vr.get("verified", 0), vr.get("errors", 0)
    und = dict(ded.undischarged)
    for f in dep_fail + direct_fail:
        und[f["key"]] = f["message"]
    lost = [k for k in ded.undischarged if not k.startswith("ghost item")]
    fns = [f for f in ded.functions if f["status"] in ("verified", "inlined") and f["key"] not in und]
    level = "proof" if (verified or not ded.why_not) else "exploration"
    cov = dict(
        obligations=verified + errors + len(lost),
        discharged=verified,
        checker_cmd=ded.cmd or "verus",
        trusted_base=ded.trusted or ["the extractor and Verus itself (the deductive part gave no answer in this run)"],
        back_end="Verus 0.2026.09.13.671956e with the Z3 it bundles",
        solver_time_ms=ded.smt_ms,
        verifier_wall_s=round(ded.wall, 1),
        functions_under_contract=len(fns),
        functions_carrying_the_property=[f["key"] for f in fns if is_direct(pid, f["key"])],
        functions_depended_on=[f["key"] for f in fns if not is_direct(pid, f["key"])],
        contracts_discharged_by_other_checks=len([f for f in ded.functions if f["status"] == "skipped"]),
        undischarged=und,
        undischarged_standin="bounded run of the crate itself, see bounded_evaluations" if und or ded.why_not else "none needed",
        without_contract=[f["key"] + ": " + f["reason"] for f in ded.functions if f["status"] == "unspecified"],
        left_out_by_extraction=[f"{a}: {b}" for a, b in ded.dropped],
        notes=ded.notes,
        bounded_evaluations=nat.evals,
        bounded_state=nat.state,
        bounded_cases_left_out_for_lack_of_time=nat.skipped,
        bounded_without_debug_assertions_and_overflow_checks=f"{getattr(nat, 'plain_state', 'not run')}, {getattr(nat, 'plain_evals', 0)} cases",
        bounded_note="the same property evaluated on the compiled crate, on a bounded set of inputs; supplies failing inputs and cross-checks the extraction, never counted as proved",
        samples=nat.samples[:12],
        evaluations=nat.evals,
        distinct_nontrivial=nat.nontrivial,
        rule="each case is a distinct (type instance, operation, input); all of them exercise the crate",
    )
    if ded.why_not:
        cov["deductive_part_gave_no_answer"] = ded.why_not
    if ded.vacuous is not None:
        cov["vacuity"] = ded.vacuous
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=ASSUME, wall_s=round(time.time() - T0, 2), violations=1 if violation else 0)
    evd = os.path.join(VERIF, "evidence") if "VX_WORK" not in os.environ else work
    os.makedirs(evd, exist_ok=True)
    json.dump(ev, open(os.path.join(evd, f"{pid}.json"), "w"), indent=1)
    print(f"{pid}: {verified} obligations discharged, {errors} failed, {len(fns)} functions under contract, "
          f"{nat.evals} bounded cases {nat.state}, {time.time()-T0:.0f} s")
    for k, w in known(pid).items():
        if k in nat.met:
            print(f"KNOWN-FINDING: property={pid} {w}")
    for k, w in und.items():
        print(f"UNDISCHARGED {k}: {w}"[:300])
    if ded.why_not:
        print("DEDUCTIVE PART GAVE NO ANSWER:", ded.why_not[:600])
    if violation == "input":
        print(f"failing input: {nat.case}: {nat.msg}"[:600])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if violation:
        f = direct_fail[0]
        print(f"failed obligation: {f['key']}: {f['message']}: {f['text']}"[:600])
        print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        return 1
    if nat.state != "clean" and ded.why_not:
        print(nat.log[-1500:])
        return 2
    if nat.state != "clean":
        print("bounded run:", nat.state, nat.log[-1500:])
        return 2 if und else 0
    return 0


ASSUME = [
    "Verus, its Z3 and vstd's contracts of core are correct; rustc compiles the verified text and the crate alike",
    "the extractor keeps the meaning of what it copies: macro expansion, closures passed to known combinators turned into matches, `?` and panics spelled out (DESIGN.md lists every rule)",
    "usize has 64 bits",
    "user types implementing PosT, BoundedInt or the container traits satisfy the laws stated on those traits (the crate's own are verified)",
    "movement functions, goal tests and iterators given by the user end (every loop of the crate has a decreasing measure); the stack and the heap are large enough",
]

if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    sys.exit(main())
