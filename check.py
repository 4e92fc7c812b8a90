#!/usr/bin/env python3
"""Decides one property: runs the symbolic engine on its harnesses, replays counterexamples and sample paths on the real code,
writes evidence/<id>.json.   usage: check.py C01 [quick|thorough]"""
import json, os, re, subprocess, sys, tempfile, time, shutil, threading

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
GOENV = dict(os.environ)
GOENV.update(PATH="/opt/veriftools/go1.26.10/bin:" + os.environ.get("PATH", "/usr/bin:/bin"), GOTOOLCHAIN="local", GOFLAGS="-mod=mod",
             GOPROXY="off", HOME=os.environ.get("HOME") or "/root", CGO_ENABLED="0")


def overlay_map():
    out = {}
    base = os.path.join(VERIF, "harness")
    for d, _, files in os.walk(base):
        for f in sorted(files):
            if not f.endswith(".go"):
                continue
            rel = os.path.relpath(d, base)
            dst = "." if rel == "root" else rel
            name = f if rel == "verifrt" else "zz_verif_" + f
            out[os.path.normpath(os.path.join(REPO, dst, name))] = os.path.join(d, f)
    return out


def harness_docs():
    docs = {}
    for src in overlay_map().values():
        txt = open(src).read()
        for m in re.finditer(r"((?://[^\n]*\n)+)func (Verif_\w+)\(\)", txt):
            docs[m.group(2)] = " ".join(l[2:].strip() for l in m.group(1).strip().split("\n"))
    return docs


def build_engine():
    exe = os.path.join(VERIF, "bin", "gosym")
    srcs = [os.path.join(VERIF, "engine", f) for f in os.listdir(os.path.join(VERIF, "engine"))]
    if not os.path.exists(exe) or max(os.path.getmtime(s) for s in srcs) > os.path.getmtime(exe):
        subprocess.run([os.path.join(VERIF, "build.sh")], check=True)
    return exe


def build_replay(work, dropped, kind=""):
    """kind: "" plain, "race" with the race detector, "sched" with the synchronisation of the repository replaced by verifrt/vsync and
    verifrt/vatomic so that recorded schedules are followed."""
    ov = {k: v for k, v in overlay_map().items() if v not in dropped}
    env, args = GOENV, []
    if "race" in kind:
        env, args = dict(GOENV, CGO_ENABLED="1"), ["-race", "-gcflags=github.com/coveooss/gotemplate/v3/verifrt/...=-race=false"]
    if "sched" in kind:
        for d, dirs, files in os.walk(REPO):
            dirs[:] = [x for x in dirs if x not in (".git", "testdata", "vendor")]
            for f in files:
                src = os.path.join(d, f)
                if not f.endswith(".go") or f.endswith("_test.go"):
                    continue
                txt = open(src, encoding="utf8", errors="surrogateescape").read()
                new = re.sub(r'(?m)^(import |\t| *)"sync"[ \t]*$', r'\1sync "github.com/coveooss/gotemplate/v3/verifrt/vsync"', txt)
                new = re.sub(r'(?m)^(import |\t| *)"sync/atomic"[ \t]*$', r'\1atomic "github.com/coveooss/gotemplate/v3/verifrt/vatomic"', new)
                if new != txt:
                    dst = os.path.join(work, "sched_%d.go" % len(ov))
                    open(dst, "w", encoding="utf8", errors="surrogateescape").write(new)
                    ov[src] = dst
    ovf = os.path.join(work, "overlay%s.json" % kind)
    json.dump({"Replace": ov}, open(ovf, "w"))
    exe = os.path.join(work, "replay" + kind)
    r = subprocess.run(["go", "build", *args, "-overlay", ovf, "-o", exe, "."], cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stderr
    return exe, ""


class Replayer:
    """Runs recorded input vectors against the real code (in a scratch folder, as an unprivileged user when possible)."""

    def __init__(self, exe, work, env=None):
        self.exe, self.work, self.env = exe, work, env or {}
        self.user = {}
        os.chmod(work, 0o755)
        if os.geteuid() == 0:
            try:
                subprocess.run(["/bin/true"], user=65534, group=65534, extra_groups=[], check=True)
                self.user = dict(user=65534, group=65534, extra_groups=[])
            except Exception:
                self.user = {}

    def run(self, cases, timeout):
        results, todo, n = {}, list(cases), 0
        while todo:
            n += 1
            scratch = tempfile.mkdtemp(prefix="verif-run-", dir=self.work)
            try:
                cf, of = os.path.join(scratch, "cases.json"), os.path.join(scratch, "out.jsonl")
                json.dump(todo, open(cf, "w"))
                open(of, "w").close()
                os.mkdir(os.path.join(scratch, "tmp"))
                for f in (scratch, of, os.path.join(scratch, "tmp")):
                    os.chmod(f, 0o777)
                env = {"PATH": "/usr/bin:/bin", "HOME": scratch, "TMPDIR": os.path.join(scratch, "tmp"), "VERIF_REPLAY": cf, "VERIF_OUT": of,
                       "VERIF_CASE_TIMEOUT": str(timeout), "NO_COLOR": "1", "GOTRACEBACK": "single", "GOMEMLIMIT": "3GiB"}
                env.update(self.env)
                try:
                    p = subprocess.run([self.exe], cwd=scratch, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                       stderr=subprocess.PIPE, timeout=timeout * (len(todo) + 2) + 60, preexec_fn=limit_memory, **self.user)
                    err, rc = p.stderr.decode("utf8", "replace")[-1500:], p.returncode
                except subprocess.TimeoutExpired:
                    err, rc = "timeout", -1
                done = 0
                for line in open(of):
                    r = json.loads(line)
                    results[r["id"]] = r
                    done += 1
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
            if rc == 0:
                break
            if done < len(todo) and rc != 5:
                # the process died on the case after the last result (fatal error, stack exhaustion, exit)
                results[todo[done]["id"]] = {"id": todo[done]["id"], "panic": "process ended with code %d: %s" % (rc, err), "fatal": True}
                done += 1
            todo = todo[done:]
        return results


def limit_memory():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))


def confirmed(v, r):
    if r is None:
        return False
    if r.get("assume") or r.get("diverged"):
        return False
    if v["label"] in (r.get("failed") or []):
        return True
    if v["label"] == "panic":
        return bool(r.get("panic"))
    if v["label"] == "termination":
        return bool(r.get("timeout")) or bool(r.get("fatal"))
    return False


def concurrent(v):
    return any(x.startswith("s:") for x in v.get("vec") or [])


def confirm_concurrent(viols, conv, work, dropped, deadline):
    """Replays violations that depend on the schedule: data races with the race detector, the others by following the schedule."""
    exes, results, done = {}, {}, set()

    def run(kind, v, env, tries, seconds):
        if kind not in exes:
            exes[kind] = build_replay(work, dropped, kind)
        exe, err = exes[kind]
        if exe is None:
            return {"id": v["id"], "diverged": "build of the %s replay failed: %s" % (kind, err[-500:])}
        rp, r, end = Replayer(exe, work, env), None, time.time() + seconds
        for _ in range(tries):
            r = rp.run([conv(v)], 10).get(v["id"])
            if r and "code 66" in str(r.get("panic")):
                r["failed"] = ["no data race"]
            if confirmed(v, r) or time.time() > min(end, deadline):
                break
        return r

    for v in viols:
        key = (v["harness"], v["label"])
        if key in done or time.time() > deadline:
            continue
        if v["label"] == "no data race":
            race = {"GORACE": "halt_on_error=1 exitcode=66"}
            r = run("schedrace", v, dict(race, VERIF_SCHEDULE="1"), 1, 20)
            if not confirmed(v, r):
                r = run("race", v, race, 40, 15)
        else:
            r = run("sched", v, {"VERIF_SCHEDULE": "1"}, 1, 20)
        results[v["id"]] = r
        if confirmed(v, r):
            done.add(key)
    return results


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    exe = build_engine()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        rc = decide(pid, thorough, seed, t0, exe, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(pid, thorough, seed, t0, exe, work):
    budget, per = (780, 600) if thorough else (int(os.environ.get("VERIF_BUDGET", "300")), 200)
    res = os.path.join(work, "result.json")
    rep = {}
    th = threading.Thread(target=lambda: rep.update(r=build_replay(work, set())))
    th.start()
    cmd = [exe, "-verif", VERIF, "-repo", REPO, "-run", pid + "_", "-tier", "1" if thorough else "0", "-budget", str(budget), "-per", str(per),
           "-o", res, "-cross", "16" if thorough else "64", "-to", "20000" if thorough else "8000"]
    p = subprocess.run(cmd, env=GOENV, capture_output=True, text=True, timeout=budget + 90)
    th.join()
    if p.returncode != 0 or not os.path.exists(res):
        print("engine failed (%d): %s" % (p.returncode, (p.stderr + p.stdout)[-3000:]))
        return 2
    R = json.load(open(res))
    dropped = set(R.get("dropped") or [])
    if dropped:
        print("note: harness files that no longer compile against this tree were left out:", sorted(dropped))
        rep["r"] = build_replay(work, dropped)
    rexe, err = rep["r"]
    if rexe is None:
        print("replay build failed: " + err[-3000:])
        return 2
    replayer = Replayer(rexe, work)
    docs = harness_docs()

    viol, cases, byid = [], [], {}
    for h in R["harnesses"]:
        for v in h.get("violations") or []:
            v["harness"] = h["name"]
            viol.append(v)
            byid[v["id"]] = v
        for c in h.get("cases") or []:
            c["harness"] = h["name"]
            cases.append(c)
            byid[c["id"]] = c

    def conv(c, repeat=1):
        return {"id": c["id"], "harness": c["harness"], "vec": c.get("vec") or [], "tier": 1 if thorough else 0, "mapord": c.get("mapord", 0), "repeat": repeat,
                "want": c.get("label", "")}

    seq = [v for v in viol if not concurrent(v)]
    rv = replayer.run([conv(v, 400 if v.get("mapord") else 1) for v in seq], 10) if seq else {}
    if len(seq) < len(viol):
        rv.update(confirm_concurrent([v for v in viol if concurrent(v)], conv, work, dropped, t0 + budget + 200))
    rcs = replayer.run([conv(c) for c in cases], 10) if cases else {}

    known = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]

    def is_known(v):
        for k in known:
            if k["property"] == pid and k["harness"] == v["harness"] and k["label"] == v["label"]:
                return k
        return None

    new, unconf, knownhit = [], [], {}
    for v in viol:
        r = rv.get(v["id"])
        v["native"] = r
        if confirmed(v, r):
            k = is_known(v)
            if k:
                knownhit[k["id"]] = k
            else:
                new.append(v)
        else:
            unconf.append(v)
    validated, mism = 0, []
    for c in cases:
        r = rcs.get(c["id"])
        if r is None or r.get("diverged") or r.get("assume") or r.get("timeout"):
            mism.append({"harness": c["harness"], "vec": c.get("vec"), "native": r, "why": "native run does not follow the path"})
            continue
        bad = [l for l in (r.get("failed") or [])]
        if r.get("panic") and not c.get("panic"):
            bad.append("panic: " + r["panic"])
        if bad:
            cc = dict(c, label=bad[0], native=r, detail="sample path of the encoding fails natively")
            if is_known(cc):
                knownhit[is_known(cc)["id"]] = is_known(cc)
            elif not c.get("mapord"):
                new.append(cc)
            continue
        if not c.get("mapord") and (r.get("obs") or []) != (c.get("obs") or []):
            mism.append({"harness": c["harness"], "vec": c.get("vec"), "engine": c.get("obs"), "native": r.get("obs"), "why": "observations differ"})
            continue
        validated += 1

    H = R["harnesses"]
    tot = lambda k: sum(h.get(k) or 0 for h in H)
    notw = ["%s: %s" % (h["name"], l) for h in H for l in sorted(h["labels"]) if l not in (h.get("witnessed") or [])]
    vacuous = [h["name"] for h in H if not h.get("completed")]
    funcs = sorted(set(f for h in H for f in (h.get("functions") or [])))
    reduced = []
    for h in H:
        for key in ("unsupported", "limits", "unknown"):
            for k, n in (h.get(key) or {}).items():
                reduced.append("%s: %s: %s (%d paths)" % (h["name"], key, k, n))
        if h.get("truncated"):
            reduced.append(h["name"] + ": exploration stopped by the time budget")
    samples = []
    for h in H:
        for c in (h.get("cases") or [])[:2]:
            samples.append({"harness": h["name"], "inputs": c.get("vec"), "observed": (c.get("obs") or [])[:6]})
    evd = {
        "property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("completed"), "transitions": tot("ssa_steps"), "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "explanation": "symbolic execution of the real Go SSA; states = symbolic paths completed (each stands for every input that follows it), "
                           "transitions = SSA instructions executed symbolically",
            "paths_excluded_by_assumptions": tot("assumed_away"), "assertions_checked": tot("asserts"), "assertions_discharged_by_solver": tot("proved_by_solver"),
            "assertions_constant_on_path": tot("constant_on_path"), "solver_queries": tot("solver_queries"), "domain_table_decisions": tot("domain_decisions"),
            "path_conditions_rechecked": tot("paths_rechecked"), "solver_seconds": round(tot("solver_s"), 3),
            "functions_encoded": funcs, "bounds": {h["name"]: docs.get(h["name"], "") for h in H},
            "labels": {h["name"]: h["labels"] for h in H}, "labels_without_witness": notw, "vacuous_harnesses": vacuous,
            "reduced_bound": reduced, "encoding_mismatches": mism[:10], "unconfirmed_counterexamples": unconf[:10], "dropped_harness_files": sorted(dropped),
            "known_findings_seen": sorted(knownhit), "exhaustive": not reduced,
            "harness_wall_s": {h["name"]: round(h.get("wall_s", 0), 2) for h in H},
        },
        "assumptions": ["inputs outside the bounds listed are not covered", "map iteration order: insertion order unless the harness explores orders",
                        "logging packages are stubbed; the operating system is an in-memory model (harness/verifrt/memfs.go)",
                        "the Go SSA builder, the encoder and the SMT solver are trusted; sample paths are replayed on the real build"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    os.makedirs(EVID, exist_ok=True)
    json.dump(evd, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    print("%s %s: paths=%d asserts=%d (solver %d) queries=%d validated=%d/%d wall=%.1fs" % (
        pid, evd["tier"], tot("completed"), tot("asserts"), tot("proved_by_solver"), tot("solver_queries"), validated, len(cases), evd["wall_s"]))
    for k in knownhit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for x in reduced[:20]:
        print("reduced bound: " + x[:300])
    for x in notw[:20]:
        print("label without witness: " + x)
    for x in mism[:5]:
        print("ENCODING MISMATCH: " + json.dumps(x)[:1200])
    for x in unconf[:5]:
        print("unconfirmed counterexample: %s %s %s %s %s" % (x["harness"], x["label"], x.get("vec"), (x.get("detail") or "")[:300], json.dumps(x.get("native"))[:500]))
    for v in vacuous:
        print("vacuous harness: " + v)
    seen = {}
    for v in new:
        key = (v["harness"], v["label"])
        if key in seen or len(seen) >= 8:
            continue
        seen[key] = 1
        f = os.path.join(EVID, "replay_%s_%d.json" % (pid, len(seen)))
        json.dump([dict(conv(v, 400 if v.get("mapord") else 1), label=v["label"], detail=v.get("detail"), native=v.get("native"))], open(f, "w"), indent=1)
        print("  %s: %s; inputs %s; %s" % (v["harness"], v["label"], v.get("vec"), (v.get("detail") or "")[:300]))
        print("VIOLATION property=%s replay=%s" % (pid, f))
    return 1 if new else 0


if __name__ == "__main__":
    main()
