#!/usr/bin/env python3
"""Decide one property: check.py ID [--tier quick|thorough] | --setup | --replay FILE | --list

The harnesses of property ID are the functions H_ID_* of the packages in harness/.  They are overlaid onto /repo (which is
not written to), translated together with the code they call from /repo's current source and explored by engine/ (SSA ->
QF_BV, z3).  A counterexample is replayed against the compiled code before it is reported; sample models of the explored
paths are run through the compiled code too and the observed values compared with the encoding's.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
MOD = "github.com/sugarme/tokenizer"
GO24 = "/opt/veriftools/go1.24.13/bin"
GOENG = "/opt/veriftools/go1.26.10/bin"
KNOWN = os.path.join(VERIF, "known_findings.txt")


def repo_env(**kw):
    e = dict(os.environ)
    e.pop("GOROOT", None)
    e.update(PATH=GO24 + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", GOTOOLCHAIN="local", GOFLAGS="-mod=mod",
             GOPROXY="off", CGO_ENABLED="1", HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE="/root/.cache/go-build")
    e.update(kw)
    return e


def build_engine():
    src = sorted(glob.glob(VERIF + "/engine/*.go")) + [VERIF + "/engine/go.mod"]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:16]
    os.makedirs(VERIF + "/bin", exist_ok=True)
    out = f"{VERIF}/bin/eng-{h}"
    with open(VERIF + "/bin/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            e = dict(os.environ)
            e.pop("GOROOT", None)
            e.update(PATH=GOENG + ":/usr/local/bin:/usr/bin:/bin", GOFLAGS="-mod=vendor", GOPROXY="off", GOTOOLCHAIN="local",
                     GOSUMDB="off", CGO_ENABLED="0", HOME="/root")
            subprocess.run(["go", "build", "-o", out + ".tmp", "."], cwd=VERIF + "/engine", env=e, check=True)
            os.rename(out + ".tmp", out)
            for f in glob.glob(VERIF + "/bin/eng-*"):
                if f != out:
                    os.unlink(f)
    return out


FUNC = re.compile(r"^func ((?:H|K)_\w+)\(\)", re.M)


def harness_files(pkg):
    return sorted(glob.glob(f"{VERIF}/harness/{pkg}/*.go"))


def harnesses(pkg):
    """name -> doc comment"""
    r = {}
    for f in harness_files(pkg):
        doc = []
        for line in open(f):
            if line.startswith("//"):
                doc.append(line[2:].strip())
                continue
            m = FUNC.match(line)
            if m:
                r[m.group(1)] = " ".join(doc)
            doc = []
    return r


def has_setup(pkg):
    return any(re.search(r"^func Setup\(\)", open(f).read(), re.M) for f in harness_files(pkg))


def tags(pkg):
    """the build tags the harness package is built with (the hooks of /repo it needs)"""
    f = f"{VERIF}/harness/{pkg}/tags.txt"
    return open(f).read().strip() if os.path.exists(f) else ""


def packages():
    return sorted(p for p in os.listdir(VERIF + "/harness") if os.path.isdir(f"{VERIF}/harness/{p}") and p != "vp")


def go_closure(pkg):
    """pkg and the other harness packages it imports"""
    seen, todo = set(), [pkg]
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        for f in harness_files(p):
            todo += re.findall(r'"%s/zzverif/(\w+)"' % re.escape(MOD), open(f).read())
    return seen | {"vp"}


class Native:
    """The harness package compiled against the real code."""

    def __init__(self, pkg, work):
        self.pkg, self.work = pkg, work
        rep = {}
        for p in go_closure(pkg):
            for f in harness_files(p):
                rep[f"{REPO}/zzverif/{p}/{os.path.basename(f)}"] = f
        self.ov = f"{work}/ov.json"
        json.dump({"Replace": rep}, open(self.ov, "w"))
        hs = [h for h in harnesses(pkg)]
        t = f"package {pkg}\n\nimport (\n\t\"testing\"\n\n\t\"{MOD}/zzverif/vp\"\n)\n\nfunc TestReplay(t *testing.T) {{\n\tvp.ReplayMain(map[string]func(){{\n"
        t += "".join(f"\t\t\"{h}\": {h},\n" for h in hs)
        t += "\t}, " + ("Setup" if has_setup(pkg) else "nil") + ")\n}\n"
        tf = f"{work}/zz_replay_test.go"
        open(tf, "w").write(t)
        rep2 = dict(rep)
        rep2[f"{REPO}/zzverif/{pkg}/zz_replay_test.go"] = tf
        self.ovt = f"{work}/ovt.json"
        json.dump({"Replace": rep2}, open(self.ovt, "w"))
        self.bins = {}

    def start(self):
        self.proc = subprocess.Popen(self.cmd(False), cwd=REPO, env=repo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    def cmd(self, race):
        return ["go", "test", "-c", "-vet=off"] + (["-race"] if race else []) + (["-tags", tags(self.pkg)] if tags(self.pkg) else []) + ["-overlay", self.ovt, "-o", f"{self.work}/t{int(race)}.bin",
                f"{MOD}/zzverif/{self.pkg}"]

    def bin(self, race=False):
        if race not in self.bins:
            if not race and getattr(self, "proc", None):
                o, _ = self.proc.communicate()
                rc = self.proc.returncode
            else:
                p = subprocess.run(self.cmd(race), cwd=REPO, env=repo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                o, rc = p.stdout, p.returncode
            if rc != 0:
                raise RuntimeError("native build failed:\n" + o)
            self.bins[race] = f"{self.work}/t{int(race)}.bin"
        return self.bins[race]

    def run(self, cases, tier, repeat=1, race=False, timeout=60):
        """Returns (list of outcomes) or one synthetic outcome when the process did not finish normally."""
        b = self.bin(race)
        d = tempfile.mkdtemp(dir=self.work)
        json.dump(cases, open(d + "/in.json", "w"))
        env = repo_env(VP_REPLAY=d + "/in.json", VP_OUT=d + "/out.json", VP_REPEAT=str(repeat), VP_TIER=tier, HOME=d)
        try:
            p = subprocess.run(["prlimit", "--as=%d" % (64 << 30 if race else 16 << 30)] * 0 + [b, "-test.run", "TestReplay", "-test.timeout", "0"], cwd=d, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            return [{"status": "hang", "msg": f"no result within {timeout}s"}]
        o = p.stdout.decode("utf-8", "replace")
        if race and "WARNING: DATA RACE" in o:
            return [{"status": "race", "msg": o[o.index("WARNING: DATA RACE"):][:3000]}]
        if os.path.exists(d + "/out.json"):
            return json.load(open(d + "/out.json"))
        if "all goroutines are asleep" in o:
            return [{"status": "deadlock", "msg": o[-2000:]}]
        if "panic:" in o or "fatal error:" in o:
            i = o.find("panic:") if "panic:" in o else o.find("fatal error:")
            return [{"status": "panic", "msg": o[i:i + 2000]}]
        return [{"status": "exit", "msg": f"process exited with {p.returncode}: " + o[-1500:]}]


BAD = {"assert", "panic", "hang", "deadlock", "race", "exit"}


def confirm(nat, v, tier):
    """Replay a counterexample against the compiled code."""
    case = [{"harness": v["harness"], "inputs": v["inputs"]}]
    if v["kind"] == "race":
        return nat.run(case, tier, repeat=300, race=True, timeout=180)[0]
    loose = v.get("sched") or v.get("env")
    r = nat.run(case, tier, repeat=400 if loose else 1, timeout=90 if loose else 20)[0]
    if r["status"] not in BAD and v.get("sched"):
        r2 = nat.run(case, tier, repeat=200, race=True, timeout=180)[0]
        if r2["status"] in BAD:
            r = r2
    return r


def known_lines(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\w+) case=(K_\w+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def run_check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfgs = json.load(open(VERIF + "/checks.json")) if os.path.exists(VERIF + "/checks.json") else {}
    cfg = dict(cfgs.get("default", {}))
    cfg.update(cfgs.get(pid, {}))
    tc = cfg.get(tier, {})
    budget = float(tc.get("timeout", 420 if tier == "quick" else 5400))
    eng = build_engine()
    work = tempfile.mkdtemp(prefix="vpchk")
    rc, lines, problems, results, nval, viols, samples_out = 0, [], [], [], 0, [], []
    known = known_lines(pid)
    try:
        mine = {}
        for p in packages():
            hs = harnesses(p)
            sel = [h for h in hs if h.startswith(f"H_{pid}_")]
            kn = [h for h in hs if h.startswith(f"K_{pid}_")]
            if sel or kn:
                mine[p] = (sel, kn, hs)
        if not mine:
            print("no harness for", pid)
            return 2
        total = sum(len(s) for s, _, _ in mine.values())
        for p, (sel, kn, docs) in mine.items():
            w = f"{work}/{p}"
            os.makedirs(w)
            nat = Native(p, w)
            nat.start()
            res = []
            if sel:
                left = max(30, budget - (time.time() - t0))
                cmd = [eng, "-dir", REPO, "-overlay", nat.ov, "-pkg", f"{MOD}/zzverif/{p}", "-harness", ",".join(sel), "-out", w + "/res.json",
                       "-timeout", str(left), "-workers", str(cfg.get("workers", 8)), "-samples", str(tc.get("samples", 32 if tier == "quick" else 200))]
                if tags(p):
                    cmd += ["-tags", tags(p)]
                if tier == "thorough":
                    cmd.append("-thorough")
                if "maxsteps" in cfg:
                    cmd += ["-maxsteps", str(cfg["maxsteps"])]
                pr = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left + 240)
                sys.stderr.write(pr.stdout[-4000:])
                if pr.returncode != 0:
                    problems.append(f"{p}: engine exit {pr.returncode}: {pr.stdout[-800:]}")
                    # the encoding is not available: what native replay of the known cases can still say is not a verdict
                    continue
                res = json.load(open(w + "/res.json"))
            for r in res:
                r["doc"] = docs.get(r["harness"], "")
                results.append(r)
                for v in r["violations"] or []:
                    v["harness"] = r["harness"]
                    o = confirm(nat, v, tier)
                    if o["status"] in BAD:
                        viols.append((v, o))
                    elif v.get("sched") and v["kind"] in ("assert", "panic", "deadlock"):
                        o = {"status": "schedule", "msg": "found under a schedule of the encoded executor; the compiled code did not take that schedule in the replays: " + o["status"]}
                        viols.append((v, o))
                    else:
                        problems.append(f"{r['harness']}: counterexample not reproduced by the compiled code ({v['kind']}: {v['msg']}; native {o['status']} {o.get('msg', '')}) inputs={v['inputs']}")
            # cross-validate the encoding on sample paths
            cases = [(r, s) for r in res for s in (r["samples"] or [])]
            if cases:
                outs = nat.run([{"harness": r["harness"], "inputs": s["inputs"]} for r, s in cases], tier, timeout=300)
                if len(outs) != len(cases):
                    outs = [nat.run([{"harness": r["harness"], "inputs": s["inputs"]}], tier, timeout=30)[0] for r, s in cases]
                for (r, s), o in zip(cases, outs):
                    if o["status"] == "pass":
                        if not s.get("env") and not s.get("sched") and (s.get("obs") or []) != (o.get("obs") or []):
                            problems.append(f"{r['harness']}: encoding and compiled code differ on {s['inputs']}: {s.get('obs')} vs {o.get('obs')}")
                        else:
                            nval += 1
                    elif o["status"] in BAD:
                        viols.append(({"harness": r["harness"], "kind": o["status"], "msg": o["msg"].split("\n")[0], "inputs": s["inputs"]}, o))
                    else:
                        problems.append(f"{r['harness']}: sample replay {o['status']} {o['msg']} on {s['inputs']}")
                for r, s in cases[:6]:
                    samples_out.append({"harness": r["harness"], "inputs": s["inputs"], "observed": s.get("obs")})
            for k in kn:
                o = nat.run([{"harness": k, "inputs": []}], tier, repeat=200, timeout=60)[0]
                txt = dict(known).get(k)
                if o["status"] in BAD:
                    if txt:
                        lines.append(f"KNOWN-FINDING: property={pid} {k}: {txt}")
                    else:
                        viols.append(({"harness": k, "kind": o["status"], "msg": o["msg"], "inputs": []}, o))
        # verdict
        os.makedirs(VERIF + "/replays", exist_ok=True)
        for f in glob.glob(f"{VERIF}/replays/{pid}-*.json"):
            os.unlink(f)
        for i, (v, o) in enumerate(viols[:8]):
            f = f"{VERIF}/replays/{pid}-{i}.json"
            json.dump({"property": pid, "tier": tier, "harness": v["harness"], "kind": v["kind"], "message": v["msg"], "inputs": v["inputs"],
                       "native": {k: o.get(k) for k in ("status", "msg", "stack")}}, open(f, "w"), indent=1)
            lines.append(f"VIOLATION property={pid} replay={f} # {v['harness']}: {v['kind']}: {str(v['msg'])[:200]}".replace("\n", " "))
        if viols:
            rc = 1
        reduced = []
        for r in results:
            for m, n in (r["inconclusive"] or {}).items():
                reduced.append(f"{r['harness']}: {n} path(s) not decided: {m}")
            if r["unreached"] and not r["violations"]:
                reduced.append(f"{r['harness']}: not reached: {', '.join(r['unreached'])}")
        if problems and not viols:
            rc = 2
        if not viols and not any(r["paths"] > 0 for r in results) and total:
            rc = 2
        funcs = sorted({f for r in results for f in (r["functions"] or [])})
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": sum(r["paths"] for r in results),
                "transitions": sum(r["instructions"] for r in results),
                "traces_validated_against_impl": nval,
                "samples": samples_out or [{"note": "no path sampled"}],
                "rule": "states: feasible symbolic paths explored to the end (each stands for all inputs satisfying its path condition); transitions: SSA instructions executed symbolically; traces_validated: models of explored paths replayed on the compiled code with equal observations",
                "assertions": sum(r["assertions"] for r in results),
                "assertions_decided_by_simplification": sum(r["assertions_simplified"] for r in results),
                "queries": sum(r["queries"] for r in results), "sat": sum(r["sat"] for r in results), "unsat": sum(r["unsat"] for r in results),
                "solver_s": round(sum(r["solver_s"] for r in results), 2), "solver": "z3 4.8.12 QF_BV incremental",
                "functions_encoded": funcs, "functions_encoded_total": max([r["functions_total"] for r in results] or [0]),
                "harnesses": [{"name": r["harness"], "bounds": r["doc"], "paths": r["paths"], "assertions": r["assertions"], "queries": r["queries"], "complete": r["complete"],
                               "reached": r["reached"], "aborted": r["aborted"]} for r in results],
                "exhaustive": not reduced and not problems and not viols,
                "reduced_bound": reduced, "problems": problems, "known_findings": [l for l in lines if l.startswith("KNOWN")],
            },
            "assumptions": ["the bounds in coverage.harnesses; the engine's models of the Go standard library and scheduler (DESIGN.md)"],
            "wall_s": round(time.time() - t0, 2), "violations": len(viols),
        }
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
        for l in lines:
            print(l)
        for l in reduced:
            print("REDUCED-BOUND", l)
        for l in problems:
            print("PROBLEM", l)
        print(f"{pid} {tier}: {'VIOLATED' if viols else 'inconclusive' if rc else 'held'}; paths={ev['coverage']['states']} assertions={ev['coverage']['assertions']} queries={ev['coverage']['queries']} "
              f"solver={ev['coverage']['solver_s']}s validated={nval} wall={ev['wall_s']}s")
        return rc
    finally:
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(work, ignore_errors=True)


def replay(f):
    r = json.load(open(f))
    for p in packages():
        if r["harness"] in harnesses(p):
            work = tempfile.mkdtemp(prefix="vprep")
            try:
                o = Native(p, work).run([{"harness": r["harness"], "inputs": r["inputs"]}], r["tier"], race=r["kind"] == "race", repeat=200 if r["kind"] == "race" else 1)
                print(json.dumps(o, indent=1))
                return 1 if o[0]["status"] in BAD else 0
            finally:
                shutil.rmtree(work, ignore_errors=True)
    return 2


def main():
    a = sys.argv[1:]
    if not a or a[0] == "--list":
        for p in packages():
            print(p, *harnesses(p))
        return 0
    if a[0] == "--setup":
        build_engine()
        return 0
    if a[0] == "--replay":
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return run_check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
