#!/usr/bin/env python3
"""Self-test of the engine's scheduler: the outcomes of small concurrent programs against the expected sets (OUTCOMES, made
by exploring without sleep sets where that finishes).  Not a check of /repo."""
import json, os, re, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.path.insert(0, V)
import check
OUTCOMES = {
    "H_L_buf": "123 132 213 231 312 321", "H_L_lost": "1 2 5 7", "H_L_nonblock": "120 121 210 211 220 221",
    "H_L_once": "1557 1575 1755 2557 2575 2755 7155 7255", "H_L_pipeline": "2468 2486 2648 4268 4286 4826", "H_L_recv": "12 21",
    "H_L_rw": " ".join(str(10 * a + b) for a in (0, 1, 2, 4, 5, 8) for b in (0, 1, 2, 4, 5, 8)),
    "H_L_sb": "1 11 12 13 2 21 23 3 31 32 33", "H_L_try": "11 12 13 21 22 23 33",
    "H_L_syncmap": "123023 123024 124024 13113 13114 13134 14114 14134 143023 143024",
    "H_L_dead": "1 deadlock", "H_L_panics": "1 panic",
    "H_L_dirs": "0 1 2 3 5 7 9 11 13 15",
    "H_L_rename": "1 2 11 12 21 22 111 112 122 211 221 222",
    "H_L_select": "1234 1239 1293 1324 1329 1342 1345 1349 1392 1394 1923 1932 1934 3124 3129 3142 3145 3149 3192 3194 3412 3415 3419 3451",
    "H_L_torn": "13 14 23 24 113 114 123 124 1113 1114 1123 1124 1213 1214 1223 1224 11313 11314 11324 11413 11414 12323 12324 12413 12423 12424 218324 218413",
}
src = V + "/tools/litmus/l.go"
with tempfile.TemporaryDirectory() as d:
    rep = {f"{check.REPO}/zzverif/lit/l.go": src}
    for f in check.harness_files("vp"):
        rep[f"{check.REPO}/zzverif/vp/{os.path.basename(f)}"] = f
    json.dump({"Replace": rep}, open(d + "/ov.json", "w"))
    hs = re.findall(r"^func (H_L_\w+)", open(src).read(), re.M)
    subprocess.run([check.build_engine(), "-dir", check.REPO, "-overlay", d + "/ov.json", "-pkg", check.MOD + "/zzverif/lit", "-harness",
                    ",".join(hs), "-out", d + "/r.json", "-samples", "1000000", "-timeout", "300"], check=True, stdout=subprocess.DEVNULL)
    bad = 0
    for r in json.load(open(d + "/r.json")):
        got = {s["obs"][0].split("=")[1] for s in r["samples"] or []} | {v["kind"] for v in r["violations"] or []}
        want = OUTCOMES.get(r["harness"])
        ok = want is not None and got == set(want.split())
        bad += not ok
        print(r["harness"], "ok" if ok else f"BAD: {sorted(got)}", len(got), "outcomes")
sys.exit(bad)
