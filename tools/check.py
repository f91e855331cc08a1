#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   build from /repo's working tree, run the property's tests, write evidence
   check.py --replay FILE               run one recorded failure again (exit 1 if it still fails)"""
import json, os, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild

VERIF = vbuild.VERIF
BUILD = vbuild.BUILD
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def env_cpp():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"
    e["OPENBLAS_NUM_THREADS"] = "1"
    return e


def env_py():
    e = dict(os.environ)
    e["PYTHONPATH"] = os.pathsep.join([f"{BUILD}/pkg", f"{VERIF}/pychecks"])
    e["VERIF_HYP"] = HYP
    e["LD_LIBRARY_PATH"] = f"{BUILD}/so"
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    return e


def known_findings(prop):
    """Lines of known_findings.txt:  known: property=<id> test=<test> key=<key> :: <what fails>"""
    res = []
    path = f"{VERIF}/known_findings.txt"
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                head, _, what = line[len("known: "):].partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split())
                if d["property"] == prop:
                    res.append((d["test"], d["key"], what.strip()))
    return res


def kinds(prop):
    spec = json.load(open(f"{VERIF}/tools/props.json"))
    return spec[prop]


def run_engine(cmd, env, out, timeout):
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if not os.path.exists(out) or os.path.getsize(out) == 0:
        sys.stderr.write(r.stdout[-4000:])
        raise SystemExit(f"check: {cmd[0]} gave no result (exit {r.returncode})")
    return json.load(open(out))


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = os.environ.get("VERIF_ONLY", "")
    spec = kinds(prop)
    t0 = time.time()
    known = known_findings(prop)
    tests = []
    tmp = tempfile.mkdtemp(prefix="vchk_")
    kf = f"{tmp}/known"
    open(kf, "w").write("".join(f"{prop}/{t}/{k}\n" for t, k, _ in known))
    budget = os.environ.get("VERIF_BUDGET", "45" if tier == "quick" else "1500")
    scale = os.environ.get("VERIF_SCALE", "1")
    if "cpp" in spec["engines"]:
        vbuild.build("cpp", prop)
        out = f"{tmp}/cpp.json"
        cmd = [f"{BUILD}/bin/{prop}", "--prop", prop, "--tier", tier, "--seed", str(seed), "--out", out,
               "--known", kf, "--budget", budget, "--scale", scale]
        if only:
            cmd += ["--only", only]
        tests += [dict(t, engine="cpp") for t in run_engine(cmd, env_cpp(), out, 7200)["tests"]]
    if "py" in spec["engines"]:
        vbuild.build("py")
        out = f"{tmp}/py.json"
        cmd = [vbuild.VENV_PY, f"{VERIF}/pychecks/engine.py", "--prop", prop, "--tier", tier, "--seed", str(seed),
               "--out", out, "--known", kf, "--budget", budget, "--scale", scale, "--modules", *spec["modules"]]
        if only:
            cmd += ["--only", only]
        tests += [dict(t, engine="py") for t in run_engine(cmd, env_py(), out, 7200)["tests"]]
    for f in os.listdir(tmp):
        os.unlink(f"{tmp}/{f}")
    os.rmdir(tmp)
    wall = time.time() - t0
    violations = []
    rdir = f"{BUILD}/replays"
    os.makedirs(rdir, exist_ok=True)
    for t in tests:
        f = t.get("failure")
        if f and f["reproduced"] == 3:
            path = f"{rdir}/{prop}_{t['name']}.json"
            rec = {"engine": t["engine"], "property": prop, "test": t["name"], "tier": tier, "seed": seed}
            rec.update(f)
            json.dump(rec, open(path, "w"), indent=1)
            violations.append((path, t["name"], f))
    samples = []
    for t in tests:
        for s in t["samples"][:3]:
            samples.append(f"{t['name']}: {s[:600]}")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": sum(t["cases"] for t in tests),
                       "distinct_nontrivial": sum(t["nontrivial"] for t in tests),
                       "rule": spec["rule"],
                       "samples": samples,
                       "per_test": {t["name"]: {k: t[k] for k in ("planned", "cases", "discarded", "nontrivial",
                                                                  "labels", "known", "wall_s") if k in t}
                                    for t in tests},
                       "unreproduced": [t["name"] for t in tests if t.get("failure") and t["failure"]["reproduced"] < 3]},
          "assumptions": spec.get("assumptions", []),
          "wall_s": round(wall, 2),
          "violations": len(violations)}
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
    for t in tests:
        print(f"{prop} {t['name']}: {t['cases']} cases, {t['nontrivial']} distinct non-trivial, {t['wall_s']:.1f} s"
              + (f", UNREPRODUCED {t['failure']['message'][:600]}" if t.get("failure") and t["failure"]["reproduced"] < 3 else ""))
    for tn, k, what in known:
        print(f"KNOWN-FINDING: property={prop} {what}")
    for path, name, f in violations:
        print(f"  {name} [{f['key']}]: {f['message'][:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
    return 1 if violations else 0


def replay(path):
    rec = json.load(open(path))
    if rec["engine"] == "cpp":
        vbuild.build("cpp", rec["property"])
        with tempfile.NamedTemporaryFile("w", delete=False) as f:
            f.write(f"{rec['property']} {rec['test']}\n" + "\n".join(map(str, rec["choices"])))
        r = subprocess.run([f"{BUILD}/bin/{rec['property']}", "--replay", f.name, "--tier", rec["tier"]], env=env_cpp())
        os.unlink(f.name)
        return r.returncode
    vbuild.build("py")
    spec = kinds(rec["property"])
    r = subprocess.run([vbuild.VENV_PY, f"{VERIF}/pychecks/engine.py", "--prop", rec["property"], "--replay", path,
                        "--modules", *spec["modules"]], env=env_py())
    return r.returncode


if __name__ == "__main__":
    sys.exit(main())
