#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current working tree.

1. builds gvc (the deductive verifier in /verif/gvc) and runs it on the contracts of the property: every obligation is
   regenerated from /repo's current source;
2. builds and runs the replay harness (the contracts as executable oracles, in-package through 'go test -overlay'), fed
   with the literals of the code and the verifier's counterexample values.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(os.environ)
ENV.setdefault("HOME", "/root")
ENV.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="0", GONOSUMDB="*", GONOSUMCHECK="1",
           GOFLAGS_EXTRA="")
ENV.setdefault("GOMODCACHE", "/root/go/pkg/mod")
ENV.setdefault("GOCACHE", "/root/.cache/go-build")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build_gvc(tmp):
    out = os.path.join(tmp, "gvc")
    r = sh(["go", "build", "-o", out, "."], cwd=os.path.join(VERIF, "gvc"), env=ENV)
    if r.returncode != 0:
        print(r.stdout)
        return None
    return out


def run_harness(prop, tmp, hints, tier, seed):
    """returns (status, output, count, samples): status ok | fail | unavailable | none"""
    hdir = os.path.join(VERIF, "harness", prop)
    if not os.path.isdir(hdir):
        return "none", "", 0, []
    helper = open(os.path.join(VERIF, "harness", "helper.go.txt")).read()
    pk = {}
    for f in sorted(os.listdir(hdir)):
        if not f.endswith(".go"):
            continue
        src = open(os.path.join(hdir, f)).read()
        d = re.search(r"^// ?overlay: (\S+)", src, re.M).group(1)
        pkg = re.search(r"^package (\w+)", src, re.M).group(1)
        pk.setdefault(d, (pkg, []))[1].append(os.path.join(hdir, f))
    status, outs, count, samples = "ok", [], 0, []
    t_all = {"quick": 150, "thorough": 1500}[tier]
    for d, (pkg, files) in pk.items():
        ov = {}
        rd = os.path.join(REPO, d)
        if not os.path.isdir(rd):
            status = "unavailable" if status == "ok" else status
            outs.append(f"{d}: package directory is gone")
            continue
        for f in os.listdir(rd):
            if f.endswith("_test.go"):
                ov[os.path.join(rd, f)] = ""
        hf = os.path.join(tmp, "helper_" + d.replace("/", "_") + "_test.go")
        open(hf, "w").write(f"package {pkg}\n\n{helper}")
        ov[os.path.join(rd, "zz_vfhelper_test.go")] = hf
        for i, f in enumerate(files):
            ov[os.path.join(rd, f"zz_vf{i}_test.go")] = f
        oj = os.path.join(tmp, "ov_" + d.replace("/", "_") + ".json")
        json.dump({"Replace": ov}, open(oj, "w"))
        exe = os.path.join(tmp, "h_" + d.replace("/", "_"))
        r = sh(["go", "test", "-c", "-vet=off", "-overlay", oj, "-o", exe, "./" + d], cwd=REPO, env=ENV)
        if r.returncode != 0 or not os.path.exists(exe):
            outs.append(f"{d}: the replay harness does not build against this tree\n" + r.stdout[-3000:])
            status = "unavailable" if status == "ok" else status
            continue
        env = dict(ENV, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_HINT_INTS=",".join(hints[0]),
                   VERIF_HINT_STRS=",".join(hints[1]), GOMEMLIMIT="6GiB")
        wd = os.path.join(tmp, "wd_" + d.replace("/", "_"))
        os.makedirs(wd, exist_ok=True)
        try:
            r = sh(["bash", "-c", "ulimit -v 16000000; exec \"$@\"", "x", exe, "-test.v", f"-test.timeout={t_all}s", "-test.run", "^TestVerif"],
                   cwd=wd, env=env, timeout=t_all + 60)
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            rc, out = 2, "harness timeout"
        for m in re.finditer(r"^VF-COUNT (\d+)", out, re.M):
            count += int(m.group(1))
        samples += re.findall(r"^VF-SAMPLE (.*)$", out, re.M)[:5]
        if rc != 0:
            status = "fail"
            key = re.findall(r"^(?:VF-FAIL|panic:|fatal error:|--- FAIL).*$", out, re.M)[:20]
            outs.append(f"{d}: exit {rc}\n" + "\n".join(key) + "\n----\n" + out[-12000:])
    return status, "\n".join(outs), count, samples


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vcheck-" + prop + "-")
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    rdir = os.path.join(evdir, "replay")
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, prop + ".txt")
    if os.path.exists(replay):
        os.remove(replay)
    try:
        gvc = build_gvc(tmp)
        if gvc is None:
            print("the verifier does not build")
            return 2
        rj = os.path.join(tmp, "report.json")
        to = {"quick": "30", "thorough": "120"}[tier]
        cmd = [gvc, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-property", prop, "-t", to, "-out", rj]
        if tier == "thorough":
            cmd += ["-cross", "5"]  # a second solver redoes each proof
        lim = {"quick": 560, "thorough": 3600}[tier]
        has = os.path.exists(os.path.join(VERIF, "contracts", prop, "PACKAGES"))
        rep, gout, grc = {}, "", 0
        if has:
            try:
                r = sh(cmd, env=ENV, timeout=lim)
                grc, gout = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                grc, gout = 4, "verifier: time limit reached"
            if os.path.exists(rj):
                rep = json.load(open(rj))
        print(gout[-4000:])
        hints = (rep.get("hint_ints") or [], rep.get("hint_strs") or [])
        hst, hout, hcount, samples = run_harness(prop, tmp, hints, tier, seed)
        print(f"{prop}: replay harness: {hst}, {hcount} cases")
        failed = rep.get("failed") or []
        proof_ok = (not has) or (grc == 0 and rep and not failed)
        # known findings
        known = []
        kf = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
        if os.path.exists(kf):
            for l in open(kf):
                m = re.match(r"finding: property=(\S+) obligation=(\S+) (.*)", l.strip())
                if m and m.group(1) == prop:
                    known.append((m.group(2), m.group(3)))
        kn = {k for k, _ in known}
        unknown_failed = [f for f in failed if f["name"] not in kn]
        for k, what in known:
            print(f"KNOWN-FINDING: property={prop} {what} ({k})")
        proof_ok = (not has) or (grc in (0, 1) and bool(rep) and not unknown_failed)
        level = "proof" if has else "exploration"
        cov = {}
        if has:
            cov.update({
                "obligations": rep.get("obligations", 0), "discharged": rep.get("discharged", 0),
                "checker_cmd": " ".join(["gvc"] + cmd[1:]),
                "trusted_base": ["gvc (the verification-condition generator in /verif/gvc, over golang.org/x/tools/go/ssa)",
                                 "SMT solvers z3-new, z3 4.8.12, cvc5 1.1.2", "go compiler and runtime"]
                + ["axiom " + a for a in rep.get("axioms") or []],
                "functions_under_contract": rep.get("functions"), "functions_inlined": rep.get("inlined"),
                "lemmas": rep.get("lemmas"), "queries": rep.get("queries"), "queries_by_back_end": rep.get("by_backend"),
                "queries_confirmed_by_a_second_solver": rep.get("cross_confirmed"), "queries_undecided_by_it": rep.get("cross_undecided"),
                "solver_seconds": rep.get("solver_secs"), "named_obligations": rep.get("named"),
            })
        if hst != "none":
            cov["replay_harness"] = {"status": hst, "bounded_cases": hcount, "samples": samples,
                                     "note": "bounded: executes the real code on corner, literal-derived and seeded inputs against the contract's oracle; never counted as proved"}
            if not has:
                cov.update({"evaluations": hcount, "distinct_nontrivial": hcount, "rule": "see harness", "samples": samples})
        viol = 0 if (proof_ok and hst != "fail") else 1
        ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
              "assumptions": (rep.get("assumptions") or []) + open(os.path.join(VERIF, "contracts", "ASSUMPTIONS.txt")).read().strip().split("\n"),
              "wall_s": round(time.time() - t0, 2), "violations": viol}
        json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
        if viol == 0:
            return 0
        with open(replay, "w") as f:
            f.write(f"property {prop}\n")
            if hst == "fail":
                f.write("failing input against the real code (replay: VERIF_SEED=%s python3 %s/check.py %s %s)\n%s\n\n" % (seed, VERIF, prop, tier, hout))
            elif hst == "unavailable":
                f.write("replay harness unavailable:\n" + hout + "\n\n")
            for x in unknown_failed[:40]:
                f.write(f"FAILED OBLIGATION {x['name']} [{x['status']}] at {x['pos']}\n  {x['detail']}\n  goal {x['goal']}\n")
            if not rep:
                f.write("verifier output:\n" + gout + "\n")
            for x in unknown_failed[:3]:
                f.write("\n--- query of " + x["name"] + " (SMT-LIB; sat or unknown)\n" + x["query"][:200000] + "\n")
        for x in unknown_failed[:20]:
            print(f"failed obligation {x['name']} [{x['status']}] {x['pos']}")
        if hst == "fail":
            print("\n".join(l for l in hout.split("\n") if l.startswith(("VF-FAIL", "panic:", "fatal error:")))[:3000])
            print(f"VIOLATION property={prop} replay={replay}")
        else:
            print(f"VIOLATION property={prop} replay={replay} no-failing-input-found")
        return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
