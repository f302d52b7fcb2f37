#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--repo DIR] [--replay FILE]

Builds the explorers of one property from the current working tree of the repository, runs them, and
writes evidence/<property>.json.  Exit 0: held on everything explored.  Exit 1 with
`VIOLATION property=<id> replay=<path>`: broken.  Exit 2: the check itself could not run.
"""
import argparse, concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from spec import CHECKS, BASE

CORES = os.cpu_count() or 8
ENV = dict(os.environ, LC_ALL="C.UTF-8", ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=77",
           UBSAN_OPTIONS="print_stacktrace=0:exitcode=78")
for v in ("CXXFLAGS", "CFLAGS", "CPPFLAGS", "LDFLAGS", "CPATH", "CPLUS_INCLUDE_PATH"):
    ENV.pop(v, None)


def known_findings(pid):
    known = {}
    path = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k["property"] == pid and k["status"] == "known":
                    for key in k["keys"]:
                        known[key] = (k["what"], k.get("detail", ""))
    return known


class CheckError(Exception):
    pass


def sh(cmd, timeout=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=ENV)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf-8", "replace"), (e.stderr or b"").decode("utf-8", "replace")


def parse(out):
    r = dict(counts={}, samples=[], fails={}, failcount={}, digests={}, done=False, crashed=False)
    for line in out.splitlines():
        f = line.split("\t")
        if f[0] == "FAIL" and len(f) >= 3:
            r["fails"].setdefault(f[1], []).append(f[2])
        elif f[0] == "FAILCOUNT" and len(f) >= 3:
            r["failcount"][f[1]] = int(f[2])
            r["fails"].setdefault(f[1], [])
        elif line.startswith("COUNT "):
            _, k, n = line.split()
            r["counts"][k] = r["counts"].get(k, 0) + int(n)
        elif f[0] == "DIGEST" and len(f) >= 3:
            r["digests"][f[1]] = f[2]
        elif line.startswith("SAMPLE "):
            r["samples"].append(line[7:])
        elif line == "DONE":
            r["done"] = True
        elif line == "CRASHED":
            r["crashed"] = True
    return r


def compile_part(part, repo, tmp, idx):
    out = os.path.join(tmp, "p%d" % idx)
    rc, se = 1, ""
    for cxx in ([part.cxx] if part.cxx == "g++" else [part.cxx, "g++"]):   # the library's own build uses g++: that one decides
        cmd = part.cmd(repo, HERE, out, cxx)
        rc, so, se = sh(cmd, timeout=600)
        if rc != 0 and (rc == "timeout" or rc < 0 or any(w in se for w in ("internal compiler error", "Killed", "fatal error: error writing", "No space left"))):
            rc, so, se = sh(cmd, timeout=600)      # resource trouble: once more
            if rc != 0 and "error:" not in se.replace("internal compiler error:", ""):
                raise CheckError("cannot compile %s: %s" % (part.name, se[-2000:]))
        if rc == 0:
            break
    return rc, se, out


def header_compiles(repo, tmp):
    src = os.path.join(tmp, "trivial.cpp")
    with open(src, "w") as f:
        f.write('#include "dsga.hxx"\nint main() { return 0; }\n')
    return sh(["g++", "-std=c++20", "-w", "-I" + repo + "/include", src, "-o", src + ".out"])[0] == 0


def run_part(part, exe, tier, limit):
    """-> (result, findings {key: [details]}); a failing run is repeated before it is believed"""
    args = [exe] + (["thorough"] if tier == "thorough" else [])
    def once(lim):
        rc, so, se = sh(args, timeout=lim)
        r = parse(so)
        f = dict(r["fails"])
        if rc == "timeout":
            f["timeout"] = ["no end within %d s" % lim]
        elif "AddressSanitizer" in se or "runtime error:" in se:
            bad = [l for l in se.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error:" in l]
            f["sanitizer"] = [bad[0].strip() if bad else se[-500:]]
        elif not r["done"] and not r["crashed"]:
            if rc == -9:
                raise CheckError("%s was killed" % part.name)
            f["crash"] = ["ended with status %s: %s" % (rc, se[-500:])]
        elif r["crashed"] and not f:
            f["crash"] = ["crashed"]
        return r, f
    r, f = once(limit)
    if not f:
        return r, f
    r2, f2 = once(limit * 2 if "timeout" in f else limit)
    both = {k: v for k, v in f2.items() if k in f}
    if not both and (f or f2):
        raise CheckError("%s: two runs disagree: %s / %s" % (part.name, sorted(f), sorted(f2)))
    return r2, both


def compare_digests(results):
    """parts of one group explored the same executions in different configurations -> [(part, key, detail)] of those that disagree with the majority"""
    out, groups = [], {}
    for part, r in results:
        if part.group and r.get("done"):
            groups.setdefault(part.group, []).append((part, r["digests"]))
    for members in groups.values():
        for key in sorted({k for _, d in members for k in d}):
            votes = {}
            for _, d in members:
                votes[d.get(key)] = votes.get(d.get(key), 0) + 1
            if len(votes) > 1:
                most = max(votes.values())
                usual = next(d.get(key) for _, d in members if votes[d.get(key)] == most)
                for part, d in members:
                    if d.get(key) != usual:
                        out.append((part, "differs from other configurations: " + key, "%s here, %s with %d of %d configurations" % (d.get(key, "not available"), usual or "not available", most, len(members))))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--repo", default=os.environ.get("DSGA_REPO", "/repo"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    pid = a.property
    spec = CHECKS[pid]
    t0 = time.time()
    parts = [p for p in spec["parts"] if a.tier in p.tiers]
    replay = None
    if a.replay:
        replay = json.load(open(a.replay))
        a.tier = replay["tier"]
        names = {f["part"] for f in replay["failures"]}
        groups = {p.group for p in spec["parts"] if p.name in names and p.group}
        parts = [p for p in spec["parts"] if p.name in names or (p.group in groups and a.tier in p.tiers)]
    tmp = tempfile.mkdtemp(prefix="mc_%s_" % pid)
    limit = 250 if a.tier == "quick" else 3600
    known = known_findings(pid)
    failures, results, seen_known = [], [], {}
    try:
        def job(ip):
            i, part = ip
            rc, se, exe = compile_part(part, a.repo, tmp, i)
            if rc != 0:
                if not header_compiles(a.repo, tmp):
                    raise CheckError("include/dsga.hxx does not compile")
                errs = [l for l in se.splitlines() if "error:" in l]
                return part, dict(counts={}, samples=[]), {"does not compile: " + part.name: errs[:5] or [se[-1000:]]}
            r, f = run_part(part, exe, a.tier, limit)
            return (part, r, f)
        with cf.ThreadPoolExecutor(CORES) as ex:
            for part, r, f in ex.map(job, enumerate(parts)):
                results.append((part, r))
                for key, det in sorted(f.items()):
                    if key in known and all(known[key][1] in d for d in det):
                        seen_known[key] = det
                    else:
                        failures.append(dict(part=part.name, key=key, details=det[:3], count=r.get("failcount", {}).get(key)))
        for part, key, det in compare_digests(results):
            if key in known and known[key][1] in det:
                seen_known[key] = [det]
            else:
                failures.append(dict(part=part.name, key=key, details=[det], count=None))
    except CheckError as e:
        print("check error: %s" % e)
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)

    counts, samples = {}, []
    for part, r in results:
        for k, n in r["counts"].items():
            counts[k] = counts.get(k, 0) + n
        for s in r["samples"][:6]:
            if len(samples) < 16:
                samples.append("%s: %s" % (part.name, s))
    wall = round(time.time() - t0, 2)
    if replay:
        want = {f["key"] for f in replay["failures"]}
        got = {f["key"] for f in failures}
        print("replay: %d of %d recorded failures occur again" % (len(want & got), len(want)))
        for f in failures:
            print("  %s | %s | %s" % (f["part"], f["key"], "; ".join(f["details"])))
        return 1 if want & got else 0

    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cov = dict(states=counts.pop("states", 0), transitions=counts.pop("transitions", 0),
               traces_validated_against_impl=counts.pop("traces", 0), samples=samples or ["(no execution completed)"],
               exhaustive=not failures, parts=[p.name for p, _ in results])
    cov.update(counts)
    ev = dict(property=pid, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking", coverage=cov,
              assumptions=BASE + list(spec.get("assume", ())), wall_s=wall, violations=len(failures))
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for what in sorted({known[k][0] for k in seen_known}):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    print("%s %s: states=%d transitions=%d traces=%d wall=%.1fs" % (pid, a.tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], wall))
    if failures:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", pid + ".json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=a.tier, failures=failures[:200],
                           how="python3 %s/check.py %s --replay %s" % (HERE, pid, path)), f, indent=1)
        for fl in failures[:12]:
            print("  %s | %s | %s" % (fl["part"], fl["key"], "; ".join(fl["details"][:2])[:600]))
        if len(failures) > 12:
            print("  ... %d more failing keys" % (len(failures) - 12))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
