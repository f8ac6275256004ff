#!/usr/bin/env python3
"""C35: runs the workloads of miri/ under Miri and under AddressSanitizer, reads
their verdicts, writes evidence/C35.json. See DESIGN.md."""
import json, os, re, subprocess, sys, time, signal
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, "miri")
T = os.path.join(D, "target")
ID = "C35"
RULE = "one workload case run to its end under an undefined-behaviour monitor (distinct by monitor, seed and case number)"

def opt(k, d=None):
    a = sys.argv
    return a[a.index(k) + 1] if k in a and a.index(k) + 1 < len(a) else d
TIER = opt("--tier") or os.environ.get("VERIF_TIER") or "quick"
SEED = int(opt("--seed") or os.environ.get("VERIF_SEED") or 1)

env = dict(os.environ)
for k in ("RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "RUSTFLAGS"):
    env.pop(k, None)
VENDOR = ["--config", 'source.crates-io.replace-with="v"', "--config", 'source.v.directory="%s/vendor"' % T]
HOST = "x86_64-unknown-linux-gnu"

def fail(msg):
    print("CHECK-ERROR property=%s: %s" % (ID, msg), file=sys.stderr)
    sys.exit(2)

def build():
    v = os.path.join(T, "vendor")
    if not os.path.isdir(v) or len(os.listdir(v)) < 20:
        subprocess.run(["bash", os.path.join(D, "vendor.sh"), os.path.join(D, "Cargo.lock"), v], check=True)
    base = ["cargo", "+nightly"]
    def go(args, extra=None):
        e = dict(env); e.update(extra or {})
        return subprocess.Popen(base + args, cwd=D, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ps = [
        go(["build", "--offline", *VENDOR, "--target-dir", T + "/plain"]),
        go(["build", "--offline", *VENDOR, "--target-dir", T + "/asan", "--target", HOST], {"RUSTFLAGS": "-Zsanitizer=address -Cforce-frame-pointers=yes"}),
        # a run of no cases builds everything Miri needs
        go(["miri", "run", "--offline", *VENDOR, "--target-dir", T + "/miri", "--", "1", "0", "0", "8", "v"], {"MIRIFLAGS": "-Zmiri-disable-isolation"}),
    ]
    for p in ps:
        out = p.communicate()[0]
        if p.returncode != 0:
            sys.stderr.write(out[-4000:])
            fail("the workload does not build")

def start(job):
    e = dict(env)
    if job["mon"] == "miri":
        e["MIRIFLAGS"] = job["flags"]
        e["RGUB_BUDGET"] = str(job["budget"])
        cmd = ["cargo", "+nightly", "miri", "run", "--quiet", "--offline", *VENDOR, "--target-dir", T + "/miri", "--"]
    else:
        e["RGUB_BUDGET"] = str(job["budget"])
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1:strict_init_order=1:allocator_may_return_null=1"
        cmd = [T + "/asan/" + HOST + "/debug/rgub"]
    cmd += job["args"]
    out = open(job["out"], "w"); err = open(job["err"], "w")
    return subprocess.Popen(cmd, cwd=D, env=e, stdout=out, stderr=err, start_new_session=True)

def judge(job, rc, timed_out):
    """(violation message or None, problem or None)"""
    out = open(job["out"], errors="replace").read(); err = open(job["err"], errors="replace").read()
    cases = re.findall(r"^case (\d+) mode (\w)", err, re.M)
    job["done"] = max(len(cases) - 1, 0)
    job["modes"] = {}
    for _, m in cases[:-1]:
        job["modes"][m] = job["modes"].get(m, 0) + 1
    job["n"] = {k: int(v) for v, k in re.findall(r"^N (\d+) (.*)$", out, re.M)}
    last = cases[-1][0] if cases else "none"
    job["last"] = last
    if timed_out:
        return None, None
    if rc == 0:
        return (None, None) if "DONE" in out else (None, "no summary from " + str(job["args"]))
    b = re.search(r"^BAD case.*$", out, re.M)
    if b:
        return b.group(0), None
    if job["mon"] == "miri":
        m = re.search(r"^error: (.*?)$", err, re.M)
        tail = err[m.start():][:3000] if m else err[-3000:]
        if "unsupported operation" in tail.split("\n")[0]:
            return None, tail
        if "Undefined Behavior" in tail or "data race" in tail.lower() or "memory leaked" in tail or "deadlock" in tail:
            return "Miri, in case %s: %s" % (last, tail), None
        return None, "Miri ended with %s: %s" % (rc, tail)
    m = re.search(r"(==\d+==ERROR: AddressSanitizer.*)", err, re.S)
    if m:
        return "AddressSanitizer, in case %s: %s" % (last, m.group(1)[:3000]), None
    if rc < 0 or rc in (132, 134, 135, 136, 139):
        return "the process died with status %s in case %s: %s" % (rc, last, err[-1500:]), None
    return None, "the sanitized process ended with %s: %s" % (rc, err[-1500:])

def run(jobs, limit, width=8):
    todo, live, viols, probs = list(jobs), [], [], []
    while todo or live:
        while todo and len(live) < width:
            j = todo.pop(0)
            live.append((j, start(j), time.time()))
        time.sleep(0.2)
        for t in list(live):
            j, p, t0 = t
            rc = p.poll(); late = time.time() - t0 > limit + j["budget"]
            if rc is None and not late:
                continue
            if rc is None:
                os.killpg(p.pid, signal.SIGKILL); p.wait()
            live.remove(t)
            v, pr = judge(j, rc, rc is None)
            if v: viols.append((j, v))
            if pr: probs.append(pr)
    return viols, probs

def main():
    t0 = time.time()
    build()
    scratch = os.path.join(T, "run"); os.makedirs(scratch, exist_ok=True)
    rp = opt("--replay")
    if rp:
        j = json.loads(open(rp).read().split("\n---\n")[0])
        plans(j["plan_seed"], scratch)
        j.update(out=scratch + "/replay.out", err=scratch + "/replay.err", budget=3600)
        v, pr = run([j], 3600)
        print(v[0][1] if v else ("replay: held " + str(pr or "")))
        sys.exit(1 if v else 0)
    quick = TIER != "thorough"
    f = plans(SEED, scratch)
    jobs = []
    for k in range(8 if quick else 16):
        flags = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed=%d" % (SEED * 100 + k)
        if k % 4 == 1: flags += " -Zmiri-preemption-rate=0.2"
        if k % 4 == 2: flags += " -Zmiri-tree-borrows"
        if k % 4 == 3: flags += " -Zmiri-symbolic-alignment-check"
        # the cheap modes are repeated: they are the ones about references and drops
        jobs.append({"mon": "miri", "flags": flags, "budget": 100 if quick else 300,
                     "args": [str(SEED), str(k * 100000), "100000", "8", ["svruiptd", "trvidr", "iuvsprpd", "vrstdui"][k % 4], f]})
    for k in range(8 if quick else 16):
        jobs.append({"mon": "asan", "budget": 25 if quick else 90,
                     "args": [str(SEED), str(900000 + k * 1000000), "1000000", str([6, 10, 16, 25, 40, 60, 90, 150][k % 8]), "svuiptdr"]})
    for i, j in enumerate(jobs):
        j.update(plan_seed=SEED, out="%s/%d.out" % (scratch, i), err="%s/%d.err" % (scratch, i))
    viols, probs = run(jobs, 120)
    obs, cases = {}, {}
    for j in jobs:
        cases[j["mon"]] = cases.get(j["mon"], 0) + j.get("done", 0)
        for k, v in j.get("n", {}).items():
            if k != "cases": obs[j["mon"] + " " + k] = obs.get(j["mon"] + " " + k, 0) + v
        for k, v in j.get("modes", {}).items():
            obs["%s finished mode %s" % (j["mon"], k)] = obs.get("%s finished mode %s" % (j["mon"], k), 0) + v
    known = []
    try:
        for l in open(os.path.join(V, "known_findings.txt")):
            m = re.match(r"known: property=C35 key=(\S+)\s*(.*)", l.strip())
            if m: known.append((m.group(1), m.group(2)))
    except OSError:
        pass
    for k, d in known:
        print("KNOWN-FINDING: property=C35 [%s] %s" % (k, d))
    viols = [(j, v) for j, v in viols if not any(k in v for k, _ in known)]
    total = sum(cases.values())
    comparisons = sum(v for k, v in obs.items() if k.endswith(" comparisons"))
    ev = {"property": ID, "tier": "quick" if quick else "thorough", "seed": SEED, "level": "exploration",
          "coverage": {"evaluations": max(total, 1), "distinct_nontrivial": total, "rule": RULE,
                       "samples": ["%s %s finished %d cases, last %s" % (j["mon"], " ".join([j.get("flags", "")] + j["args"][:5]), j.get("done", 0), j.get("last")) for j in jobs][:16],
                       "cases": cases, "comparisons": comparisons, "observed": obs},
          "assumptions": ["Miri interprets the default and tree borrow models of this nightly; AddressSanitizer covers rgeometry and its dependencies, not the prebuilt standard library.",
                          "rug (a binding to a C library) is not part of these workloads."],
          "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence/C35.json"), "w"))
    if viols:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        for i, (j, v) in enumerate(viols[:3]):
            path = os.path.join(V, "replays", "C35-%s-%d-%s.txt" % (j["mon"], SEED, j["last"]))
            a = list(j["args"]); m = re.search(r"case (\d+)", v)
            if m: a[1], a[2] = m.group(1), "1"
            # the mode is chosen by the case number, so the mode string stays
            r = {k: j[k] for k in ("mon", "flags", "plan_seed") if k in j}
            r["args"] = a
            open(path, "w").write(json.dumps(r) + "\n---\n" + v + "\n")
            print("VIOLATION property=C35 replay=%s" % path)
            print("  " + v[:1500])
        sys.exit(1)
    if probs:
        fail(probs[0])
    for mon in ("miri", "asan"):
        for m in "svuiptdr":
            if not obs.get("%s finished mode %s" % (mon, m)):
                fail("mode %s was never finished under %s" % (m, mon))
    print("held: property=C35 tier=%s seed=%d evaluations=%d (%s) wall=%.1fs" % (ev["tier"], SEED, total, cases, time.time() - t0))

def plans(seed, scratch):
    f = "%s/plans.%d" % (scratch, seed)
    with open(f, "w") as o:
        subprocess.run([T + "/plain/debug/rgub", str(seed), "0", "400", "8", "P"], stdout=o, check=True)
    return f
main()
