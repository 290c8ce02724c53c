#!/usr/bin/env python3
"""check.py <property>  - decide one property by seeded simulation of the code in /repo's working tree.

VERIF_SEED (default 1) selects the batch, VERIF_TIER (quick|thorough) its size.
  exit 0  the property held in every simulated run
  exit 1  a line  VIOLATION property=<id> replay=<file>  for each class of violation found
  other   error of the machinery (build failure, a run that does not replay, ...)
check.py <property> --replay FILE   runs one replay file and prints its result.
"""
import json, os, re, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as builder  # noqa: E402

CFG = json.load(open(os.path.join(VERIF, "sim", "checks.json")))


def exec_file(exe, path, timeout=200, aslr=False, junk=None):
    env = dict(os.environ)
    if aslr:
        env["SIM_ASLR"] = "1"
    if junk:
        env["SIM_JUNK"] = junk
    r = subprocess.run([exe, "exec", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, env=env)
    lines = [l for l in r.stdout.decode(errors="replace").split("\n") if l.startswith("{")]
    return json.loads(lines[-1]) if lines else None


class Scn:
    def __init__(self, text):
        self.head, self.items, self.comments = [], [], []
        for l in text.split("\n"):
            if not l.strip():
                continue
            if l.startswith("#"):
                self.comments.append(l)
            elif l.startswith("item "):
                self.items.append(l)
            else:
                self.head.append(l)

    def text(self, items=None, head=None):
        return "\n".join((self.head if head is None else head) + (self.items if items is None else items)) + "\n"


def tmpfile(text):
    fd, p = tempfile.mkstemp(suffix=".scn", prefix="verif-")
    os.write(fd, text.encode())
    os.close(fd)
    return p


def try_scn(exe, text, cls):
    p = tmpfile(text)
    try:
        r = exec_file(exe, p)
    except subprocess.TimeoutExpired:
        r = None
    finally:
        os.unlink(p)
    return r if r and r["viol"] and r["cls"] == cls else None


def minimise(exe, text, cls, budget):
    """ddmin over the item list, then halving of the numeric parameters listed as shrinkable."""
    t_end = time.time() + budget
    s = Scn(text)
    items = list(s.items)
    tried = 0
    if items and try_scn(exe, s.text([]), cls):
        items = []
    n = 2
    while len(items) >= 1 and time.time() < t_end:
        size = max(1, len(items) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        hit = False
        for i in range(len(chunks)):
            if time.time() > t_end:
                break
            cand = [x for j, c in enumerate(chunks) if j != i for x in c]
            tried += 1
            if try_scn(exe, s.text(cand), cls):
                items, hit = cand, True
                n = max(2, n - 1)
                break
        if not hit:
            if size == 1:
                break
            n = min(len(items), n * 2)
    head = list(s.head)
    for i, l in enumerate(head):
        m = re.match(r"param (duration|rounds|nthreads|nops|worlds) ([0-9.]+)$", l)
        if not m:
            continue
        v = float(m.group(2))
        while time.time() < t_end:
            nv = round(v * 0.7, 1) if m.group(1) == "duration" else int(v * 0.7)
            if nv < (1.0 if m.group(1) == "duration" else 1) or nv == v:
                break
            cand = list(head)
            cand[i] = "param %s %s" % (m.group(1), nv)
            tried += 1
            if not try_scn(exe, s.text(items, cand), cls):
                break
            head, v = cand, nv
    return s.text(items, head), tried, len(s.items), len(items)


def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def is_known(known, rec):
    for k in known:
        if re.fullmatch(k["cls"], rec["cls"]) and re.search(k.get("msg", ""), rec["msg"]):
            return k
    return None


def main():
    prop = sys.argv[1]
    cfg = CFG[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    exe = builder.build([cfg["harness"]])[cfg["harness"]]
    t_build = time.time() - t0
    if "--replay" in sys.argv:
        r = exec_file(exe, sys.argv[sys.argv.index("--replay") + 1])
        print(json.dumps(r, indent=1))
        return 1 if r and r["viol"] else 0
    lim = dict(cfg["quick"])
    if tier == "thorough":
        lim.update(cfg.get("thorough", {"runs": lim["runs"] * 20, "budget_s": 3000}))
    if "--runs" in sys.argv:
        lim["runs"] = int(sys.argv[sys.argv.index("--runs") + 1])
        lim["budget_s"] = 1e9
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
    recs, errors = [], []
    lock = threading.Lock()

    def worker(i):
        n = (lim["runs"] - i + jobs - 1) // jobs
        if n <= 0:
            return
        p = subprocess.Popen([exe, "batch", prop, str(seed), str(i), str(n), str(jobs), str(lim["budget_s"])],
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        for line in p.stdout:
            try:
                d = json.loads(line)
            except ValueError:
                with lock:
                    errors.append("bad line from harness: " + line[:200])
                continue
            with lock:
                recs.append(d)
        err = p.stderr.read()
        if p.wait() != 0:
            with lock:
                errors.append("harness exit %d: %s" % (p.returncode, err[-500:]))

    t1 = time.time()
    # directed scenarios kept in the framework: situations that matter and are rare, and regressions of repaired defects
    sdir = os.path.join(VERIF, "scenarios", prop)
    directed = sorted(os.path.join(sdir, f) for f in os.listdir(sdir)) if os.path.isdir(sdir) else []
    drecs = []
    for f in directed:
        try:
            r = exec_file(exe, f)
        except subprocess.TimeoutExpired:
            r = None
        if r is None:
            errors.append("no result for " + f)
            continue
        r["file"] = f
        drecs.append(r)
    th = [threading.Thread(target=worker, args=(i,)) for i in range(jobs)]
    [t.start() for t in th]
    [t.join() for t in th]
    t_run = time.time() - t1
    recs.sort(key=lambda r: r["seed"])
    if errors:
        sys.stderr.write("\n".join(errors[:5]) + "\n")
        return 2
    if not recs:
        sys.stderr.write("no runs\n")
        return 2

    # determinism: a sample of the seeds again, in fresh processes (one of them with other addresses), same hash required
    sample = recs[:: max(1, len(recs) // lim.get("determinism", 6))][: lim.get("determinism", 6)]
    det_fail, det_n = [], 0

    def gen_text(sd):
        return subprocess.run([exe, "gen", prop, str(sd)], stdout=subprocess.PIPE, text=True).stdout

    def redo(k_r):
        k, r = k_r
        p = tmpfile(gen_text(r["seed"]))
        try:
            return r, exec_file(exe, p, aslr=(k % 2 == 1))
        except subprocess.TimeoutExpired:
            return r, None
        finally:
            os.unlink(p)

    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(jobs) as ex:
        for r, q in ex.map(redo, enumerate(sample)):
            det_n += 1
            if q is None or q["hash"] != r["hash"] or q["viol"] != r["viol"]:
                det_fail.append(r["seed"])

    known = known_findings(prop)
    viol = [r for r in drecs + recs if r["viol"]]
    bycls, known_hit = {}, {}
    for r in viol:
        k = is_known(known, r)
        if k:
            known_hit.setdefault(k["id"], []).append(r)
        else:
            bycls.setdefault(r["cls"], []).append(r)

    reported, unconfirmed = [], []
    rdir = os.path.join(VERIF, "replays")
    for cls, rs in sorted(bycls.items(), key=lambda kv: -len(kv[1])):
        if len(reported) >= 2:
            break
        ok = None
        for r in rs[:6]:
            text = open(r["file"]).read() if "file" in r else gen_text(r["seed"])
            p = tmpfile(text)
            try:
                a, b = exec_file(exe, p), exec_file(exe, p)
            except subprocess.TimeoutExpired:
                a = b = None
            finally:
                os.unlink(p)
            if a and b and a["viol"] and a["cls"] == cls and b["cls"] == cls and a["hash"] == b["hash"] == r["hash"]:
                ok = (r, text, a)
                break
            unconfirmed.append((r["seed"], cls))
        if not ok:
            continue
        r, text, a = ok
        small, tried, n0, n1 = minimise(exe, text, cls, lim.get("minimise_s", 45 if not reported else 15))
        fin = try_scn(exe, small, cls)
        if not fin:
            small, fin = text, a
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%d.scn" % (prop, re.sub(r"[^A-Za-z0-9]+", "_", cls)[:50].strip("_"), r["seed"]))
        with open(path, "w") as fh:
            fh.write(small)
            fh.write("# violation class: %s\n# %s\n# hash %s\n" % (cls, fin["msg"], fin["hash"]))
            fh.write("# seen in %d of %d runs; minimised from %d to %d items in %d executions\n" % (len(rs), len(recs), n0, n1, tried))
            for l in fin.get("trace", [])[-400:]:
                fh.write("#   %s\n" % l)
        last = exec_file(exe, path)
        if not last or not last["viol"] or last["cls"] != cls or last["hash"] != fin["hash"]:
            unconfirmed.append((r["seed"], cls))
            continue
        reported.append({"cls": cls, "msg": fin["msg"], "seed": r["seed"], "runs": len(rs), "replay": path})

    # ---------------------------------------------------------------- evidence
    stats, maxima, states = {}, {}, set()
    for r in recs:
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r["max"].items():
            try:
                maxima[k] = max(maxima.get(k, -1e300), float(v))
            except (TypeError, ValueError):
                maxima[k] = str(v)
        states.update(r["states"])
    nontriv = {r["hash"] for r in recs if r["nontrivial"]}
    simt = sum(r["simtime"] for r in recs)
    samples = []
    for r in recs[:2]:
        samples.append({"seed": r["seed"], "scenario": gen_text(r["seed"]).strip().split("\n")[:60], "result_hash": r["hash"]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg["level"],
        "coverage": {
            "evaluations": len(recs) + len(drecs),
            "distinct_nontrivial": len(nontriv),
            "rule": cfg["rule"],
            "samples": samples,
            "seeds": {"first": recs[0]["seed"], "count": len(recs)},
            "directed_scenarios": [os.path.basename(f) for f in directed],
            "runs_per_hour": round(len(recs) / max(t_run, 1e-9) * 3600),
            "simulated_seconds": round(simt, 3),
            "faults_and_probes": {k: round(v, 3) for k, v in sorted(stats.items())},
            "largest_seen": {k: v for k, v in sorted(maxima.items())},
            "distinct_states": len(states),
            "distinct_states_measure": cfg.get("states", "distinct abstract states recorded by the harness"),
            "determinism_replays": det_n,
            "determinism_mismatches": len(det_fail),
            "components_real": cfg.get("real", ""),
            "components_stubbed": cfg.get("stub", ""),
            "build_s": round(t_build, 1),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": sum(len(v) for v in bycls.values()),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d.tmp" % (prop, os.getpid()))
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))

    for k in known:
        n = len(known_hit.get(k["id"], []))
        if n:
            print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, k["what"], n))
    print("%s %s: %d runs, %d distinct non-trivial, %.0f simulated s, %d states, build %.0fs run %.0fs" %
          (prop, tier, len(recs), len(nontriv), simt, len(states), t_build, t_run))
    for v in reported:
        print("  class %s (%d runs): %s" % (v["cls"], v["runs"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    if reported:
        return 1
    if bycls:
        sys.stderr.write("violations that did not replay: %s\n" % unconfirmed[:5])
        return 3
    if det_fail:
        sys.stderr.write("non-deterministic seeds: %s\n" % det_fail)
        return 4
    return 0


if __name__ == "__main__":
    sys.exit(main())
