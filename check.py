#!/usr/bin/env python3
"""Runs the check of one property: builds its harness from /repo's working tree, runs
it with several workers, confirms and shrinks failures, writes evidence/<id>.json.

  check.py ID                 the check (tier and seed from VERIF_TIER and VERIF_SEED)
  check.py ID --replay FILE   runs one saved case
  check.py --build            builds every harness
  check.py --list             the properties with a check
"""
import hashlib, itertools, json, os, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from common.build import BuildError  # noqa: E402
from common.registry import CHECKS  # noqa: E402

ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:exitcode=77:handle_abort=1:detect_stack_use_after_return=0:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=78", MALLOC_ARENA_MAX="2", TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="-1",
           TF_ENABLE_ONEDNN_OPTS="0", TF_USE_LEGACY_KERAS="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
OUT = os.path.join(HERE, "build", "run")
REPLAYS = os.path.join(HERE, "build", "replays")


def read_live(path):
    with open(path, "rb") as f:
        b = f.read()
    n = struct.unpack_from("<Q", b)[0]
    return list(struct.unpack_from("<%dQ" % n, b, 8))


def write_choices(path, choices, header=()):
    with open(path, "w") as f:
        for h in header:
            for line in str(h).split("\n"):
                f.write("# " + line + "\n")
        for c in choices:
            f.write("%d\n" % c)


def read_choices(path):
    return [int(x) for x in open(path).read().split("\n") if x and not x.startswith("#")]


class Runner:
    def __init__(self, chk, tier, seed):
        self.chk, self.tier, self.seed = chk, tier, seed
        self.cmd = chk.build()
        self.counter = itertools.count()
        os.makedirs(OUT, exist_ok=True)
        os.makedirs(REPLAYS, exist_ok=True)
        self.pre = os.path.join(OUT, "%s-%d" % (chk.id, os.getpid()))

    def args(self, *more):
        a = self.cmd + ["--prop", self.chk.prop] + list(more)
        return a + ["--thorough"] if self.tier == "thorough" else a

    def run(self, args, timeout):
        """-> (returncode or None when it did not end in time, output)"""
        try:
            p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ENV, cwd=HERE)
            return p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            return None, (e.stdout or b"").decode(errors="replace")

    def replay(self, choices, timeout=None):
        path = "%s.r%d" % (self.pre, next(self.counter))
        write_choices(path, choices)
        r = self.run(self.args("--replay", path), timeout or self.chk.case_limit)
        os.unlink(path)
        return r

    def worker(self, i, cases, secs):
        base = "%s.w%d" % (self.pre, i)
        for ext in (".live", ".json", ".out"):
            if os.path.exists(base + ext):
                os.unlink(base + ext)
        rc, out = self.run(self.args("--seed", str(self.seed * 1000 + i), "--cases", str(cases), "--secs", str(secs), "--live", base + ".live",
                                     "--stats", base + ".json", "--out", base + ".out"), secs + 60 + self.chk.case_limit)
        r = {"rc": rc, "log": out, "stats": None, "choices": None, "kind": None}
        if os.path.exists(base + ".json"):
            r["stats"] = json.load(open(base + ".json"))
        if rc == 0 and r["stats"]:
            r["kind"] = "ok"
        elif rc == 1 and os.path.exists(base + ".out"):
            r["kind"], r["choices"] = "fail", read_choices(base + ".out")
        elif rc == 3:
            r["kind"] = "error"
        else:
            r["kind"] = "hang" if rc is None else "crash"
            if os.path.exists(base + ".live"):
                r["choices"] = read_live(base + ".live")
        for ext in (".live", ".json", ".out"):
            if os.path.exists(base + ext):
                os.unlink(base + ext)
        return r

    @staticmethod
    def bad(rc):
        return rc != 0 and rc != 3

    def shrink_crash(self, choices, budget):
        """Deletes chunks and lowers values, several candidates at a time, in subprocesses."""
        end = time.time() + budget
        best = list(choices)

        def first_bad(cands):
            with ThreadPoolExecutor(8) as ex:
                for cand, (rc, _) in zip(cands, ex.map(lambda v: self.replay(v), cands)):
                    if self.bad(rc):
                        return cand
            return None
        progress = True
        while progress and time.time() < end:
            progress = False
            n = max(1, len(best) // 2)
            while n >= 1 and time.time() < end:
                at = 0
                while at < len(best) and time.time() < end:
                    offs = [at + k * n for k in range(8) if at + k * n < len(best)]
                    got = first_bad([best[:o] + best[o + n:] for o in offs])
                    if got is None:
                        at = offs[-1] + n
                    else:
                        best, progress = got, True
                n //= 2
            for at in range(len(best)):
                if time.time() > end or at >= len(best):
                    break
                if best[at]:
                    cands = [best[:at] + [v] + best[at + 1:] for v in sorted({0, 1, best[at] // 8, best[at] // 4, best[at] // 2, best[at] - 1}) if v < best[at]]
                    got = first_bad(cands)
                    if got is not None:
                        best, progress = got, True
        return best


def describe(log):
    case = [l for l in log.split("\n") if l.startswith("CASE ")]
    fail = [l for l in log.split("\n") if l.startswith("FAIL ")]
    if not fail:
        fail = [l for l in log.split("\n") if "ERROR: AddressSanitizer" in l or "runtime error" in l or "Assertion" in l or "CHECK" in l or "Error" in l or "Fatal" in l]
    if not fail:
        fail = [l for l in log.split("\n") if l.strip() and not l.startswith("CASE ")][-1:]
    return (case[0][5:] if case else "", fail[0] if fail else "")


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    chk = CHECKS[pid]
    try:
        r = Runner(chk, tier, seed)
    except BuildError as e:
        print("cannot build the harness of %s:\n%s" % (pid, e))
        return 2
    cases, secs = chk.quick if tier == "quick" else chk.thorough
    n = chk.workers
    t1 = time.time()
    with ThreadPoolExecutor(n) as ex:
        results = list(ex.map(lambda i: r.worker(i, (cases + n - 1) // n, secs), range(n)))
    evaluations = discards = nontrivial = 0
    labels, distinct, samples, violations, notes = {}, set(), [], [], []
    for i, w in enumerate(results):
        s = w["stats"]
        if s:
            evaluations += s["evaluations"]
            discards += s["discards"]
            nontrivial += s["nontrivial"]
            distinct.update(s["distinct"])
            for k, v in s["labels"].items():
                labels[k] = labels.get(k, 0) + v
            samples += [x for x in s["samples"] if x not in samples][:2]
        if w["kind"] == "error":
            print(w["log"][-3000:])
            print("the harness of %s reports an error of its own" % pid)
            return 2
    for i, w in enumerate(results):
        if w["kind"] == "ok" or violations:
            continue
        ch = w["choices"]
        if ch is None:
            print(w["log"][-3000:])
            print("a worker of %s ended with %s and left no case" % (pid, w["rc"]))
            return 2
        runs = [r.replay(ch) for _ in range(3)]
        if not all(r.bad(x[0]) for x in runs):
            # Once more with the history of the whole run.
            notes.append("worker %d: a %s that its replay did not show: %s" % (i, w["kind"], w["log"][-400:]))
            again = r.worker(i, (cases + n - 1) // n, secs)
            if again["kind"] == "ok":
                continue
            if not any(r.bad(r.replay(ch)[0]) for _ in range(5)):
                if again["kind"] == w["kind"]:  # Only the whole run shows it: that run is the replay.
                    path = os.path.join(REPLAYS, "%s-run-%d-%d.txt" % (pid, seed, i))
                    write_choices(path, [], ["property %s" % pid, "run: %d %d %d" % (i, (cases + n - 1) // n, secs), "seed: %d" % seed, "tier: " + tier])
                    violations.append({"path": path, "case": "worker %d of the run" % i, "message": describe(w["log"])[1] or "the worker ends with %s" % w["rc"]})
                continue
        if w["kind"] != "fail":
            ch = r.shrink_crash(ch, 60 if w["kind"] == "crash" else 90)
        rc, log = r.replay(ch)
        case, msg = describe(log)
        if rc is None:
            msg = "the case does not end within %d s" % chk.case_limit
        h = hashlib.sha256((pid + repr(ch)).encode()).hexdigest()[:12]
        path = os.path.join(REPLAYS, "%s-%s.txt" % (pid, h))
        write_choices(path, ch, ["property %s" % pid, "replay: python3 check.py %s --replay %s" % (pid, path), "case: " + case, "problem: " + msg] +
                      (["tier: thorough"] if tier == "thorough" else []))
        violations.append({"path": path, "case": case, "message": msg})
    # Known findings: cases of their own, still reported while they fail.
    known = []
    for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]:
        if k["property"] != pid or k.get("status") == "fixed":
            continue
        rc, log = r.run(r.cmd + ["--prop", k["case"], "--replay", "/dev/null"], chk.case_limit)
        if r.bad(rc):
            known.append(k["what"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(distinct), "nontrivial": nontrivial, "discarded": discards,
                       "rule": chk.rule, "labels": dict(sorted(labels.items(), key=lambda x: -x[1])[:60]), "samples": [x[:600] for x in samples[:12]],
                       "workers": n, "build_s": round(t1 - t0, 1), "unreproduced": notes[:4]},
          "assumptions": chk.assumptions, "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    if known:
        ev["coverage"]["known_findings"] = known
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d cases, %d distinct non-trivial, %d discarded, %.1f s (build %.1f s)" % (pid, evaluations, len(distinct), discards, time.time() - t0, t1 - t0))
    for v in violations:
        print("case: %s\nproblem: %s" % (v["case"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, v["path"]))
    return 1 if violations else 0


def main():
    a = sys.argv[1:]
    if a == ["--list"]:
        print("\n".join(sorted(CHECKS)))
        return 0
    if a == ["--build"]:
        bad = 0
        for c in CHECKS.values():
            t = time.time()
            try:
                c.build()
                print("%s built (%.1f s)" % (c.id, time.time() - t), flush=True)
            except BuildError as e:
                bad = 1
                print("%s: %s" % (c.id, e), flush=True)
        return bad
    if len(a) == 3 and a[1] == "--replay":
        head = [l[2:].split(": ") for l in open(a[2]) if l.startswith("# ") and ": " in l]
        head = {k[0]: k[1].strip() for k in head}
        r = Runner(CHECKS[a[0]], "thorough" if head.get("tier") == "thorough" else "quick", int(head.get("seed", 1)))
        if "run" in head:
            w = r.worker(*[int(x) for x in head["run"].split()])
            print(w["log"])
            if w["kind"] != "ok":
                print("VIOLATION property=%s replay=%s" % (a[0], a[2]))
            return 0 if w["kind"] == "ok" else 1
        rc, log = r.run(r.args("--replay", a[2]), CHECKS[a[0]].case_limit)
        print(log)
        if r.bad(rc):
            print("VIOLATION property=%s replay=%s" % (a[0], a[2]))
        return 1 if r.bad(rc) else 0
    if len(a) == 1 and a[0] in CHECKS:
        return check(a[0])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
