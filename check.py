#!/usr/bin/env python3
"""Runtime-monitoring check runner.

  check.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE] [--scale F]

Builds the harness of the property from the current working tree of /repo (header-only library) with the
sanitizers of each configured flavour, runs its workload in parallel shards, collects what the monitors and
sanitizers observed, and decides:
  exit 0  the property held on everything observed (and enough was observed)
  exit 1  'VIOLATION property=<ID> replay=<path>' was printed
  exit 2  the check itself could not decide (build failure, missing observations)
"""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from config import CONFIG  # noqa: E402

COMMON = ["-std=c++17", "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "harness"),
          "-isystem", "/usr/include/eigen3", "-w"]
FLAVOURS = {
    "asan": dict(cxx="g++", flags=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                   "-fno-omit-frame-pointer"]),
    "addr": dict(cxx="g++", flags=["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]),
    "asan-clang": dict(cxx="clang++", flags=["-O1", "-g1", "-fsanitize=address,undefined,float-cast-overflow",
                                             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]),
    "plain": dict(cxx="g++", flags=["-O1", "-g1"]),
    "poison": dict(cxx="g++", flags=["-O1", "-g1"], env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}),
    "o2": dict(cxx="g++", flags=["-O2", "-g1"]),
    "tsan": dict(cxx="g++", flags=["-O1", "-g1", "-fsanitize=thread", "-pthread"]),
    "memcheck": dict(same="poison", env={"MON_MEMCHECK": "1"}, wrap=["valgrind", "--tool=memcheck", "--error-exitcode=99",
                                                           "--exit-on-first-error=yes", "--leak-check=no", "-q",
                                                           "--fair-sched=no"]),
}
ENV = dict(os.environ,
           ASAN_OPTIONS="exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:"
                        "detect_stack_use_after_return=1:check_initialization_order=0:detect_odr_violation=0:strict_string_checks=1:"
                        "hard_rss_limit_mb=3000",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=99",
           TSAN_OPTIONS="exitcode=99:halt_on_error=1:second_deadlock_stack=1:history_size=4")


def binary(flavour):
    """flavours that only differ in how the binary is run share it"""
    return FLAVOURS[flavour].get("same", flavour)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(q.encode()); h.update(open(q, "rb").read())
        else:
            h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


def sections(src):
    """(first line, last line) of every SECTION block of a harness."""
    out, lines, i = [], src.split("\n"), 0
    makers = tuple(m + "(" for m in re.findall(r"#define (\w+)\((?:[^\n]*\\\n)*[^\n]*SECTION\(", src))
    while i < len(lines):
        if makers and lines[i].startswith(makers):
            out.append((i + 1, i + 1))
        elif lines[i].startswith("SECTION("):
            j = i
            while not (lines[j].rstrip().endswith("}") and (j == i or lines[j].startswith("}"))):
                j += 1
            out.append((i + 1, j + 1))
            i = j
        i += 1
    return out


def build(pid, cfg, flavour, bdir, src=None):
    """Builds the harness. Sections whose instantiation of the library no longer compiles (say, for complex scalars) are left out, so
    that the rest still gets a verdict; they are named in the evidence. Returns (exe, error text, sections left out)."""
    fl = FLAVOURS[flavour]
    src = os.path.join(VERIF, "harness", src or cfg["src"])
    flags = COMMON + fl["flags"] + cfg.get("flags", [])
    base = os.path.basename(src)
    exe = os.path.join(bdir, base[:-4] + "-" + flavour)
    hdir = os.path.join(VERIF, "harness")
    key = tree_hash([os.path.join(REPO, "src"), src] + sorted(os.path.join(hdir, x) for x in os.listdir(hdir) if x.endswith(".h"))) + \
        " ".join(flags) + fl["cxx"]
    stamp = exe + ".stamp"
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe, None, []
    for p in (exe, stamp):
        if os.path.exists(p):
            os.unlink(p)
    text, left_out, first = open(src).read(), [], None
    blocks = sections(text)
    for attempt in range(4):
        err = compile_link(cfg, fl, flags, src, exe)
        if err is None:
            if not left_out:
                with open(stamp, "w") as f:
                    f.write(key)
            return exe, None, left_out
        first = first or err
        at = {int(n) for n in re.findall(re.escape(base) + r":(\d+)", err)}
        bad = [b for b in blocks if any(b[0] <= n <= b[1] for n in at)]
        blocks = [b for b in blocks if b not in bad]
        if not bad or not blocks:
            break
        lines = text.split("\n")
        left_out += [lines[b[0] - 1].split("(")[1].split(",")[0] for b in bad]
        for b in bad:
            for n in range(b[0], b[1] + 1):
                lines[n - 1] = ""
        text = "\n".join(lines)
        src = os.path.join(bdir, base)
        with open(src, "w") as f:
            f.write(text)
    return None, first[-4000:], []


def compile_link(cfg, fl, flags, src, exe):
    parts = cfg.get("parts", 0)  # template-heavy harnesses are compiled as several translation units in parallel
    objs = [src]
    if parts:
        objs = ["%s.%d.o" % (exe, i) for i in range(1, parts + 1)]
        cmds = [[fl["cxx"]] + flags + ["-c", "-DPART=%d" % (i + 1), src, "-o", o] for i, o in enumerate(objs)]
        with ThreadPoolExecutor(8) as ex:
            bad = ["%s\n%s" % (" ".join(c), r.stdout) for c, r in
                   ex.map(lambda c: (c, subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")), cmds)
                   if r.returncode != 0]
        if bad:
            return "\n".join(bad)
    cmd = [fl["cxx"]] + flags + objs + ["-o", exe] + cfg.get("libs", [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    for o in objs if parts else []:
        os.unlink(o)
    return None if r.returncode == 0 else " ".join(cmd) + "\n" + r.stdout


SAN = re.compile(r"(ERROR: AddressSanitizer: [\w-]+|runtime error: [^\n]*|WARNING: ThreadSanitizer: [\w -]+|"
                 r"==\d+== (?:Invalid|Conditional|Use of|Syscall param|Mismatched|Process terminating)[^\n]*|Assertion [^\n]*failed|"
                 r"terminate called[^\n]*)")


def san_key(err):
    m = SAN.search(err)
    what = m.group(1) if m else "abnormal termination"
    what = re.sub(r"==\d+== ", "", what)
    what = re.sub(r"0x[0-9a-f]+", "ADDR", what)
    what = re.sub(r"\d{3,}", "N", what)
    where = ""
    # first library frame of the report
    for line in err[m.start():].splitlines() if m else []:
        f = re.search(r"(?:in|at|by 0x\w+:) (.*?)\(?(/repo/src/|" + re.escape(REPO) + r"/src/)?(MathUtils/[\w/]+\.h)", line)
        if f:
            where = f.group(3)
            break
    return "sanitizer: %s%s" % (what.strip(), (" @" + where) if where else "")


def run_shard(exe, flavour, args, tmp, tag, timeout):
    rep, crumb, errf = (os.path.join(tmp, "%s.%s" % (tag, x)) for x in ("json", "crumb", "err"))
    cmd = FLAVOURS[flavour].get("wrap", []) + [exe, "--out", rep, "--crumb", crumb] + args
    env = dict(ENV, MON_SANLOG=os.path.join(tmp, tag + ".child"), **FLAVOURS[flavour].get("env", {}))
    t0 = time.time()
    with open(errf, "w") as ef:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=tmp, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
            to = False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            rc, to = -9, True
    err = open(errf, errors="replace").read()
    cr = ""
    if os.path.exists(crumb):
        cr = open(crumb, "rb").read().split(b"\0")[0].decode(errors="replace")
    data = None
    if os.path.exists(rep):
        try:
            data = json.load(open(rep))
        except Exception:
            data = None
    return dict(rc=rc, timeout=to, err=err, crumb=cr, data=data, cmd=cmd, wall=time.time() - t0)


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=\"([^\"]*)\" (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    pid, tier = a.id, a.tier
    cfg = CONFIG[pid]
    t0 = time.time()
    bdir = os.path.join(VERIF, "_build", hashlib.md5(REPO.encode()).hexdigest()[:6], pid)
    os.makedirs(bdir, exist_ok=True)
    tmp = os.path.join(bdir, "run-%s-%d" % (tier, os.getpid()))
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    replays = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(replays, exist_ok=True)

    # runs: (flavour, src, shards, extra args, timeout)
    if a.replay:
        rp = json.load(open(a.replay))
        runs = [dict(flavour=rp["flavour"], src=rp.get("src"), shards=1, tier=rp["tier"],
                     args=["--only", "%s:%d" % (rp["section"], rp["case"])])]
        a.seed = rp["seed"]
        tier = rp["tier"]
    else:
        runs = cfg["thorough"] if tier == "thorough" and "thorough" in cfg else cfg["quick"]

    exes, left_out = {}, set()
    with ThreadPoolExecutor(6) as ex:
        need = {(binary(r["flavour"]), r.get("src") or cfg["src"]) for r in runs}
        for k, f in {k: ex.submit(build, pid, cfg, k[0], bdir, k[1]) for k in need}.items():
            exe, errtxt, out = f.result()
            left_out.update(out)
            if errtxt:
                print("ERROR: cannot build the harness of %s (%s):\n%s" % (pid, k, errtxt))
                sys.exit(2)
            exes[k] = exe
    tb = time.time() - t0

    jobs = []
    for ri, r in enumerate(runs):
        n = r.get("shards", 4)
        seeds = r.get("seeds", 1)
        for sd in range(seeds):
            for s in range(n):
                args = ["--tier", r.get("tier", tier), "--seed", str(a.seed + 1000 * sd), "--shard", "%d/%d" % (s, n),
                        "--scale", str(a.scale * r.get("scale", 1.0))] + r.get("args", [])
                jobs.append((r, args, "r%d-%d-%d" % (ri, sd, s), a.seed + 1000 * sd))
    tmo = cfg.get("timeout", 420 if tier == "quick" else 3600)
    results = []
    with ThreadPoolExecutor(8) as ex:
        futs = [(j, ex.submit(run_shard, exes[(binary(j[0]["flavour"]), j[0].get("src") or cfg["src"])], j[0]["flavour"], j[1], tmp, j[2], tmo))
                for j in jobs]
        for j, f in futs:
            results.append((j, f.result()))

    evaluations, distinct, counters, samples, viols, problems = 0, set(), {}, [], {}, []
    san_reports = 0
    for (r, args, tag, seed), res in results:
        d = res["data"]
        if d:
            evaluations += d["evaluations"]
            distinct.update(d["distinct"])
            for k, v in d["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for s in d["samples"]:
                if len(samples) < 12 and s not in samples:
                    samples.append(s)
            for v in d["violations"]:
                if v["key"] not in viols:
                    viols[v["key"]] = dict(v, flavour=r["flavour"], src=r.get("src"), seed=seed, tier=r.get("tier", tier))
        if d and d.get("complete") and res["rc"] in (0, 3):
            continue
        sec, _, case = res["crumb"].partition(":")
        if res["timeout"]:
            # confirm non-termination on the single case the shard was stuck in
            exe = exes[(binary(r["flavour"]), r.get("src") or cfg["src"])]
            if sec and case.isdigit():
                one = run_shard(exe, r["flavour"], ["--tier", r.get("tier", tier), "--seed", str(seed), "--only", res["crumb"]], tmp,
                                tag + "-again", 120)
                if one["timeout"]:
                    key = "hang/" + sec
                    viols.setdefault(key, dict(key=key, section=sec, case=int(case), count=1, flavour=r["flavour"], src=r.get("src"), seed=seed,
                                               tier=r.get("tier", tier), detail="case does not terminate within 120 s"))
                    continue
            problems.append("shard %s exceeded %d s without a reproducible hang (at %s)" % (tag, tmo, res["crumb"]))
            continue
        if sec and sec != "finished" and case.isdigit():
            san_reports += 1
            key = san_key(res["err"])
            m = SAN.search(res["err"])
            detail = res["err"][m.start() if m else 0:][:1800]
            viols.setdefault(key, dict(key=key, section=sec, case=int(case), count=1, flavour=r["flavour"], src=r.get("src"), seed=seed,
                                       tier=r.get("tier", tier), detail="rc=%s %s" % (res["rc"], detail)))
        else:
            problems.append("shard %s ended with rc=%s outside any case: %s" % (tag, res["rc"], res["err"][-800:]))

    known = known_findings(pid)
    reported, known_hit = [], []
    for key in sorted(viols):
        k = [w for (kk, w) in known if kk == key]
        if k:
            known_hit.append(k[0])
        else:
            reported.append(viols[key])

    if not a.replay:
        if not reported:
            for lab in cfg.get("require", []) if not left_out else []:
                if counters.get(lab, 0) <= 0:
                    problems.append("nothing observed for required label '%s'" % lab)
            if evaluations == 0:
                problems.append("no monitor verdicts")
        ev = dict(property=pid, tier=tier, seed=a.seed, level="exploration",
                  coverage=dict(evaluations=evaluations, distinct_nontrivial=len(distinct), rule=cfg["rule"],
                                samples=samples or ["(none recorded)"],
                                cases={k[6:]: v for k, v in sorted(counters.items()) if k.startswith("cases/")},
                                observed={k: v for k, v in sorted(counters.items()) if not k.startswith("cases/")},
                                builds=sorted({"%s:%s" % (r["flavour"], r.get("src") or cfg["src"]) for r in runs}),
                                processes=len(results), sanitizer_reports=san_reports,
                                build_s=round(tb, 1), **(dict(left_out=sorted(left_out)) if left_out else {})),
                  assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(reported))
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")

    for w in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    for i, v in enumerate(reported):
        path = os.path.join(replays, "%s-%d.json" % (pid, i))
        if not a.replay:
            json.dump(v, open(path, "w"), indent=1)
        else:
            path = a.replay
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  key: %s\n  at %s:%s (x%s, %s)\n  %s" % (v["key"], v["section"], v["case"], v["count"], v["flavour"],
                                                         v["detail"].replace("\n", "\n  ")))
    shutil.rmtree(tmp, ignore_errors=True)
    for p in problems:
        print("PROBLEM: " + p)
    if left_out:
        print("NOTE: the library does not compile in sections %s, the others were run" % ", ".join(sorted(left_out)))
    print("%s %s: %d verdicts, %d distinct, %.1f s (build %.1f s), %d violation(s)" %
          (pid, tier, evaluations, len(distinct), time.time() - t0, tb, len(reported)))
    if reported:
        sys.exit(1)
    sys.exit(2 if problems else 0)


if __name__ == "__main__":
    main()
