#!/usr/bin/env python3
"""Build the harness of one property from /repo's working tree, explore, report.

usage: check.py ID [--tier quick|thorough] [--replay FILE]
exit 0: held on everything explored; exit 1 + VIOLATION line: broken.
"""
import fnmatch, glob, hashlib, json, os, re, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VK_REPO", "/repo")
SRC = os.path.join(REPO, "src/PROPOSAL")
BUILD = os.path.join(VERIF, ".build")
FLAVORS = {
    "o1": "-O1 -DNDEBUG",
    "asan": "-O1 -g1 -DNDEBUG -fsanitize=address,undefined -fno-sanitize-recover=bounds,null,return,unreachable,vla-bound,object-size -fno-sanitize=alignment,vptr,enum,float-cast-overflow,signed-integer-overflow,shift,float-divide-by-zero,integer-divide-by-zero,bool,pointer-overflow,nonnull-attribute,returns-nonnull-attribute -fno-omit-frame-pointer",
}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def version_header(d):
    ver = {}
    try:
        cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    except OSError:
        cm = ""
    m = re.search(r"VERSION\s+([0-9]+)\.([0-9]+)\.([0-9]+)", cm)
    v = m.groups() if m else ("7", "0", "0")
    text = None
    for c in glob.glob(os.path.join(REPO, "src/**/version.h.in"), recursive=True):
        text = open(c).read()
        text = re.sub(r"@(\w*MAJOR\w*)@", v[0], text)
        text = re.sub(r"@(\w*MINOR\w*)@", v[1], text)
        text = re.sub(r"@(\w*PATCH\w*)@", v[2], text)
        text = re.sub(r"@\w+@", ".".join(v), text)
    if text is None:
        text = '#pragma once\n#define PROPOSAL_VERSION "7.0.0"\ninline const char* getPROPOSALVersion() { return PROPOSAL_VERSION; }\n'
    p = os.path.join(d, "PROPOSAL")
    os.makedirs(p, exist_ok=True)
    f = os.path.join(p, "version.h")
    if not os.path.exists(f) or open(f).read() != text:
        open(f, "w").write(text)

def options(path):
    opt = {"sources": None, "flavor": "o1", "shards": 8, "limit": 600, "wrap": ""}
    for line in open(path):
        m = re.match(r"//\s*vk:\s*(.*)", line)
        if m:
            for tok in m.group(1).split():
                k, v = tok.split("=", 1)
                opt[k] = v if k in ("sources", "flavor", "wrap") else int(v)
    return opt

def build(ids, full=False):
    """ninja build of libs + harness binaries; returns dict id -> binary or None"""
    os.makedirs(BUILD, exist_ok=True)
    inc = os.path.join(BUILD, "inc")
    version_header(inc)
    allsrc = sorted(glob.glob(os.path.join(SRC, "detail/**/*.cxx"), recursive=True))
    base = os.path.join(SRC, "detail/PROPOSAL") + "/"
    lines = []
    common = f"-std=c++14 -w -pipe -I{VERIF}/standin -I{SRC} -I{inc} -I{VERIF}/vk"
    for fl, flags in FLAVORS.items():
        lines += [f"rule cxx_{fl}", f" command = g++ {common} {flags} -MMD -MF $out.d -c $in -o $out", " depfile = $out.d", " deps = gcc",
                  f"rule link_{fl}", f" command = g++ {flags} $in $lib -lspdlog -lfmt -lpthread -o $out"]
    lines += ["rule ar", " command = rm -f $out && ar crs $out $in"]
    need, libs, bins = {}, {}, {}
    body = []
    for i in ids:
        hp = os.path.join(VERIF, "harness", i + ".cpp")
        o = options(hp)
        fl = o["flavor"]
        subs = None if (full or not o["sources"] or o["sources"] == "all") else o["sources"].split(",")
        sel = [s for s in allsrc if subs is None or any(s[len(base):].startswith(p) for p in subs)]
        key = hashlib.sha1((fl + "|" + ",".join(sel)).encode()).hexdigest()[:8]
        lib = f"lib_{fl}_{key}.a"
        if lib not in libs:
            objs = []
            for s in sel:
                ob = f"obj_{fl}/" + s[len(base):].replace("/", "_") + ".o"
                if (fl, s) not in need:
                    need[(fl, s)] = ob
                    body.append(f"build {ob}: cxx_{fl} {s}")
                objs.append(ob)
            body.append(f"build {lib}: ar " + " ".join(objs))
            libs[lib] = 1
        ho = f"obj_{fl}/harness_{i}.o"
        body.append(f"build {ho}: cxx_{fl} {hp}")
        body.append(f"build bin_{i}: link_{fl} {ho} | {lib}")
        body.append(f" lib = {lib} {lib}")
        bins[i] = os.path.join(BUILD, f"bin_{i}")
    nf = os.path.join(BUILD, "build_%s.ninja" % (ids[0] if len(ids) == 1 else "all"))
    open(nf, "w").write("\n".join(lines + body) + "\n")
    r = sh(["ninja", "-f", nf, "-C", BUILD])
    if r.returncode != 0:
        if not full and not os.environ.get("VK_NOFULL"):
            return build(ids, True)
        sys.stdout.write("\n".join(l for l in r.stdout.splitlines() if not re.match(r"\[\d+/|g\+\+ ", l))[-6000:])
        return None
    return bins

def known(pid):
    pats = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+match=(\S+)\s+(.*)", l)
            if m and m.group(1) == pid:
                pats.append((m.group(2), m.group(3).strip()))
    return pats

def run_worker(binp, args, out, limit):
    for e in (".fails", ".cur", ".stats", ".states", ".log"):
        try: os.unlink(out + e)
        except OSError: pass
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:handle_abort=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    scratch = out + ".d"
    os.makedirs(scratch, exist_ok=True)
    lf = open(out + ".log", "w")
    return subprocess.Popen([binp, "--out", out] + args, stdout=lf, stderr=lf, cwd=scratch, env=env,
                            preexec_fn=lambda: os.setpgid(0, 0))

def kill(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    p.wait()

def read_cur(out):
    try:
        b = open(out + ".cur", "rb").read()
        return b.split(b"\0")[0].decode(errors="replace")
    except OSError:
        return ""

def read_fails(out):
    r = []
    try:
        for l in open(out + ".fails", errors="replace"):
            t = l.rstrip("\n").split("\t")
            if len(t) >= 3: r.append(t)
    except OSError: pass
    return r

def tail(path, n=15):
    try:
        t = open(path, errors="replace").read().splitlines()
    except OSError:
        return ""
    k = [l for l in t if "ERROR: AddressSanitizer" in l or "runtime error" in l or "terminate called" in l]
    return " | ".join((k or t[-n:])[:4])[:600]

def single(binp, tier, case, limit, tag):
    """run one case alone; returns (status, fails): status ok/fail/crash/hang"""
    out = os.path.join(BUILD, "run_" + tag)
    a = ["--only", case] + (["--thorough"] if tier == "thorough" else [])
    p = run_worker(binp, a, out, limit)
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        kill(p)
        return "hang", [["hang", case, f"no result after {limit} s"]]
    fl = read_fails(out)
    if p.returncode != 0 or not os.path.exists(out + ".stats"):
        return "crash", fl + [["crash", case, f"ended with status {p.returncode}: " + tail(out + ".log")]]
    return ("fail" if fl else "ok"), fl

def main():
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    a = sys.argv[2:]
    while a:
        if a[0] == "--tier": tier = a[1]; a = a[2:]
        elif a[0] == "--replay": replay = a[1]; a = a[2:]
        else: a = a[1:]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    hp = os.path.join(VERIF, "harness", pid + ".cpp")
    opt = options(hp)
    bins = build([pid])
    if not bins:
        print(f"{pid}: build failed"); return 2
    binp = bins[pid]
    tb = time.time() - t0
    if replay:
        r = json.load(open(replay))
        st, fl = single(binp, r["tier"], r["case"], 120, pid + "_replay")
        for x in fl: print("\t".join(x))
        print("replay:", st)
        return 1 if st != "ok" else 0
    limit = opt["limit"] if tier == "quick" else 6 * 3600
    n = opt["shards"]
    T = ["--thorough"] if tier == "thorough" else []
    outs = [os.path.join(BUILD, f"run_{pid}_{i}") for i in range(n)]
    skips = [[] for _ in range(n)]
    extra = []  # crash/hang failures
    carry = [[] for _ in range(n)]
    procs = {}
    def start(i):
        args = ["--shard", str(i), "--nshards", str(n)] + T
        for s in skips[i]: args += ["--skip", s]
        procs[i] = run_worker(binp, args, outs[i], limit)
    for i in range(n): start(i)
    deadline = time.time() + limit
    if tier == "quick": deadline = min(deadline, t0 + 840)
    left = lambda cap: cap if tier != "quick" else max(20, min(cap, t0 + 870 - time.time()))
    incomplete = False
    pats = known(pid)
    isnew = lambda k, case: not any(fnmatch.fnmatchcase(f"{k}@{case}".replace(" ", "_"), pt) for pt, _ in pats)
    checked = time.time()
    last = {i: ("", time.time()) for i in range(n)}
    while procs:
        time.sleep(0.05)
        if tier == "quick" and time.time() - t0 > 420 and time.time() - checked > 10:
            # a violation has been found already and time runs out: report it
            checked = time.time()
            if any(isnew(x[0], x[1]) for i in range(n) for x in read_fails(outs[i])):
                for i in list(procs): kill(procs[i])
                procs.clear(); incomplete = True
        for i in list(procs):
            p = procs[i]
            rc = p.poll()
            if rc is None:
                c = read_cur(outs[i])
                now = time.time()
                if c != last[i][0] or not c: last[i] = (c, now)
                stuck = now - last[i][1] > (90 if tier == "quick" else 1200)
                if stuck or now > deadline:
                    kill(p); del procs[i]
                    if stuck:
                        st, fl = single(binp, tier, c, left(240) if tier == "quick" else 3000, f"{pid}_single{i}")
                        if st == "hang":
                            extra.append(["hang", c, "case does not finish"])
                            if isnew("hang", c):
                                for j in list(procs): kill(procs[j])
                                procs.clear(); incomplete = True; break
                        for j in procs: last[j] = (last[j][0], time.time())
                        skips[i].append(c); start(i); last[i] = ("", time.time())
                    else:
                        incomplete = True
                continue
            if rc != 0 or not os.path.exists(outs[i] + ".stats"):
                c = read_cur(outs[i])
                msg = f"ended with status {rc}: " + tail(outs[i] + ".log")
                if not c:
                    print(f"{pid}: worker {i} died outside of a case: {msg}")
                    return 2
                if len(skips[i]) < 12:
                    extra.append(["crash", c, msg])
                    skips[i].append(c); start(i); last[i] = ("", time.time()); continue
                incomplete = True
            del procs[i]
    stats = {"cases": 0, "skipped": 0, "transitions": 0}
    enumerated = 0
    outcomes, fails, samples, bounds, failc = {}, list(extra), [], [], {}
    states = set()
    for i in range(n):
        fails += read_fails(outs[i])
        try:
            for l in open(outs[i] + ".stats"):
                t = l.rstrip("\n").split("\t")
                if t[0] in stats: stats[t[0]] += int(t[1])
                elif t[0] == "enumerated": enumerated = max(enumerated, int(t[1]))
                elif t[0] == "outcome": outcomes[t[1]] = outcomes.get(t[1], 0) + int(t[2])
                elif t[0] == "fail": failc[t[1]] = failc.get(t[1], 0) + int(t[2])
                elif t[0] == "sample": samples.append(t[1])
                elif t[0] == "bound": bounds.append(t[1])
            b = open(outs[i] + ".states", "rb").read()
            states.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        except OSError: pass
    # classify; replay before reporting
    news, findings, seen = [], {}, set()
    for k, case, msg in (x[:3] for x in fails):
        ident = f"{k}@{case}"
        hit = [d for pt, d in pats if fnmatch.fnmatchcase(ident.replace(" ", "_"), pt)]
        if hit:
            findings[hit[0]] = findings.get(hit[0], 0) + 1
            continue
        news.append((k, case, msg))
    violations = []
    rdir = os.path.join(VERIF, "replays")
    for k, case, msg in news:
        if k in seen and len(violations) >= 1: continue
        seen.add(k)
        if len(violations) >= 5 or (violations and time.time() - t0 > 600 and tier == "quick"): break
        st, fl = ("hang", []) if k == "hang" else single(binp, tier, case, left(300), f"{pid}_confirm")
        if st == "ok" or (k not in ("crash", "hang") and not any(x[0] == k for x in fl) and st != "crash"):
            print(f"{pid}: not reproduced alone: {k} {case} {msg}")
            continue
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f"{pid}-{hashlib.sha1((k+case).encode()).hexdigest()[:10]}.json")
        json.dump({"property": pid, "tier": tier, "key": k, "case": case, "message": msg,
                   "replay": f"python3 vk/check.py {pid} --replay {rp}"}, open(rp, "w"), indent=1)
        violations.append((k, case, msg, rp))
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": len(states), "transitions": stats["transitions"],
                       "traces_validated_against_impl": stats["cases"],
                       "samples": samples[:12] or ["none"],
                       "exhaustive": not incomplete,
                       "cases_not_applicable": stats["skipped"],
                       "distinct_outcomes": len(outcomes), "outcomes": outcomes,
                       "bounds": bounds, "build_s": round(tb, 1),
                       "failing_keys": failc},
          "assumptions": ["values outside the stated alphabet are not covered"],
          "wall_s": round(wall, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print(f"{pid} [{tier}] cases={stats['cases']} states={len(states)} transitions={stats['transitions']} outcomes={len(outcomes)} build={tb:.1f}s wall={wall:.1f}s" + (" INCOMPLETE" if incomplete else ""))
    for d, c in findings.items():
        print(f"KNOWN-FINDING: property={pid} {d}")
    for k, case, msg, rp in violations:
        print(f"VIOLATION property={pid} replay={rp}")
        print(f"  {k} @ {case}: {msg}")
    if violations: return 1
    if news and not violations:
        # failures that do not reproduce alone: history dependence between cases is itself reported
        k, case, msg = news[0]
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f"{pid}-history.json")
        json.dump({"property": pid, "tier": tier, "key": k, "case": case, "message": msg, "note": "fails only after the preceding cases of its shard"}, open(rp, "w"))
        print(f"VIOLATION property={pid} replay={rp}")
        print(f"  (only after preceding cases) {k} @ {case}: {msg}")
        return 1
    return 0

if __name__ == "__main__":
    sys.exit(main())
