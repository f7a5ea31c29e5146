#!/usr/bin/env python3
"""Builds what a check needs from /repo's working tree and runs it.

  check.py C01            run the check of property C01 (tier from VERIF_TIER,
                          seed from VERIF_SEED)
  check.py --build        build everything (setup)
  check.py --replay FILE  re-run a saved failing case
"""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
H = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")

TOOLS = ("dscompress.cc", "decompress.cc")


def repo_lib():
    """Sources of the storage manager: everything but the programs."""
    return sorted(n for n in os.listdir(REPO) if n.endswith(".cc") and n not in TOOLS)


SAN = ["-DNDEBUG", "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=vptr"]
SANA = [f for f in SAN if f != "-DNDEBUG"]
PLAIN = ["-DNDEBUG", "-O2", "-g1"]
CASA_LIBS = ["-lcasa_ms", "-lcasa_measures", "-lcasa_tables", "-lcasa_scimath", "-lcasa_casa", "-lgsl", "-lgslcblas", "-lpthread"]
TSAN = ["-DNDEBUG", "-O1", "-g", "-fsanitize=thread"]

TARGETS = {}
# property -> target
PROPS = {}


def load_map():
    with open(os.path.join(H, "targets.json")) as f:
        d = json.load(f)
    TARGETS.clear()
    for name, t in d["targets"].items():
        TARGETS[name] = dict(
            h=t["harness"],
            r=(repo_lib() if t.get("lib", True) else []) + t.get("repo", []),
            flags={"san": SAN, "sana": SANA, "plain": PLAIN, "tsan": TSAN}[t["flags"]] + t.get("extra", []),
            libs=CASA_LIBS,
            link=t.get("link", []),
            needs=t.get("needs", []))
    PROPS.clear()
    PROPS.update(d["properties"])


def read(p):
    with open(p, "rb") as f:
        return f.read()


def header_hash():
    h = hashlib.sha256()
    for d in (REPO, H):
        for n in sorted(os.listdir(d)):
            if n.endswith((".h", ".hpp", ".inc")):
                h.update(n.encode() + b"\0" + read(os.path.join(d, n)) + b"\0")
    return h.hexdigest()


def compile_one(src, flags, hh):
    key = hashlib.sha256((hh + " ".join(flags) + os.path.basename(src)).encode() + read(src)).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj, None
    tmp = obj + ".tmp%d" % os.getpid()
    cmd = ["g++", "-std=c++17", "-Wall", "-Wno-unused-function", "-I" + REPO, "-I" + H] + flags + ["-c", src, "-o", tmp]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return None, "$ " + " ".join(cmd) + "\n" + p.stdout
    os.rename(tmp, obj)
    return obj, None


def build(targets):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    all_t = []
    for t in targets:
        for n in TARGETS[t].get("needs", []) + [t]:
            if n not in all_t:
                all_t.append(n)
    hh = header_hash()
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        jobs = {}
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            for t in all_t:
                T = TARGETS[t]
                for s in [os.path.join(H, x) for x in T["h"]] + [os.path.join(REPO, x) for x in T["r"]]:
                    k = (s, tuple(T["flags"]))
                    if k not in jobs:
                        jobs[k] = ex.submit(compile_one, s, T["flags"], hh)
        for j in jobs.values():
            if j.result()[1]:
                sys.stdout.write(j.result()[1])
                print("build failed", file=sys.stderr)
                sys.exit(3)
        bins = {}
        links = []
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            for t in all_t:
                T = TARGETS[t]
                objs = [jobs[(s, tuple(T["flags"]))].result()[0]
                        for s in [os.path.join(H, x) for x in T["h"]] + [os.path.join(REPO, x) for x in T["r"]]]
                key = hashlib.sha256((" ".join(objs + T["flags"] + T["libs"] + T.get("link", []))).encode()).hexdigest()[:24]
                out = os.path.join(BUILD, "bin", t + "-" + key)
                bins[t] = out
                if os.path.exists(out):
                    os.utime(out)
                    continue
                cmd = ["g++"] + T["flags"] + objs + T.get("link", []) + T["libs"] + ["-o", out + ".tmp"]
                links.append((ex.submit(subprocess.run, cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), cmd, out))
        for f, cmd, out in links:
            p = f.result()
            if p.returncode:
                sys.stdout.write(p.stdout)
                sys.exit("link failed: " + " ".join(cmd))
            os.rename(out + ".tmp", out)
        # keep the cache small
        for sub in ("obj", "bin"):
            d = os.path.join(BUILD, sub)
            fs = sorted((os.path.join(d, n) for n in os.listdir(d)), key=os.path.getmtime, reverse=True)
            for old in fs[150 if sub == "obj" else 30:]:
                if os.path.isfile(old):
                    os.unlink(old)
    return bins


def main():
    load_map()
    a = sys.argv[1:]
    if a and a[0] == "--build":
        build(list(TARGETS))
        return 0
    if a and a[0] == "--replay":
        txt = read(a[1]).decode()
        prop = re.search(r"^property (\S+)", txt, re.M).group(1)
        t = PROPS[prop]["target"]
        bins = build([t])
        return run(bins, t, prop, ["--replay", a[1]])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    t = PROPS[prop]["target"]
    t0 = time.time()
    bins = build([t])
    print("build: %.1f s" % (time.time() - t0), flush=True)
    args = ["--property", prop, "--tier", tier, "--seed", seed,
            "--evidence", os.path.join(VERIF, "evidence", prop + ".json"),
            "--replay-dir", os.path.join(VERIF, "replays")] + a[1:]
    return run(bins, t, prop, args)


def run(bins, t, prop, args):
    env = dict(os.environ)
    for n, p in bins.items():
        env["VP_BIN_" + n.upper()] = p
    env["VP_REPO"] = REPO
    env["VP_FINDINGS"] = os.path.join(VERIF, "known_findings.txt")
    p = subprocess.run([bins[t]] + args, env=env)
    return p.returncode


if __name__ == "__main__":
    sys.exit(main())
