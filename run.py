#!/usr/bin/env python3
"""Builds and runs the checks of /verif/MANIFEST.json.

  run.py check <ID> [--tier quick|thorough] [--seed N] [--cases N] [--max-s S]
  run.py replay <ID> <file>          re-runs one saved case, verbosely
  run.py build <ID>|all              only builds
  run.py setup                       builds everything once (a smoke test of the toolchain)
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ION_REPO", "/repo")
BUILD = os.environ.get("ION_VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "/usr/bin/clang++-19"
JOBS = os.cpu_count() or 8

SPDLOG = ["-DFMT_SHARED", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-DSPDLOG_SHARED_LIB"]
COMMON = ["-std=gnu++23", "-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-w",
          "-D_GLIBCXX_ASSERTIONS"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]
COV = ["-fsanitize-coverage=inline-8bit-counters"]
LIBS = ["-lspdlog", "-lfmt", "-lssl", "-lcrypto", "-lpthread"]

from checks import CHECKS  # noqa: E402


def sh256(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(root, exts=(".h", ".hpp", ".in")):
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(root)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                h.update(os.path.join(d, f).encode())
                h.update(read(os.path.join(d, f)))
    return h.hexdigest()


def gen_version_header():
    """lib/version.h.in configured as CMake would: the version comes from CMakeLists.txt."""
    import re
    src = read(f"{REPO}/lib/version.h.in").decode()
    cm = read(f"{REPO}/CMakeLists.txt").decode()
    m = re.search(r'set\(ION_BASE_VERSION\s+"([^"]+)"\)', cm)
    ver = m.group(1) if m else "0.0.0"
    src = src.replace("@ION_BUILD_VERSION@", ver)
    out = os.path.join(BUILD, "generated-" + sh256(src)[:12])
    os.makedirs(out, exist_ok=True)
    p = os.path.join(out, "version.h")
    if not os.path.exists(p):
        with open(p + ".tmp%d" % os.getpid(), "w") as f:
            f.write(src)
        os.replace(p + ".tmp%d" % os.getpid(), p)
    return out


class Builder:
    def __init__(self, check, opts):
        self.check = check
        self.opts = opts
        self.gen = gen_version_header()
        self.inc = [f"-I{VERIF}/stubs", f"-I{REPO}/lib", f"-I{self.gen}", f"-I{REPO}/app",
                    f"-I{VERIF}/harness"]
        # opentelemetry is not installed here: stubs/ stands in for its API
        self.hdr = sh256(tree_hash(f"{REPO}/lib"), tree_hash(f"{REPO}/app"),
                         tree_hash(f"{VERIF}/stubs"), read(f"{self.gen}/version.h"))
        self.hhdr = tree_hash(f"{VERIF}/harness")
        self.ver = subprocess.run([CXX, "--version"], capture_output=True).stdout

    def obj(self, src, flags, harness):
        key = sh256(self.ver, " ".join(flags), src, read(src), self.hdr,
                    self.hhdr if harness else "")
        return os.path.join(BUILD, "obj", key[:2], key[2:34] + ".o")

    def compile(self, src, flags, harness):
        o = self.obj(src, flags, harness)
        if os.path.exists(o):
            try:
                os.utime(o)
            except OSError:
                pass
            return o, None
        os.makedirs(os.path.dirname(o), exist_ok=True)
        tmp = o + f".{os.getpid()}.tmp"
        r = subprocess.run([CXX, *flags, "-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode != 0:
            return None, f"{src}:\n{r.stderr[-6000:]}"
        os.replace(tmp, o)
        return o, None

    def build(self):
        c = self.check
        san = SAN if c.get("san", True) else []
        repo_flags = COMMON + SPDLOG + san + (COV if c.get("cov", True) else []) + self.inc + \
            c.get("repo_flags", [])
        h_flags = COMMON + SPDLOG + san + self.inc + c.get("harness_flags", [])
        srcs = []
        for pat in c["repo"]:
            got = sorted(glob.glob(f"{REPO}/{pat}", recursive=True))
            srcs += [s for s in got if s not in srcs]
        for ex in c.get("exclude", []):
            srcs = [s for s in srcs if s != f"{REPO}/{ex}"]
        jobs = [(s, repo_flags, False) for s in srcs]
        # the heaviest first
        hs = [f"{VERIF}/harness/{h}" for h in c["harness"]]
        jobs = [(s, h_flags, True) for s in hs] + jobs
        with cf.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(lambda j: self.compile(*j), jobs))
        errs = [e for _, e in res if e]
        if errs:
            return None, "\n".join(errs)
        objs = [o for o, _ in res]
        wraps = [f"-Wl,--wrap={w}" for w in c.get("wrap", [])]
        lflags = san + ["-fuse-ld=lld"] + wraps + c.get("ldflags", [])
        key = sh256(self.ver, *objs, *lflags, *LIBS)
        out = os.path.join(BUILD, "bin", f"{c['id']}-{key[:20]}")
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            for old in glob.glob(os.path.join(BUILD, "bin", f"{c['id']}-*")):
                try:
                    os.unlink(old)
                except OSError:
                    pass
            tmp = out + f".{os.getpid()}.tmp"
            r = subprocess.run([CXX, *lflags, *objs, *LIBS, *c.get("libs", []), "-o", tmp],
                               capture_output=True, text=True)
            if r.returncode != 0:
                return None, r.stderr[-6000:]
            os.replace(tmp, out)
        return out, None


def prune():
    """Keep the object cache small."""
    objs = glob.glob(os.path.join(BUILD, "obj", "*", "*.o"))
    if len(objs) > 3000:
        objs.sort(key=os.path.getmtime)
        for o in objs[: len(objs) - 2000]:
            try:
                os.unlink(o)
            except OSError:
                pass


def known_file(tmp):
    path = os.path.join(tmp, "known.txt")
    with open(path, "w") as out:
        src = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(src):
            for line in open(src):
                line = line.strip()
                # "finding: property=<id> <key> <text>"; "fixed:" lines suppress nothing
                if line.startswith("finding: property="):
                    rest = line[len("finding: property="):]
                    out.write(rest + "\n")
    return path


def build_check(cid, opts):
    c = dict(CHECKS[cid], id=cid)
    t = time.time()
    outs = {}
    for aux in c.get("aux", []):
        a = dict(CHECKS_AUX[aux], id=aux)
        b, err = Builder(a, opts).build()
        if err:
            return None, outs, err
        outs[aux] = b
    binary, err = Builder(c, opts).build()
    if err and c.get("fallback_repo"):
        c2 = dict(c, repo=c["fallback_repo"])
        b2, err2 = Builder(c2, opts).build()
        if not err2:
            binary, err = b2, None
    print(f"{cid}: built in {time.time() - t:.1f}s", flush=True)
    return binary, outs, err


def main():
    argv = sys.argv[1:]
    if not argv:
        print(__doc__)
        return 2
    cmd = argv[0]
    opts = {"tier": os.environ.get("VERIF_TIER", "quick"), "seed": os.environ.get("VERIF_SEED", "1")}
    pos = []
    i = 1
    while i < len(argv):
        if argv[i].startswith("--"):
            opts[argv[i][2:]] = argv[i + 1]
            i += 2
        else:
            pos.append(argv[i])
            i += 1
    os.makedirs(BUILD, exist_ok=True)
    prune()
    if cmd in ("setup", "build"):
        ids = list(CHECKS) if cmd == "setup" or pos == ["all"] else pos
        rc = 0
        for cid in ids:
            b, _, err = build_check(cid, opts)
            if err:
                print(f"{cid}: BUILD FAILED\n{err}")
                rc = 1
        return 0 if cmd == "setup" else rc
    if cmd not in ("check", "replay"):
        print(__doc__)
        return 2
    cid = pos[0]
    binary, aux, err = build_check(cid, opts)
    if err:
        print(f"{cid}: BUILD FAILED\n{err}")
        return 2
    tmp = tempfile.mkdtemp(prefix=f"ion-{cid}-")
    env = dict(os.environ, ION_SCRATCH=tmp, ION_VERIF=VERIF, ION_REPO=REPO, TZ="UTC",
               LC_ALL="C.UTF-8")
    for k, v in aux.items():
        env["ION_AUX_" + k.upper()] = v
    env.pop("SSLKEYLOGFILE", None)
    env["OPENSSL_CONF"] = "/dev/null"
    os.chmod(tmp, 0o755)
    try:
        if cmd == "replay":
            return subprocess.run([binary, "replay", os.path.abspath(pos[1]), "--log-dir", tmp],
                                  env=env, cwd=tmp).returncode
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        args = [binary, "run", "--tier", opts["tier"], "--seed", str(opts["seed"]),
                "--evidence", os.path.join(VERIF, "evidence", f"{cid}.json"),
                "--replay-dir", os.path.join(VERIF, "replays"),
                "--known", known_file(tmp), "--log-dir", tmp]
        for k in ("cases", "max-s", "workers"):
            if k in opts:
                args += [f"--{k}", opts[k]]
        return subprocess.run(args, env=env, cwd=tmp).returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


CHECKS_AUX = {}
try:
    from checks import AUX as CHECKS_AUX  # noqa: E402,F811
except ImportError:
    pass

if __name__ == "__main__":
    sys.exit(main())
