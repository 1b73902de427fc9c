#!/usr/bin/env python3
"""Driver of the checks: regenerates the encoding from /repo's working tree, builds it and the
real program, and lets the symbolic executor decide one property.

  check.py <property> [quick|thorough] [--unit NAME]     decide a property
  check.py --replay FILE                                 run a counterexample on the real program
  check.py --setup                                       build only
"""
import hashlib
import fcntl, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DINERO_REPO", "/repo")
SYM = os.path.join(VERIF, "sym")
BUILD = os.path.join(VERIF, "build")
GEN = os.path.join(SYM, "gen", "dinero")
SHIMS = {"num": "num", "chrono": "chrono", "two_timer": "two_timer", "terminal_size": "terminal_size", "structopt": "structopt"}
TOOLCHAIN = "1.88.0"


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def put(path, data):
    """Write only when different, so that nothing is rebuilt without a reason."""
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def generate():
    """The encoding: /repo's sources, with the crate root's std and four dependencies exchanged."""
    src = os.path.join(REPO, "src")
    want = set()
    for base, _, files in os.walk(src):
        for f in files:
            p = os.path.join(base, f)
            rel = os.path.relpath(p, src)
            with open(p, "rb") as h:
                data = h.read()
            if rel == "mod.rs":
                data = inject(data.decode()).encode()
            dst = os.path.join(GEN, "src", rel)
            want.add(dst)
            put(dst, data)
    for base, _, files in os.walk(os.path.join(GEN, "src")):
        for f in files:
            p = os.path.join(base, f)
            if p not in want:
                os.remove(p)
    put(os.path.join(GEN, "Cargo.toml"), manifest())
    with open(os.path.join(REPO, "Cargo.lock"), "rb") as h:
        lock = h.read()
    dst = os.path.join(SYM, "harness", "Cargo.lock")
    stamp = os.path.join(SYM, "gen", "lock.src")
    old = open(stamp, "rb").read() if os.path.exists(stamp) else None
    if old != lock or not os.path.exists(dst):
        put(dst, lock)
        put(stamp, lock)


def inject(root):
    """Make `std` of every module the stand-in; inner doc comments and attributes stay first."""
    lines = root.split("\n")
    i = 0
    while i < len(lines):
        s = lines[i].strip()
        if s == "" or s.startswith("//") or s.startswith("#!["):
            i += 1
        else:
            break
    lines.insert(i, "#[macro_use]\nextern crate symstd as std;\n")
    return "\n".join(lines)


def manifest():
    with open(os.path.join(REPO, "Cargo.toml")) as h:
        t = h.read()
    m = re.search(r"^\[dependencies\]\s*$(.*?)(?=^\[|\Z)", t, re.M | re.S)
    deps = []
    for line in m.group(1).splitlines():
        s = line.strip()
        if not s or s.startswith("#"):
            continue
        name = s.split("=")[0].strip()
        if name in SHIMS:
            deps.append('%s = { path = "../../%s" }' % (name, SHIMS[name]))
        elif name == "assert_cmd":
            continue
        else:
            deps.append(s)
    deps.append('symstd = { path = "../../symstd" }')
    return (
        '[package]\nname = "dinero-rs"\nversion = "0.0.0"\nedition = "%s"\n\n'
        '[lib]\nname = "dinero"\npath = "src/mod.rs"\ndoctest = false\ntest = false\n\n[dependencies]\n%s\n'
        % ((re.search(r'^edition\s*=\s*"(\d+)"', t, re.M) or re.match(r"()", "")).group(1) or "2018", "\n".join(deps))
    )


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    e["CARGO_PROFILE_DEV_OPT_LEVEL"] = "1"
    e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    e["CARGO_PROFILE_DEV_INCREMENTAL"] = "false"
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    return e


def cargo(args, cwd, what):
    t = time.time()
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        log(p.stdout[-6000:])
        print("ERROR: building %s failed" % what)
        sys.exit(2)
    log("built %s in %.1f s" % (what, time.time() - t))


def forget_stale():
    """Cargo goes by modification times; what it built from other text must not pass for fresh."""
    h = hashlib.sha256(REPO.encode())
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            h.update(f.encode())
            with open(os.path.join(base, f), "rb") as d:
                h.update(d.read())
    stamp = os.path.join(BUILD, "source")
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != h.hexdigest():
        prints = os.path.join(BUILD, "target", "debug", ".fingerprint")
        for d in os.listdir(prints) if os.path.isdir(prints) else []:
            if d.startswith("dinero-rs-"):
                shutil.rmtree(os.path.join(prints, d))
        with open(stamp, "w") as f:
            f.write(h.hexdigest())


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        generate()
        forget_stale()
        cargo(["build", "--offline", "--bin", "dinero", "--manifest-path", os.path.join(REPO, "Cargo.toml")], VERIF, "the program")
        cargo(["build", "--offline"], os.path.join(SYM, "harness"), "the symbolic executor with the program's source")
        # what other checks build meanwhile must not change this run
        run = tempfile.mkdtemp(prefix="dinero-sym-")
        for f in ("dinero", "harness"):
            shutil.copy2(os.path.join(BUILD, "target", "debug", f), os.path.join(run, f))
    return run


def functions():
    n = 0
    files = []
    for base, _, fs in os.walk(os.path.join(GEN, "src")):
        for f in sorted(fs):
            if f.endswith(".rs"):
                files.append(os.path.relpath(os.path.join(base, f), os.path.join(GEN, "src")))
                with open(os.path.join(base, f)) as h:
                    t = h.read()
                t = t.split("#[cfg(test)]")[0]
                n += len(re.findall(r"\bfn\s+\w+", t))
    return "run_app and everything it calls: %d functions of %d source files (%s) and grammar.pest" % (n, len(files), ", ".join(sorted(files)))


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    run = build()
    try:
        if a[0] == "--setup":
            return 0
        exe = [os.path.join(run, "harness"), "--bin", os.path.join(run, "dinero"), "--scratch", os.path.join(run, "scratch")]
        if a[0] == "--replay":
            return subprocess.run(exe + ["--replay", os.path.abspath(a[1])]).returncode
        prop = a[0]
        tier = a[1] if len(a) > 1 and a[1] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cmd = exe + [
            "--prop", prop, "--tier", tier, "--seed", os.environ.get("VERIF_SEED", "1"),
            "--out", os.path.join(VERIF, "evidence", prop + ".json"),
            "--replays", os.path.join(VERIF, "replays"),
            "--known", os.path.join(VERIF, "known-findings.txt"),
            "--functions", functions(),
            "--budget", os.environ.get("SYM_BUDGET", "600" if tier == "quick" else "7200"),
        ]
        if "--unit" in a:
            cmd += ["--unit", a[a.index("--unit") + 1]]
        return subprocess.run(cmd).returncode
    finally:
        shutil.rmtree(run, ignore_errors=True)


sys.exit(main())
