#!/usr/bin/env python3
"""./check.py ID [--replay FILE]: build what property ID needs from /repo's working tree, run it.
./check.py setup: build everything."""
import concurrent.futures, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.environ.get("VERIF_TARGET", os.path.join(ROOT, "target"))
HARNESS = os.path.join(ROOT, "harness")
RUNTIME = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12",
           "C13", "C14", "C15", "C19"]
# feature sets of enumset that a program check links
PROGRAM = {"C16": ["base", "serde"], "C17": ["base", "serde"], "C18": ["base"], "C20": ["base", "serde"],
           "C21": ["base", "serde", "alloc", "serde-alloc", "pmc", "std", "full", "serde-pmc", "alloc-pmc",
                   "std-serde"]}
# targets under Miri
HOST_TRIPLE = "x86_64-unknown-linux-gnu"
MIRI = {"C22": [HOST_TRIPLE],
        "C23": ["i686-unknown-linux-gnu", "s390x-unknown-linux-gnu", "powerpc-unknown-linux-gnu"]}
LIBS = {
    "base": [],
    "serde": ["serde"],
    "alloc": ["alloc"],
    "pmc": ["proc-macro-crate"],
    "std": ["std"],
    "full": ["serde", "alloc", "proc-macro-crate"],
    "serde-alloc": ["serde", "alloc"],
    "serde-pmc": ["serde", "proc-macro-crate"],
    "alloc-pmc": ["alloc", "proc-macro-crate"],
    "std-serde": ["std", "serde"],
}

env = dict(os.environ)
env["VERIF_ROOT"] = ROOT
env["VERIF_REPO"] = REPO
env["VERIF_TARGET"] = TARGET
env.setdefault("VERIF_SEED", "1")
env.setdefault("VERIF_TIER", "quick")
env["CARGO_NET_OFFLINE"] = "true"
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET",
          "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_RUSTFLAGS"):
    env.pop(k, None)


def repo_hash():
    h = hashlib.sha256()
    files = []
    for d in ("enumset", "enumset_derive"):
        for p, ds, fs in os.walk(os.path.join(REPO, d)):
            ds[:] = sorted(x for x in ds if x not in ("target", "tests", ".git"))
            files += [os.path.join(p, f) for f in sorted(fs)]
    files.append(os.path.join(REPO, "Cargo.toml"))
    for f in files:
        try:
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
        except OSError:
            pass
    return h.hexdigest()


def fresh(target, manifest):
    """Cargo trusts modification times; this does not."""
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, ".repo-hash")
    now = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old is not None and old != now:
        e = dict(env, CARGO_TARGET_DIR=target)
        subprocess.run(["cargo", "clean", "--offline", "--manifest-path", manifest, "-p", "enumset",
                        "-p", "enumset_derive"], env=e, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
    with open(stamp, "w") as f:
        f.write(now)


def blame(messages):
    """The generated enums the errors of a build are about."""
    bad = set()
    lines = {}

    def type_at(path, line):
        if path not in lines:
            cur, v = "", []
            try:
                for l in open(path):
                    if l.startswith("// @type"):
                        cur = l[8:].strip()
                    v.append(cur)
            except OSError:
                pass
            lines[path] = v
        v = lines[path]
        return v[line - 1] if 0 < line <= len(v) else ""

    def walk(span, base):
        p = span["file_name"]
        if p.endswith("types.rs"):
            for q in (p, os.path.join(base, p)):
                if os.path.exists(q):
                    t = type_at(q, span["line_start"])
                    if t:
                        bad.add(t)
                    break
        if span.get("expansion"):
            walk(span["expansion"]["span"], base)

    for m in messages:
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        for s in m["message"]["spans"]:
            walk(s, HARNESS)
        bad.update(re.findall(r"\btypes::([A-Z]\w*)", m["message"].get("rendered") or ""))
    return bad


def cargo_build(args, e):
    p = subprocess.run(["cargo", "build", "--offline", "--message-format=json"] + args, cwd=HARNESS,
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    msgs = []
    for l in p.stdout.splitlines():
        try:
            msgs.append(json.loads(l))
        except ValueError:
            pass
    return p.returncode, msgs, p.stderr


def build_runtime(pids, release=False):
    return build_host(["-p", "vh"] + [x for p in pids for x in ("--bin", p.lower())], release)


def build_host(args, release=False):
    target = os.path.join(TARGET, "host")
    fresh(target, os.path.join(HARNESS, "Cargo.toml"))
    e = dict(env, CARGO_TARGET_DIR=target)
    if release:
        args.append("--release")
    excluded = set()
    for _ in range(6):
        e["VERIF_EXCLUDE"] = ",".join(sorted(excluded))
        rc, msgs, err = cargo_build(args, e)
        if rc == 0:
            return e, os.path.join(target, "release" if release else "debug")
        new = blame(msgs) - excluded
        if not new:
            break
        excluded |= new
        print("these enums do not compile (C16 decides whether they should), going on without: " + ", ".join(sorted(excluded)))
    found = {}
    for m in msgs:
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            text = m["message"].get("rendered") or ""
            sys.stderr.write(text)
            for o in owners(m["message"]):
                found.setdefault(o, []).append(text)
    if WHAT in found:
        unusable(found[WHAT], excluded)
    sys.stderr.write(err[-4000:])
    print("the harness does not build")
    sys.exit(2)


# the part of the documented interface that each property's interpreter uses
INTERPRETERS = {
    "mutate.rs": ["C01"], "algebra.rs": ["C02", "C03"], "iter.rs": ["C04"], "laws.rs": ["C05"],
    "ints.rs": ["C06", "C07"], "arrays.rs": ["C08", "C09"], "reprs.rs": ["C10"],
    "collect.rs": ["C11"], "program.rs": ["C12"], "sercheck.rs": ["C13", "C14"],
    "hostile.rs": ["C15"], "fmtcheck.rs": ["C19"],
}


def owners(message):
    """The properties whose interpreter no longer compiles against the crate."""
    found = set()

    def walk(span):
        p = span["file_name"].split("/")
        if span.get("is_primary") and p[-1] in INTERPRETERS and "vint" in p:
            found.update(INTERPRETERS[p[-1]])
        if span.get("expansion"):
            walk(dict(span["expansion"]["span"], is_primary=span.get("is_primary")))

    for s in message["spans"]:
        walk(s)
    return found


def unusable(errors, excluded):
    """The crate builds, but the property's interpreter does not compile against it: an operation
    that the property promises is not there, or not for every enum."""
    missing("operations of the documented interface are missing: the interpreter of %s does not compile" % WHAT,
            "".join(errors)[:8000])


def missing(why, text):
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    path = os.path.join(ROOT, "replays", "%s-%s.json" % (WHAT, hashlib.sha256(text.encode()).hexdigest()[:12]))
    with open(path, "w") as f:
        json.dump({"property": WHAT, "seed": int(env["VERIF_SEED"]), "kind": "build", "errors": text}, f, indent=1)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", WHAT + ".json"), "w") as f:
        json.dump({"property": WHAT, "tier": env["VERIF_TIER"], "seed": int(env["VERIF_SEED"]),
                   "level": "exploration", "violations": 1, "assumptions": [], "wall_s": 0,
                   "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "samples": [],
                                "rule": "ended early: " + why}}, f)
    print(why)
    print("VIOLATION property=%s replay=%s" % (WHAT, path))
    sys.exit(1)


LIB_TOML = """[package]
name = "plib-%(name)s"
version = "0.1.0"
edition = "2021"
[lib]
path = "lib.rs"
[workspace]
resolver = "2"
[dependencies]
enumset = { path = "%(repo)s/enumset", features = [%(features)s] }
serde = { version = "1", features = ["derive"] }
serde_derive = "1"
serde_json = "1"
[profile.dev]
opt-level = 0
debug = false
incremental = false
strip = true
[profile.dev.package."*"]
opt-level = 1
[profile.dev.package.enumset]
opt-level = 0
overflow-checks = true
debug-assertions = true
[profile.dev.package.enumset_derive]
opt-level = 0
[profile.dev.build-override]
opt-level = 1
"""


def build_libs(names):
    """enumset with each set of features, and where rustc finds it."""
    target = os.path.join(TARGET, "prog")
    os.makedirs(target, exist_ok=True)
    first = None
    libs = {}
    for n in names:
        d = os.path.join(target, "libs", n)
        os.makedirs(d, exist_ok=True)
        write(os.path.join(d, "Cargo.toml"), LIB_TOML % {
            "name": n, "repo": REPO, "features": ", ".join('"%s"' % x for x in LIBS[n])})
        write(os.path.join(d, "lib.rs"), "")
        if not os.path.exists(os.path.join(d, "Cargo.lock")):
            shutil.copy(os.path.join(HARNESS, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
        if first is None:
            first = os.path.join(d, "Cargo.toml")
            fresh(os.path.join(target, "t"), first)
        e = dict(env, CARGO_TARGET_DIR=os.path.join(target, "t"))
        p = subprocess.run(["cargo", "build", "--offline", "--message-format=json"], cwd=d, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            for l in p.stdout.splitlines():
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                    sys.stderr.write(m["message"].get("rendered") or "")
            sys.stderr.write(p.stderr[-4000:])
            why = "enumset does not build with the features of " + n
            if WHAT == "C21" and libs and "enumset/src" in p.stdout:
                # it does with others
                missing(why, p.stdout[-8000:])
            print(why)
            sys.exit(2)
        r = {"deps": os.path.join(target, "t", "debug", "deps")}
        for l in p.stdout.splitlines():
            m = json.loads(l)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] in (
                    "enumset", "serde", "serde_derive", "serde_json"):
                for f in m["filenames"]:
                    if f.endswith((".rlib", ".so")):
                        r[m["target"]["name"]] = f
        libs[n] = r
    path = os.path.join(target, "libs.json")
    try:
        old = json.load(open(path))
    except (OSError, ValueError):
        old = {}
    old.update(libs)
    write(path, json.dumps(old))


def write(path, text):
    """Keeps the modification time of files that stay the same."""
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def build_program(name):
    target = os.path.join(TARGET, "tool")
    rc, msgs, err = cargo_build(["-p", name], dict(env, CARGO_TARGET_DIR=target))
    if rc != 0:
        sys.stderr.write(err[-4000:])
        print(name + " does not build")
        sys.exit(2)
    return os.path.join(target, "debug", name)


def build_miri(triples, excluded):
    """The interpreter's sysroot and the program, for each target."""
    base = os.path.join(TARGET, "miri")

    def one(t):
        target = os.path.join(base, t)
        os.makedirs(target, exist_ok=True)
        stamp = os.path.join(target, ".repo-hash")
        now = repo_hash()
        if os.path.exists(stamp) and open(stamp).read() != now:
            for d in glob.glob(os.path.join(target, "**", ".fingerprint", "enumset*"), recursive=True):
                shutil.rmtree(d, ignore_errors=True)
        with open(stamp, "w") as f:
            f.write(now)
        e = dict(env, CARGO_TARGET_DIR=target, XDG_CACHE_HOME=os.path.join(base, "sysroot", t),
                 MIRIFLAGS="-Zmiri-disable-isolation", VERIF_EXCLUDE=excluded)
        e.pop("MIRI_SYSROOT", None)
        p = subprocess.run(["cargo", "+nightly", "miri", "setup", "--target", t], cwd=HARNESS, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            p = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "-q", "-p", "vmiri", "--target",
                                t, "--", "--list"], cwd=HARNESS, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
        return t, p.returncode, p.stdout

    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for t, rc, out in ex.map(one, triples):
            if rc != 0:
                sys.stderr.write(out[-4000:])
                print("the harness does not build for Miri, " + t)
                # undefined behaviour in a constant is an error of the build: the search shows it
                if "Undefined Behavior" not in out:
                    if WHAT == "C23" and "error[E" in out:
                        # it does for this machine
                        missing("enumset does not build for " + t, out[-8000:])
                    sys.exit(2)
    return base


def limited():
    # what wants all memory must not get it
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_check(what, cmd, rest, e):
    rc = subprocess.run(cmd + rest, env=e, cwd=ROOT, preexec_fn=limited).returncode
    if rc in (0, 1):
        return rc
    if rc > 0:
        return 2
    # a signal: the same again, noting every case before it is run
    if "--replay" in rest:
        path = os.path.abspath(rest[rest.index("--replay") + 1])
        print("the case takes the process down (signal %d)" % -rc)
        print("VIOLATION property=%s replay=%s" % (what, path))
        return 1
    print("a case took the process down (signal %d), looking for it" % -rc)
    d = tempfile.mkdtemp(dir=TARGET, prefix="trace-")
    try:
        rc = subprocess.run(cmd + rest, env=dict(e, VERIF_TRACE=d), cwd=ROOT, preexec_fn=limited).returncode
        if rc >= 0:
            return rc if rc in (0, 1) else 2
        found = 0
        for f in sorted(glob.glob(os.path.join(d, "*.json"))):
            try:
                r = json.load(open(f))
            except ValueError:
                continue
            rc = subprocess.run(cmd + ["--replay", f], env=e, cwd=ROOT, preexec_fn=limited,
                                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120).returncode
            if rc < 0:
                os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
                path = os.path.join(ROOT, "replays", "%s-%s.json" % (
                    what, hashlib.sha256(open(f, "rb").read()).hexdigest()[:12]))
                shutil.copy(f, path)
                print("violated: %s on %s\n%s\n%s\nit takes the process down (signal %d)" % (
                    what, r["target"], r["source"].rstrip(), r["note"], -rc))
                print("VIOLATION property=%s replay=%s" % (what, path))
                found += 1
        if found:
            os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
            with open(os.path.join(ROOT, "evidence", what + ".json"), "w") as f:
                json.dump({"property": what, "tier": env["VERIF_TIER"], "seed": int(env["VERIF_SEED"]),
                           "level": "exploration", "violations": found, "assumptions": [], "wall_s": 0,
                           "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "samples": [],
                                        "rule": "ended early: a case took the process down"}}, f)
            return 1
        return 2
    finally:
        shutil.rmtree(d, ignore_errors=True)


WHAT = ""


def main():
    global WHAT
    WHAT = what = sys.argv[1]
    rest = sys.argv[2:]
    if "--replay" in rest:
        r = json.load(open(rest[rest.index("--replay") + 1]))
        env["VERIF_SEED"] = str(r["seed"])
    if what == "setup":
        build_runtime(RUNTIME)
        e, d = build_host(["-p", "vmiri"])
        build_libs(list(LIBS))
        build_program("vprog")
        build_program("vm")
        build_miri(sorted(sum(MIRI.values(), [])), e.get("VERIF_EXCLUDE", ""))
        return 0
    if what in RUNTIME:
        thorough = env["VERIF_TIER"] == "thorough"
        if thorough:
            env.setdefault("VERIF_RANDOM_TYPES", "80")
        e, d = build_runtime([what])
        if "--replay" in rest and r.get("kind") == "build":
            print("the interpreter of %s compiles" % what)
            return 0
        return run_check(what, [os.path.join(d, what.lower())], rest, e)
    if what in PROGRAM:
        build_libs(PROGRAM[what])
        tool = build_program("vprog")
        if "--replay" in rest and r.get("kind") == "build":
            print("enumset builds")
            return 0
        rc = subprocess.run([tool] + rest, env=dict(env, VERIF_PROPERTY=what), cwd=ROOT).returncode
        return rc if rc in (0, 1) else 2
    if what in MIRI:
        if env["VERIF_TIER"] == "thorough":
            env.setdefault("VERIF_RANDOM_TYPES", "80")
        e, d = build_host(["-p", "vmiri"])
        base = build_miri(MIRI[what], e.get("VERIF_EXCLUDE", ""))
        tool = build_program("vm")
        if "--replay" in rest and r.get("kind") == "build":
            print("enumset builds")
            return 0
        rc = subprocess.run([tool] + rest, env=dict(e, VERIF_PROPERTY=what, VERIF_MIRI=base,
                            VERIF_NATIVE=os.path.join(d, "vmiri")), cwd=ROOT).returncode
        return rc if rc in (0, 1) else 2
    print("unknown property " + what)
    return 2


if __name__ == "__main__":
    sys.exit(main())
