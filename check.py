#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] | check.py setup

Builds what the property's check needs from /repo's working tree, runs it, writes evidence/ID.json.
Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2: the check could not be carried out."""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
JOBS = os.cpu_count() or 8


def env(**kw):
    e = {k: v for k, v in os.environ.items()
         if not (k.startswith(("CARGO_PROFILE", "CARGO_BUILD", "CARGO_TARGET", "CARGO_ENCODED", "MIRI")) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "RUSTC"))}
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUST_BACKTRACE="0")
    e.update(kw)
    return e


class BuildError(Exception):
    pass


def source_hash():
    h = hashlib.sha256()
    for top in ("shogi_core", "shogi_core_c", "include", "Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, top)
        files = [p]
        if os.path.isdir(p):
            files = []
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            if os.path.isfile(f):
                h.update(os.path.relpath(f, REPO).encode() + b"\0")
                with open(f, "rb") as fh:
                    data = fh.read()
                h.update(b"%d\0" % len(data) + data)
    return h.hexdigest()


def run(cmd, cwd, e, what, timeout=1500):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    if p.returncode != 0:
        raise BuildError(f"{what}: {' '.join(cmd)}\n{p.stdout[-6000:]}")
    return p.stdout


def cargo_build(name, toolchain, cwd, profile, args, command=("build",), tail=(), **kw):
    """One target directory per configuration. Cargo judges freshness by time stamps; the sources' hash decides here."""
    td = os.path.join(TARGET, name)
    os.makedirs(td, exist_ok=True)
    stamp = os.path.join(td, "SOURCES")
    want = source_hash()
    with open(os.path.join(td, ".verif-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        have = open(stamp).read() if os.path.exists(stamp) else None
        e = env(CARGO_TARGET_DIR=td, **kw)
        if have != want:
            # whatever was built from other sources goes, time stamps or not
            if os.path.exists(stamp):
                os.remove(stamp)
            for d, ds, fs in os.walk(td):
                if os.path.basename(d) == ".fingerprint":
                    for x in ds:
                        if re.match(r"(shogi_core|shogi_core_c)-[0-9a-f]+$", x):
                            shutil.rmtree(os.path.join(d, x))
                    ds[:] = []
        run(["cargo", f"+{toolchain}", *command, "--offline", "--profile", profile, *args, *tail], cwd, e, f"build of {name}")
        if source_hash() != want:
            raise BuildError("the sources changed during the build")
        with open(stamp, "w") as f:
            f.write(want)
    return td


def b_harness(profile, name=None, **kw):
    return lambda: cargo_build(name or f"h-{profile}", "stable", os.path.join(VERIF, "harness"), profile, [], **kw)


def install(src, name):
    """Puts a finished file under TARGET, in one step."""
    tmp = os.path.join(TARGET, f".{name}.{os.getpid()}.tmp")
    shutil.copy2(src, tmp)
    os.replace(tmp, os.path.join(TARGET, name))


def put_text(name, text, mode=0o644):
    tmp = os.path.join(TARGET, f".{name}.{os.getpid()}.tmp")
    with open(tmp, "w") as f:
        f.write(text)
    os.chmod(tmp, mode)
    os.replace(tmp, os.path.join(TARGET, name))


OLD = "nightly-2023-03-15"
C_LIB = "libshogi_core_c.so"


def b_c_std():
    td = cargo_build("c-std", "stable", REPO, "release", ["-p", "shogi_core_c", "--locked"])
    install(os.path.join(td, "release", C_LIB), "libc-std.so")


def b_c_nostd(name, out, **kw):
    def go():
        args = ["-p", "shogi_core_c", "--no-default-features", "--features", "alloc", "--locked"]
        try:
            td = cargo_build(name, OLD, REPO, "release", args, **kw)
        except BuildError:
            # Sources the older compiler cannot take. The current nightly's library needs a symbol that the shim brings along.
            td = cargo_build(name + "-new", "nightly", REPO, "release", args, **kw)
        install(os.path.join(td, "release", C_LIB), out)
    return go


class ShimError(BuildError):
    pass


def b_shim():
    os.makedirs(TARGET, exist_ok=True)
    tmp = os.path.join(TARGET, f".shim.{os.getpid()}.tmp")
    cmd = ["cc", "-O1", "-g", "-Wall", "-Wextra", "-Wno-unused-parameter", "-fPIC", "-shared", "-pthread", "-I" + os.path.join(REPO, "include"),
           os.path.join(VERIF, "cdriver", "shim.c"), "-ldl", "-o", tmp]
    try:
        run(cmd, VERIF, env(), "build of the C caller against the shipped header")
    except BuildError as x:
        raise ShimError(str(x))
    os.replace(tmp, os.path.join(TARGET, "shim.so"))


# name: toolchain, profile, features. Every set of features, over the profiles in turn; then everything with other compilers.
VM = {}
for i in range(24):
    fs = [f for f in (("", "alloc", "std")[i // 8], *(n for k, n in enumerate(("hash", "ord", "experimental")) if i >> k & 1)) if f]
    profile = ("release", "dev", "small", "mid")[(i + i // 4) % 4]
    VM["-".join(fs + [profile])] = ("stable", profile, ",".join(fs))
VM["all-dev"] = ("stable", "dev", "std,hash,ord,experimental")
VM["all-small"] = ("stable", "small", "std,hash,ord,experimental")
VM["all-nightly"] = ("nightly", "release", "std,hash,ord,experimental")
VM["all-2023"] = (OLD, "release", "std,hash,ord,experimental")


def b_vm(name):
    def go():
        tool, profile, features = VM[name]
        out = os.path.join(TARGET, f"vm-{name}.so")
        try:
            td = cargo_build("vm-" + name, tool, os.path.join(VERIF, "driver"), profile, ["--lib", "--locked", "--features", features])
        except BuildError as x:
            if tool != OLD:
                raise
            if os.path.exists(out):
                os.remove(out)
            print("note: left out, the older compiler does not take the sources:", str(x)[-300:].replace("\n", " | "))
            return
        install(os.path.join(td, "debug" if profile == "dev" else profile, "libdriver.so"), f"vm-{name}.so")
    return go


MIRI_FLAGS = "-Zmiri-disable-isolation"


def b_miri(name, target=None):
    """The sysroot, the driver's build for Miri, and a script that runs it."""
    def go():
        e = env()
        here = ["--target", target] if target else []
        root = os.path.join(TARGET, name + "-sysroot")
        with open(os.path.join(TARGET, f".{name}-lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(os.path.join(root, "DONE")):
                run(["cargo", "+nightly", "miri", "setup", *here], os.path.join(VERIF, "driver"), env(MIRI_SYSROOT=root), "Miri's sysroot")
                open(os.path.join(root, "DONE"), "w").close()
        features = "std,hash,ord,experimental"
        cargo_build(name, "nightly", os.path.join(VERIF, "driver"), "dev", ["--bin", "driver", "--locked", "--features", features, *here],
                    command=["miri", "run"], tail=["--", "/dev/null"], MIRI_SYSROOT=root, MIRIFLAGS=MIRI_FLAGS)
        lines = ["#!/bin/sh", "unset " + " ".join(sorted({k for k in os.environ if k not in e} | {"RUSTFLAGS"}))]
        lines += [f"export {k}='{v}'" for k, v in (("PATH", e["PATH"]), ("CARGO_NET_OFFLINE", "true"), ("CARGO_TERM_COLOR", "never"), ("CARGO_INCREMENTAL", "0"),
                  ("CARGO_TARGET_DIR", os.path.join(TARGET, name)), ("MIRI_SYSROOT", root), ("MIRIFLAGS", MIRI_FLAGS))]
        lines += [f"cd '{os.path.join(VERIF, 'driver')}'", f"exec cargo +nightly miri run --offline --profile dev --bin driver --locked --features {features} {' '.join(here)} -- \"$@\""]
        put_text(name + ".sh", "\n".join(lines) + "\n", 0o755)
    return go


SANITIZERS = ("address", "memory", "thread")
HOST = "x86_64-unknown-linux-gnu"


def b_san(kind):
    """The driver with a sanitizer, the standard library included (memory and thread need that to be exact)."""
    def go():
        name = "san-" + kind
        out = os.path.join(TARGET, name)
        try:
            td = cargo_build(name + ".d", "nightly", os.path.join(VERIF, "driver"), "san", ["-Zbuild-std", "--target", HOST, "--bin", "driver", "--locked", "--features", "std,hash,ord,experimental"],
                             RUSTFLAGS=f"-Zsanitizer={kind}")
            exe = os.path.join(td, HOST, "san", "driver")
            r = subprocess.run([exe, "/dev/null"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            if r.returncode != 0 or b"done" not in r.stdout:
                raise BuildError(f"the {kind} sanitizer does not start here: {r.stdout.decode(errors='replace')[-300:]}")
        except (BuildError, OSError, subprocess.TimeoutExpired) as x:
            # What these stages would find Miri finds too, in fewer scripts.
            if os.path.exists(out):
                os.remove(out)
            print("note: left out, no build with a sanitizer:", str(x)[-300:].replace("\n", " | "))
            return
        install(exe, name)
    return go


BUILDS = {
    "harness-release": b_harness("release"),
    "harness-chk": b_harness("chk"),
    "harness-guided": b_harness("chk", "h-guided", RUSTC_WRAPPER=os.path.join(VERIF, "tools", "guided-rustc.sh")),
    "c-std": b_c_std,
    "c-nostd": b_c_nostd("c-nostd", "libc-nostd.so"),
    "c-hooked": b_c_nostd("c-hooked", "libc-nostd-hooked.so", RUSTFLAGS="--cfg verif_hooks"),
    "shim": b_shim,
    "miri": b_miri("miri"),
    # 32 bits, most significant byte first
    "miri-be": b_miri("miri-be", "mips-unknown-linux-gnu"),
}
BUILDS.update({"vm-" + n: b_vm(n) for n in VM})
BUILDS.update({"san-" + n: b_san(n) for n in SANITIZERS})
HARNESS = ["harness-release", "harness-chk"]
NEEDS = {f"C{i:02}": HARNESS for i in list(range(1, 20)) + [23, 24, 25, 26, 28, 29, 31]}
# The properties with searches over generated values; also searched guided by coverage.
GUIDED = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C18", "C22", "C23", "C24", "C25", "C28", "C29", "C31"]
for pid_ in GUIDED:
    NEEDS[pid_] = HARNESS + ["harness-guided"]
NEEDS["C20"] = HARNESS + ["c-std", "shim"]
NEEDS["C21"] = HARNESS + ["c-std", "c-nostd", "c-hooked", "shim"]
NEEDS["C22"] = HARNESS + ["harness-guided", "miri", "san-address", "san-memory"]
NEEDS["C30"] = HARNESS + ["miri", "san-thread", "c-std", "c-nostd", "shim"]
NEEDS["C27"] = HARNESS + ["vm-" + n for n in VM] + ["miri-be"]


def build(names):
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        futs = [ex.submit(BUILDS[n]) for n in names]
        errs = []
        for f in futs:
            try:
                f.result()
            except BuildError as x:
                errs.append(x)
        for x in errs:
            if not isinstance(x, ShimError):
                raise x
        if errs:
            raise errs[0]
    if any(n.startswith("vm-") for n in names):
        put_text("vm-builds", "".join(f"{n}\t{os.path.join(TARGET, f'vm-{n}.so')}\n" for n in VM if os.path.exists(os.path.join(TARGET, f"vm-{n}.so"))))


def probe():
    """Says which type cannot be compared as C19 has it, if that is why the harness does not build."""
    where = os.path.join(VERIF, "probe")
    try:
        td = cargo_build("probe-core", "stable", os.path.join(REPO, "shogi_core"), "dev", ["--features", "std,hash,ord"], command=("check",))
    except BuildError:
        return None
    for features in ([], ["--features", "all"]):
        try:
            cargo_build("probe", "stable", where, "dev", ["--locked", *features], command=("check",))
        except BuildError as x:
            if re.search(r"error\[E0277\]", str(x)) and not re.search(r"error\[E0(?!277)", str(x)):
                return str(x)
    return None


def exe(profile, name=None):
    return os.path.join(TARGET, name or f"h-{profile}", profile, "harness")


def main(a):
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        build(list(BUILDS))
        return 0
    pid = a[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = os.environ.get("VERIF_SEED") or "1"
    if not seed.isdigit():
        seed = str(int(hashlib.sha256(seed.encode()).hexdigest()[:12], 16))
    if pid not in NEEDS:
        print(f"no check for {pid}")
        return 2
    try:
        build(NEEDS[pid])
    except BuildError as x:
        if isinstance(x, ShimError) and pid == "C20":
            what, text = "A C program that uses the shipped header's functions as documented does not compile", str(x)
        else:
            what, text = "A program that compares, orders and hashes values of every type does not compile", probe() if pid == "C19" else None
            if text is None:
                raise
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        f = os.path.join(VERIF, "replays", f"{pid}-does-not-compile.txt")
        with open(f, "w") as fh:
            fh.write(text)
        print(what + "; to replay, run the check again.\n" + text[-3000:])
        print(f"VIOLATION property={pid} replay={f}")
        return 1
    scratch = os.path.join(TARGET, "scratch", f"{pid}-{os.getpid()}")
    os.makedirs(scratch)
    try:
        common = ["--scratch", scratch, "--tools", TARGET]
        if "--replay" in a:
            f = a[a.index("--replay") + 1]
            with open(f) as fh:
                profile = "chk" if '"variant": "chk"' in fh.read() else "release"
            return subprocess.run([exe(profile), "replay", pid, os.path.abspath(f)] + common, env=env()).returncode
        budget = "300" if tier == "quick" else "3000"
        p = subprocess.run([exe("release"), "run", pid, "--tier", tier, "--seed", seed, "--evidence", os.path.join(VERIF, "evidence", pid + ".json"),
                            "--replays", os.path.join(VERIF, "replays"), "--chk", exe("chk"), "--jobs", str(JOBS), "--budget", budget]
                           + (["--guided", exe("chk", "h-guided")] if pid in GUIDED else []) + common, env=env())
        return p.returncode if p.returncode in (0, 1) else 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except BuildError as x:
        print("the check could not be built:", x)
        code = 2
    except Exception as x:  # noqa: BLE001
        print("the check could not be carried out:", repr(x))
        code = 2
    sys.exit(code)
