"""Obtain the MIR facts of /repo's current working tree.

Builds the rustc_private driver (once, keyed on its source), then runs
`cargo +nightly check --lib` on /repo with the driver as workspace wrapper and
a target directory under /verif/build.  Nothing of /repo is executed.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MVDSA_REPO", "/repo")
BUILD = os.environ.get("MVDSA_BUILD") or os.path.join(VERIF, "build")

# foreign modules whose (small, branch-only) bodies are descended into
INLINE = [
    "core::option::", "std::option::", "core::result::", "std::result::",
    "core::ops::function::", "std::ops::function::", "core::ops::FnOnce", "std::ops::FnOnce",
    "core::ops::control_flow::", "std::ops::ControlFlow",
    "core::bool::", "core::cmp::", "std::cmp::", "bool::", "core::convert::", "std::convert::",
    "<core::option::", "<std::option::", "<core::result::", "<std::result::",
    "<std::cmp::", "<core::cmp::", "core::tuple::", "std::tuple::",
    "std::array::<impl",
]
EXPAND = [
    "std::option::Option", "core::option::Option", "std::result::Result", "core::result::Result",
    "std::ops::ControlFlow", "core::ops::ControlFlow", "std::cmp::Ordering", "core::cmp::Ordering",
    "std::ops::Range", "core::ops::Range", "std::convert::Infallible", "std::cmp::Reverse",
    "ktxstats::", "quake_clientinfo::", "quake_serverinfo::", "std::borrow::Cow",
    "std::ops::Bound", "std::num::Wrapping", "std::num::Saturating", "chrono::LocalResult",
    "chrono::offset::", "chrono::MappedLocalTime", "std::io::SeekFrom",
]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def nightly_sysroot():
    r = sh(["rustc", "+nightly", "--print", "sysroot"])
    if r.returncode:
        raise BuildError("nightly toolchain not available: " + r.stdout)
    return r.stdout.strip()


def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "driver", "main.rs")
    key = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "driver-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = sh(["rustc", "+nightly", "--edition", "2021", "-O", "-A", "warnings", "-o", tmp, src])
        if r.returncode:
            raise BuildError("driver build failed:\n" + r.stdout)
        os.rename(tmp, exe)
    return exe


SPEC = os.path.join(VERIF, "spec")


def tree_key(repo, spec=True):
    h = hashlib.sha256()
    files = []
    for base in [os.path.join(repo, "src")] + ([SPEC] if spec else []):
        for root, dirs, fs in os.walk(base):
            dirs.sort()
            for f in sorted(fs):
                files.append(os.path.join(root, f))
    for f in ("Cargo.toml", "Cargo.lock", "build.rs"):
        p = os.path.join(repo, f)
        if os.path.exists(p):
            files.append(p)
    for p in files:
        h.update(os.path.relpath(p, repo).encode() + b"\0")
        h.update(open(p, "rb").read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def make_shadow(repo, mods):
    """a scratch copy of the crate with the reference functions as an extra module"""
    sh_ = os.path.join(BUILD, "shadow")
    shutil.rmtree(sh_, ignore_errors=True)
    os.makedirs(sh_)
    for f in sorted(os.listdir(repo)):
        p = os.path.join(repo, f)
        if f in ("src", "target", ".git"):
            continue
        if f in ("Cargo.toml", "Cargo.lock"):
            shutil.copy(p, os.path.join(sh_, f))
        else:
            os.symlink(p, os.path.join(sh_, f))
    shutil.copytree(os.path.join(repo, "src"), os.path.join(sh_, "src"))
    if mods:
        d = os.path.join(sh_, "src", "verif_spec")
        os.makedirs(d)
        for m in mods:
            shutil.copy(os.path.join(SPEC, m + ".rs"), os.path.join(d, m + ".rs"))
        with open(os.path.join(d, "mod.rs"), "w") as f:
            f.write("".join("pub mod %s;\n" % m for m in mods))
        with open(os.path.join(sh_, "src", "lib.rs"), "a") as f:
            f.write("\n#[allow(warnings)]\nmod verif_spec;\n")
    return sh_


def run_driver(exe, crate_dir, out, crate):
    target = os.path.join(BUILD, "target")
    fp = os.path.join(target, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith(crate + "-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    env = dict(os.environ)
    sysroot = nightly_sysroot()
    env.update(
        RUSTC_WORKSPACE_WRAPPER=exe,
        LD_LIBRARY_PATH=os.path.join(sysroot, "lib") + ":" + env.get("LD_LIBRARY_PATH", ""),
        CARGO_TARGET_DIR=target,
        MVDSA_CRATE=crate,
        MVDSA_OUT=out + ".tmp",
        MVDSA_INLINE=",".join(INLINE),
        MVDSA_EXPAND=",".join(EXPAND),
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
    )
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC"):
        env.pop(k, None)
    if os.path.exists(out + ".tmp"):
        os.unlink(out + ".tmp")
    return sh(["cargo", "+nightly", "check", "--offline", "--locked", "--lib",
               "--manifest-path", os.path.join(crate_dir, "Cargo.toml")], env=env, cwd=crate_dir)


def spec_modules():
    return sorted(f[:-3] for f in os.listdir(SPEC) if f.endswith(".rs")) if os.path.isdir(SPEC) else []


def extract(repo=None, crate="mvdparser", keep=True):
    """facts of the crate plus the reference module; reference files which do not
    compile against the tree are left out and listed in facts["spec_dropped"]"""
    repo = repo or REPO
    exe = build_driver()
    os.makedirs(os.path.join(BUILD, "facts"), exist_ok=True)
    dk = os.path.basename(exe)
    out = os.path.join(BUILD, "facts", "%s-%s-%s.json" % (
        tree_key(repo), dk[-8:], hashlib.sha256(repr((INLINE, EXPAND)).encode()).hexdigest()[:6]))
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not os.path.exists(out):
            mods = spec_modules()
            dropped = {}
            while True:
                d = make_shadow(repo, mods)
                r = run_driver(exe, d, out, crate)
                if r.returncode == 0 and os.path.exists(out + ".tmp"):
                    break
                bad = set(re.findall(r"--> src/verif_spec/(\w+)\.rs", r.stdout)) & set(mods)
                errs = re.split(r"\n(?=error)", r.stdout)
                bad = {m for e in errs if e.startswith("error") for m in
                       re.findall(r"--> src/verif_spec/(\w+)\.rs", e)} & set(mods)
                if not bad:
                    if not mods:
                        raise BuildError("cargo check with the MIR driver failed:\n" + r.stdout[-6000:])
                    bad = set(mods)
                for m in bad:
                    dropped[m] = [e for e in errs if "verif_spec/%s.rs" % m in e][:1]
                mods = [m for m in mods if m not in bad]
            with open(out + ".tmp") as f:
                facts = json.load(f)
            facts["spec_dropped"] = dropped
            with open(out + ".tmp2", "w") as f:
                json.dump(facts, f)
            os.rename(out + ".tmp2", out)
            os.unlink(out + ".tmp")
            # keep the cache small
            fd = os.path.join(BUILD, "facts")
            olds = sorted((os.path.join(fd, f) for f in os.listdir(fd)), key=os.path.getmtime)
            for p in olds[:-40]:
                os.unlink(p)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
    with open(out) as f:
        return json.load(f)


if __name__ == "__main__":
    f = extract(sys.argv[1] if len(sys.argv) > 1 else None)
    print("types", len(f["types"]), "insts", len(f["insts"]), "fns", len(f["fns"]), "roots", len(f["roots"]))
