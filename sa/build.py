"""Builds everything a check needs from /repo's current working tree: the MIR dumper (once),
the crates under analysis, and the MIR dump.  Self-contained: every check calls it."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class BuildError(Exception):
    pass


def run(cmd, env=None, cwd=None, what=""):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(env or {})
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("%s failed:\n%s" % (what or cmd[0], r.stdout.decode(errors="replace")[-4000:]))
    if os.environ.get("SA_DEBUG"): print(r.stdout.decode()[-3000:])
    return r.stdout.decode(errors="replace")


_sr = None


def sysroot():
    global _sr
    if _sr is None:
        _sr = run(["rustc", "+nightly", "--print", "sysroot"]).strip().splitlines()[-1]
    return _sr


def sha(*files):
    h = hashlib.sha256(repr(MIRFLAGS).encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    h = sha(src)
    out = os.path.join(BUILD, "mirdump-" + h[:16])
    if not os.path.exists(out):
        sr = sysroot()
        run(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", out + ".tmp", "-C",
             "link-arg=-Wl,-rpath,%s/lib" % sr], env={"LD_LIBRARY_PATH": sr + "/lib"}, what="building the MIR dumper")
        os.rename(out + ".tmp", out)
    return out


def registry(name):
    l = sorted(glob.glob("/root/.cargo/registry/src/*/" + name))
    if not l:
        raise BuildError("crate %s not found in the cargo cache" % name)
    return l[-1]


MIRFLAGS = ["-Zalways-encode-mir", "-Zmir-opt-level=0", "-Cdebug-assertions=on", "-Coverflow-checks=on", "-Zub-checks=no",
            "--cap-lints", "allow"]


def sources(d):
    return sorted(glob.glob(os.path.join(d, "**", "*.rs"), recursive=True))


def joker_dump():
    """Returns (path of the dump, content hash of everything that went into it)."""
    with lock():
        drv = driver()
        har = os.path.join(VERIF, "harness", "joker.rs")
        src = sources(os.path.join(REPO, "crates/joker/src"))
        h = sha(drv, har, *src)
        d = os.path.join(BUILD, "joker-" + h[:16])
        out = os.path.join(d, "dump.json")
        if os.path.exists(out):
            return out, h
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        sr = sysroot()
        env = {"LD_LIBRARY_PATH": sr + "/lib"}
        run(["rustc", "+nightly", "--edition", "2015", "--crate-name", "ucd", "--crate-type", "rlib", "--out-dir", d,
             registry("ucd-0.1.1") + "/src/lib.rs"] + MIRFLAGS, env=env, what="building ucd")
        run(["rustc", "+nightly", "--edition", "2015", "--crate-name", "joker", "--crate-type", "rlib", "--out-dir", d,
             "-L", d, "--extern", "ucd=%s/libucd.rlib" % d, os.path.join(REPO, "crates/joker/src/lib.rs")] + MIRFLAGS,
            env=env, what="building joker")
        env["MIRDUMP_OUT"] = out + ".tmp"
        run([drv, "--sysroot", sr, "--edition", "2015", "--crate-name", "h_joker", "--crate-type", "rlib",
             "--out-dir", d, "-L", d, har, "--extern", "joker=%s/libjoker.rlib" % d] + MIRFLAGS, env=env,
            what="dumping MIR")
        os.rename(out + ".tmp", out)
        return out, h


def _lib(n, d, f=""):
    so = "%s/lib%s.so" % (d, f or n)
    return "%s=%s" % (n, so if os.path.exists(so) else "%s/lib%s.rlib" % (d, f or n))


def _rlib(d, crate, src, externs, edition="2015", feats=(), env=None):
    cmd = ["rustc", "+nightly", "--edition", edition, "--crate-name", crate, "--crate-type", "rlib", "--out-dir", d, "-L", d, src]
    for x in externs:
        n, _, f = x.partition("=")
        cmd += ["--extern", _lib(n, d, f)]
    for f in feats:
        cmd += ["--cfg", 'feature="%s"' % f]
    run(cmd + MIRFLAGS, env=env, what="building " + crate)


def _serde(d, env):
    """serde_json 0.8 and what it needs, with MIR, once."""
    r = registry
    _rlib(d, "num_traits2", r("num-traits-0.2.19") + "/src/lib.rs", [], "2021", ["std"], env)
    _rlib(d, "num_traits", r("num-traits-0.1.43") + "/src/lib.rs", ["num_traits=num_traits2"], env=env)
    _rlib(d, "itoa", r("itoa-0.1.1") + "/src/lib.rs", [], env=env)
    _rlib(d, "dtoa", r("dtoa-0.2.2") + "/src/lib.rs", [], env=env)
    _rlib(d, "serde", r("serde-0.8.23") + "/src/lib.rs", [], feats=["std", "default"], env=env)
    _rlib(d, "serde_json", r("serde_json-0.8.6") + "/src/lib.rs", ["serde", "num_traits", "itoa", "dtoa"], env=env)


def harness_dump(name, crates, har, prepare, more=()):
    """Compiles crates [(crate, source, externs)] after prepare(dir, env), then dumps the MIR of a harness."""
    with lock():
        drv = driver()
        har = os.path.join(VERIF, "harness", har)
        src = []
        for c, s, x in crates:
            src += sources(os.path.dirname(s))
        h = sha(drv, har, *(src + list(more)))
        d = os.path.join(BUILD, "%s-%s" % (name, h[:16]))
        out = os.path.join(d, "dump.json")
        if os.path.exists(out):
            return out, h
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        sr = sysroot()
        env = {"LD_LIBRARY_PATH": sr + "/lib"}
        prepare(d, env)
        for c, s, x in crates:
            _rlib(d, c, s, x, env=env)
        env["MIRDUMP_OUT"] = out + ".tmp"
        cmd = [drv, "--sysroot", sr, "--edition", "2015", "--crate-name", "h_" + name, "--crate-type", "rlib",
               "--out-dir", d, "-L", d, har]
        for c, s, x in crates:
            cmd += ["--extern", "%s=%s/lib%s.rlib" % (c, d, c)]
            for n in x:
                cmd += ["--extern", _lib(n, d)]
        run(cmd + MIRFLAGS, env=env, what="dumping MIR")
        os.rename(out + ".tmp", out)
        return out, h


def serde_dir():
    """Directory with serde_json's rlibs, built once per toolchain."""
    d = os.path.join(BUILD, "serde")
    if not os.path.exists(os.path.join(d, "ok")):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        _serde(d, {"LD_LIBRARY_PATH": sysroot() + "/lib"})
        open(os.path.join(d, "ok"), "w").close()
    return d


def _serde_into(d, env):
    for f in glob.glob(os.path.join(serde_dir(), "*.rlib")):
        os.link(f, os.path.join(d, os.path.basename(f)))


def unjson_dump():
    return harness_dump("unjson", [("unjson", os.path.join(REPO, "crates/unjson/src/lib.rs"), ["serde_json"])], "unjson.rs", _serde_into)


SYN_EXTRA = """
pub struct BlockCheckMode;
#[allow(non_upper_case_globals)]
impl BlockCheckMode { pub const Default: Unsafety = Unsafety::Normal; }
"""
TRISTATE = """
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TriState { Yes, No, Unknown }
impl From<bool> for TriState { fn from(b: bool) -> TriState { if b { TriState::Yes } else { TriState::No } } }
"""


def macro_dir():
    """What crates/derive is built with: syn 0.11.11 with the few names of 0.10 that crate uses (0.10 is not in the
    cargo cache), and a stand-in for tristate (not in the cache either)."""
    d = os.path.join(BUILD, "macros")
    if not os.path.exists(os.path.join(d, "ok")):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        env = {"LD_LIBRARY_PATH": sysroot() + "/lib"}
        _rlib(d, "quote", registry("quote-0.3.15") + "/src/lib.rs", [], env=env)
        _rlib(d, "unicode_xid", registry("unicode-xid-0.0.4") + "/src/lib.rs", [], feats=["default"], env=env)
        _rlib(d, "synom", registry("synom-0.11.3") + "/src/lib.rs", ["unicode_xid"], env=env)
        sd = os.path.join(d, "syn")
        shutil.copytree(registry("syn-0.11.11"), sd)
        f = os.path.join(sd, "src", "expr.rs")
        with open(f) as h:
            t = h.read()
        i = t.index("pub struct FieldPat")
        t = t[:i] + t[i:].replace("    pub attrs: Vec<Attribute>,\n", "", 1)
        for sp in (16, 20):
            i = t.index("FieldPat {\n", t.index("named!(field_pat"))
            t = t[:i] + t[i:].replace(" " * sp + "attrs: Vec::new(),\n", "", 1)
        with open(f, "w") as h:
            h.write(t)
        with open(os.path.join(sd, "src", "lib.rs"), "a") as h:
            h.write(SYN_EXTRA)
        _rlib(d, "syn", sd + "/src/lib.rs", ["quote", "unicode_xid", "synom"],
              feats=["full", "expand", "parsing", "printing", "unicode-xid", "synom", "quote"], env=env)
        with open(os.path.join(d, "tristate.rs"), "w") as h:
            h.write(TRISTATE)
        _rlib(d, "tristate", os.path.join(d, "tristate.rs"), [], env=env)
        open(os.path.join(d, "ok"), "w").close()
    return d


def _upper_into(d, env):
    _serde_into(d, env)
    for f in glob.glob(os.path.join(macro_dir(), "*.rlib")):
        os.link(f, os.path.join(d, os.path.basename(f)))
    _rlib(d, "ucd", registry("ucd-0.1.1") + "/src/lib.rs", [], env=env)
    run(["rustc", "+nightly", "--edition", "2015", "--crate-name", "derive", "--crate-type", "proc-macro", "--out-dir", d, "-L", d,
         os.path.join(REPO, "crates/derive/src/lib.rs"), "--extern", "syn=%s/libsyn.rlib" % d, "--extern",
         "quote=%s/libquote.rlib" % d, "--cap-lints", "allow"], env=env, what="building derive")


def upper_dump(har, name):
    """Everything above the tokenizer: easter, estree, esprit."""
    c = lambda n: os.path.join(REPO, "crates", n, "src/lib.rs")  # noqa: E731
    crates = [("joker", c("joker"), ["ucd"]), ("unjson", c("unjson"), ["serde_json"]), ("easter", c("easter"), ["joker", "derive"]),
              ("estree", c("estree"), ["serde", "serde_json", "unjson", "joker", "easter"]),
              ("esprit", os.path.join(REPO, "src/lib.rs"),
               ["serde", "serde_json", "tristate", "estree", "unjson", "easter", "joker"])]
    return harness_dump(name, crates, har, _upper_into, [os.path.join(REPO, "crates/derive/src/lib.rs")])


if __name__ == "__main__":
    t = time.time()
    print(joker_dump(), "%.1fs" % (time.time() - t))
    print(unjson_dump(), "%.1fs" % (time.time() - t))
