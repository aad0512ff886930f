"""Builds /repo's crates and compiles witness crates against them under the MIR extraction driver."""
import fcntl
import hashlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
DRIVER = os.path.join(BUILD, "driver", "debug", "mirdump")
TOOLCHAIN = "nightly"
STABLE = "1.90.0"


class BuildError(Exception):
    pass


_env = None


def env():
    global _env
    if _env is None:
        e = dict(os.environ)
        for k in list(e):
            if k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUSTDOC")) and k not in ("CARGO_HOME",):
                del e[k]
        e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
        e["CARGO_NET_OFFLINE"] = "true"
        e["CARGO_TERM_COLOR"] = "never"
        _env = e
    return dict(_env)


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.check_output(["rustc", "--print", "sysroot"], env=env(), text=True).strip()
    return _sysroot


def run_env():
    e = env()
    e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    return e


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def ensure_driver():
    with Lock("driver"):
        e = env()
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
        r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "driver"), env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("driver does not build:\n" + r.stdout[:200000])


class Base:
    """the compiled crates of /repo: search directories and the sscanf rmeta"""

    def __init__(self, dirs, sscanf, profile):
        self.dirs = dirs
        self.sscanf = sscanf
        self.profile = profile


_bases = {}


def build_base(profile):
    with Lock("base"):
        e = env()
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "base")
        e["CARGO_INCREMENTAL"] = "0"
        e["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0"
        cmd = ["cargo", "-Zchecksum-freshness", "check", "--offline", "--message-format=json", "--profile", profile]
        return subprocess.run(cmd, cwd=os.path.join(VERIF, "base"), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def source_hash():
    h = hashlib.sha256()
    for top in ("Cargo.toml", "src", "sscanf_macro", "README.md", "Readme.md"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            if "/target/" in f:
                continue
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def build_stable():
    with Lock("stable"):
        e = env()
        e["RUSTUP_TOOLCHAIN"] = STABLE
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "stable")
        e["CARGO_INCREMENTAL"] = "0"
        wd = os.path.join(VERIF, "base")
        stamp = os.path.join(BUILD, "stable.hash")
        h = source_hash()
        if not os.path.exists(stamp) or open(stamp).read() != h:
            if os.path.exists(stamp):
                os.remove(stamp)
            if os.path.isdir(e["CARGO_TARGET_DIR"]):
                subprocess.run(["cargo", "clean", "--offline", "-q", "-p", "sscanf", "-p", "sscanf_macro"], cwd=wd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "check", "--offline", "--message-format=json"], cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode == 0:
            with open(stamp, "w") as f:
                f.write(h)
        return r


def crate_items():
    """the MIR of every item of the crates sscanf and sscanf_macro themselves, compiled from /repo's current tree -> {crate: dump}"""
    ensure_driver()
    with Lock("items"):
        d = os.path.join(BUILD, "items_dump")
        os.makedirs(d, exist_ok=True)
        e = run_env()
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "items")
        e["CARGO_INCREMENTAL"] = "0"
        e["RUSTC_WRAPPER"] = DRIVER
        e["RUSTFLAGS"] = "-Zmir-opt-level=0 -Zub-checks=no"
        e["MIRDUMP_DIR"], e["MIRDUMP_CRATES"], e["MIRDUMP_MODE"] = d, "sscanf,sscanf_macro", "items"
        wd = os.path.join(VERIF, "base")
        stamp = os.path.join(d, "hash")
        with open(DRIVER, "rb") as f:
            h = source_hash() + hashlib.sha256(f.read()).hexdigest() + e["RUSTFLAGS"]
        files = {c: os.path.join(d, c + ".json") for c in ("sscanf", "sscanf_macro")}
        if not os.path.exists(stamp) or open(stamp).read() != h or not all(os.path.exists(f) for f in files.values()):
            for f in list(files.values()) + [stamp]:
                if os.path.exists(f):
                    os.remove(f)
            if os.path.isdir(e["CARGO_TARGET_DIR"]):
                subprocess.run(["cargo", "clean", "--offline", "-q", "-p", "sscanf", "-p", "sscanf_macro"], cwd=wd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            r = subprocess.run(["cargo", "check", "--offline"], cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise BuildError("the crates in /repo do not build:\n" + r.stdout[:200000])
            with open(stamp, "w") as f:
                f.write(h)
        out = {}
        for c, f in files.items():
            if not os.path.exists(f):
                raise BuildError("no MIR of the crate " + c)
            with open(f) as fh:
                out[c] = json.load(fh)
        return out


def ensure_base(profile="dev"):
    """profile: dev (debug assertions on), nodebug (off), or stable (the toolchain the repository is built with; no MIR)"""
    if profile in _bases:
        return _bases[profile]
    if profile == "stable":
        r = build_stable()
    else:
        r = build_base(profile)
    if r.returncode != 0:
        raise BuildError("the crates in /repo do not build:\n" + r.stderr[-3000:])
    dirs, sscanf = [], None
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") != "compiler-artifact":
            continue
        for f in m["filenames"]:
            d = os.path.dirname(f)
            if d not in dirs:
                dirs.append(d)
            if m["target"]["name"] == "sscanf" and f.endswith(".rmeta"):
                sscanf = f
    if sscanf is None:
        raise BuildError("no artifact for the crate sscanf")
    b = Base(dirs, sscanf, profile)
    _bases[profile] = b
    return b


def rustc_args(base, name, extra=()):
    ed = [] if "--edition" in extra else ["--edition", "2021"]
    if base.profile == "stable":
        a = ["--crate-name", name] + ed + [ "--crate-type", "lib", "--error-format=json"]
        for d in base.dirs:
            a += ["-L", "dependency=" + d]
        return a + ["--extern", "sscanf=" + base.sscanf] + list(extra)
    a = ["--crate-name", name] + ed + ["--crate-type", "lib", "--error-format=json", "--sysroot", sysroot(),
         "-Zmir-opt-level=0", "-Zalways-encode-mir", "-Ccodegen-units=1",
         "-Cdebug-assertions=" + ("on" if base.profile == "dev" else "off"),
         "-Coverflow-checks=" + ("on" if base.profile == "dev" else "off")]
    for d in base.dirs:
        a += ["-L", "dependency=" + d]
    a += ["--extern", "sscanf=" + base.sscanf]
    return a + list(extra)


class Diag:
    def __init__(self, level, message, code, line, rendered):
        self.level, self.message, self.code, self.line, self.rendered = level, message, code, line, rendered
        self.primary = []    # (line, column, last line, column after the end) of the primary spans in the witness file
        self.start = None    # first line of the witness it belongs to

    def __repr__(self):
        return "%s%s: %s" % (self.level, "[%s]" % self.code if self.code else "", self.message.splitlines()[0] if self.message else "")


def root_lines(span, fname):
    """lines of the witness file a span leads to, innermost expansion first"""
    out = []
    while span is not None:
        if os.path.basename(span["file_name"]) == fname:
            out.append(span["line_start"])
        e = span.get("expansion")
        span = e["span"] if e else None
    return out


def parse_diags(text, fname):
    out = []
    for line in text.splitlines():
        if not line.startswith("{"):
            continue
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if "message" not in m:
            continue
        lines = []
        for want in (True, False):
            for s in m.get("spans", []):
                if s["is_primary"] == want:
                    lines += root_lines(s, fname)
        for c in m.get("children", []):
            for s in c.get("spans", []):
                lines += root_lines(s, fname)
        d = Diag(m["level"], m["message"], (m.get("code") or {}).get("code"), lines[0] if lines else None, m.get("rendered") or "")
        d.primary = [(s["line_start"], s["column_start"], s["line_end"], s["column_end"]) for s in m.get("spans", [])
                     if s["is_primary"] and os.path.basename(s["file_name"]) == fname]
        out.append(d)
    return out


def workdir(tag):
    d = os.path.join(BUILD, "work", tag)
    os.makedirs(d, exist_ok=True)
    return d


class CompilerFailure(BuildError):
    """the compiler ended without saying which witness is at fault"""


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_limited(cmd, wd, e, timeout):
    p = subprocess.Popen(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         start_new_session=True, preexec_fn=limits)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        raise CompilerFailure("the compiler does not finish within %d s" % timeout)
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)


class Crate:
    """one witness crate: a preamble and modules, each mapped to a witness id"""

    def __init__(self, name, preamble, units):
        self.name = name
        self.preamble = preamble
        self.units = units  # list of (id, source of the module)

    def write(self, path, skip=()):
        lines = self.preamble.rstrip("\n").split("\n")
        ranges = {}
        for uid, src in self.units:
            if uid in skip:
                continue
            body = src.rstrip("\n").split("\n")
            ranges[uid] = (len(lines) + 1, len(lines) + len(body))
            lines += body
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        return ranges


def compile_crate(crate, base, tag, mir=True, extra=(), timeout=90, max_rounds=14):
    """-> (failures {id: [Diag]}, warnings {id: [Diag]}, data or None, other diagnostics)"""
    wd = workdir(tag)
    src = os.path.join(wd, crate.name + ".rs")
    out = os.path.join(wd, crate.name + ".json")
    fails, warns, other = {}, {}, []
    rounds = 0
    while True:
        rounds += 1
        ranges = crate.ranges = crate.write(src, skip=fails)
        e = run_env()
        if base.profile == "stable":
            assert not mir
            e["RUSTUP_TOOLCHAIN"] = STABLE
            e.pop("LD_LIBRARY_PATH", None)
        args = rustc_args(base, crate.name, list(extra) + ["--emit=metadata", "-o", os.path.join(wd, crate.name + ".rmeta"), src])
        if mir:
            if os.path.exists(out):
                os.remove(out)
            e["MIRDUMP_OUT"] = out
            e["MIRDUMP_MODE"] = "mono"
            e["MIRDUMP_ROOTS"] = "w_"
            cmd = [DRIVER, "rustc"] + args
        else:
            cmd = ["rustc"] + args
        r = run_limited(cmd, wd, e, timeout)
        diags = parse_diags(r.stderr, os.path.basename(src))
        new = {}
        other = []
        for d in diags:
            uid = None
            if d.line is not None:
                for k, (a, b) in ranges.items():
                    if a <= d.line <= b:
                        uid = k
                        d.start = a
                        break
            if d.level.startswith("error"):
                if uid is not None:
                    new.setdefault(uid, []).append(d)
                elif not d.message.startswith(("aborting due to", "Some errors have detailed", "could not compile")):
                    other.append(d)
            elif d.level == "warning" and uid is not None:
                warns.setdefault(uid, []).append(d)
        if r.returncode == 0:
            break
        if not new:
            if other:
                raise CompilerFailure("%s" % (other[0].rendered or other[0].message))
            raise CompilerFailure("the compiler ended with status %s: %s" % (r.returncode, r.stderr[-1500:]))
        fails.update(new)
        if len(fails) == len(crate.units) or rounds >= max_rounds:
            if rounds >= max_rounds and len(fails) < len(crate.units):
                raise CompilerFailure("no fixed point of failing witnesses")
            return fails, warns, None, other
    data = None
    if mir:
        with open(out) as f:
            # in edition 2015 the crate is an item of the witness crate
            data = json.loads(f.read().replace(crate.name + "::sscanf::", "sscanf::"))
        os.remove(out)
    return fails, warns, data, other
