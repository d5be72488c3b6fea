"""Builds the MIR driver, prepares dependency metadata and talks to the driver.

Everything is derived from /repo's working tree at the time of the call."""
import tomllib, fcntl, hashlib, json, os, socket, subprocess, sys, tempfile, time, shutil, atexit, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PODO_REPO", "/repo")
BUILD = os.environ.get("PODO_VERIF_BUILD", os.path.join(VERIF, "build"))


def _env():
    e = dict(os.environ)
    home = e.get("HOME") or "/root"
    e["HOME"] = home
    cb = os.path.join("/root", ".cargo", "bin")
    e["PATH"] = cb + ":" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTC"):
        e.pop(k, None)
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_TERM_COLOR"] = "never"
    return e


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def sysroot():
    return subprocess.check_output(["rustc", "--print", "sysroot"], env=_env(), text=True).strip()


def build_driver():
    src = os.path.join(VERIF, "driver", "mirserve.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "mirserve-" + h)
    with Lock("driver"):
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            r = subprocess.run(
                ["rustc", "-O", "--edition", "2021", src, "-o", tmp], env=_env(),
                capture_output=True, text=True)
            if r.returncode != 0:
                sys.stderr.write(r.stderr[-4000:])
                raise RuntimeError("driver build failed")
            os.rename(tmp, out)
    return out


def build_deps():
    """cargo check of /repo with MIR kept for every dependency; returns rustc args."""
    e = _env()
    e["RUSTFLAGS"] = "-Zalways-encode-mir --cap-lints allow"
    tdir = os.path.join(BUILD, "deps")
    with Lock("deps"):
        r = subprocess.run(
            ["cargo", "check", "--offline", "--locked", "--bin", "podo", "--target-dir", tdir,
             "--message-format=json"], cwd=REPO, env=e, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-6000:])
        raise RuntimeError("cargo check of the code under test failed")
    dirs, files, target = [], {}, None
    for l in r.stdout.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("reason") != "compiler-artifact":
            continue
        t = j["target"]
        if "custom-build" in t["kind"]:
            continue
        for f in j["filenames"]:
            d = os.path.dirname(f)
            if d not in dirs:
                dirs.append(d)
            if t["kind"] == ["bin"]:
                target = (t["src_path"], t.get("edition", "2021"))
            elif f.endswith((".rmeta", ".so")):
                files[t["name"].replace("-", "_")] = f
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as f:
        ct = tomllib.load(f)
    args = ["--crate-name", "podo", "--edition=" + target[1], target[0], "--crate-type", "bin",
            "--emit=metadata", "-Zalways-encode-mir", "-Zmir-opt-level=0", "--cap-lints", "allow",
            "-Zub-checks=no", "-C", "debug-assertions=on", "-C", "overflow-checks=on"]
    for d in dirs:
        args += ["-L", "dependency=" + d]
    for dep in ct.get("dependencies", {}):
        n = dep.replace("-", "_")
        if n in files:
            args += ["--extern", n + "=" + files[n]]
    return args


class Client:
    def __init__(self, sock):
        self.path = sock
        self.pid = None
        self.s = None

    def _conn(self):
        if self.pid != os.getpid():
            self.s = socket.socket(socket.AF_UNIX)
            self.s.connect(self.path)
            self.f = self.s.makefile("rwb")
            self.pid = os.getpid()

    def req(self, *toks):
        self._conn()
        self.f.write((" ".join(str(t) for t in toks) + "\n").encode())
        self.f.flush()
        l = self.f.readline()
        if not l:
            raise RuntimeError("driver died on request %r" % (toks,))
        return json.loads(l)


def start():
    drv = build_driver()
    args = build_deps()
    root = sysroot()
    tmp = tempfile.mkdtemp(prefix="mirserve")
    sock = os.path.join(tmp, "s")
    e = _env()
    e["PODO_MIR_SOCK"] = sock
    e["LD_LIBRARY_PATH"] = os.path.join(root, "lib")
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as f:
        pk = tomllib.load(f)["package"]
    e["CARGO_MANIFEST_DIR"] = REPO
    for k, v in pk.items():
        if isinstance(v, str):
            e["CARGO_PKG_" + k.upper().replace("-", "_")] = v
    for i, n in enumerate(("MAJOR", "MINOR", "PATCH")):
        e["CARGO_PKG_VERSION_" + n] = pk["version"].split(".")[i]
    e["CARGO_BIN_NAME"] = e["CARGO_CRATE_NAME"] = "podo"
    log = open(os.path.join(tmp, "log"), "w")
    p = subprocess.Popen([drv] + args + ["--sysroot", root, "--out-dir", tmp], env=e, stdout=log,
                         stderr=log, cwd=REPO)
    owner = os.getpid()

    def stop():
        if os.getpid() == owner:
            p.kill()
            p.wait()
            shutil.rmtree(tmp, ignore_errors=True)

    atexit.register(stop)
    t0 = time.time()
    while not os.path.exists(sock):
        if p.poll() is not None or time.time() - t0 > 120:
            sys.stderr.write(open(os.path.join(tmp, "log")).read()[-4000:])
            raise RuntimeError("driver did not start")
        time.sleep(0.02)
    c = Client(sock)
    c.stop = stop
    return c


if __name__ == "__main__":
    t = time.time()
    c = start()
    print("start", time.time() - t)
    for f in c.req("fns"):
        print(f)
