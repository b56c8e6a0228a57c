"""C01: what configure.py writes, for any environment, answers and file system."""
import atexit, contextlib, importlib.util, io, os, re, shutil, subprocess, sys, tempfile
from unittest import mock

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "common"))
import pypbt  # noqa: E402
from pypbt import prop  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
spec = importlib.util.spec_from_file_location("lce_configure", os.path.join(REPO, "configure.py"))
CONF = importlib.util.module_from_spec(spec)
sys.dont_write_bytecode = True
spec.loader.exec_module(CONF)

ROOT = tempfile.mkdtemp(prefix="c01.")
atexit.register(shutil.rmtree, ROOT, True)
WORK = os.path.join(ROOT, "work dir")
os.makedirs(WORK)


def touch(path, text="", mode=0o644):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)
    os.chmod(path, mode)
    return path


# Interpreters: real ones under names of their own, one of Python 2, and things that are none.
REAL = [p for p in ("/usr/bin/python3", "/opt/lce/venv/bin/python", sys.executable) if os.path.exists(p)]
PYTHONS = {}
for k, real in enumerate(REAL):
    path = touch(os.path.join(ROOT, "py", "python %d" % k), '#!/bin/sh\nexec %s "$@"\n' % real, 0o755)
    q = subprocess.run([real, "-c", "import site, sys; print('%d.%d' % sys.version_info[:2]); print('\\n'.join(site.getsitepackages()))"],
                       stdout=subprocess.PIPE, check=True).stdout.decode().split("\n")
    PYTHONS[path] = (q[0], [p for p in sorted(set(q[1:])) if p and os.path.isdir(p)])
OLD = touch(os.path.join(ROOT, "py", "python2"), '#!/bin/sh\ncase "$2" in *version*) echo 2.7;; *) echo %s;; esac\n' % WORK, 0o755)
BAD = [os.path.join(ROOT, "py", "nothing here"), touch(os.path.join(ROOT, "py", "plain file"), "x"), os.path.join(ROOT, "py")]
PYTHONS = {p: v for p, v in PYTHONS.items() if v[1]}
LIBS = [os.path.join(ROOT, "lib", n) for n in ("a", "b b", "c")]
for d in LIBS:
    os.makedirs(d)


class Stop(Exception):
    """The configuration is refused."""


class Model:
    """What is chosen: an environment variable, else an answer, else the default."""

    def __init__(self, env, answers):
        self.env, self.answers, self.at, self.lines = dict(env), answers, 0, []

    def ask(self):
        self.at += 1
        return self.answers[self.at - 1] if self.at <= len(self.answers) else ""

    def value(self, name, default):
        return self.env.get(name) or self.ask() or default

    def flag(self, name, default):
        v = self.env.get(name)
        if v is not None:
            v = v.strip().lower()
            if v in ("1", "t", "true", "y", "yes"):
                return True
            if v in ("0", "f", "false", "n", "no"):
                return False
            raise Stop()
        while True:
            v = self.ask().strip().lower()
            if v in ("y", "n", ""):
                return default if v == "" else v == "y"

    def valid(self, name, default, ok):
        default = self.env.get(name) or default
        for _ in range(10):
            v = self.value(name, default)
            if ok(v):
                return v
            self.env[name] = ""
        raise Stop()

    def set(self, name, value):
        self.lines.append('build --action_env %s="%s"' % (name, value))

    def run(self, system):
        while True:
            py = self.value("PYTHON_BIN_PATH", sys.executable)
            if os.path.isfile(py) and os.access(py, os.X_OK):
                break
            self.env["PYTHON_BIN_PATH"] = ""
        version, site = PYTHONS[py] if py in PYTHONS else ("2.7", [WORK])
        paths = (self.env.get("PYTHONPATH") or "").split(":")
        lib = self.env.get("PYTHON_LIB_PATH")
        if not lib:
            found = sorted(set(p for p in site + paths if p and os.path.isdir(p)))
            lib = found[0]
            if self.env.get("USE_DEFAULT_PYTHON_LIB_PATH") != "1":
                lib = self.ask() or lib
        if py == OLD:
            raise Stop()
        self.version = version
        self.set("PYTHON_BIN_PATH", py)
        self.set("PYTHON_LIB_PATH", lib)
        self.lines.append('build --python_path="%s"' % py)
        if self.env.get("PYTHONPATH") and lib in paths:
            self.set("PYTHONPATH", self.env["PYTHONPATH"])
        for o in self.value("CC_OPT_FLAGS", "-mcpu=native" if system == "ppc" else "-Wno-sign-compare").split():
            self.lines += ["build:opt --copt=" + o, "build:opt --host_copt=" + o]
        if self.flag("LCE_SET_ANDROID_WORKSPACE", False):
            self.android("library/Android/Sdk" if system == "mac" else "Android/Sdk")

    def android(self, where):
        home, has = self.env["HOME"], os.path.exists
        ndk = self.valid("ANDROID_NDK_HOME", "%s/%s/ndk-bundle" % (home, where), lambda p: has(os.path.join(p, "source.properties")))
        with open(os.path.join(ndk, "source.properties")) as f:
            m = re.search(r"Pkg.Revision = (\d+)", f.read())
        if not m:
            raise Stop()
        self.set("ANDROID_NDK_VERSION", m.group(1))
        if not has(os.path.join(ndk, "meta", "platforms.json")):
            raise Stop()
        api = self.valid("ANDROID_NDK_API_LEVEL", "26", lambda v: True)
        self.set("ANDROID_NDK_HOME", ndk)
        self.set("ANDROID_NDK_API_LEVEL", api)
        sdk = self.valid("ANDROID_SDK_HOME", "%s/%s" % (home, where), lambda p: has(os.path.join(p, "platforms")) and has(os.path.join(p, "build-tools")))
        levels = sorted(os.listdir(os.path.join(sdk, "platforms")))
        level = self.valid("ANDROID_API_LEVEL", levels[-1].replace("android-", ""), lambda v: has(os.path.join(sdk, "platforms", "android-" + v)))
        tools = sorted(os.listdir(os.path.join(sdk, "build-tools")))
        tool = self.valid("ANDROID_BUILD_TOOLS_VERSION", tools[-1], lambda v: has(os.path.join(sdk, "build-tools", v)))
        self.set("ANDROID_BUILD_TOOLS_VERSION", tool)
        self.set("ANDROID_SDK_API_LEVEL", level)
        self.set("ANDROID_SDK_HOME", sdk)


def make_android(c, base):
    """An NDK and an SDK below `base`, sometimes incomplete; -> (ndk, sdk)"""
    ndk, sdk = os.path.join(base, "ndk-bundle"), base
    if c.coin(90):
        touch(os.path.join(ndk, "source.properties"), c.pick(["Pkg.Desc = Android NDK\nPkg.Revision = %d.1.7\n" % c.pick([21, 25, 19, 20, 27, 8]), "Pkg.Desc = x\n"])
              if c.coin(10) else "Pkg.Desc = Android NDK\nPkg.Revision = %d.2.1\n" % c.pick([21, 25, 19, 20, 27, 8]))
        if c.coin(95):
            touch(os.path.join(ndk, "meta", "platforms.json"), '{"min": 16, "max": 31, "aliases": {"20": 19, "25": 24, "J": 16, "S": 31}}')
    if c.coin(90):
        for v in set(c.pick([21, 23, 28, 29, 30, 31]) for _ in range(c.range(1, 3))):
            os.makedirs(os.path.join(sdk, "platforms", "android-%d" % v))
        if c.coin(92):
            for v in set(c.pick(["28.0.3", "30.0.0", "30.0.3", "31.0.0-rc1"]) for _ in range(c.range(1, 3))):
                os.makedirs(os.path.join(sdk, "build-tools", v))
    return ndk, sdk


@prop
def C01(c):
    base = tempfile.mkdtemp(dir=ROOT)
    try:
        one(c, base)
    finally:
        shutil.rmtree(base)


def one(c, base):
    system = c.pick(["linux", "linux", "mac", "ppc"])
    home = os.path.join(base, "home")
    os.makedirs(home)
    ndk, sdk = make_android(c, os.path.join(home, "library/Android/Sdk" if system == "mac" else "Android/Sdk"))
    ndk2, sdk2 = make_android(c, os.path.join(base, "other sdk"))
    goods = {
        "PYTHON_BIN_PATH": list(PYTHONS) + [OLD] * c.coin(20) + BAD, "PYTHON_LIB_PATH": LIBS + ["/not/there"],
        "USE_DEFAULT_PYTHON_LIB_PATH": ["1", "0", "yes"], "PYTHONPATH": [":".join(c.shuffle(LIBS + ["/not/there"])[:c.range(1, 3)])],
        "CC_OPT_FLAGS": ["-O3", "-O2  -march=native", "-DX=\"a\" -g", " "], "LCE_SET_ANDROID_WORKSPACE": ["1", "yes", " Y ", "TRUE", "t", "0", "No", "f", "2", "", "on"],
        "ANDROID_NDK_HOME": [ndk, ndk2, sdk, "/not/there"], "ANDROID_SDK_HOME": [sdk, sdk2, ndk, "/not/there"], "ANDROID_NDK_API_LEVEL": ["21", "26", "x"],
        "ANDROID_API_LEVEL": ["28", "29", "30", "99"], "ANDROID_BUILD_TOOLS_VERSION": ["30.0.3", "28.0.3", "1.2"]}
    env = {"HOME": home, "PATH": os.environ["PATH"]}
    for k, v in goods.items():
        if c.coin(75 if k == "PYTHON_BIN_PATH" else 35):
            env[k] = c.pick(v) if c.coin(93) else ""
    # Which questions are asked depends on the answers: they are answered as they come.
    answers, asked = [], [0]
    pool = [a for v in goods.values() for a in v] + ["y", "n", "Y", " n ", "maybe", ""]
    limit = c.range(0, 40)
    default_py = c.pick(list(PYTHONS))

    def reply(question):
        asked[0] += 1
        if len(answers) >= limit:
            raise EOFError()
        q = question.lower()
        keys = [k for w, k in (("location of python", "PYTHON_BIN_PATH"), ("library path", "PYTHON_LIB_PATH"), ("optimization flags", "CC_OPT_FLAGS"), ("android ndk to use", "ANDROID_NDK_HOME"),
                               ("android sdk to use", "ANDROID_SDK_HOME"), ("sdk api level", "ANDROID_API_LEVEL"), ("ndk api level", "ANDROID_NDK_API_LEVEL"), ("build tools version", "ANDROID_BUILD_TOOLS_VERSION")) if w in q]
        how = c.weighted([50, 25, 25])
        a = c.pick(goods[keys[0]] if keys else ["y", "y", "n", "Y ", "maybe", "no"]) if how == 0 else "" if how == 1 else c.pick(pool)
        answers.append(a)
        return a
    old = c.coin(50)
    if old:
        touch(os.path.join(WORK, ".lce_configure.bazelrc"), "build --something=old\n")
    elif os.path.exists(os.path.join(WORK, ".lce_configure.bazelrc")):
        os.unlink(os.path.join(WORK, ".lce_configure.bazelrc"))
    before = dict(env)
    real = sys.executable
    out, error = io.StringIO(), None
    here = os.getcwd()
    try:
        os.chdir(WORK)
        sys.executable = default_py
        # The child's standard error goes where ours would.
        out.fileno = lambda: 2
        with mock.patch.dict(os.environ, env, clear=True), mock.patch("builtins.input", reply), contextlib.redirect_stdout(out), \
                mock.patch("platform.system", lambda: "Darwin" if system == "mac" else "Linux"), mock.patch("platform.machine", lambda: "ppc64le" if system == "ppc" else "x86_64"):
            try:
                CONF.main()
            except (Exception, SystemExit) as e:  # noqa: BLE001
                error = e
            if dict(os.environ) != env:
                c.fail("the environment changed")
        m = Model(before, list(answers))
        try:
            m.run(system)
            stop = False
        except Stop:
            stop = True
    finally:
        sys.executable = real
        os.chdir(here)
    names = {p: os.path.basename(p) for p in PYTHONS}
    c.desc("%s env={%s} answers=%s" % (system, ", ".join("%s=%r" % (k, v.replace(base, "~").replace(ROOT, "/c01")) for k, v in sorted(env.items()) if k not in ("HOME", "PATH")),
                                       [a.replace(base, "~").replace(ROOT, "/c01") for a in answers]))
    if stop:
        if error is None:
            c.fail("an impossible configuration was accepted")
        c.label("refused")
        return
    if error is not None:
        c.fail("failed: %s: %s" % (type(error).__name__, error))
    if asked[0] != m.at:
        c.fail("asked %d questions, expected %d" % (asked[0], m.at))
    with open(os.path.join(WORK, ".lce_configure.bazelrc")) as f:
        got = f.read().splitlines()
    opts = lambda ls: [x for x in ls if x.startswith("build:opt")]  # noqa: E731
    if sorted(got) != sorted(m.lines) or opts(got)[0::2] != opts(m.lines)[0::2] or opts(got)[1::2] != opts(m.lines)[1::2]:
        c.fail("wrote %s, expected %s" % (sorted(set(got) - set(m.lines)) or got, sorted(set(m.lines) - set(got)) or m.lines))
    if "Python %s " % m.version not in out.getvalue():
        c.fail("does not say that Python %s was chosen" % m.version)
    if os.listdir(WORK) != [".lce_configure.bazelrc"]:
        c.fail("left other files behind: %s" % os.listdir(WORK))
    c.label("android" if any("ANDROID" in x for x in got) else "plain")
    if any(b in answers or b in env.values() for b in BAD):
        c.label("asked again")
    c.nontrivial(bool(answers) or len(env) > 3)


if __name__ == "__main__":
    sys.exit(pypbt.main())
