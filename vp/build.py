"""Stage /repo, write schemas and glue, and build one instrumented configuration of it with the harness."""
import os, subprocess, sys, time, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CMAKE = "/opt/vp/cmake322/bin/cmake"

SANITIZERS = {
    # enum: proto3 enums are open, a value outside of the C++ enumeration is legal and stored as such
    "asan": "-fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize=enum -fno-omit-frame-pointer -g1 -O0 -DVP_SAN_ASAN",
    "tsan": "-fsanitize=thread -fno-omit-frame-pointer -g1 -O1 -DVP_SAN_TSAN",
    "plain": "-g1 -O1",
}


class BuildError(Exception):
    def __init__(self, what, log):
        Exception.__init__(self, what)
        self.log = log


def env():
    e = {k: v for k, v in os.environ.items() if k in ("LANG", "LC_ALL", "TERM", "TMPDIR")}
    e.update(PATH="/opt/vp/cmake322/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", CC="gcc", CXX="g++", QT_SELECT="qt5",
             HOME=os.path.join(BUILD, "home"),
             ASAN_OPTIONS="detect_leaks=0:detect_container_overflow=0:detect_odr_violation=0")
    os.makedirs(e["HOME"], exist_ok=True)
    return e


def write(path, text):
    """Write only what differs, so that an unchanged file is not rebuilt."""
    data = text.encode() if isinstance(text, str) else text
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    return True


def stage():
    """Copy of the working tree of /repo (its build products and .git left out) in .build/src."""
    dst = os.path.join(BUILD, "src")
    keep = set()
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        if rel == ".":
            dirs[:] = [d for d in dirs if d not in (".git", "_build", "build")]
        for d in list(dirs):
            if os.path.islink(os.path.join(root, d)):
                dirs.remove(d)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            s = os.path.join(root, f)
            if not os.path.isfile(s):
                continue
            r = os.path.normpath(os.path.join(rel, f))
            keep.add(r)
            with open(s, "rb") as h:
                changed = write(os.path.join(dst, r), h.read())
            if changed:
                shutil.copymode(s, os.path.join(dst, r))
    for root, dirs, files in os.walk(dst):
        for f in files:
            r = os.path.normpath(os.path.join(os.path.relpath(root, dst), f))
            if r not in keep:
                os.unlink(os.path.join(dst, r))
    return dst


def run(cmd, cwd=None, timeout=800, log=None, extra=None):
    e = env()
    e.update(extra or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode("utf-8", "replace")
    if log:
        with open(log, "w") as f:
            f.write(out)
    return p.returncode, out


def schema(name, files, parts=4):
    """Proto files, C++ glue and the descriptor set of the oracle in .build/gen/<name>."""
    from .schema import glue
    d = os.path.join(BUILD, "gen", name)
    os.makedirs(d, exist_ok=True)
    for f in files:
        write(os.path.join(d, f.name), f.emit())
    for n, t in glue(files, [f.name.replace(".proto", ".qpb.h") for f in files], name, parts).items():
        write(os.path.join(d, n), t)
    rc, out = run(["protoc", "-I.", "--include_imports", "--descriptor_set_out=%s.pb" % name] + [f.name for f in files], cwd=d)
    if rc:
        raise BuildError("protoc", out)


def core_schema():
    """The fixed schemas the message level monitors use."""
    from .core_schema import core
    from .qml_schema import qml
    schema("core", core())
    schema("qml", qml(), 2)


def types_schema():
    """Descriptors for the Qt types (from the published .proto files of the repository) and the well-known types, the latter also without oneof."""
    import re
    d = os.path.join(BUILD, "gen", "types")
    os.makedirs(os.path.join(d, "google", "protobuf"), exist_ok=True)
    with open("/usr/include/google/protobuf/struct.proto") as f:
        text = f.read()
    write(os.path.join(d, "google", "protobuf", "struct.proto"), re.sub(r"oneof \w+ \{(.*?)\n  \}", r"\1", text, flags=re.S))
    wk = ["google/protobuf/%s.proto" % n for n in ("any", "api", "duration", "empty", "field_mask", "source_context", "struct", "timestamp", "type", "wrappers")]
    for out, inc, files in (("types.pb", [os.path.join(VERIF, "harness", "proto"), os.path.join(BUILD, "src", "src", "qttypes"), "/usr/include"], ["vptypes.proto"] + wk),
                            ("flat.pb", [d, "/usr/include"], wk)):
        rc, log = run(["protoc"] + ["-I" + i for i in inc] + ["--include_imports", "--descriptor_set_out=" + os.path.join(d, out)] + files, cwd=d)
        if rc:
            raise BuildError("protoc", log)
    return d


def configure(san, parts, defs=(), directory=None):
    b = os.path.join(BUILD, directory or san)
    rc, out = run([CMAKE, "-S", os.path.join(VERIF, "harness"), "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
                   "-DCMAKE_CXX_FLAGS=" + SANITIZERS[san], "-DVP_SRC=" + os.path.join(BUILD, "src"),
                   "-DVP_GEN=" + os.path.join(BUILD, "gen"), "-DVP_PARTS=" + ";".join(parts), "-DVP_SAN=" + san] + list(defs),
                  log=os.path.join(BUILD, "configure-%s.log" % os.path.basename(b)))
    if rc:
        raise BuildError("configure", out)
    return b


def make(b, targets, keep_going=False):
    rc, out = run(["ninja", "-C", b, "-j8"] + (["-k0"] if keep_going else []) + list(targets),
                  log=os.path.join(BUILD, "build-%s.log" % os.path.basename(b)))
    if rc:
        raise BuildError("build of " + " ".join(targets), out)
    return out


def prepare(san, parts, targets):
    t = time.time()
    stage()
    core_schema()
    b = configure(san, parts)
    make(b, targets)
    return b, time.time() - t
