#!/usr/bin/env python3
"""Builds lightgrep's library / CLI and the harness binaries from the *current*
working tree of the repository, out of tree, under /verif/build.

Nothing here uses lightgrep's own build products: re_grammar.cpp and
encodings.h are regenerated from the working tree.  Objects are cached by
content (headers + source + flags), never by timestamp.
"""
import concurrent.futures as cf
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))

COMMON = ["-std=c++17", "-g1", "-pthread", "-include", "functional", "-include", "cstdint",
          "-DHAVE_CONFIG_H", "-DU_USING_ICU_NAMESPACE=0", "-DU_CHARSET_IS_UTF8=1",
          "-DUNISTR_FROM_CHAR_EXPLICIT=explicit", "-DUNSTR_FROM_STRING_EXPLICIT=explicit", "-w"]

FLAVORS = {
    # plain optimised build, as shipped
    "fast": (["g++"], ["-O2", "-fPIC"], []),
    # memory errors and the undefined behaviour that means a logic error
    "san": (["clang++"], ["-O1", "-fno-omit-frame-pointer", "-fPIC",
                          "-fsanitize=address,integer-divide-by-zero,bounds,return,unreachable,bool,null",
                          "-fno-sanitize-recover=all"],
            ["-fsanitize=address,integer-divide-by-zero,bounds,return,unreachable,bool,null"]),
    # data races between search contexts
    "tsan": (["clang++"], ["-O1", "-fPIC", "-fsanitize=thread"], ["-fsanitize=thread"]),
    # coverage-guided
    "fuzz": (["clang++"], ["-O1", "-fno-omit-frame-pointer", "-fPIC",
                           "-fsanitize=address,fuzzer-no-link"], ["-fsanitize=address,fuzzer"]),
}

CONFIG_H = """
#define HAVE_BOOST /**/
#define HAVE_BOOST_ASIO /**/
#define HAVE_BOOST_PROGRAM_OPTIONS /**/
#define HAVE_CXX17 1
#define HAVE_DLFCN_H 1
#define HAVE_ICU 1
#define HAVE_INTTYPES_H 1
#define HAVE_STDINT_H 1
#define LG_TEST_DATA_DIR "./test/data"
#define PACKAGE "lightgrep"
#define PACKAGE_COMPANY "Stroz Friedberg, LLC"
#define PACKAGE_DESCRIPTION "not the worst forensics regexp engine"
#define PACKAGE_NAME "lightgrep"
#define PACKAGE_STRING "lightgrep 1.5.0"
#define PACKAGE_TARNAME "lightgrep"
#define PACKAGE_VERSION "1.5.0"
#define PACKAGE_VERSION_MAJOR 1
#define PACKAGE_VERSION_MICRO 0
#define PACKAGE_VERSION_MINOR 5
#define PACKAGE_YEAR 2026
#define STDC_HEADERS 1
#define VERSION "1.5.0"
"""

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout.decode("utf8", "replace")[-6000:]))
    return p.stdout

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        m.update(len(p).to_bytes(8, "little"))
        m.update(p)
    return m.hexdigest()[:24]

def read(p):
    with open(p, "rb") as f:
        return f.read()

def write_if_changed(path, data):
    if os.path.exists(path) and read(path) == data:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)

def git_files(sub):
    """Files of the working tree below sub that git does not ignore, i.e. the
    sources and not the products of some earlier in-tree build."""
    try:
        out = subprocess.run(["git", "-C", REPO, "-c", "safe.directory=*", "ls-files", "-z", "-c", "-o", "--exclude-standard", "--"] + sub,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=True).stdout
        files = [f.decode() for f in out.split(b"\0") if f]
    except Exception:
        files = []
    if not files:
        for s in sub:
            for d, _, fs in os.walk(os.path.join(REPO, s)):
                for f in fs:
                    if f.endswith((".h", ".cpp", ".hpp", ".ypp", ".c", ".inl")):
                        files.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(set(f for f in files if os.path.isfile(os.path.join(REPO, f))))

GENERATED = {"src/lib/re_grammar.cpp", "src/lib/re_grammar.h", "src/lib/re_grammar.hpp",
             "include/lightgrep/encodings.h"}

class Tree:
    """A mirror of the repository's sources plus the generated ones."""
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.lock = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.root = os.path.join(BUILD, "tree")
        files = [f for f in git_files(["include", "src/lib", "src/cmd", "src/enc", "src/java/jni", "src/val", "src/what"])
                 if f not in GENERATED and f.endswith((".h", ".cpp", ".hpp", ".ypp", ".c", ".inl"))]
        want = set()
        for f in files:
            write_if_changed(os.path.join(self.root, f), read(os.path.join(REPO, f)))
            want.add(f)
        cfg = os.path.join(REPO, "config.h")
        write_if_changed(os.path.join(self.root, "config.h"), read(cfg) if os.path.exists(cfg) else CONFIG_H.encode())
        want.add("config.h")
        # generated parser
        ypp = os.path.join(self.root, "src/lib/re_grammar.ypp")
        if os.path.exists(ypp):
            out = os.path.join(self.root, "src/lib/re_grammar.cpp")
            key = h(read(ypp))
            stamp = out + ".key"
            if not (os.path.exists(out) and os.path.exists(stamp) and read(stamp).decode() == key):
                sh(["bison", "-r", "none", "-o", out, ypp])
                write_if_changed(stamp, key.encode())
            want.add("src/lib/re_grammar.cpp")
        # generated encoding tables
        enc_src = os.path.join(self.root, "src/enc/encodings.cpp")
        enc_h = os.path.join(self.root, "include/lightgrep/encodings.h")
        key = h(read(enc_src))
        stamp = enc_h + ".key"
        if not (os.path.exists(enc_h) and os.path.exists(stamp) and read(stamp).decode() == key):
            exe = os.path.join(BUILD, "enc")
            sh(["g++"] + COMMON + ["-O0", "-I" + self.root, "-I" + self.root + "/include", enc_src, "-o", exe, "-licuuc", "-licudata"])
            write_if_changed(enc_h, sh([exe]))
            write_if_changed(stamp, key.encode())
        want.add("include/lightgrep/encodings.h")
        # drop what is gone
        for d, _, fs in os.walk(self.root):
            for f in fs:
                rel = os.path.relpath(os.path.join(d, f), self.root)
                if rel not in want and not rel.endswith(".key") and not rel.endswith("re_grammar.hpp"):
                    os.unlink(os.path.join(d, f))
        self.files = sorted(want)
        self.header_key = h(*[x for f in self.files if not f.endswith(".cpp")
                              for x in (f, read(os.path.join(self.root, f)))])
        self.jobs = []

    def lib_sources(self):
        return [f for f in self.files if f.startswith("src/lib/") and f.endswith(".cpp")]

    def cmd_sources(self):
        return [f for f in self.files if f.startswith("src/cmd/") and f.endswith(".cpp")]

    def incs(self):
        return ["-I" + self.root, "-I" + os.path.join(self.root, "include")]

    def obj(self, path, flavor, extra=(), hkey=""):
        cxx, cflags, _ = FLAVORS[flavor]
        key = h(self.header_key, hkey, path, read(path), " ".join(cxx + cflags + COMMON + list(extra)))
        out = os.path.join(BUILD, "obj", key + ".o")
        cmd = None
        if not os.path.exists(out):
            cmd = cxx + COMMON + cflags + list(extra) + self.incs() + ["-c", path, "-o", out + ".tmp.o"]
        return out, cmd

def compile_all(objs):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    todo = [(o, c) for o, c in objs if c]
    def one(oc):
        o, c = oc
        sh(c)
        os.replace(o + ".tmp.o", o)
    if todo:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, todo))
    return [o for o, _ in objs]

LIBS = ["-licuuc", "-licudata"]
CMDLIBS = ["-lboost_program_options", "-lboost_system"]

def link(out, flavor, objs, libs, extra=()):
    cxx, _, ldflags = FLAVORS[flavor]
    key = h(out, flavor, " ".join(sorted(objs)), " ".join(libs), " ".join(extra))
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and read(stamp).decode() == key:
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".tmp"
    sh(cxx + ["-pthread"] + ldflags + list(extra) + objs + libs + ["-o", tmp])
    os.replace(tmp, out)
    write_if_changed(stamp, key.encode())
    return out

def prune_objs(limit=3 << 30):
    d = os.path.join(BUILD, "obj")
    if not os.path.isdir(d):
        return
    fs = [(os.path.getatime(os.path.join(d, f)), os.path.getsize(os.path.join(d, f)), os.path.join(d, f)) for f in os.listdir(d)]
    tot = sum(s for _, s, _ in fs)
    for _, s, p in sorted(fs):
        if tot <= limit:
            break
        os.unlink(p)
        tot -= s

HARNESS = os.path.join(VERIF, "harness")

def harness_key():
    return h(*[read(os.path.join(HARNESS, f)) for f in sorted(os.listdir(HARNESS)) if f.endswith(".h")])

def jdk():
    """Where jni.h lies."""
    java = os.path.realpath(shutil.which("javac") or "/usr/lib/jvm/java-17-openjdk-amd64/bin/javac")
    return os.path.dirname(os.path.dirname(java))

def java(t, fl):
    """Compiles the Java bindings and harness/JavaDrv.java to build/java/classes
    and generates the headers of the native methods to build/java/jni; returns
    the object of the native side."""
    out = os.path.join(BUILD, "java")
    sub = "src/java/src/main/java"
    files = [os.path.join(REPO, f) for f in git_files([sub]) if f.endswith(".java")]
    if not files:
        files = [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(REPO, sub)) for f in fs if f.endswith(".java")]
    files = sorted(files) + [os.path.join(HARNESS, "JavaDrv.java")]
    key = h(*[x for f in files for x in (f, read(f))])
    stamp = os.path.join(out, "key")
    if not (os.path.exists(stamp) and read(stamp).decode() == key):
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(os.path.join(out, "classes"))
        jni = os.path.join(out, "jni")
        sh([os.path.join(jdk(), "bin", "javac"), "-nowarn", "-encoding", "UTF-8", "-d", os.path.join(out, "classes"), "-h", jni] + files)
        hs = sorted(f for f in os.listdir(jni) if f.startswith("com_"))
        write_if_changed(os.path.join(jni, "jlightgrep.h"), "".join('#include "%s"\n' % f for f in hs).encode())
        write_if_changed(stamp, key.encode())
    jni = os.path.join(out, "jni")
    hk = h(*[read(os.path.join(jni, f)) for f in sorted(os.listdir(jni))])
    inc = ["-I" + jni, "-I" + os.path.join(jdk(), "include"), "-I" + os.path.join(jdk(), "include", "linux")]
    return t.obj(os.path.join(t.root, "src/java/jni/jlightgrep.cpp"), fl, inc, hk)

def build(targets):
    """targets: list of (kind, name, flavor):
       ('prop', 'C01', 'fast') -> harness binary from harness/C01.cpp (+ core)
       ('cli', '', 'fast')     -> the lightgrep executable
       ('so', '', 'fast')      -> liblightgrep.so
    returns a dict target -> path"""
    t = Tree()
    hk = harness_key()
    plan = {}
    objs = []
    for tg in targets:
        kind, name, fl = tg
        mine = []
        if kind in ("cli", "so", "jni", "prop", "fuzz"):
            mine += [t.obj(os.path.join(t.root, s), fl) for s in t.lib_sources()]
        if kind == "jni":
            mine.append(java(t, fl))
        if kind == "cli":
            mine += [t.obj(os.path.join(t.root, s), fl) for s in t.cmd_sources()]
        elif kind == "prop":
            hx = ["-I" + HARNESS, "-fno-access-control"] if False else ["-I" + HARNESS]
            for s in ["pbt.cpp", "ref.cpp", name + ".cpp"]:
                mine.append(t.obj(os.path.join(HARNESS, s), fl, hx, hk))
        elif kind == "fuzz":
            hx = ["-I" + HARNESS, "-DPBT_LIBFUZZER"]
            for s in ["pbt.cpp", "ref.cpp", name + ".cpp"]:
                mine.append(t.obj(os.path.join(HARNESS, s), fl, hx, hk))
        plan[tg] = mine
        objs += mine
    seen = {}
    for o, c in objs:
        seen[o] = c
    compile_all(list(seen.items()))
    res = {}
    for tg, mine in plan.items():
        kind, name, fl = tg
        os_ = [o for o, _ in mine]
        if kind == "cli":
            res[tg] = link(os.path.join(BUILD, "bin", "lightgrep-" + fl), fl, os_, LIBS + CMDLIBS)
        elif kind == "jni":
            link(os.path.join(BUILD, "java", "libjlightgrep.so"), fl, os_, LIBS, ["-shared"])
            res[tg] = os.path.join(BUILD, "java")
        elif kind == "so":
            res[tg] = link(os.path.join(BUILD, "bin", fl, "liblightgrep.so"), fl, os_, LIBS, ["-shared"])
        else:
            res[tg] = link(os.path.join(BUILD, "bin", "%s-%s-%s" % (kind, name, fl)), fl, os_, LIBS)
    prune_objs()
    fcntl.flock(t.lock, fcntl.LOCK_UN)
    return res

if __name__ == "__main__":
    t0 = time.time()
    tg = []
    for a in sys.argv[1:]:
        k, n, f = a.split(":")
        tg.append((k, n, f))
    print(build(tg), "%.1fs" % (time.time() - t0))
