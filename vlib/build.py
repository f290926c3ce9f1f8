"""Builds /repo's sources (read-only) into /verif/.build, content-addressed.

An object is reused only when its command line and the bytes of its source and of
every non-system header it included are those it was made from, so a check always
reflects /repo's current working tree; nothing in /repo is written.
"""
import glob, hashlib, json, os, re, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SRC = os.path.join(REPO, "src")

VARIANTS = {
    "plain": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment",
             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
}
BASE = ["-w", "-DKENLM_MAX_ORDER=6", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-pthread"]
INCS = ["-I" + SRC + "/include", "-I" + SRC + "/kenlm", "-I" + SRC, "-I" + SRC + "/marisa", "-I" + SRC + "/tercpp"]
LINK = ["-lboost_thread", "-lboost_regex", "-lboost_iostreams", "-lboost_system", "-lboost_locale",
        "-lboost_program_options", "-lboost_chrono", "-licui18n", "-licuuc", "-licudata", "-lz", "-lrt", "-pthread"]
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

_hash_cache = {}
_lock = threading.Lock()


class BuildError(Exception):
    pass


def fhash(path):
    with _lock:
        if path in _hash_cache:
            return _hash_cache[path]
    try:
        with open(path, "rb") as f:
            h = hashlib.sha1(f.read()).hexdigest()
    except OSError:
        h = "missing"
    with _lock:
        _hash_cache[path] = h
    return h


def am_sources(rel, var):
    """The sources a Makefile.am lists for VAR, as absolute paths."""
    d = os.path.join(SRC, rel)
    text = open(os.path.join(d, "Makefile.am")).read().replace("\\\n", " ")
    m = re.search(r"^%s\s*=\s*(.*)$" % re.escape(var), text, re.M)
    out = []
    for w in m.group(1).split():
        if w.endswith((".cc", ".cpp", ".c")):
            out.append(os.path.join(d, w))
    return out


def repo_sources():
    lib = am_sources("lib", "TRAVATARCPP")
    klm = am_sources("kenlm/lm", "libklm_la_SOURCES")
    util = am_sources("kenlm/util", "libklm_util_la_SOURCES")
    srch = am_sources("kenlm/search", "libklm_search_la_SOURCES")
    ter = am_sources("tercpp", "libter_la_SOURCES")
    mar = am_sources("marisa", "libmarisa_la_SOURCES")
    lbf = am_sources("liblbfgs", "liblbfgs_la_SOURCES")
    s = lib + klm + util + srch + ter + mar + lbf
    return [p for p in s if not p.endswith("_main.cc")]


def cc(src, variant, extra=()):
    """Compile one file; returns the object's path."""
    if src.endswith(".c"):
        cmd = ["gcc"] + VARIANTS[variant] + BASE + ["-I" + SRC + "/liblbfgs"]
    else:
        cmd = ["g++", "-std=c++11", "-include", "map"] + VARIANTS[variant] + BASE + INCS + list(extra)
    key = hashlib.sha1(json.dumps([cmd, src]).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, "obj", variant)
    os.makedirs(d, exist_ok=True)
    man = os.path.join(d, key + ".json")
    want = None
    if os.path.exists(man):
        try:
            for ent in json.load(open(man)):
                if all(fhash(p) == h for p, h in ent["deps"]) and os.path.exists(os.path.join(d, ent["obj"])):
                    return os.path.join(d, ent["obj"])
        except (ValueError, KeyError):
            pass
    fd, tmp = tempfile.mkstemp(suffix=".o", dir=d)
    os.close(fd)
    dep = tmp[:-2] + ".d"
    r = subprocess.run(cmd + ["-c", src, "-o", tmp, "-MMD", "-MF", dep], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        for p in (tmp, dep):
            if os.path.exists(p):
                os.unlink(p)
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
    txt = open(dep).read().replace("\\\n", " ").split(":", 1)[1]
    os.unlink(dep)
    deps = sorted({os.path.normpath(os.path.join(os.getcwd(), x)) for x in txt.split()})
    dl = [(p, fhash(p)) for p in deps]
    oh = hashlib.sha1(json.dumps([key, dl]).encode()).hexdigest()[:20]
    obj = "%s-%s.o" % (os.path.basename(src).rsplit(".", 1)[0], oh)
    os.replace(tmp, os.path.join(d, obj))
    ents = []
    if os.path.exists(man):
        try:
            ents = json.load(open(man))[:5]
        except ValueError:
            ents = []
    ents = [{"deps": dl, "obj": obj}] + [e for e in ents if e.get("obj") != obj]
    t2 = man + ".%d" % os.getpid()
    with open(t2, "w") as f:
        json.dump(ents, f)
    os.replace(t2, man)
    return os.path.join(d, obj)


def compile_all(srcs, variant, extra=()):
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(lambda s: cc(s, variant, extra), srcs))


def archive(variant):
    """A static archive of all of /repo's library sources."""
    objs = compile_all(repo_sources(), variant)
    h = hashlib.sha1("\n".join(objs).encode()).hexdigest()[:16]
    a = os.path.join(BUILD, "lib-%s-%s.a" % (variant, h))
    if not os.path.exists(a):
        tmp = a + ".%d" % os.getpid()
        if os.path.exists(tmp):
            os.unlink(tmp)
        # thin archive: objects stay where they are
        r = subprocess.run(["ar", "rcsT", tmp] + objs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(r.stdout)
        os.replace(tmp, a)
    return a


def link(name, srcs, variant, extra=()):
    """Compile SRCS, link them with the archive; returns the executable."""
    with ThreadPoolExecutor(JOBS) as ex:
        fut = [ex.submit(cc, s, variant, extra) for s in srcs]
        a = archive(variant)
        objs = [f.result() for f in fut]
    h = hashlib.sha1("\n".join(objs + [a]).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "bin", variant)
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "%s-%s" % (name, h))
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(d, name + "-" + "[0-9a-f]" * 16)):
            try:
                os.unlink(old)
            except OSError:
                pass
        tmp = exe + ".%d" % os.getpid()
        lf = {"asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"]}.get(variant, [])
        r = subprocess.run(["g++"] + lf + objs + [a] + LINK + ["-o", tmp], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            raise BuildError("linking %s failed:\n%s" % (name, r.stdout[-4000:]))
        os.replace(tmp, exe)
    return exe


def harness(name, variant="plain"):
    return link(name, [os.path.join(VERIF, "harness", name + ".cc")], variant, ["-I" + os.path.join(VERIF, "harness")])


def program(name, variant="plain"):
    """One of /repo's command line programs."""
    return link("prog-" + name, [os.path.join(SRC, "bin", name + ".cc")], variant)


PROGRAMS = ["travatar", "batch-tune", "forest-extractor", "hiero-extractor", "mt-evaluator", "mt-segmenter",
            "rescorer", "tokenizer", "train-caser", "tree-converter"]

def prune(max_bytes=3 << 30):
    """Keep the cache bounded."""
    files = []
    for root, _, names in os.walk(BUILD):
        for n in names:
            p = os.path.join(root, n)
            try:
                st = os.stat(p)
                files.append((st.st_mtime, st.st_size, p))
            except OSError:
                pass
    total = sum(f[1] for f in files)
    for _, sz, p in sorted(files):
        if total <= max_bytes:
            break
        os.unlink(p)
        total -= sz
