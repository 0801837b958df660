#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree (see DESIGN.md, "What is built").

The library sources are compiled with the project's own release flags plus -fsanitize=thread instrumentation; the
instrumentation's runtime is ours (sim/tsan_rt.cpp), it turns the accesses into scheduling points.
"""
import glob, os, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

BOOST_SRC = ["archive_exception", "basic_archive", "basic_iarchive", "basic_iserializer", "basic_oarchive",
             "basic_oserializer", "basic_pointer_iserializer", "basic_pointer_oserializer", "basic_serializer_map",
             "basic_text_iprimitive", "basic_text_oprimitive", "codecvt_null", "extended_type_info",
             "extended_type_info_no_rtti", "extended_type_info_typeid", "stl_port", "text_iarchive", "text_oarchive",
             "utf8_codecvt_facet", "void_cast"]


def esc(p):
    return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def generate():
    src = os.path.join(REPO, "src")
    inc = os.path.join(REPO, "include")
    lib = sorted(p for p in glob.glob(src + "/**/*.cpp", recursive=True) if "/external_library/" not in p)
    boost_root = src + "/external_library/boost_1_80_0_minimal"
    boost = [boost_root + "/libs/serialization/src/" + b + ".cpp" for b in BOOST_SRC]
    bitmap = sorted(glob.glob(src + "/external_library/bitmap/**/*.cpp", recursive=True)
                    + glob.glob(src + "/external_library/cpp-static-block/**/*.cpp", recursive=True))
    sim = sorted(glob.glob(VERIF + "/sim/*.cpp"))
    incdirs = [boost_root, src + "/external_library/bitmap", src + "/external_library/cpp-static-block"]
    snn = [d for d, _, fs in os.walk(inc + "/snn") if any(f.endswith((".hpp", ".tpp", ".h")) for f in fs)]
    libinc = " ".join("-I" + d for d in incdirs + sorted(snn))
    common = "-std=gnu++20 -DNDEBUG -D_GLIBCXX_ASSERTIONS -w -fno-omit-frame-pointer -g1"
    rel = "-O3 -ffast-math -fopenmp"
    tsan = "-fsanitize=thread --param tsan-distinguish-volatile=0"
    simflags = f"-std=gnu++20 -O1 -g1 -DNDEBUG -D_GLIBCXX_ASSERTIONS -w -fno-omit-frame-pointer -I{inc} -I{boost_root} -I{VERIF}/sim"
    n = ["ninja_required_version = 1.3",
         "rule cc\n  command = /usr/bin/g++ $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
         "rule link\n  command = /usr/bin/g++ -rdynamic -o $out $in -ldl -lpthread"]
    objs = []

    def add(p, sub, flags):
        o = "obj/" + sub + "_" + os.path.relpath(p, "/").replace("/", "_") + ".o"
        n.append(f"build {esc(o)}: cc {esc(p)}\n  flags = {flags}")
        objs.append(o)

    for p in lib:
        add(p, "lib", f"{common} {rel} {tsan} {libinc}")
    for p in boost:
        add(p, "boost", f"{common} -O2 {tsan} -I{boost_root}")
    for p in bitmap:
        add(p, "bmp", f"{common} -O2 {tsan} {libinc}")
    for p in sim:
        add(p, "sim", simflags)
    n.append("build snnsim: link " + " ".join(esc(o) for o in objs))
    n.append("default snnsim\n")
    os.makedirs(BUILD, exist_ok=True)
    text = "\n".join(n)
    f = os.path.join(BUILD, "build.ninja")
    if not os.path.exists(f) or open(f).read() != text:
        open(f, "w").write(text)


def build(quiet=True):
    generate()
    env = dict(os.environ, LC_ALL="C.UTF-8", CCACHE_DISABLE="1")
    env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    r = subprocess.run(["ninja", "-C", BUILD, "snnsim"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        sys.stderr.write("\nthe simulator does not build from %s\n" % REPO)
        sys.exit(3)
    return os.path.join(BUILD, "snnsim")


if __name__ == "__main__":
    print(build())
