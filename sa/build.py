"""Compile every C translation unit of /repo (lib/ and bin/) to bitcode, link
and normalise it with irdump and load the resolved program."""
import json, os, subprocess, sys, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("NUJEL_REPO", "/repo")
CLANG = next((p for p in ("clang-18", "/usr/lib/llvm-18/bin/clang", "clang") if shutil.which(p)), "clang")
CFLAGS = ["-w", "-std=c99", "-D_GNU_SOURCE", "-O1", "-g", "-Xclang", "-disable-llvm-passes", "-Xclang", "-disable-lifetime-markers", "-emit-llvm", "-c"]


class AnalysisBroken(Exception):
    """an anchor vanished or the sources could not be analysed: no verdict"""


def sources():
    s = sorted(glob.glob(REPO + "/lib/*.c") + glob.glob(REPO + "/bin/*.c"))
    if len(s) < 20:
        raise AnalysisBroken("only %d C sources found" % len(s))
    return s


def tool():
    subprocess.run([os.path.join(VERIF, "tool", "build.sh")], check=True, stdout=subprocess.DEVNULL)
    return os.path.join(VERIF, "tool", "irdump")


def dump(keep, extra=()):
    """keep: iterable of function names that stay calls ('*' = inline nothing)"""
    irdump = tool()
    d = tempfile.mkdtemp(prefix="nujelsa.")
    try:
        def one(src):
            out = os.path.join(d, os.path.basename(os.path.dirname(src)) + "-" + os.path.basename(src)[:-2] + ".bc")
            r = subprocess.run([CLANG] + CFLAGS + list(extra) + [src, "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=REPO)
            return out, r.returncode, r.stdout, src
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, sources()))
        for out, rc, msg, src in res:
            if rc:
                raise AnalysisBroken("clang failed on %s:\n%s" % (src, msg))
        kf = os.path.join(d, "keep")
        with open(kf, "w") as f:
            f.write("\n".join(keep) + "\n")
        oj = os.path.join(d, "out.json")
        r = subprocess.run([irdump, oj, kf] + [x[0] for x in res], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise AnalysisBroken("irdump failed: " + r.stdout)
        with open(oj) as f:
            return json.load(f)
    finally:
        shutil.rmtree(d, ignore_errors=True)
