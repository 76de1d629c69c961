"""Builds the analyser (if needed) and the linked LLVM bitcode of the library under /repo."""
import glob, hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOL = os.path.join(VERIF, "build", "absint")


class Broken(Exception):
    """The analysis cannot give an answer (an anchor vanished, the code does not compile...)."""


def tool():
    src = sorted(glob.glob(os.path.join(VERIF, "absint", "*")))
    if not os.path.exists(TOOL) or any(os.path.getmtime(s) > os.path.getmtime(TOOL) for s in src):
        p = subprocess.run(["make", "-s", "-j8", "-C", os.path.join(VERIF, "absint")], capture_output=True, text=True)
        if p.returncode or not os.path.exists(TOOL):
            raise Broken("the analyser does not build: " + p.stderr[-2000:])
    return TOOL


def sources(repo=None):
    repo = repo or REPO
    s = sorted(glob.glob(repo + "/PlatformSupport/*.cpp")) + sorted(glob.glob(repo + "/DotNetLibrary/src/*.cpp")) + sorted(glob.glob(repo + "/DotNetLibrarySupport/*.cpp"))
    # Windows DLL entry points are not part of the Linux build
    return [x for x in s if os.path.basename(x) not in ("dllmain.cpp", "pch.cpp", "stdafx.cpp")]


def bitcode(outdir, repo=None, harness=()):
    """compiles the library sources of the current tree; returns the linked module"""
    repo = repo or REPO
    srcs = sources(repo)
    if len(srcs) < 20:
        raise Broken("only %d library sources found under %s" % (len(srcs), repo))
    flags = ("-std=gnu++11 -w -g -fstandalone-debug -O0 -Xclang -disable-O0-optnone -fwrapv -ffp-contract=off -emit-llvm -c").split()
    inc = ["-I%s/%s" % (repo, d) for d in ("DotNetLibrary/include", "PlatformSupport", "DotNetLibrarySupport")]

    def one(i_src):
        i, src = i_src
        o = os.path.join(outdir, "%03d_%s.bc" % (i, os.path.splitext(os.path.basename(src))[0]))
        p = subprocess.run(["clang++-18"] + flags + inc + [src, "-o", o], capture_output=True, text=True)
        if p.returncode:
            raise Broken("does not compile: %s\n%s" % (src, p.stderr[-1500:]))
        return o

    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, enumerate(srcs + [os.path.join(VERIF, "harness", h) for h in harness])))
    raw, out = os.path.join(outdir, "all.bcl"), os.path.join(outdir, "all.bc")
    for cmd in (["llvm-link-18"] + objs + ["-o", raw], ["opt-18", "-passes=function(sroa)", raw, "-o", out]):
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise Broken("%s: %s" % (cmd[0], p.stderr[-1500:]))
    return out, srcs
