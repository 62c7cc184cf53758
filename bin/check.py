#!/usr/bin/env python3
"""check.py <property id> [--thorough]   (see DESIGN.md)"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vtlib

CHECKS = {}


def check(prop, assumptions=None):
    def deco(f):
        CHECKS[prop] = (f, {"level": "model_checking", "assumptions": assumptions or []})
        return f
    return deco


TRUST = ["TLC, the C++ compiler and its sanitizers are right",
         "the transition relation in /verif/spec states the documented behaviour"]


def transcode(c, mode, n_quick, n_thorough):
    c.trace(mode, "drv_transcode.cpp", "TraceTranscode", c.n(n_quick, n_thorough), mode=mode, workers=8, seed_off=hash_mode(mode))


def utf_exhaustive(c, mode):
    """the decoder/encoder automata of Encodings.tla, walked exhaustively through the real transcoders"""
    p = c.table("TabCharsets")
    c.replay("utf-exhaustive", "rep_utf.cpp", p, args=["--n", "1"], mode=mode,
             build_kw=dict(flags=["-O2"], extra=["-pthread"]))


def hash_mode(m):
    return sum(ord(ch) * 31 ** i for i, ch in enumerate(m)) % 99991


def dest(c, mode, n_quick, n_thorough):
    c.trace(mode, "drv_dest.cpp", "TraceDest", c.n(n_quick, n_thorough), mode=mode, workers=8, seed_off=hash_mode(mode))


def printing(c, drv, n_quick, n_thorough, mode="all", aspect=0, heap="8g"):
    """one of the print drivers, in all five character types, judged by Printing.tla"""
    units = [("drv_%s.cpp" % drv, ["-DVT_CHAR=%d" % k]) for k in range(5)]
    flags = (vtlib.SAN + ["-O0"] if aspect else vtlib.SAN) + ["-DVT_ASPECT=%d" % aspect]  # (aspects 1, 2: long to compile)
    c.trace("%s-%s" % (drv, mode), "main_%s.cpp" % drv, "TracePrint", c.n(n_quick, n_thorough), mode=mode,
            workers=8, heap=heap, seed_off=hash_mode(mode) + aspect, build_kw=dict(units=units, flags=flags))


def programs(c, mode, n_quick, n_thorough, shapes=20, rounds=6, aspect=0, heap="6g"):
    """generated printing programs (tools/gen_prog.py), judged by Printing.tla"""
    for k in range(c.n(1, rounds)):
        d = os.path.join(c.work, "prog-%s-%d" % (mode, k))
        seed = c.seed * 1009 + k
        subprocess.run([sys.executable, os.path.join(vtlib.VERIF, "tools", "gen_prog.py"), str(seed), str(shapes), d, mode], check=True)
        units = [(os.path.join(d, "prog%d.cpp" % ch), ["-DVT_CHAR=%d" % ch]) for ch in range(5)]
        c.trace("programs-%s-%d" % (mode, k), "main_prog.cpp", "TracePrint", c.n(n_quick, n_thorough), mode=mode, workers=8, heap=heap,
                seed_off=hash_mode(mode) + k, build_kw=dict(units=units, flags=vtlib.SAN + ["-O0", "-DVT_ASPECT=%d" % aspect]))


@check("C01", TRUST)
def c01(c):
    printing(c, "all", 20000, 300000, aspect=2)


@check("C02", TRUST)
def c02(c):
    dest(c, "hist", 40000, 800000)


@check("C03", TRUST)
def c03(c):
    dest(c, "bounded", 40000, 800000)


@check("C04", TRUST)
def c04(c):
    dest(c, "fail", 40000, 800000)


@check("C05", TRUST)
def c05(c):
    c.parallel(*[(lambda d=d: printing(c, d, 11000, 200000, aspect=1, heap="4g")) for d in ("str", "int", "all", "simple", "float")])


@check("C06", TRUST)
def c06(c):
    c.parallel(lambda: transcode(c, "content", 60000, 1200000), lambda: utf_exhaustive(c, "content"))


@check("C07", TRUST)
def c07(c):
    c.parallel(lambda: transcode(c, "limits", 60000, 1200000), lambda: utf_exhaustive(c, "limits"))


@check("C08", TRUST)
def c08(c):
    c.parallel(lambda: transcode(c, "notes", 60000, 1200000), lambda: utf_exhaustive(c, "notes"))


@check("C09", TRUST)
def c09(c):
    c.trace("indirect", "drv_indirect.cpp", "TraceIndirect", c.n(30000, 500000), workers=8)


@check("C10", TRUST)
def c10(c):
    c.parallel(lambda: transcode(c, "unsafe", 60000, 1200000), lambda: utf_exhaustive(c, "unsafe"))


O2 = dict(flags=["-O2"], extra=["-pthread"])


@check("C11", TRUST + ["the published tables are those of Python's codecs"])
def c11(c):
    c.replay("single-byte-exhaustive", "rep_charset.cpp", c.table("TabCharsets"), mode="sb", build_kw=O2)


@check("C12", TRUST)
def c12(c):
    c.parallel(lambda: c.trace("charset", "drv_charset.cpp", "TraceCharset", c.n(60000, 1000000), workers=8),
               lambda: c.replay("primitives-exhaustive", "rep_charset.cpp", c.table("TabCharsets"), mode="prim", build_kw=O2))


@check("C13", TRUST)
def c13(c):
    printing(c, "str", 40000, 600000)


@check("C14", TRUST)
def c14(c):
    printing(c, "int", 60000, 900000)


@check("C15", TRUST)
def c15(c):
    c.trace("grouping", "drv_grouping.cpp", "TraceGrouping", c.n(30000, 400000), workers=8)
    printing(c, "int", 40000, 600000, mode="punct")


@check("C16", TRUST)
def c16(c):
    printing(c, "float", 24000, 600000)


@check("C17", TRUST)
def c17(c):
    c.trace("width_t", "drv_widtht.cpp", "TraceWidthT", c.n(120000, 2000000), workers=8)


@check("C18", TRUST + ["Perl's copy of the Unicode database (restricted to Unicode 13) is right"])
def c18(c):
    c.parallel(lambda: c.trace("std_width", "drv_width.cpp", "TraceWidth", c.n(60000, 900000), mode="std", workers=6),
               lambda: c.replay("clusters-exhaustive", "rep_gcb.cpp", c.table("TabGcb"), build_kw=O2))


@check("C19", TRUST)
def c19(c):
    c.trace("widths", "drv_width.cpp", "TraceWidth", c.n(60000, 900000), mode="simple", workers=8)


@check("C20", TRUST)
def c20(c):
    programs(c, "tr", 15000, 60000, aspect=1)


@check("C21", TRUST)
def c21(c):
    programs(c, "scopes", 15000, 60000, shapes=30)


@check("C22", TRUST)
def c22(c):
    programs(c, "ranges", 12000, 60000, aspect=1)


@check("C23", TRUST)
def c23(c):
    programs(c, "joins", 12000, 60000, aspect=1)


@check("C24", TRUST)
def c24(c):
    printing(c, "simple", 50000, 800000)


@check("C25", TRUST + ["localeconv and nl_langinfo are all that locale_numpunct asks the C library"])
def c25(c):
    c.trace("locale", "drv_locale.cpp", "TraceLocale", c.n(60000, 1000000), workers=8)


@check("C26", TRUST + ["calls are deterministic: two runs of one build are equal"])
def c26(c):
    src = os.path.join(vtlib.REPO, "src", "strf.cpp")
    sep = "-DSTRF_SEPARATE_COMPILATION"

    def core(d, *modes):
        kw = dict(flags=["-O0"], extra=["-ldl", "-pthread"])
        lib = dict(flags=["-O0", sep], extra=["-ldl", "-pthread"], add=[src])
        for m in modes:
            c.builds(d, "drv_%s.cpp" % d, c.n(12000, 150000), [("header-only", kw), ("library", lib)], mode=m, seed_off=hash_mode(d + m))

    def print_(d):
        units = [("drv_%s.cpp" % d, ["-DVT_CHAR=%d" % k]) for k in range(5)]
        fl = ["-O0", "-DVT_ASPECT=0"]
        c.builds(d, "main_%s.cpp" % d, c.n(12000, 150000), [("header-only", dict(flags=fl, units=units)), ("library", dict(flags=fl + [sep], units=units + [(src, [])]))], seed_off=hash_mode(d))
    c.parallel(lambda: core("transcode", "content", "notes", "unsafe", "limits"), lambda: core("charset", "all"), lambda: core("width", "std", "simple"),
               lambda: core("grouping", "all"), lambda: core("dest", "hist", "bounded", "fail"), lambda: core("locale", "all"), lambda: core("indirect", "all"))
    c.parallel(lambda: print_("str"), lambda: print_("int"))
    c.parallel(lambda: print_("float"), lambda: print_("simple"), lambda: print_("all"))


@check("C27", TRUST + ["calls are deterministic: two runs of one build are equal"])
def c27(c):
    def v(label, *flags, std="c++17", cxx="g++"):
        return (label, dict(std=std, cxx=cxx, flags=["-O0"] + list(flags)))
    fs = "-DSTRF_FREESTANDING"
    n = c.n(30000, 400000)
    c.builds("conf", "drv_conf.cpp", n, [
        v("g++17"), v("g++14", std="c++14"), v("g++20", std="c++20"), v("optimized", "-O2", "-DNDEBUG"),
        v("clang++14", std="c++14", cxx="clang++"), v("clang++20", std="c++20", cxx="clang++"), v("clang-optimized", "-O2", cxx="clang++"),
        v("freestanding", fs), v("freestanding-cstring", fs, "-DSTRF_WITH_CSTRING"), v("freestanding20", fs, std="c++20"), v("freestanding-clang14", fs, std="c++14", cxx="clang++"),
        v("unsigned-char", "-funsigned-char", "-fno-exceptions", "-fno-rtti"), v("char32_t-for-wchar_t", "-DVT_W=char32_t")], workers=8, seed_off=71)
    # (the C library's functions do not know a short wchar_t)
    c.builds("conf", "drv_conf.cpp", n, [v("char16_t-for-wchar_t", fs, "-DVT_W=char16_t"), v("short-wchar_t", fs, "-fshort-wchar")], workers=8, seed_off=72)


if __name__ == "__main__":
    p = sys.argv[1]
    if p not in CHECKS:
        print("unknown property", p)
        sys.exit(2)
    vtlib.main(p, *CHECKS[p])
