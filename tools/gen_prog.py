#!/usr/bin/env python3
"""gen_prog.py SEED SHAPES OUTDIR MODE: writes prog0.cpp .. prog4.cpp (one per character type), each with SHAPES random
printing programs (nested facet packs, constraints, argument groups, joins, ranges, tr-strings).  The values the programs
print are chosen when they run; what they must print is decided by /verif/spec/Printing.tla."""
import os, random, sys

INTS = ["short", "int", "long", "llong", "ushort", "uint", "ulong", "ullong"]
STRS = ["s8", "s8t", "s16", "s32", "sw"]
NAME = {"bool": "bool", "ptr": "ptr", "chr": "char", "c32": "char32", "s8": "str.char", "s8t": "str.char8", "s16": "str.char16", "s32": "str.char32", "sw": "str.wchar", "float": "float", "double": "double"}
NAME.update({i: i for i in INTS})
ALL = INTS + ["bool", "ptr", "chr", "c32"] + STRS + ["float", "double"]
LEAVES = ["int", "uint", "ull", "short", "punct", "punctf", "hex", "hexs", "oct", "bin", "bool", "boolf", "chr", "chrf", "c32", "ptr", "str", "strf", "tr", "sani", "dbl", "flt", "dblf", "fltn"]
RANGES = ["range_int", "range_str_sep", "fmt_range_hex", "fmt_sep_range", "fmt_sep_strs", "range_dbl", "fmt_range_flt", "range_op", "sep_range_op", "range_set", "sep_range_bool", "array_sep", "array_fmt", "range_range"]
FACETS = ["f_case", "f_case", "f_np<10>", "f_np<10>", "f_np<16>", "f_np<8>", "f_np<2>", "f_wc"]


def on(mask):
    return '"[%s]"' % ",".join('\\"%s\\"' % NAME[t] for t in mask) if mask is not None else '"[\\"*\\"]"'


class Gen:
    def __init__(self, r, mode):
        self.r, self.mode, self.n, self.lines = r, mode, 0, []

    def var(self, init):
        v = "v%d" % self.n
        self.n += 1
        self.lines.append("auto %s = %s;" % (v, init))
        return v

    # float and double apart only where that is the matter (see the known finding KF-LC-FLOAT)
    def filter(self):
        m = self.filter_()
        if self.mode != "scopes" and ("float" in m) != ("double" in m):
            m = [t for t in m if t not in ("float", "double")]
        return m

    def filter_(self):
        r = self.r
        k = r.randrange(10)
        if k == 9: return ["float", "double"]
        if k == 0: return INTS
        if k == 1: return STRS
        if k == 2: return [r.choice(INTS)]
        if k == 3: return ["bool"]
        if k == 4: return []
        if k == 5: return ALL
        if k == 6: return [t for t in ALL if t not in INTS]
        return [t for t in ALL if r.random() < .5]

    # a facet pack element: (expression, [(variable, mask)])
    def fpe(self, depth):
        r = self.r
        k = r.random()
        if depth > 0 and k < .3:
            m = self.filter()
            e, l = self.fpe(depth - 1)
            return ("strf::constrain<flt<%s>::pred>(%s)" % ("|".join("T_" + t for t in m) or "0u", e),
                    [(v, [t for t in m if w is None or t in w]) for v, w in l])
        if depth > 0 and k < .5:
            es = [self.fpe(depth - 1) for _ in range(r.randrange(1, 4))]
            return "strf::pack(%s)" % ", ".join(e for e, _ in es), sum((l for _, l in es), [])
        v = self.var(r.choice(FACETS) + "()")
        return v + ".f()", [(v, None)]

    def fpes(self, lo, hi, depth=2, top=False):
        es = [self.fpe(depth) for _ in range(self.r.randrange(lo, hi + 1))]
        if top and self.r.random() < .5:    # (not constrainable)
            v = self.var("f_te()")
            es.insert(self.r.randrange(len(es) + 1), (v + ".f()", [(v, None)]))
        return [e for e, _ in es], sum((l for _, l in es), [])

    def fjson(self, l):
        return "jlist({%s})" % ", ".join("%s.json(%s)" % (v, on(m)) for v, m in l)

    def arg(self, depth):
        r = self.r
        k = r.random()
        w = {"scopes": (.35, .5, .6, .75), "joins": (.12, .7, .8, .9), "ranges": (.1, .25, .35, 1), "tr": (.1, .25, .7, .8)}.get(self.mode, (.2, .4, .55, .8))
        if depth > 0 and k < w[0]:
            es, l = self.fpes(0, 3)
            a, j = self.args(depth - 1, 0, 3)
            return "strf::with(%s)(%s)" % (", ".join(es), ", ".join(a)), "jwith(%s, jlist({%s}))" % (self.fjson(l), ", ".join(j))
        if depth > 0 and k < w[1]:
            a, j = self.args(depth - 1, 0, 4)
            ex, jj = ", ".join(a), "jlist({%s})" % ", ".join(j)
            c = r.randrange(9)
            if c == 0:
                return "strf::join(%s)" % ex, "jjoin(no_align(), %s)" % jj
            if c in (1, 2):
                f = self.var("join_align()")
                return "strf::join_align(W(%s), %s.get().alignment, %s.fill)(%s)" % (f, f, f, ex), "jjoin(%s, %s)" % (f, jj)
            if c == 3:
                f = self.var("join_align()")
                return "strf::join(%s).set_alignment_format(%s.get())" % (ex, f), "jjoin(%s, %s)" % (f, jj)
            f = self.var("join_ialign()")
            al = r.choice("<>^")
            self.lines.append("%s.al = '%s';" % (f, al))
            fn = {"<": "left", ">": "right", "^": "center"}[al]
            if c in (4, 5):
                return "strf::join_%s(%s.w / 65536, %s.fill)(%s)" % (fn, f, f, ex), "jjoin(%s, %s)" % (f, jj)
            if c == 6:
                self.lines.append("%s.fill = U' ';" % f)
                return "strf::join_%s(%s.w / 65536)(%s)" % (fn, f, ex), "jjoin(%s, %s)" % (f, jj)
            return "(strf::join(%s).fill(%s.fill) %s (%s.w / 65536))" % (ex, f, al, f), "jjoin(%s, %s)" % (f, jj)
        if depth > 0 and k < w[2]:
            a, j = self.args(depth - 1, 0, 4)
            t = self.var("keep(ts_block(%d))" % len(a))
            return "strf::tr(%s->v()%s)" % (t, "".join(", " + x for x in a)), "jtr(%s->s, jlist({%s}))" % (t, ", ".join(j))
        if k < w[3] if depth > 0 else k < .25:
            if r.random() < .08:
                v = self.var("ilist3()")
                return "strf::separated_range({%s.v[0], %s.v[1], %s.v[2]}, %s.sep.c_str())" % (v, v, v, v), v + ".j"
            v = self.var("p_%s()" % r.choice(RANGES))
            return v + ".a()", v + ".j"
        v = self.var("p_%s()" % r.choice(LEAVES))
        return v + ".a()", v + ".j"

    def args(self, depth, lo, hi):
        xs = [self.arg(depth) for _ in range(self.r.randrange(lo, hi + 1))]
        return [a for a, _ in xs], [j for _, j in xs]


def shape(r, k, mode):
    g = Gen(r, mode)
    cs = g.var("random_charset()")
    es1, l1 = g.fpes(0, 4, top=True)
    es2, l2 = g.fpes(0, 2, top=True)
    depth = r.choice([1, 2, 2, 3])
    args, js = g.args(depth, 1 if mode != "all" else 0, 3)
    base = 'ev().str("c", std::string("cs.") + char_name()).raw("on", "[\\"*\\"]").str("v", %s.name).done()' % cs
    form = r.randrange(6) if mode != "tr" else r.choice([0, 4, 4, 5, 5])
    line = r.random() < .2
    op = ".line" if line else ""
    fs = "jlist({%s})" % ", ".join([base] + ["%s.json(%s)" % (v, on(m)) for v, m in l1 + l2])
    es1 = [cs + ".cs"] + es1
    out = ["static void shape_%d() {" % k, "    for (int rep = 0; rep < 4; ++rep) {"]
    plain = None
    if form in (4, 5):
        t = g.var("keep(ts_block(%d))" % len(args))
        jargs = "jlist({jtr(%s->s, jlist({%s}))})" % (t, ", ".join(js))
        op = ".trline" if line else ".tr"
        cargs = [t + "->v()"] + args
    else:
        jargs = "jlist({%s})" % ", ".join(js)
        cargs = args
        plain = "emit(%s.name, %s, strf::pack(%s), %s%s);" % (cs, fs, ", ".join(es1 + es2), jargs, "".join(", " + a for a in args))
    if form in (0, 4):
        call = "pss.with(strf::pack(%s), %s)%s(%s)" % (", ".join(es1), ", ".join(es2 or ["strf::pack()"]), op, ", ".join(cargs))
    elif form in (1, 5):
        call = "pss.with(%s)%s(%s)" % (", ".join(es1), op, ", ".join(es2 + cargs))
    elif form == 2:
        call = "pss.with(%s).with(%s)%s(%s)" % (", ".join(es1), ", ".join(es2), op, ", ".join(cargs))
    else:
        call = "pss%s(%s)" % (op, ", ".join(es1 + es2 + cargs))
    out += ["        " + x for x in g.lines]
    if plain:
        out += ["#if VT_ASPECT == 1", "        if (rep & 1) { te_log().clear(); " + plain + " continue; }", "#endif"]
    out.append("        emit_call(%s.name, %s, %s, %s, [&](auto pss) { %s; });" % (cs, fs, jargs, "true" if line else "false", call))
    out += ["    }", "}"]
    return "\n".join(out)


def main():
    seed, n, outdir, mode = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4]
    os.makedirs(outdir, exist_ok=True)
    for c in range(5):
        r = random.Random("%d.%d.%s" % (seed, c, mode))
        m = n if c == 0 else max(2, n // 2)
        s = ["// generated by tools/gen_prog.py %d %d %s" % (seed, n, mode), '#include "prog.hpp"', "using namespace vt;", "namespace {"]
        s += [shape(r, k, mode) for k in range(m)]
        s += ["} // namespace", "void VT_ENTRY(run_prog_)() {", "    static void (*const f[])() = {%s};" % ", ".join("shape_%d" % k for k in range(m)), "    f[gen.below(%d)]();" % m, "}"]
        p = os.path.join(outdir, "prog%d.cpp" % c)
        with open(p, "w") as f:
            f.write("\n".join(s) + "\n")


main()
