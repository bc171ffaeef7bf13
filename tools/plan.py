"""Which steps decide which property."""

N = 8  # shards


def mode(label, name, build="isa", shards=N, profile="release", weight=2, **args):
    return {"do": "mode", "label": label, "mode": name, "build": build, "shards": shards, "profile": profile,
            "weight": weight, "args": args}


def trace(label, kind, aspects, events, build="isa", shards=N, areas="all", weight=3, **args):
    return {"do": "trace", "label": label, "mode": "record", "build": build, "shards": shards,
            "aspects": aspects, "areas": areas, "events": events, "weight": weight, "args": {"kind": kind, **args}}


def pairs(label, kind, events, build="isa", shards=N, weight=3, mode="record"):
    return {"do": "pairs", "label": label, "mode": mode, "build": build, "shards": shards, "events": events,
            "weight": weight, "args": {"kind": kind} if mode == "record" else {}}


def facts(label, name, events, shards=N, build="isa", weight=4, **args):
    return {"do": "facts", "label": label, "mode": name, "build": build, "shards": shards, "events": events,
            "weight": weight, "args": args}


def model(module, cfg, expect=0, workers=2, weight=4, heap="3g", **env):
    return {"do": "model", "module": module, "cfg": cfg, "expect": expect, "workers": workers, "weight": weight,
            "heap": heap, "env": env}


def dcp(cfg, expect=0, **kw):
    return model("MCDcp", f"MCDcp_{cfg}.cfg", expect, **kw)


def behave(t, build="isa", shards=N, events=(12, 120), weight=4):
    """Behaviours generated from the specification, made by the library"""
    return [{"do": "behave", "label": "behaviours" + (", as shipped" if build == "plain" else ""), "build": build,
             "shards": shards, "events": pick(t, *events), "weight": weight}]


def color(t, *bad):
    return [model("MCColor", pick(t, "MCColor.cfg", "MCColor_deep.cfg"), workers=4, weight=6)] + \
        [model("MCColor", f"MCColor_bad_{b}.cfg", "refuted") for b in bad]


def layout(t):
    return [model("MCLayout", pick(t, "MCLayout.cfg", "MCLayout_deep.cfg"), workers=4, weight=5),
            model("MCLayout", "MCLayout_bad.cfg", "refuted")]


def convert(t):
    return [model("MCConvert", pick(t, "MCConvert.cfg", "MCConvert_deep.cfg"), weight=4),
            model("MCConvert", "MCConvert_bad.cfg", "refuted")]


def blocks(*cfgs):
    return [model("MCBlocks", f"MCBlocks{c}.cfg", weight=3) for c in cfgs] + \
        [model("MCBlocks", "MCBlocks_bad.cfg", "refuted")]


def checked(label, name, build="isa", weight=3, **args):
    """The same calls where the library is built with overflow checks and debug assertions"""
    return [mode(label + ", arithmetic checks on", name, build, profile="checked", weight=weight, **args)]


def pick(tier, quick, thorough):
    return thorough if tier == "thorough" else quick


def c01(t):
    return [mode("all descriptions, all edges", "matrix", weight=5),
            mode("colossal images", "colossal", weight=3, prop="C01"),
            mode("all descriptions, all edges, as shipped", "matrix", build="plain", weight=4),
            trace("requests", "requests", ["OUTCOME"], pick(t, 4000, 30000)),
            trace("requests, as shipped", "requests", ["OUTCOME"], pick(t, 1500, 10000), build="plain", shards=4)] + \
        layout(t) + checked("all descriptions, all edges", "matrix", weight=4) + \
        behave(t) + behave(t, "plain", 4)


def c02(t):
    return [mode("extreme shapes", "extreme", weight=4, prop="C02"),
            mode("guard pages", "guard", weight=5),
            mode("guard pages, as shipped", "guard", build="plain", weight=4),
            trace("histories", "images", ["BOUNDS"], pick(t, 220, 1500)),
            trace("requests", "requests", ["BOUNDS"], pick(t, 2500, 20000), shards=4)] + behave(t) + \
        layout(t) + blocks("", "_row", "_exact")


def c03(t):
    return [mode("extreme shapes", "extreme", weight=4, prop="C03"),
            dcp("frame"),
            mode("frames", "frame", weight=4),
            mode("rows among bytes of others", "tiles", prop="C03"),
            trace("frames of histories", "images", ["FRAME"], pick(t, 220, 1500))] + \
        convert(t) + \
        behave(t) + behave(t, "plain", 4)


def c04(t):
    return [mode("extreme shapes", "extreme", weight=4, prop="C04"),
            mode("vast images", "vast", weight=9, prop="C04"),
            mode("luma and 4:4:4 chroma", "values", weight=9, prop="C04"),
            trace("histories", "images", ["VALUES"], pick(t, 160, 1200), convs="rgb2yuv", areas="full")] + \
        color(t) + \
        behave(t)


def c05(t):
    return [mode("extreme shapes", "extreme", weight=4, prop="C05"),
            mode("vast images", "vast", weight=9, prop="C05", sets="last"),
            mode("4:2:0 chroma", "values", weight=9, prop="C05"),
            trace("histories", "images", ["VALUES"], pick(t, 160, 1200), convs="sub", areas="sub")] + \
        color(t) + convert(t) + \
        behave(t)


def c06(t):
    return [mode("extreme shapes", "extreme", weight=4, prop="C06"),
            mode("vast images", "vast", weight=9, prop="C06"),
            mode("inverse transform", "values", weight=9, prop="C06"),
            trace("histories", "images", ["VALUES"], pick(t, 160, 1200), convs="yuv2rgb")] + \
        color(t, "centre") + \
        behave(t)


def c07(t):
    return [mode("extreme shapes", "extreme", weight=4, prop="C07"),
            mode("vast images", "vast", weight=9, prop="C07"),
            mode("channel copies", "values", weight=9, prop="C07"),
            trace("histories", "images", ["VALUES"], pick(t, 160, 1200), convs="rgb2rgb")] + \
        convert(t) + \
        behave(t)


def c08(t):
    return [mode("extreme shapes", "extreme", weight=4, prop="C08"),
            mode("vast images", "vast", weight=9, prop="C08"),
            mode("instruction sets", "isa", weight=5),
            pairs("pairs of instruction sets", "isa_pairs", pick(t, 200, 1200))] + \
        checked("instruction sets", "isa") + \
        color(t, "wrap") + blocks("_exact") + \
        behave(t)


def c09(t):
    return [mode("all queries", "matrix", part="queries"),
            mode("all queries, as shipped", "matrix", build="plain", part="queries"),
            trace("size queries", "sizes", ["SIZES"], pick(t, 6000, 40000), build="plain")] + \
        layout(t) + checked("all queries", "matrix", "plain", part="queries") + \
        behave(t, "plain")


def c10(t):
    return [mode("extreme shapes", "extreme", weight=4, prop="C10"),
            mode("colossal images", "colossal", weight=3, prop="C10"),
            mode("buffers of the queried size", "suffice", weight=5),
            trace("queries and conversions", "suffice", ["SUFFICE"], pick(t, 800, 6000))] + \
        checked("buffers of the queried size", "suffice") + \
        layout(t)


def c11(t):
    return [mode("extreme shapes", "extreme", build="plain", weight=4, prop="C11"),
            mode("colossal images", "colossal", build="plain", weight=3, prop="C11"),
            mode("both interfaces", "capi", build="plain", weight=5),
            mode("both interfaces, all descriptions", "matrix", build="plain", part="interfaces", weight=3),
            pairs("pairs of interfaces", "interface_pairs", pick(t, 200, 1200), build="plain")] + \
        checked("both interfaces", "capi", "plain", 4) + \
        checked("both interfaces, all descriptions", "matrix", "plain", part="interfaces") + \
        behave(t, "plain")


def c12(t):
    return [mode("all nonsense", "matrix", build="plain", part="nonsense"),
            trace("nonsense", "c_nonsense", ["C_REFUSAL"], pick(t, 3000, 20000), build="plain")] + \
        checked("all nonsense", "matrix", "plain", part="nonsense")


def c13(t):
    return [dcp("strings"), dcp("bad_lossy", "refuted"),
            mode("allocator balance", "leak", build="plain", weight=3),
            trace("strings", "strings", ["STRINGS"], pick(t, 400, 3000), build="plain"),
            trace("strings and threads", "threads", ["STRINGS"], pick(t, 300, 2000), build="plain", shards=4)] + \
        behave(t, "plain")


def c14(t):
    return [dcp("race", weight=9), dcp("bad_racy", "refuted"), dcp("bad_stuck", "refuted"),
            mode("first use by many threads", "race", weight=5),
            mode("first use by many threads, as shipped", "race", build="plain", weight=5),
            mode("tiles of one picture", "tiles", weight=3, prop="C14"),
            trace("threads", "threads", ["OUTCOME", "STRINGS"], pick(t, 300, 2000), build="plain")] + \
        pick(t, [], [dcp("all3", weight=20, workers=4, heap="6g")]) + \
        behave(t, "plain", events=(20, 200))


def c15(t):
    return [dcp("history"),
            mode("histories", "history", weight=5),
            mode("long histories", "longrun", weight=9),
            mode("very many calls", "marathon", weight=5),
            mode("very many calls, as shipped", "marathon", build="plain", weight=3),
            mode("histories, as shipped", "history", build="plain", weight=4),
            *checked("histories", "history", weight=4),
            pairs("calls with and without a past", "", pick(t, 200, 1200), mode="history")] + \
        pick(t, [], [dcp("deep_history", weight=20, workers=4, heap="6g")]) + \
        behave(t) + behave(t, "plain", 4)


def c16(t):
    return [mode("extreme shapes", "extreme", weight=4, prop="C16"),
            mode("layouts", "layout", weight=5),
            pairs("pairs of layouts", "layout_pairs", pick(t, 200, 1200))] + \
        convert(t)


def c17(t):
    return [model("MCCpu", "MCCpu.cfg")] + \
        [model("MCCpu", f"MCCpu_bad_{b}.cfg", "refuted") for b in ("leaf", "system", "eager")] + \
        [facts("machines", "cpu", 0, weight=5)]


def c18(t):
    return [mode("all colors", "fidelity", weight=9),
            facts("colors", "record", pick(t, 4000, 40000), kind="colors")] + \
        color(t, "centre")


def c20(t):
    return [facts("interfaces", "iface", 0, shards=1)]


def c19(t):
    return [mode("extreme shapes", "extreme", weight=4, prop="C19"),
            mode("colossal images, arithmetic checks on", "colossal", profile="checked", weight=4, prop="C19"),
            mode("arithmetic checks on", "total", profile="checked", weight=4),
            mode("optimized", "total", weight=3),
            trace("requests", "requests", ["RETURNS"], pick(t, 2500, 20000)),
            trace("size queries", "sizes", ["RETURNS"], pick(t, 2000, 15000), build="plain", shards=4)] + \
        behave(t, shards=4) + behave(t, "plain", 4)


PLANS = {k.upper(): v for k, v in globals().items() if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
LEVEL = {p: "model_checking" for p in PLANS}
ASSUMPTIONS = [
    "x86_64 (scalar, SSE2, AVX2 kernels as far as the CPU has them); the NEON and WebAssembly kernels are not built",
    "callers keep to the safety rules of the language: sources and destinations of one call do not overlap",
]
TECHNIQUE = {
    "C01": "TLA+ specification of the request checks (Api.tla), explored with TLC (MCLayout); recorded requests validated "
           "with TLC; exported outcomes and generated behaviours replayed",
    "C02": "TLA+ specification of plane bounds and vector blocks (Layout.tla, MCBlocks.tla), explored with TLC; recorded "
           "memory validated with TLC; exported footprints replayed between inaccessible pages",
    "C03": "TLA+ frame conditions explored with TLC (MCDcp, MCConvert); recorded memory validated with TLC; exported "
           "footprints and generated behaviours replayed",
    "C04": "TLA+ color arithmetic (Color.tla) checked with TLC against the real formula; recorded images validated with "
           "TLC; exported tables replayed on all colors",
    "C05": "TLA+ color arithmetic on 2x2 blocks checked with TLC; recorded images validated with TLC; exported tables "
           "replayed",
    "C06": "TLA+ inverse arithmetic checked with TLC; recorded images validated with TLC; exported tables replayed on all "
           "triples",
    "C07": "TLA+ channel recipes (Pixels.tla) explored with TLC (MCConvert); recorded images validated with TLC; exported "
           "recipes replayed",
    "C08": "relational TLA+ specification (Relate.tla): recorded pairs of instruction sets validated with TLC; TLC models "
           "of 16-bit arithmetic and vector blocks; generated behaviours replayed by every set",
    "C09": "TLA+ specification of plane sizes in words of any size, explored with TLC (MCLayout); recorded queries "
           "validated with TLC; exported sizes replayed",
    "C10": "TLA+ sufficiency of granted sizes (MCLayout, DcpTrace.tla); recorded queries and conversions validated with TLC",
    "C11": "relational TLA+ specification (Relate.tla): recorded pairs of interfaces validated with TLC; generated "
           "behaviours replayed through both",
    "C12": "TLA+ specification of C refusals (Api.tla); recorded nonsense calls validated with TLC; exported refusals "
           "replayed",
    "C13": "TLA+ model of string ownership: TLC on MCDcp, recorded histories validated with TLC, generated behaviours "
           "replayed",
    "C14": "TLA+ model of first use: TLC over all interleavings (safety and liveness), recorded threads validated with "
           "TLC, generated interleavings replayed",
    "C15": "TLA+ model of histories: TLC on MCDcp, recorded pairs of calls validated with TLC (Relate.tla), generated "
           "behaviours replayed",
    "C16": "relational TLA+ specification (Relate.tla): recorded pairs of layouts validated with TLC; MCConvert",
    "C17": "TLA+ model of feature detection (Cpu.tla, MCCpu.tla) explored with TLC; its machines replayed on substituted "
           "CPUID and XGETBV, what was said validated with TLC",
    "C18": "TLA+ real-valued formulas (Fidelity.tla) in exact fractions: recorded colors validated with TLC, exported "
           "formulas replayed on all colors",
    "C19": "TLA+ specification in unbounded words, in which every call has an outcome; recorded extreme calls validated "
           "with TLC; requests replayed in builds with arithmetic checks",
    "C20": "TLA+ table of names, numbers, layouts and prototypes (Interfaces.tla); recorded facts validated with TLC",
}
_BOUND = "The specification is checked by TLC within the stated constants; the code is bound to it by recorded or replayed " \
         "calls, so what is not exercised is not judged. "
NOTES = {p: _BOUND + n for p, n in {
    "C01": "The discrete part of descriptions is complete; sizes, strides and lengths are edges and random numbers.",
    "C02": "Reads are only seen where they reach inaccessible memory, or (in calls that are refused) at all.",
    "C03": "Every byte around and between the rows is compared; sizes, strides and places are sampled.",
    "C04": "Colors are complete for one place in the image, places are complete for some widths; not their product.",
    "C05": "Blocks are sampled (equal pixels completely); places are complete for some widths.",
    "C06": "Triples are complete for one place in the image, places are complete for some widths; not their product.",
    "C07": "Values are complete per channel, places are complete for some widths.",
    "C08": "Instruction sets the machine has.",
    "C09": "Formats, planes and list lengths are complete; dimensions and strides are edges and random numbers.",
    "C10": "Formats and planes are complete; sizes and strides are sampled.",
    "C11": "Descriptions are complete; sizes, strides, contents and null or nonsensical arguments are sampled.",
    "C12": "Subsets of null pointers are complete; unknown numbers are edges and random.",
    "C13": "Histories are sampled.",
    "C14": "Schedules are complete in the model (two threads, thorough: three), sampled in the library.",
    "C15": "Histories are sampled; pairs of conversions that might collide are tried systematically.",
    "C16": "Conversions are complete; layouts and contents are sampled.",
    "C17": "Every machine of the specification is played, where CPUID can be made to trap and steps can be made; what "
           "was skipped is noted in the evidence.",
    "C18": "Complete over colors and triples (thorough: quick takes one in eight of the blocks).",
    "C19": "Requests are sampled with a preference for edges.",
    "C20": "Complete.",
}.items()}
RULES = {p: "distinct calls (of random, exported or generated descriptions, layouts and contents) whose result was judged; "
            "refused requests count only where refusal is what is judged" for p in PLANS}
