"""What each check runs."""
from lib import checks, collector, corpus, encodings, escape, expand, lax, many, mc, mc_checks, mc_encoding, mc_many, mc_sink, parallel, returns, scripts, sinks, traces, typed


def model_and_traces(mcs, trs, thorough_mcs=None, thorough_trs=None, also=(), distances=(), counts=(), depths=()):
    """Bounded models replayed on the code, and random runs validated."""
    def run(ctx):
        ctx.build()
        ms = mcs if ctx.quick else (thorough_mcs or mcs)
        ts = trs if ctx.quick else (thorough_trs or [dict(t, n=t["n"] * 8) for t in trs])
        jobs = [lambda m=m: mc(ctx, **m) for m in ms] + [lambda t=t, i=i: traces(ctx, seed=i, **t) for i, t in enumerate(ts)]
        jobs += [lambda f=f: f(ctx) for f in also]
        jobs.append(lambda: corpus(ctx, ts[0].get("judge", STEP), ts[0].get("evs", False), distances, counts,
                                   depths if ctx.quick or not depths else depths + FURTHER))
        parallel(jobs)
    return run


def several(ctx):
    parallel([lambda: (ctx.build(), parallel([lambda: many(ctx, 150 if ctx.quick else 3000, False),
                                              lambda: mc_many(ctx, 3 if ctx.quick else 4),
                                              lambda: mc(ctx, "past", 3 if ctx.quick else 4, 2, 9, evs=True),
                                              lambda: corpus(ctx)])),
              lambda: (ctx.build(race=True), many(ctx, 120 if ctx.quick else 2000, True, 1))])


def c09(ctx):
    ctx.build()
    q = ctx.quick
    parallel([lambda: mc_sink(ctx, 3 if q else 4),
              lambda: sinks(ctx, "sink", 400 if q else 4000, 40 if q else 60, seed=1),
              lambda: sinks(ctx, "sink1", 400 if q else 4000, 400, seed=2),
              lambda: sinks(ctx, "sink", 200 if q else 2500, 25 if q else 50, True, seed=3)])


def c10(ctx):
    ctx.build()
    q = ctx.quick
    parallel([lambda: mc_sink(ctx, 3 if q else 4),
              lambda: sinks(ctx, "sink", 900 if q else 8000, seed=1),
              lambda: sinks(ctx, "sink1", 600 if q else 4000, seed=2),
              lambda: sinks(ctx, "sink", 600 if q else 5000, encodings=True, seed=3)])


def c19(ctx):
    ctx.build()
    parallel([lambda: mc_checks(ctx),
              lambda: checks(ctx, 1500 if ctx.quick else 40000, ctx.quick)])


def c03(ctx):
    ctx.build()
    if ctx.quick:
        escape(ctx, 3, 200, 3)
    else:
        escape(ctx, 4, 6000, 8)


def c17(ctx):
    ctx.build()
    q = ctx.quick
    parallel([lambda: mc_encoding(ctx, 4 if q else 7, 6 if q else 9),
              lambda: encodings(ctx, 1800 if q else 14000, 10 if q else 14)])


def c18(ctx):
    ctx.build()
    if ctx.quick:
        collector(ctx, [(2, 2, 2, 2), (3, 1, 2, 2)], 2000)
    else:
        collector(ctx, [(2, 3, 3, 3), (3, 2, 2, 1), (4, 1, 1, 1)], 40000, 4)


def c21(ctx):
    ctx.build()
    if ctx.quick:
        typed(ctx, 300, 99, 0.5, 8000, False)
    else:
        typed(ctx, 3000, 300, 1, 150000, True)


def c22(ctx):
    ctx.build()
    if ctx.quick:
        scripts(ctx, 2, 4000)
    else:
        scripts(ctx, 4, 60000, 8, 2000)


def c23(ctx):
    ctx.build()
    if ctx.quick:
        returns(ctx, [(0, 2), (1, 3)], 3000)
    else:
        returns(ctx, [(0, 2), (1, 4)], 60000)


def M(alphabet, ops, opn, mem, **kw):
    return dict(alphabet=alphabet, maxops=ops, maxopen=opn, memory=mem, **kw)


def T(profile, n, **kw):
    return dict(profile=profile, n=n, **kw)


WF, TREE, STEP = ("wf",), ("wf", "tree"), ("step",)
MODELS = "model_checking"
COUNTS = (200, 256, 40000, 65536)   # where a narrow counter goes wrong
DEPTHS, FURTHER = (1100, 5000), (20000, 66000)

CHECKS = {
    "C01": (model_and_traces(
        [M("tags", 3, 3, 9, close=1, judge="wf"), M("content", 3, 1, 9, close=1, judge="wf"), M("dtd", 4, 2, 1, close=1, judge="wf"),
         M("pi", 1, 1, 9, close=1, judge="wf"), M("names", 1, 1, 9, close=1, judge="wf"), M("decl", 1, 1, 9, close=1, judge="wf"),
         M("inline", 2, 3, 9, close=1, judge="wf"), M("bulk", 2, 300, 0, close=1, judge="wf")],
        [T("wf", 4000, judge=WF)]), MODELS),
    "C02": (model_and_traces(
        [M("tags", 3, 3, 9, close=1, judge="tree"), M("inline", 2, 3, 9, close=1, judge="tree"), M("content", 3, 1, 9, close=1, judge="tree"),
         M("dtd", 4, 2, 1, close=1, judge="tree"), M("ends", 3, 3, 1, close=1, judge="tree"), M("bulk", 2, 300, 0, close=1, judge="tree")],
        [T("tree", 2500, judge=TREE)]), MODELS),
    "C04": (model_and_traces([M("place", 4, 4, 1)], [T("place", 1500), T("any", 600)],
                             [M("place", 5, 4, 1), M("place", 4, 4, 2)]), MODELS),
    "C05": (model_and_traces([M("ends", 4, 3, 0), M("ends", 3, 3, 1), M("bulk", 2, 300, 0, close=1)], [T("ends", 1200)],
                             [M("ends", 4, 3, 2), M("ends", 5, 4, 0), M("bulk", 3, 300, 0)], depths=DEPTHS), MODELS),
    "C06": (model_and_traces([M("tags", 3, 3, 9), M("tags", 4, 3, 2), M("bulk", 2, 300, 0, close=1)], [T("tags", 1200)],
                             [M("tags", 4, 3, 9), M("tags", 5, 4, 1), M("bulk", 3, 300, 0)], counts=COUNTS, depths=DEPTHS), MODELS),
    "C07": (model_and_traces([M("ns", 3, 2, 9)], [T("ns", 2500)],
                             [M("ns", 4, 2, 9)]), MODELS),
    "C08": (model_and_traces([M("inline", 3, 3, 9)], [T("inline", 800)],
                             also=[lambda c: expand(c, 2000 if c.quick else 20000)]), MODELS),
    "C11": (model_and_traces([M("indent", 4, 4, 1), M("layout", 4, 3, 1), M("bulk", 2, 300, 0, close=1)], [T("indent", 1500)],
                             [M("indent", 5, 4, 1), M("indent", 4, 4, 2), M("layout", 5, 4, 1), M("bulk", 3, 300, 0)], counts=COUNTS), MODELS),
    "C12": (model_and_traces([M("events", 4, 4, 1, evs=True), M("bulk", 2, 300, 0, close=1, evs=True)], [T("events", 1200, evs=True)],
                             [M("events", 5, 4, 1, evs=True), M("events", 4, 4, 2, evs=True), M("bulk", 3, 300, 0, evs=True)], counts=COUNTS), MODELS),
    "C13": (model_and_traces([M("content", 3, 1, 9), M("pi", 1, 1, 9), M("names", 1, 1, 9), M("decl", 1, 1, 9)], [T("content", 2500)],
                             [M("content", 4, 1, 9), M("pi", 1, 1, 9), M("names", 1, 1, 9), M("decl", 1, 1, 9)],
                             distances=(100, 300, 700, 1500, 3000, 6000, 12000)), MODELS),
    "C14": (model_and_traces([M("lax", 3, 3, 9), M("names", 1, 1, 9), M("decl", 1, 1, 9), M("pi", 1, 1, 9)], [T("lax", 1500)],
                             [M("lax", 4, 3, 9), M("names", 1, 1, 9), M("decl", 1, 1, 9), M("pi", 1, 1, 9), M("dtd", 4, 2, 9)],
                             also=[lambda c: lax(c, 1500 if c.quick else 15000)]), MODELS),
    "C15": (model_and_traces([M("dtd", 4, 2, 1), M("decl", 1, 1, 9), M("bulk", 2, 300, 0, close=1)], [T("dtd", 1800)],
                             [M("dtd", 5, 2, 1), M("dtd", 4, 2, 9), M("decl", 1, 1, 9), M("bulk", 3, 300, 0)], counts=COUNTS), MODELS),
    "C16": (model_and_traces([M("doc", 1, 1, 9), M("docafter", 3, 3, 9)], [T("doc", 2500)],
                             [M("doc", 2, 2, 9), M("docafter", 4, 3, 9)]), MODELS),
    "C20": (several, MODELS),
    "C09": (c09, MODELS),
    "C10": (c10, MODELS),
    "C19": (c19, MODELS),
    "C17": (c17, MODELS),
    "C21": (c21, MODELS),
    "C22": (c22, MODELS),
    "C18": (c18, MODELS),
    "C23": (c23, MODELS),
    "C03": (c03, MODELS),
}

TECH_MODEL = "TLA+ model of the writer: TLC-enumerated transitions replayed on the code, recorded runs validated against the model"
TECHNIQUE = {
    "C01": "TLA+: TLC-enumerated transitions and recorded histories; the bytes of every closed history parsed by the XML reader specified in XmlGrammar.tla",
    "C02": "TLA+: the reader's events of every closed history compared with the tree XmlTree.tla says the calls mean; TLC-enumerated and recorded histories",
    "C03": "TLA+: Escape.tla enumerated by TLC over short strings and every code point, replayed; recorded writes validated against the escape relation and its inverse",
    "C08": "TLA+: Expand.tla defines the step-by-step equivalent of a call; both are run and TLC checks each pair (TraceExpand), plus the writer model (inline alphabet) replayed",
    "C09": "TLA+: Sink.tla (buffer, failing sink, latched error) checked by TLC; recorded runs with the sink failing at every write validated against it (TraceSink)",
    "C10": "TLA+: Sink.tla checked by TLC; every history run with many buffer sizes and flush placements and validated against it (TraceSink)",
    "C14": "TLA+: writer model with checks off (lax alphabet) replayed; recorded runs validated; TraceTwin compares each history with validation on and off",
    "C17": "TLA+: Encodings.tla decodes single- and multi-byte encodings; MCEncoding transitions replayed; recorded runs decoded and compared by TLC (TraceEncoding)",
    "C18": "TLA+: ErrCollector.tla's full state graph (TLC, MCErr) replayed on the real collector; recorded long histories validated (TraceErr)",
    "C19": "TLA+: Chars.tla productions; TLC classifies every code point and all short strings (MCChecks), replayed; sweeps of all code points at several offsets validated (TraceChecks)",
    "C20": "TLA+: MCMany interleaves several writers (TLC), replayed; recorded interleaved and concurrent runs validated against solo behaviour; race detector on",
    "C21": "TLA+: Decimal.tla (exact integer and rational arithmetic) decides that each text reads back as the value and is the shortest; MCDecimal replayed, recorded values validated (TraceTyped)",
    "C22": "TLA+: Script.tla translates a script into writer calls; MCScript enumerated by TLC and run by the built gotester; recorded scripts validated (TraceScript)",
    "C23": "TLA+: Returns.tla gives what any call may do to the depth; its transitions enumerated by TLC and recorded wild histories (panics, time-outs, errors) validated (TraceReturns)",
}
NOTE_MODEL = ("Every transition of the bounded model is replayed on the real writer and compared (error, depth, bytes); seeded random "
              "histories beyond the bounds are validated step by step. Trusts TLC, the specification and the driver's argument mapping; "
              "nothing is claimed for histories outside the bounds that were not sampled.")
NOTE = {
    "C03": "Every string up to length 3 (4 thorough) over an alphabet of everything that matters and every code point, in every place and several surroundings; positions over two thousand offsets; longer strings sampled. Trusts TLC and the specification.",
    "C09": "A failure at every byte of short histories and at a sample of bytes of long ones, in several manners, with and without an encoder; bounded model of the buffer. Histories are sampled.",
    "C10": "Many buffer sizes and flush placements per sampled history; bounded model of the buffer. Histories are sampled.",
    "C17": "ISO-8859-1/-15, Windows-1252, KOI8-R, UTF-16 (both orders, with and without BOM), Shift-JIS, EUC-JP and ISO-2022-JP (a known subset of the double-byte characters); histories sampled. One known finding (characters outside content).",
    "C18": "Every history of the bounded model; longer ones sampled. File and line of each Do are compared too.",
    "C19": "Every code point in many surroundings and at many offsets, malformed UTF-8 of every kind; longer strings sampled. One known finding (supplementary-plane names).",
    "C20": "Interleavings exhaustive within the bounded model, otherwise sampled; data races are only found on schedules that ran.",
    "C21": "Edge values of each type from the model, values sampled over each type's range; exact arithmetic in TLA+ decides, so no trust in strconv.",
    "C22": "Scripts exhaustive to two (four) commands over a vocabulary, longer ones sampled; the program is built from the current tree and run as a process.",
    "C23": "Histories exhaustive to a small length over an alphabet of every kind of call, longer ones sampled; hanging means the watchdog's time ran out.",
}
