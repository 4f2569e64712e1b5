"""C01-C08, C23: the data layer."""
import gen_data

# suites enumerated by TLC: name -> (module, quick cfg, thorough cfg, options)
MODELS = {
    "ParseStruct": ("MCParse", "MCParseStruct.cfg", "MCParseStructDeep.cfg", {}),
    "ParseRaw": ("MCParse", "MCParseRaw.cfg", "MCParseRawDeep.cfg", {}),
    "ArgNames": ("MCArg", "MCArgNames.cfg", "MCArgNamesDeep.cfg", {}),
    "ArgNumbers": ("MCArg", "MCArgNumbers.cfg", "MCArgNumbersDeep.cfg", {}),
    "ArgWords": ("MCArg", "MCArgWords.cfg", "MCArgWordsDeep.cfg", {}),
    "ArgUtf": ("MCArg", "MCArgUtf.cfg", "MCArgUtfDeep.cfg", {}),
    "ArgEnds": ("MCArg", "MCArgEnds.cfg", "MCArgEndsDeep.cfg", {}),
    "NearMsgs": ("MCNear", "MCNearMsgs.cfg", "MCNearMsgs.cfg", {}),
    "NearArgs": ("MCNear", "MCNearArgs.cfg", "MCNearArgs.cfg", {}),
    "Typed": ("MCTyped", "MCTyped.cfg", "MCTypedDeep.cfg", {}),
    "RenderWire": ("MCRender", "MCRenderWire.cfg", "MCRenderWire.cfg", {}),
    "RenderBytes": ("MCRender", "MCRenderBytes.cfg", "MCRenderBytes.cfg", {}),
    "RenderBig": ("MCRender", "MCRenderBig.cfg", "MCRenderBig.cfg", {"xss": "128m"}),
    "ClientIdsSmall": ("MCClientIds", "MCClientIdsSmall.cfg", "MCClientIdsSmall.cfg", {}),
    "ClientIdsLarge": ("MCClientIds", "MCClientIdsLarge.cfg", "MCClientIdsLarge.cfg", {}),
    "Selectors": ("MCSelectors", "MCSelectors.cfg", "MCSelectors.cfg", {}),
}
# property -> (aspects of failures that belong to it, models, generated suites with counts (quick, thorough))
PROPS = {
    "C01": ({"parse", "final"}, ["ParseStruct", "ParseRaw", "Typed", "NearMsgs"], {"parse": (4000, 60000), "prefixes": (500, 8000), "render": (500, 4000)}),
    "C02": ({"final"}, ["ParseStruct", "ParseRaw"], {"parse": (3000, 40000), "prefixes": (2000, 30000)}),
    "C03": ({"render", "parse"}, ["RenderWire", "RenderBytes", "RenderBig"], {"render": (2000, 30000), "tenc": (1500, 20000)}),
    "C04": ({"arg"}, ["ArgNumbers", "ArgEnds", "ArgUtf", "NearArgs"], {"arg": (4000, 80000)}),
    "C05": ({"ident"}, ["ArgNames", "ArgWords", "ArgUtf", "NearArgs"], {"name": (6000, 80000)}),
    "C06": ({"typed"}, ["Typed"], {"tenc": (2500, 30000), "tdec": (4000, 50000)}),
    "C07": ({"cid"}, ["ClientIdsSmall", "ClientIdsLarge"], {"cid": (1500, 20000)}),
    "C08": ({"disp"}, ["RenderBytes", "RenderWire", "ParseStruct"], {"render": (1500, 20000), "parse": (2000, 20000)}),
    "C23": ({"sel"}, ["Selectors"], {"sel": (2500, 40000)}),
}
DESCRIBE = ("every state of the listed TLA+ models (module/config) becomes a test; generated cases are evaluated by spec/Oracle.tla; "
            "every test runs on the real code through vt6-harness and must give exactly the result the specification computes")

def run(run):
    aspects, models, gens = PROPS[run.pid]
    def model(name):
        mod, quick, thorough, opt = MODELS[name]
        lines = run.model(mod, thorough if run.thorough else quick, workers=3, **opt)
        run.replay(name, lines)
    def gen(kind, n):
        cs = gen_data.cases(kind, n, "%s %s" % (run.pid, run.seed))
        for i in range(0, len(cs), 20000):
            run.replay("random-" + kind, run.oracle(kind, cs[i:i + 20000], workers=3, xss="128m"))
    jobs = [lambda m=m: model(m) for m in models] + [lambda k=k, c=c: gen(k, c[1] if run.thorough else c[0]) for k, c in gens.items()]
    run.parallel(jobs)
    run.assumptions = ["bounds of the enumerated models are those of the .cfg files; beyond them coverage is by seeded generation",
                       "TLC evaluates the specification correctly; the harness compares results byte by byte"]
    return run.finish(aspects, DESCRIBE)
