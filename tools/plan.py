"""What is run for each property: generator jobs (number of scenarios per tier), model checking runs, level."""
SIM = dict(quick=600, thorough=6000)


def sim(fam, **k):
    return dict(dict(fam=fam, rounds_thorough=4, **SIM), **k)


ASSUME = ["the harness's own PDF, TrueType, PNG/JPEG and RC4 readers", "Go's standard library",
          "the limits listed in DESIGN.md (for example classic cross-reference tables, unencrypted templates)"]


def plan(*jobs, models=(), level="model_checking"):
    return dict(jobs=list(jobs), models=list(models), level=level, assumptions=ASSUME)


PLAN = {p: plan(sim(p)) for p in ["P%02d" % i for i in range(1, 23)]}
MODEL = dict(module="MCDoc.tla", cfg="MCDoc.cfg", cfg_thorough="MCDocT.cfg")  # the document model, exhaustively
for p in ("P03", "P10", "P11", "P12", "P13", "P14", "P15", "P17", "P18"):
    PLAN[p]["models"].append(MODEL)
for p in ("P10", "P11"):  # every short sequence of page operations (quick: a sample)
    PLAN[p]["jobs"].append(dict(fam=p, mode="bfs", module="GenPages.tla", cfg="GenPages.cfg", quick=400, thorough=0))
PLAN["P01"] = plan(sim("P01", quick=450))
PLAN["P20"] = plan(sim("P20", quick=450), sim("P20", var="race", race=True, quick=64, thorough=800))
PLAN["P23"] = plan(sim("P23", module="GenGP.tla", cfg="GenGP.cfg", trace="TraceGP"))

TV = "TLA+ document model (TLC): simulated histories replayed into the library, recorded traces validated against "
TECH = dict(
    P01=TV + "the structural invariants of Store.tla",
    P02=TV + "the template facts each save must keep",
    P03=TV + "the model's page contents",
    P04=TV + "the model's text items (characters, font, size, colour)",
    P05=TV + "the layout model Layout.tla",
    P06=TV + "the model's decorations, rises and kerns",
    P07=TV + "the glyph facts of the original fonts",
    P08=TV + "the pixel facts of the inserted images",
    P09=TV + "the model's image placements and sharing",
    P10=TV + "the model's page list",
    P11=TV + "the model's page list",
    P12=TV + "the model's page sizes",
    P13=TV + "the model, and against a second run without the failing calls",
    P14=TV + "the model, and against fresh sessions per save",
    P15=TV + "the model across generations, and against the unsplit session",
    P16=TV + "the model's protection state, decrypted saves compared with unprotected ones",
    P17=TV + "the model's text widths",
    P18=TV + "the model's line filling",
    P19=TV + "the model's field maps, and against the direct calls",
    P20=TV + "the model of two instances, interleaved and concurrent under the race detector",
    P21=TV + "the model with I/O faults, and against a run without them",
    P22=TV + "the dictionary entries of the template",
    P23="TLA+ model of the bundled writer GoPdf.tla (TLC): simulated drawing sessions replayed into the writer, recorded cursor, results and files validated against the model")
NOTE = ("TLC enumerates behaviours of the specification by seeded simulation; every recorded event of every replay is "
        "explained and judged by TLC in the trace specification. Bounds: the scenarios generated, see the evidence file.")
