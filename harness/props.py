"""Which behaviour of the implementation is recorded for which property, and which verdicts of
the specification decide it.

For each property:
  space, model   input profiles (gen.profile) for TraceSpace and TraceSoepy
  unit           number of inputs for TraceUnit (refusals: how many of them also try broken inputs)
  pairs          relations for TracePair
  sessions       number of sessions for TraceSession
  reuse          number of sessions that keep and change one object or file
  freq           large samples for TraceFreq (True: with fair expectations)
  lives          number of runs of three scripted lives for TraceLife
  witness        inputs that exhibit known findings
  mc             configurations under /verif/spec checked by TLC on their own
  clauses        patterns of the clauses that decide the property
"""

RELS = ["splitting", "partner-pay", "regime", "family", "minimum", "past", "education", "types", "start", "unscaled",
        "believed", "unbiased", "biasedly", "absorbed"]

# Corners that every property of the solution or the simulation is looked at in.
BROAD = ["random", "long", "types", "late", "ages", "epochs", "biased", "boost", "erz", "elterngeld", "poor", "scaled", "grid", "fine", "certain", "broad",
         "crowd", "lonely", "nobody", "moment", "scaled-down", "latecomers"]

PROPS = {
    "C01": dict(
        space=["random"] * 4 + ["long", "types", "no-kids", "tiny", "moment", "late", "certain", "ends", "longfile", "vast", "epochs", "ages"],
        mc=["MCStateSpace"], clauses=["space.index", "space.states", "space.count"]),
    "C02": dict(
        space=["random"] * 3 + ["long", "types", "no-kids", "late", "certain", "vast", "epochs", "ages", "moment"],
        model=["long", "certain", "no-kids", "barren", "ages", "epochs"], lives=4,
        mc=["MCStateSpace", "MCLife"], clauses=["space.succ", "space.succ.last", "space.ageing", "sim.age", "sim.lag", "life.*"]),
    "C03": dict(
        space=["random"] * 4 + ["long", "long", "types", "rich-split", "poor", "late", "vast", "epochs", "ages", "ages"],
        model=["long", "erz", "poor", "ages", "epochs", "late"],
        clauses=["space.bin", "space.male", "space.equiv", "space.benefit", "sim.male"]),
    "C04": dict(
        space=["random"] * 8 + ["barren", "barren", "longfile", "longfile", "certain", "late", "long", "tiny", "moment", "epochs", "ages", "ages"],
        model=["certain", "certain", "barren", "longfile", "late", "ages", "random"], freq=[False], lives=4,
        clauses=["table.*", "solve.cont", "sim.birth", "sim.partner", "life.*", "freq.educ", "freq.child", "freq.partner", "freq.pt", "freq.ft",
                 "freq.birth*", "freq.arrival*", "freq.separation*"]),
    "C05": dict(
        unit=4, model=BROAD + ["boost", "boost", "late", "biased", "long", "certain"], mc=["MCExperience"],
        clauses=["unit.inc", "unit.maxyears", "unit.years", "unit.stock", "unit.next", "sim.stock", "sim.start.stock", "sim.stock.range", "sim.compact.stock"]),
    "C06": dict(
        model=BROAD + ["boost", "boost", "late", "biased", "long", "certain", "random", "random"], witness=["experience"], mc=["MCExperience"],
        clauses=["sim.years", "sim.start.years", "sim.counts", "finding.entry-scale", "finding.overfull", "finding.rescaled"]),
    "C07": dict(
        unit=3, model=BROAD + ["scaled", "scaled", "noisy", "boost", "late", "biased", "random"], pairs=["unscaled"],
        clauses=["unit.logwage", "sim.wage", "sim.wage.seen", "sim.compact.wage", "solve.emax.last", "pair.*.unscaled"]),
    "C08": dict(
        unit=6, model=BROAD + ["rich-split", "rich-apart", "rich-split", "rich-apart", "scaled"], mc=["MCTax"],
        clauses=["unit.tax.*", "unit.ssc.*", "unit.net.*", "solve.emax.last", "sim.flow.work"]),
    "C09": dict(
        unit=6, model=BROAD + ["erz", "erz-poor", "elterngeld", "elterngeld", "scaled", "poor", "long"], mc=["MCBenefits"],
        clauses=["unit.home.*", "sim.flow.home", "solve.emax.last"]),
    "C10": dict(
        unit=1, model=BROAD + ["long", "types", "types", "boost", "random", "random", "elterngeld"], pairs=["absorbed", "types"],
        clauses=["solve.factor", "sim.factor", "unit.lists", "pair.factor.absorbed", "pair.factor.types", "pair.value.absorbed", "pair.value.types"]),
    "C11": dict(
        unit=3, model=BROAD + ["grid", "ends", "certain", "biased", "late", "boost", "barren", "long", "random"],
        clauses=["unit.cont", "unit.interp", "solve.cont", "sim.cont"]),
    "C12": dict(
        model=BROAD + ["random"] * 4 + ["noisy", "draws", "nodes", "sample", "erz", "types", "biased", "grid", "scaled", "certain"], mc=["MCBellman"],
        clauses=["solve.emax", "solve.emax.last", "solve.cont"]),
    "C13": dict(
        unit=3, model=BROAD + ["noisy", "noisy", "draws", "draws", "nodes", "nodes", "sample", "sample", "erz"], pairs=["same0", "same3"],
        clauses=["unit.quadrature", "unit.montecarlo", "solve.emax.last", "pair.value.same", "pair.history.same"]),
    "C14": dict(
        model=BROAD + ["random"] * 3 + ["grid", "ends", "erz", "elterngeld", "rich-apart", "scaled", "poor", "types", "long"],
        clauses=["sim.value", "sim.choice", "sim.flow.*", "sim.cont", "sim.factor"]),
    "C15": dict(
        model=BROAD + ["random"] * 2 + ["long", "late", "late", "certain", "no-kids", "barren", "types", "tiny"], lives=12, mc=["MCLife"],
        clauses=["sim.legal", "sim.start", "sim.clock", "sim.lag", "sim.counts", "sim.age", "sim.partner", "sim.birth", "sim.population", "sim.compact.life", "life.*"]),
    "C16": dict(
        model=BROAD + ["random"] * 2 + ["late", "late", "types", "boost", "certain"], freq=[False, False, False],
        clauses=["sim.start", "sim.start.lag", "sim.population", "freq.educ", "freq.child", "freq.partner", "freq.pt", "freq.ft", "freq.type",
                 "freq.joint.child-partner", "freq.joint.pt-ft", "freq.joint.child-pt", "freq.joint.type-educ", "freq.joint.type-child", "freq.joint.traits"]),
    "C17": dict(
        model=BROAD + ["certain", "certain", "certain", "barren", "barren", "long"], freq=[False, False, False], lives=12, mc=["MCLife"],
        clauses=["sim.birth", "sim.partner", "life.*", "freq.birth*", "freq.arrival*", "freq.separation*", "freq.joint.birth-*"]),
    "C18": dict(
        model=BROAD + ["random"] * 2 + ["erz", "erz-poor", "elterngeld", "scaled", "grid", "boost", "poor", "barren"], witness=["birth-timing"], mc=["MCAgree"],
        freq=[True, True],
        clauses=["agree.law", "finding.birth-timing", "freq.martingale", "solve.cont", "solve.emax*", "sim.cont", "sim.flow.*",
                 "sim.factor", "sim.birth", "sim.partner", "solve.factor"]),
    "C19": dict(
        unit=1, model=BROAD + ["biased", "biased", "biased", "boost"], pairs=["believed", "believed", "unbiased", "biasedly", "biasedly"], mc=["MCAgree"],
        clauses=["unit.inc", "pair.*.believed", "pair.*.unbiased", "pair.*.biasedly", "solve.cont", "solve.emax*", "sim.stock", "sim.wage"]),
    "C20": dict(sessions=5, reuse=3, twins=10, again=8, mc=["MCSession", "MCSession-stale-params", "MCSession-random-leaks", "MCSession-keeps-input"],
                clauses=["session.simulate", "session.call", "session.pieces"]),
    "C21": dict(sessions=5, reuse=3, mc=["MCSession", "MCSession-route"], clauses=["session.*"]),
    "C22": dict(
        unit=6, refusals=2, pairs=["same1", "same2"], model=["types", "longfile"],
        clauses=["unit.named", "unit.lists", "unit.refused", "unit.untouched", "pair.*.same", "solve.factor"]),
    "C23": dict(
        pairs=RELS, mc=["MCIrrelevance"], clauses=["pair.*"]),
    "C24": dict(
        unit=2, model=BROAD + ["erz", "erz-poor", "poor", "poor", "rich-apart", "rich-split", "long", "scaled"],
        clauses=["sim.flow.work", "solve.emax.last", "unit.net.*"]),
}
