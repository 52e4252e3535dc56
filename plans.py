"""What each property's check consists of."""
import os

V = os.path.dirname(os.path.abspath(__file__))
THOROUGH = os.environ.get("VERIF_TIER", "quick") == "thorough"


def q(quick, thorough):
    return thorough if THOROUGH else quick


def known(pid):
    """KNOWN-FINDING lines for the findings listed for pid."""
    out = []
    with open(os.path.join(V, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(line)
    return out


def every(c, gen, mode, trace, workers=2, name="every", cfg=None):
    """Gives the driver everything that a module enumerates (more in the thorough tier)."""
    cfg = cfg or gen
    b = c.generate(gen, q(cfg + ".cfg", cfg + "All.cfg"), num=None, depth=0, name=name)
    c.validate(mode, trace, inputs=b, name="%s-%s" % (mode, name), workers=workers)


def r02(c):
    c.parallel(lambda: c.model("RasterDDA", workers=2),
               lambda: c.refute("RasterDDA", norem="CrossingExact", noyrem="Refines", late="CrossingExact", left="Refines", trunc="Refines"),
               lambda: every(c, "LineGen", "r02", "R02Trace", workers=q(2, 4)),
               lambda: c.validate("r02", "R02Trace", n=q(16000, 60000), workers=5))


def r01(c):
    c.parallel(lambda: c.model("RasterSweepMC", "RasterSweep.cfg", workers=2),
               lambda: c.refute("RasterSweepMC", "RasterSweepFew.cfg", full="NoOverflow", left="WellFormed", right="WellFormed",
                                cover="Exact", gap="Exact", empty="WellFormed"),
               lambda: c.validate("r01", "R01Trace", n=q(24000, 80000), workers=5))


PLANS = {"R01": r01, "R02": r02}

TECHNIQUE = {}
NOTE = {}


def r03(c):
    def beh():
        b = c.generate("RasterHistGen", "RasterHistGen.cfg", num=q(1200, 6000), depth=30)
        c.validate("r03", "R03Trace", inputs=b, workers=3)
    c.parallel(beh,
               lambda: c.validate("r03", "R03Trace", n=q(900, 6000), workers=3),
               lambda: c.validate("r03move", "R03Trace", n=q(5000, 20000), workers=3))


PLANS["R03"] = r03


def r04(c):
    c.parallel(lambda: c.model("CurveModel"),
               lambda: c.refute("CurveModel", coarse="Within"),
               lambda: every(c, "CurveGen", "r04", "R04Trace", workers=q(3, 4)),
               lambda: c.validate("r04", "R04Trace", n=q(7000, 25000), workers=6))


PLANS["R04"] = r04


def r05(c):
    def every():
        b = c.generate("PaintGen", q("PaintGen.cfg", "PaintGenAll.cfg"), num=None, depth=0, name="every")
        c.validate("r05", "R05Trace", inputs=b, name="r05-every", workers=2)
    c.parallel(lambda: c.model("PaintModel", workers=2),
               lambda: c.refute("PaintModel", opaque="Ends", late="Law", up="Fits", add="Fits"),
               every, lambda: c.validate("r05", "R05Trace", n=q(20000, 60000), workers=5))


def r06(c):
    def beh():
        b = c.generate("MonoModel", "MonoGen.cfg", num=q(1200, 5000), depth=40)
        c.validate("r06", "R06Trace", inputs=b, workers=2)
    c.parallel(lambda: c.model("MonoModel", workers=3), beh,
               lambda: c.refute("MonoModel", row="Correct", gap="Correct", batch="Correct", left="Correct", kept="Reset"),
               lambda: c.validate("r06", "R06Trace", n=q(24000, 60000), workers=2),
               lambda: c.validate("r06raster", "R06Trace", n=q(6000, 20000), workers=2))


def r07(c):
    c.validate("r07", "R07Trace", n=q(700, 3000))


PLANS.update(R05=r05, R06=r06, R07=r07)


def s01(c):
    c.parallel(lambda: every(c, "StrokeGen", "s01", "S01Trace", workers=q(4, 4)),
               lambda: c.validate("s01", "S01Trace", n=q(3000, 15000), workers=5))


def s02(c):
    def every():
        b = c.generate("PathModel", q("PathGen.cfg", "PathGenAll.cfg"), num=None, depth=0, name="every")
        c.validate("s02path", "S02Trace", inputs=b, name="s02-every", workers=2)
    c.parallel(lambda: c.model("PathModel", workers=2),
               lambda: c.refute("PathModel", once="Backward", flat="Forward", end="Backward", order="Backward", curve="Forward"),
               every, lambda: c.validate("s02", "S02Trace", n=q(6000, 20000), workers=q(4, 6)),
               lambda: c.validate("s02path", "S02Trace", n=q(9000, 30000), workers=2))


PLANS.update(S01=s01, S02=s02)


def p01(c):
    def faults():
        b = c.generate("FontFaults", "FontFaultsGen.cfg", num=q(9000, 30000), depth=4, name="faults")
        c.validate("p01", "P01Trace", inputs=b, name="p01-faults", workers=4)

    def single():
        b = c.generate("FontFaults", q("FontFaultsOne.cfg", "FontFaultsAll.cfg"), num=None, depth=0, name="single")
        c.validate("p01", "P01Trace", inputs=b, name="p01-single", workers=4)
    c.parallel(lambda: c.model("GuardModel", workers=2),
               lambda: c.refute("GuardModel", **dict.fromkeys(["fmt4", "array", "fmt12", "kern", "hmtx", "vmtx", "name", "recs"], "Inside")),
               faults, single, lambda: c.validate("p01", "P01Trace", n=q(14000, 40000), workers=4))


def p02(c):
    c.parallel(lambda: c.model("SearchModel", workers=2),
               lambda: c.refute("SearchModel", ceil="Ends", before="InRange", atend="Found", same="Ends"),
               lambda: every(c, "TableGen", "p02table", "P02Trace", workers=q(2, 4)),
               lambda: c.validate("p02", "P02Trace", n=q(4000, 10000), workers=5))


def p03(c):
    c.parallel(lambda: c.model("SearchModel", workers=2),
               lambda: c.refute("SearchModel", ceil="Ends", before="InRange", atend="Found", same="Ends"),
               lambda: every(c, "TableGen", "p02table", "P02Trace", workers=q(2, 4), cfg="PairGen"),
               lambda: c.validate("p03", "P02Trace", n=q(8000, 20000), workers=5))


PLANS.update(P01=p01, P02=p02, P03=p03)


def g01(c):
    def comp():
        b = c.generate("CompGen", q("CompGen.cfg", "CompGenAll.cfg"), num=None, depth=0, name="comp")
        c.validate("g01comp", "H01Trace", inputs=b, name="g01-comp", workers=q(2, 8))
    c.parallel(lambda: c.model("CompoundModel", workers=2),
               lambda: c.refute("CompoundModel", depth="Bounded", count="Shallow", itself="Shallow", keeps="Assembled",
                                outer="Assembled", leak="Assembled", level="Assembled"),
               comp, lambda: c.validate("g01", "G01Trace", n=q(6000, 40000), workers=q(4, 6)))


def g02(c):
    def beh():
        b = c.generate("HintHist", "HintHist_any.cfg", num=q(2000, 10000), depth=14)
        c.validate("hist", "HistTrace", inputs=b, workers=6)
    c.parallel(lambda: c.model("HintHist", workers=2), beh,
               lambda: c.refute("HintHist", norestore="Fresh", font="Fresh", size="Fresh", failed="NoneBroken", late="Fresh"))


def g03(c):
    def comp():
        b = c.generate("CompGen", q("CompGen.cfg", "CompGenAll.cfg"), num=None, depth=0, name="comp")
        c.validate("g03comp", "H01Trace", inputs=b, name="g03-comp", workers=q(2, 8))
    c.parallel(comp, lambda: c.validate("g03", "G01Trace", n=q(7000, 40000), workers=6))


def g04(c):
    c.validate("g04", "G01Trace", n=q(5000, 40000))


PLANS["G04"] = g04


def h01(c):
    def single():
        b = c.generate("HintFaults", q("HintFaults.cfg", "HintFaultsAll.cfg"), num=None, depth=0, name="ops")
        c.validate("h01op", "H01Trace", inputs=b, name="h01-ops", workers=q(5, 8))

    def control():
        b = c.generate("CtrlGen", q("CtrlGen.cfg", "CtrlGenAll.cfg"), num=None, depth=0, name="control")
        c.validate("h01ctrl", "H01Trace", inputs=b, name="h01-control", workers=q(4, 8))
    c.parallel(lambda: c.model("InterpModel", workers=2),
               lambda: c.refute("InterpModel", sum="Means", percall="Means", deeper="Shallow", zero="Means", jumps="Bounded", again="Means"),
               single, control, lambda: c.validate("h01", "H01Trace", n=q(2400, 40000), workers=q(4, 8)))


def h02(c):
    def state():
        b = c.generate("StateGen", q("StateGen.cfg", "StateGenAll.cfg"), num=None, depth=0, name="state")
        c.validate("h02state", "H01Trace", inputs=b, name="h02-state", workers=q(3, 8))
    c.parallel(lambda: c.model("HintLaws", workers=2), state,
               lambda: c.validate("h02", "G01Trace", n=q(6500, 60000), workers=4),
               lambda: c.validate("h02real", "G01Trace", n=q(700, 8000), workers=3))


def h03(c):
    def beh():
        b = c.generate("HintHist", "HintHist_env.cfg", num=q(2500, 20000), depth=14)
        c.validate("hist", "HistTrace", inputs=b, workers=6)
    c.parallel(lambda: c.model("HintHist", workers=2), beh,
               lambda: c.refute("HintHist", norestore="Fresh", font="Fresh", size="Fresh", failed="NoneBroken", late="Fresh"))


PLANS.update(G01=g01, G02=g02, G03=g03, H01=h01, H02=h02, H03=h03)


def f01(c):
    def beh():
        b = c.generate("FaceModel", "FaceWalk.cfg", num=q(1200, 8000), depth=30)
        c.validate("f01", "F01Trace", inputs=b, workers=3)
    c.parallel(lambda: c.model("FaceModel", q("FaceModel.cfg", "FaceModel5.cfg"), workers=3), beh,
               lambda: c.refute("FaceModel", noy="Right", glyph="Right", big="Honest", fails="Honest", low="Right"),
               lambda: c.validate("f01", "F01Trace", n=q(14000, 80000), workers=3))


def f02(c):
    def every():
        b = c.generate("QuantGen", q("QuantGen.cfg", "QuantGenAll.cfg"), num=None, depth=0, name="every")
        c.validate("f02", "F02Trace", inputs=b, name="f02-every", workers=q(2, 4))
    c.parallel(lambda: c.model("QuantModel", workers=2),
               lambda: c.refute("QuantModel", nobias="Nearest", up="Nearest", fixed="Nearest", trunc="Nearest", pos="Numbered"),
               every, lambda: c.validate("f02", "F02Trace", n=q(18000, 100000), workers=4))


def f03(c):
    c.validate("f03", "F03Trace", n=q(4500, 30000))


def f04(c):
    c.parallel(lambda: every(c, "OutlineGen", "f04shape", "F04Trace", workers=q(2, 4)),
               lambda: c.validate("f04", "F04Trace", n=q(4500, 40000), workers=6))


def f05(c):
    c.validate("f05", "F05Trace", n=q(8000, 60000))


PLANS["F05"] = f05


def c01(c):
    def beh():
        b = c.generate("ContextModel", "ContextWalk.cfg", num=q(3000, 15000), depth=30)
        c.validate("c01", "C01Trace", inputs=b, workers=3)
    c.parallel(lambda: c.model("ContextModel", workers=2), beh,
               lambda: c.refute("ContextModel", **dict.fromkeys(["keep1", "keep2", "keep3", "keep4", "anyone", "fails"], "Right")),
               lambda: c.validate("c01", "C01Trace", n=q(14000, 60000), workers=4))


def c02(c):
    def every():
        b = c.generate("LayoutModel", q("LayoutGen.cfg", "LayoutGenAll.cfg"), num=None, depth=0, name="every")
        c.validate("c02", "C02Trace", inputs=b, name="c02-every", workers=q(2, 4))
    c.parallel(lambda: c.model("LayoutModel", workers=2),
               lambda: c.refute("LayoutModel", first="Laid", zero="Laid", never="Laid", trunc="Laid", late="Laid", partial="Laid", blank="Laid"),
               every, lambda: c.validate("c02", "C02Trace", n=q(2700, 20000), workers=q(5, 6)))


def c03(c):
    def every():
        b = c.generate("ClipGen", q("ClipGen.cfg", "ClipGenAll.cfg"), num=None, depth=0, name="every")
        c.validate("c03", "C03Trace", inputs=b, name="c03-every", workers=q(2, 4))
    c.parallel(lambda: c.model("ClipModel", workers=2),
               lambda: c.refute("ClipModel", all="Outside", edge="Outside", first="Inside", clip="Inside", source="Inside"),
               every, lambda: c.validate("c03", "C03Trace", n=q(12000, 60000), workers=q(4, 6)))


PLANS.update(F01=f01, F02=f02, F03=f03, F04=f04, C01=c01, C02=c02, C03=c03)


def i01(c):
    race = os.path.join(c.tmp, "vhrace")

    def run():
        b = c.generate("SharedModel", "SharedWalk.cfg", num=q(250, 5000), depth=26)
        c.validate("i01", "I01Trace", inputs=b, workers=3)
        return b

    def concurrent():
        c.build(race, flags=("-race",), env={"CGO_ENABLED": "1"})
        kw = dict(binary=race, tries=5, binenv={"GORACE": "halt_on_error=1 exitcode=66"}, workers=3, limit="120s")
        c.validate("i01", "I01Trace", n=q(150, 3000), name="i01-race", **kw)
        b = c.generate("SharedModel", "SharedWalk.cfg", num=q(150, 3000), depth=26, name="beh2", sim_seed=77)
        c.validate("i01", "I01Trace", inputs=b, name="i01-race-beh", **kw)
    c.parallel(lambda: c.model("SharedModel", workers=2),
               lambda: [c.model("SharedModel", "SharedFont.cfg", refuted="AsAlone", workers=1),
                        c.model("SharedModel", "SharedLent.cfg", refuted="AsAlone", workers=1)],
               run, concurrent)


PLANS["I01"] = i01

TV = "TLA+ trace validation: TLC judges every recorded execution of the real code against the specification"
MC = "TLC explores the design model exhaustively within small constants"
RP = "behaviours that TLC generates from the specification are replayed on the real code"
TECHNIQUE.update({
    "R01": MC + " (sweep of cells to spans); " + TV + " (RasterSweep: exact spans, coverage and fill rule)",
    "R02": MC + " (the incremental line walk against exact areas); " + RP + " (LineGen: every slant of a line at, beside and away from pixel edges); " + TV + " (exact signed area and cover of every cell)",
    "R03": RP + " (RasterHist: set-up, drawing and clearing in any order); " + TV + " (moved and reused rasterizers)",
    "R04": MC + " (subdivision depth against the curve's flatness); " + RP + " (CurveGen: every curve on a coarse grid, in every size class); " + TV + " (coverage within the flattening tolerance of the exact curve)",
    "R05": MC + " (the integer arithmetic of blending, scaled down); " + RP + " (PaintGen: every pixel value under many alphas and colours); " + TV + " (Paint: the compositing rule of every painter, pixel by pixel)",
    "R06": MC + " (the run-merging state machine); " + RP + "; " + TV,
    "R07": TV + " (table entries and lookups against the power function bracketed in integer arithmetic)",
    "S01": RP + " (StrokeGen: every corner and curve between two of 24 directions); " + TV + " (Stroke: the stroked outline against the exact offset region, caps and joins included)",
    "S02": MC + " (recording and reading words forwards and backwards); " + RP + " (PathModel: every short sequence of operations on two paths); " + TV + " (Stroke: recorded operations, replay, and the sequence of calls made for every segment)",
    "P01": MC + " (table and range guards); " + RP + " (FontFaults: every single fault, and random sequences of faults, of a font file); " + TV,
    "P02": MC + " (binary search over ranges); " + RP + " (TableGen: every small character map); " + TV + " (Sfnt: the character map read from the bytes by the specification)",
    "P03": MC + " (binary search over pairs); " + RP + " (TableGen: every small kerning table); " + TV + " (Sfnt: tables read from the bytes by the specification)",
    "G01": MC + " (nested components against limits of depth and number); " + RP + " (CompGen: every small graph of compound glyphs); " + TV + " (Glyph: the outline decoded from the bytes by the specification)",
    "G02": MC + " (what a glyph buffer remembers); " + RP + " (HintHist: load histories); " + TV,
    "G03": RP + " (CompGen: every small graph of compound glyphs); " + TV + " (Glyph: grid rounding, bounds and advances under hinting)",
    "G04": TV + " (Glyph: decoded, scaled and shifted points kept apart from what the interpreter moves)",
    "H01": MC + " (jumps, calls and looped calls under limits); " + RP + " (HintFaults: every instruction on short and extreme stacks, exhaustively); " + TV,
    "H02": MC + " (laws of the rounding and movement operators); " + RP + " (StateGen: every instruction after every setting of the state, and after pairs of them); " + TV + " (Hint: an interpreter of the instruction set written in TLA+)",
    "H03": MC + " (environments and snapshots); " + RP + " (HintHist: load histories); " + TV,
    "F01": MC + " (caches that share slots); " + RP + " (FaceModel: call histories); " + TV,
    "F02": MC + " (quantization and numbering of positions); " + RP + " (QuantGen: every fraction with every number of positions); " + TV + " (FaceSpec: quantization and option defaults)",
    "F03": TV + " (FaceSpec: metrics, advances and bounds derived from the file's bytes)",
    "F04": RP + " (OutlineGen: every pattern of points on and off the curve); " + TV + " (FaceSpec: the mask against the exact fill of the outline the specification loads)",
    "F05": TV + " (what a whole answer, or none, is)",
    "C01": MC + " (cache, settings and invalidation); " + RP + " (ContextModel: histories of settings and draws); " + TV,
    "C02": MC + " (the layout loop); " + RP + " (LayoutModel: every short string); " + TV + " (layout by kerning and advance derived from the file's bytes)",
    "C03": MC + " (how the clip rectangle cuts mask and source); " + RP + " (ClipGen: every position of the clip rectangle); " + TV + " (every destination pixel, with and without the clip)",
    "I01": MC + " (interleavings of users of one font; TLC refutes shared work areas); " + RP + " (SharedModel: histories, in turns and concurrently under the race detector); " + TV,
})
NOTE.update({
    p: "Exhaustive only for the model within its constants and for the enumerated faults or operations; the real code is sampled by seeded generators and TLC walks, each execution judged completely by the specification."
    for p in ("R01", "R02", "R04", "R06", "P01", "P02", "P03", "G02", "H01", "H02", "H03", "F01", "C01")})
NOTE.update({
    p: "Real-code executions sampled by seeded generators (and TLC walks where there are histories), each judged completely by the TLA+ specification."
    for p in ("R03", "R05", "S01", "S02", "G01", "G03", "G04", "F02", "F03", "F04", "F05", "C02", "C03")})
NOTE["R07"] = "Every table entry is compared for order and end points, every sixteenth and the outermost ones with the exact power; lookups and settings are sampled by seed."
NOTE["I01"] = "Interleavings inside an operation are explored on the model; on the real code they are those the Go scheduler makes, watched by the race detector, which needs no actual overlap to see unsynchronised sharing."
