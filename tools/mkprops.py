#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

# ------------------------------------------------------------------ drawing context
prop("C01", "A drawing context never shows a stale or foreign glyph image",
 "Every glyph a drawing context draws looks exactly as a brand-new context with the currently set font, size, DPI and hinting would draw that glyph, at the requested whole pixel and at a sub-pixel position that was requested for that glyph in the same quarter-pixel column since the settings last changed. "
 "This holds after any sequence of setter calls, draws of other glyphs, and failed draws.",
 ["histories", "configurations"],
 "for every sequence of SetFont/SetFontSize/SetDPI/SetHinting/SetSrc/SetDst/SetClip/DrawString calls (including failing draws), every glyph and every sub-pixel position",
 "The only test of this package is a benchmark that draws one text with one setting and never looks at a pixel; no test changes a setting between draws or revisits a cached glyph.",
 ["freetype.go"],
 [("glyph image cache lookup and fill", "freetype.go:(*Context).glyph"), ("invalidation on setting changes", "freetype.go:(*Context).recalc, SetHinting")],
 [("cache", "glyph mask images keyed by glyph and quantized sub-pixel position", "freetype.go:Context.cache"),
  ("scale, hinting, font", "settings a cached image depends on", "freetype.go:Context")],
 ["pixels of the destination image", "DrawString results"])
prop("C02", "DrawString lays glyphs out by kerning plus advance width",
 "DrawString places each glyph of the string at the starting point advanced by the advance widths of all earlier glyphs plus the kerning of each adjacent pair (kerning is rounded to whole pixels when hinting is on, and none applies before the first glyph), and returns the point advanced past the last glyph with y unchanged. "
 "The result does not depend on the destination, the source, the clip or earlier draws. With no font set, or when a glyph cannot be loaded, it returns an error and the zero point.",
 ["inputs", "histories", "configurations"],
 "for every font, string (including runes with no glyph), starting point, size, DPI and hinting",
 "No test checks the returned point or where a glyph lands; the benchmark discards it.",
 ["freetype.go", "truetype/truetype.go", "truetype/glyph.go"],
 [("layout loop", "freetype.go:(*Context).DrawString"), ("kerning lookup", "truetype/truetype.go:(*Font).Kern"), ("advance width", "truetype/glyph.go:(*GlyphBuf).Load")],
 (), ["returned point", "pixels of the destination image"])
prop("C03", "Clipping only hides: nothing outside, nothing different inside",
 "Drawing text never changes a destination pixel outside the clip rectangle or outside the destination image. "
 "With a uniform source, every pixel inside both gets exactly the value it would get without the clip rectangle, whatever part of a glyph the clip rectangle cuts off.",
 ["inputs", "configurations"],
 "for every clip rectangle, destination rectangle (including ones with a non-zero origin), text, position and uniform colour",
 "No test looks at pixels; the benchmark's clip is the whole image, so no glyph is ever cut by it.",
 ["freetype.go"],
 [("intersection of glyph rectangle and clip, and the matching mask offset", "freetype.go:(*Context).DrawString")],
 (), ["pixels of the destination image"])
# ------------------------------------------------------------------ font.Face
prop("F01", "A face's glyph results do not depend on earlier calls",
 "For a given face, the rectangle, the advance, the success flag and the mask pixels that a glyph request delivers are the same as a freshly created face with the same font and options delivers for the same dot and rune. "
 "This holds for any earlier sequence of glyph, bounds, advance, kerning and metrics requests, including failed ones and ones that compete for the same cache slots.",
 ["histories", "configurations"],
 "for every sequence of face calls, every cache size, every sub-pixel setting and every pair of glyphs that share a cache slot",
 "The only face test is a benchmark over one face with default options, and it never looks at a result.",
 ["truetype/face.go"],
 [("glyph cache with slots inside one shared mask image", "truetype/face.go:(*face).Glyph, rasterize, facePainter.Paint"), ("rune to glyph index cache", "truetype/face.go:(*face).index")],
 [("glyphCache, masks", "cached glyph masks, one horizontal strip per slot", "truetype/face.go:face"), ("indexCache", "cached rune to index mapping", "truetype/face.go:face")],
 ["font.Face.Glyph results, compared with a fresh face"])
prop("F02", "Sub-pixel quantization follows the options in each direction",
 "A face draws a glyph at the dot rounded to the nearest multiple of 1/SubPixelsX pixel horizontally and 1/SubPixelsY pixel vertically (halves round up), each direction following its own option: two dots that round to the same position give the same rectangle and mask, and moving the dot by whole pixels only moves the rectangle. "
 "Zero or invalid option values mean 12 points, 72 DPI, no hinting, 4 horizontal and 1 vertical sub-pixel positions, and quantization never affects advance widths.",
 ["inputs", "configurations"],
 "for every dot (positive or negative), every valid and invalid SubPixelsX, SubPixelsY, GlyphCacheEntries, Size, DPI and Hinting value",
 "No test sets any face option or examines a glyph rectangle.",
 ["truetype/face.go"],
 [("bias and mask arithmetic", "truetype/face.go:subPixels, (*face).Glyph"), ("option defaults", "truetype/face.go:(*Options) methods")],
 (), ["font.Face.Glyph results"])
prop("F03", "A face's metrics agree with its font at the face's scale",
 "A face's height, ascent, descent, kerning, glyph advances and glyph bounds are those of its font at the face's size and resolution (kerning and advances rounded to whole pixels under hinting, ascent and descent rounded up), with y pointing down. "
 "The advance reported with a glyph image, the advance reported alone and the advance reported with the bounds are always equal, and the glyph image's rectangle contains the reported bounds placed at the quantized dot.",
 ["inputs", "configurations"],
 "for every font, size, DPI, hinting, rune and pair of runes",
 "No test calls any of these methods.",
 ["truetype/face.go", "truetype/truetype.go", "truetype/glyph.go"],
 [("metrics methods", "truetype/face.go:Metrics, Kern, GlyphBounds, GlyphAdvance")],
 (), ["font.Face method results"])
prop("F04", "A glyph's image is its outline, filled",
 "The mask that a face delivers for a glyph, and the image that a drawing context draws for one, is the anti-aliased fill of the glyph's loaded outline at the face's or context's scale and hinting, with y pointing down, placed at the quantized dot (or, in a new context, at the requested position): pixels far from any curve are exact, pixels along curves are within the flattening tolerance, and nothing of the outline is cut off. "
 "A glyph with no contours gives an empty image, and a glyph that cannot be loaded gives no image.",
 ["inputs", "configurations"],
 "for every font, glyph (including outlines that start off the curve, consist only of off-curve points, or cross themselves), size, DPI, hinting and dot",
 "No test looks at a rendered glyph; the benchmarks draw text and ignore the pixels.",
 ["truetype/face.go", "freetype.go", "raster/raster.go"],
 [("contour to path conversion in the face", "truetype/face.go:(*face).rasterize, drawContour"), ("contour to path conversion in the context", "freetype.go:(*Context).rasterize, drawContour")],
 (), ["mask of font.Face.Glyph", "pixels drawn by DrawString"])
# ------------------------------------------------------------------ font file
prop("P01", "Parsing arbitrary bytes never crashes, nor does querying what was accepted",
 "Parsing any byte string terminates and yields either a font or an error, never both and never a panic; a file whose header, table directory, or head, hhea, hmtx, maxp, cmap or kern table is truncated, missing, of the wrong size or inconsistent is rejected with an error, except that a kern table may be absent. "
 "On any accepted font, every character, metric, kerning, name and bounds query and every unhinted glyph load returns a value or an error without panicking, for every argument.",
 ["inputs", "fault_sequences"],
 "for every byte string: every truncation and every corruption of any field of a font file or collection, and every query argument",
 "The tests parse three intact fonts; not one malformed or truncated file is ever parsed.",
 ["truetype/truetype.go", "truetype/glyph.go"],
 [("table directory and table range checks", "truetype/truetype.go:parse, readTable, parseSubtables"), ("per-table sanity checks", "truetype/truetype.go:parseHead, parseMaxp, parseCmap, parseKern, parseHhea"), ("glyph data range checks", "truetype/glyph.go:load, loadSimple, loadCompound")],
 (), ["Parse results, results of Font methods and GlyphBuf.Load"])
prop("P02", "Character lookup is exactly the font's character map",
 "The glyph index returned for a character is exactly what the font's preferred Unicode character map assigns to it, for segment-mapped (format 4) and group-mapped (format 12) tables, with ranges mapped by delta or through the glyph index array; every character the map does not cover gets index zero. "
 "A Unicode-platform map is preferred over a Microsoft one, and otherwise the last supported Microsoft map is used.",
 ["inputs"],
 "for every well-formed character map and every rune, including the ends of every range and runes outside Unicode",
 "The test looks up eight characters of one font, all in delta-mapped segments of a format 4 table.",
 ["truetype/truetype.go"],
 [("cmap parsing", "truetype/truetype.go:parseCmap, parseSubtables"), ("binary search over ranges", "truetype/truetype.go:(*Font).Index")],
 [("cm", "parsed ranges", "truetype/truetype.go:Font.cm")],
 ["Font.Index results"])
prop("P03", "Metrics, kerning and name queries report the font's tables",
 "Horizontal and vertical metrics, kerning values, bounds, units per em and names are exactly the values stored in the font's tables (or the documented fall-back when the table lacks an entry), scaled by scale/unitsPerEm and rounded to the nearest 1/64 pixel, halves away from zero. "
 "Glyphs beyond the long metrics share the last advance width, pairs not in the kerning table have zero kerning, glyph indexes outside the font have zero metrics, and the result does not depend on the order of tables in the file or on the font being the first of a collection.",
 ["inputs", "configurations"],
 "for every well-formed font file and collection, every scale, glyph index, pair of glyph indexes and name id",
 "The test checks one glyph, one kerning pair and one bounding box of one font, at the identity scale only, so scaling, rounding, fall-backs, the shared-advance tail and failed look-ups are never executed.",
 ["truetype/truetype.go"],
 [("scaling", "truetype/truetype.go:(*Font).scale"), ("metric look-ups", "truetype/truetype.go:unscaledHMetric, unscaledVMetric, Kern, Bounds, Name"), ("table directory", "truetype/truetype.go:parse")],
 (), ["Font method results"])
# ------------------------------------------------------------------ outlines
prop("G01", "Loaded outlines are the font's outlines, scaled and assembled",
 "Loading a glyph without hinting yields exactly the contours encoded in the font: the same points in the same order, the same on/off-curve flags and contour ends, each co-ordinate scaled and rounded to the nearest 1/64 pixel and shifted so that the left side bearing is honoured, together with the glyph's advance width. "
 "A compound glyph is the concatenation of its components in order, each transformed and offset as its record says (nested to any depth up to the limit), taking its metrics from the last component marked for that, if any; a compound glyph that contains itself is reported as an error.",
 ["inputs", "programs"],
 "for every well-formed simple and compound glyph description, every scale",
 "The tests cover the glyphs of one font at two scales; that font uses only a few of the flag and component encodings (no transforms, no nested components, no repeated metrics overrides).",
 ["truetype/glyph.go"],
 [("simple glyph decoder", "truetype/glyph.go:loadSimple"), ("component assembly", "truetype/glyph.go:loadCompound"), ("scaling and phantom points", "truetype/glyph.go:addPhantomsAndScale, load, Load")],
 (), ["GlyphBuf.Points, Ends, AdvanceWidth, Bounds"])
prop("G02", "Reloading into a used glyph buffer gives what a fresh buffer gives",
 "Loading a glyph into a glyph buffer gives the same points, contour ends, bounds, advance width and error outcome as loading it into a new buffer, whatever was loaded into the buffer before. "
 "That includes loads of other glyphs, other fonts, other scales, other hinting modes and loads that failed.",
 ["histories"],
 "for every sequence of loads (font, scale, glyph, hinting) through one buffer, including failing ones and fonts whose programs write storage, control values and twilight points",
 "The scaling tests load each glyph once, in index order, at one scale, from one well-behaved font per buffer; a failing load is never followed by another.",
 ["truetype/glyph.go", "truetype/hint.go"],
 [("reset at the start of a load", "truetype/glyph.go:(*GlyphBuf).Load"), ("hinter re-initialization on font or scale change", "truetype/hint.go:(*hinter).init")],
 [("hinter state", "functions, storage, control values, twilight points, default graphics state kept between loads", "truetype/hint.go:hinter")],
 ["GlyphBuf fields after Load, compared with a fresh GlyphBuf"])
prop("G03", "A loaded glyph is self-consistent",
 "After every successful load, contour ends are non-decreasing and the last one equals the number of points, the bounds are exactly the smallest box around all points (widened outwards to whole pixels under hinting, zero for an empty glyph), and under hinting the advance width is a whole number of pixels. "
 "Under hinting, an entry in the font's device metrics table for exactly that pixel size determines the advance width.",
 ["inputs", "configurations"],
 "for every font, glyph, scale and hinting mode",
 "The scaling tests compare bounds and advances for one font at one size; no test font has a device metrics table that is hit, and empty glyphs are covered at one size only.",
 ["truetype/glyph.go"],
 [("bounds and advance computation", "truetype/glyph.go:(*GlyphBuf).Load"), ("contour ends re-basing in compound glyphs", "truetype/glyph.go:load, loadCompound")],
 (), ["GlyphBuf.Points, Ends, Bounds, AdvanceWidth"])
# ------------------------------------------------------------------ bytecode
prop("H01", "Hinting any bytecode terminates and never crashes",
 "Loading a glyph with hinting on terminates, and returns either success or an error without panicking, whatever bytes the font, control value and glyph programs consist of and whatever values they compute. "
 "Stack underflow or overflow, out-of-range point, storage or contour references, invalid zones, undefined functions, division by zero, unbalanced conditionals or definitions, endless loops and unbounded recursion are reported as errors.",
 ["programs", "inputs"],
 "for every bytecode program in any of the three program slots, every operand value and every outline it runs on",
 "TestBytecode runs 23 short programs, three of which fail; the font tests run only well-formed programs.",
 ["truetype/hint.go", "truetype/opcodes.go"],
 [("step limit, stack depth table and per-instruction checks", "truetype/hint.go:(*hinter).run; truetype/opcodes.go:popCount"), ("point lookup", "truetype/hint.go:(*hinter).point")],
 (), ["outcome of GlyphBuf.Load with hinting"])
prop("H02", "Hinting instructions move points as the instruction set defines",
 "The points, flags and advance width of a hinted glyph are exactly those the TrueType instruction set prescribes for the font's programs: stack, arithmetic, logic, flow control, function, storage and control value instructions, rounding modes, graphics state settings, and the point moving, aligning, interpolating and shifting instructions in both zones and along any projection and freedom vectors. "
 "Deviations the code documents (no engine compensation, no instruction control, no twilight MIRP) are part of the definition.",
 ["programs", "inputs"],
 "for every error-free program, every outline, control value table and scale",
 "The fonts exercise the instructions their designer used, at one size; TestBytecode has one short case for about half of the instructions and none for any instruction that touches a point.",
 ["truetype/hint.go", "truetype/opcodes.go"],
 [("interpreter", "truetype/hint.go:(*hinter).run"), ("moves, interpolation, rounding", "truetype/hint.go:move, iupInterp, iupShift, displacement, round, dotProduct, mulDiv, normalize")],
 [("graphics state", "vectors, reference points, zones, cut-ins, rounding, loop, delta base/shift, auto-flip", "truetype/hint.go:graphicsState")],
 ["GlyphBuf.Points after a hinted Load of a font carrying the program"])
prop("H03", "Font and size programs set up each glyph program's environment",
 "Before a glyph's program runs, the font program has run for that font and the control value program for that font and scale, so that the functions they define, the storage, control values and twilight points they leave behind and the graphics state defaults they set are in effect; the vectors, reference points, zone pointers and loop count always start at their standard defaults. "
 "A glyph without a program is only scaled, shifted to the pixel grid and has its advance rounded; when the font or control value program fails, every hinted load of that font at that scale fails.",
 ["histories", "programs", "configurations"],
 "for every combination of font, control value and glyph programs, and every order of scale and font changes",
 "Tests load one real font at one scale; its set-up programs are never varied, never fail and are never re-run.",
 ["truetype/hint.go", "truetype/glyph.go"],
 [("set-up", "truetype/hint.go:(*hinter).init"), ("per-program reset of the graphics state", "truetype/hint.go:(*hinter).run")],
 [("defaultGS", "graphics state after the control value program", "truetype/hint.go:hinter.defaultGS")],
 ["GlyphBuf.Points after hinted Loads"])
# ------------------------------------------------------------------ rasterizer
prop("R01", "Rasterization delivers ordered, disjoint, in-bounds, visible spans",
 "Rasterizing any accumulated curves delivers spans in increasing order of row and then column, never overlapping, each with non-zero width and non-zero alpha of at most fully opaque, inside the rasterizer's width and height displaced by its offset. "
 "The spans arrive in one or more batches, of which exactly the last one is marked final.",
 ["inputs", "histories"],
 "for every sequence of path operations (including degenerate, self-intersecting and far out-of-bounds ones), every width, height, offset and winding rule",
 "The raster package has no tests at all.",
 ["raster/raster.go"],
 [("span generation and batching", "raster/raster.go:(*Rasterizer).Rasterize"), ("sorted cell lists", "raster/raster.go:findCell")],
 [("cell, cellIndex", "per-row sorted lists of area and cover", "raster/raster.go:Rasterizer")],
 ["calls received by a Painter"])
prop("R02", "Pixel alpha equals the covered area under the winding rule",
 "For closed paths made of straight lines, each pixel's alpha is the area of the pixel covered by the path's interior under the chosen winding rule (even-odd or non-zero, for paths that do not cross themselves inside a pixel), exactly when edges cross pixel boundaries at multiples of 1/64 pixel and within 1/16 of full opacity per edge that passes through the pixel otherwise. "
 "Parts of the path outside the bounds contribute nothing to pixels except the winding they imply to their right.",
 ["inputs"],
 "for every closed polygon set, in either direction, overlapping or not, inside, across or outside the bounds, and both winding rules",
 "The raster package has no tests at all.",
 ["raster/raster.go"],
 [("area and cover accumulation", "raster/raster.go:Start, Add1, scan, setCell, saveCell"), ("winding rules", "raster/raster.go:areaToAlpha")],
 (), ["spans received by a Painter"])
prop("R03", "A rasterizer's output depends only on its current path and bounds",
 "After clearing or resizing, a rasterizer produces exactly the spans a new rasterizer of the same bounds produces for the same path, whatever was drawn before; rasterizing again without changes delivers the same pixels again, and adding more curves afterwards accumulates. "
 "Adding a recorded path is the same as issuing its operations one by one, and changing the paint offset, or moving a path of straight lines and its surroundings by whole pixels (a path with curves: where all its co-ordinates stay non-negative), moves the pixels by exactly that much.",
 ["histories", "inputs"],
 "for every sequence of path operations, clears, resizes, winding and offset changes and rasterizations on one rasterizer",
 "The raster package has no tests at all.",
 ["raster/raster.go", "raster/geom.go"],
 [("reset", "raster/raster.go:Clear, SetBounds"), ("path replay", "raster/raster.go:AddPath; raster/geom.go:Path")],
 [("cells, pen, current cell", "accumulated state", "raster/raster.go:Rasterizer")],
 ["spans received by a Painter"])
prop("R04", "Curved segments are rasterized as the curves they describe",
 "A quadratic or cubic segment ends exactly at its end point and is rasterized as the Bezier curve its control points define, to within 5/16 of a pixel, so that the alpha of a pixel at least a pixel away from every curve is exactly that of its side of the outline. "
 "A segment whose control points are evenly spaced on a straight line is rasterized exactly like that line when all its subdivision points are exact.",
 ["inputs"],
 "for every closed path of linear, quadratic and cubic segments, of every size and curvature, in every rasterizer size class",
 "The raster package has no tests at all.",
 ["raster/raster.go"],
 [("adaptive subdivision", "raster/raster.go:Add2, Add3")],
 (), ["spans received by a Painter"])
prop("R05", "Painters composite spans exactly and never outside the image",
 "Painting a batch of ordered spans onto an alpha or RGBA image changes exactly the pixels that lie both in a span and in the image: source painting replaces the pixel with the span's alpha (times the paint colour), and over painting blends by the Porter-Duff over formula to within one unit of 8-bit rounding (two for over painting on an alpha image). "
 "Spans partly or wholly outside the image, on any side, are cut off and do not affect other spans, also for images with a non-zero origin or that are parts of larger images.",
 ["inputs", "configurations"],
 "for every image rectangle, span sequence, colour, alpha and composition operator",
 "The raster package has no tests at all.",
 ["raster/paint.go"],
 [("clipping and compositing loops", "raster/paint.go:AlphaOverPainter.Paint, AlphaSrcPainter.Paint, (*RGBAPainter).Paint")],
 (), ["pixels of the destination image, including the surrounding pixels of its backing store"])
prop("R06", "The monochrome painter delivers exactly the thresholded pixels",
 "Whatever the way a rasterization is cut into batches, the spans the monochrome painter passes on cover exactly the pixels whose alpha is at least half, each fully opaque, in order, with horizontally adjacent ones merged, and exactly one final batch is passed on, after which the painter can be used again. "
 "Nothing is passed on for rows or images that have no such pixel.",
 ["histories", "inputs"],
 "for every ordered span sequence, every division of it into batches (including empty ones) and every sequence of rasterizations",
 "The raster package has no tests at all.",
 ["raster/paint.go"],
 [("accumulate and flush state machine", "raster/paint.go:(*MonochromePainter).Paint")],
 [("y, x0, x1", "the pending merged span", "raster/paint.go:MonochromePainter")],
 ["calls received by the wrapped Painter"])
prop("R07", "Gamma correction maps alpha by the power curve and nothing else",
 "The gamma correction painter passes every batch on with the same spans, order and final mark, changing only alpha: fully transparent and fully opaque stay, alpha a (as a fraction of opaque) becomes a to the power gamma to within 1/256 at every multiple of 1/255 and is interpolated linearly in between, the map is monotone, and gamma one is the identity. "
 "Setting a new gamma takes full effect for the next batch.",
 ["inputs", "histories"],
 "for every alpha value, every gamma between 1/4 and 4 and every sequence of gamma changes and batches",
 "The raster package has no tests at all.",
 ["raster/paint.go"],
 [("lookup table with interpolation", "raster/paint.go:(*GammaCorrectionPainter).Paint, SetGamma")],
 [("a", "sampled power curve", "raster/paint.go:GammaCorrectionPainter")],
 ["calls received by the wrapped Painter"])
prop("S01", "Stroking paints the band within half the stroke width of the path",
 "Filling the stroke of a path of lines and quadratic segments with the non-zero rule covers no point farther than half the width from the path and, if no quadratic turns by much more than a right angle, every point within half the width of a segment (measured perpendicular to it), where ends extend as the cap says (butt: not at all, round: a half disc, square: half the width) and corners are filled at least by a bevel and, with round joins, by the full disc. "
 "It holds to within one pixel of the outline of a polyline and two of a curved path, for every width and direction, when no segment (or arm of a quadratic) is shorter than half the width.",
 ["inputs", "configurations"],
 "for every path of lines and quadratic segments without repeated points, every stroke width of at least two pixels, every built-in cap and join",
 "The raster package has no tests at all.",
 ["raster/stroke.go", "raster/geom.go"],
 [("offset path construction", "raster/stroke.go:stroker.Add1, Add2, addNonCurvy2, stroke"), ("caps and joins", "raster/stroke.go:roundCapper, buttCapper, squareCapper, roundJoiner, bevelJoiner, addArc")],
 (), ["spans received by a Painter"])
prop("S02", "Paths record, replay and stroke curve by curve",
 "A path records exactly the operations added to it, in order, and replaying it, adding it to another path or printing it reproduces them; clearing it empties it. What a join adds to the right side of a stroke is there in reverse. "
 "Stroking a path of several curves adds the strokes of its curves one after another, the same to a path as to a rasterizer, every stroked curve ends where it began, missing caps or joins mean round ones, and a path with no segments adds nothing.",
 ["inputs", "histories"],
 "for every sequence of path operations and every destination, width, cap and join",
 "The raster package has no tests at all.",
 ["raster/geom.go", "raster/stroke.go", "raster/raster.go"],
 [("path encoding and decoding", "raster/geom.go:Path, addPathReversed; raster/raster.go:AddPath"), ("curve splitting", "raster/stroke.go:Stroke")],
 (), ["calls received by an Adder", "Path contents"])
# ------------------------------------------------------------------ sharing
prop("I01", "A parsed font is immutable and can be shared",
 "No use of a parsed font changes the bytes it was parsed from or the answer of any later query or load. "
 "Goroutines that share one font, each with its own glyph buffer, face or drawing context, get in every interleaving exactly the results they would get alone, without data races.",
 ["schedules", "histories"],
 "for every interleaving of queries, glyph loads, face and context operations by several goroutines on one font",
 "All tests are single-goroutine and compare no state before and after.",
 ["truetype/truetype.go", "truetype/glyph.go", "truetype/hint.go", "truetype/face.go", "freetype.go"],
 [("all mutable state lives in GlyphBuf, face and Context", "truetype/glyph.go:GlyphBuf; truetype/hint.go:hinter; truetype/face.go:face; freetype.go:Context")],
 (), ["results of all operations, bytes of the font data"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
