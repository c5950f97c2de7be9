#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": None}})
TESTS = "The tests parse about 25 fixed files, 2 path strings and a few units, and look at almost nothing of the result. "

p("C01", "Parsing any bytes ends with a drawing or an error, never a crash or hang",
  "For every byte sequence and every error mode, parsing returns: it gives a drawing, an error, or both, never neither. It never panics, exhausts the stack or loops, whatever in the document is malformed, cut off, deeply nested, referencing itself, empty or out of range. The time and memory taken are proportional to the document and to what its references (uses, masks, gradients) expand to.",
  ["inputs"], "all byte sequences x 3 error modes",
  TESTS + "Crashes hide in malformed values and in combinations (a colour without digits, a use inside its own definition) that no sample file contains.",
  ["svg.go", "parse.go", "parse_path.go", "svg_elements.go", "patterns.go", "units.go"],
  [("token loop and style stack", "svg.go Parse"), ("definition bookkeeping", "parse.go readStartElement, endDef"), ("recursion guard of use", "svg_elements.go useF"), ("colour and number parsing", "patterns.go, units.go")],
  [("styleStack", "one entry per open element", "parse.go")], ["svg.Parse"])

p("C02", "The result depends only on the document's bytes; read failures are reported",
  "Parsing gives the same result however the reader delivers the bytes (any chunk sizes, data together with end of file, empty reads), from a named file the same as from its content, and from a document in a declared charset the same as from its UTF-8 form. A failing reader, a document that ends inside its root element, a missing file, an unknown charset and input without any element are reported as errors. Parsing a file leaves no descriptor open, also when it fails.",
  ["inputs", "fault_sequences"], "all documents x all ways to split them into reads x a read failure or end at every byte",
  TESTS + "They only use whole files and one reader that never fails.",
  ["svg.go"], [("decoder and charset reader", "svg.go Parse"), ("open and close", "svg.go ParseFile")], (), ["svg.Parse", "svg.ParseFile", "/proc/self/fd"])

p("C03", "Parses are deterministic and isolated from each other",
  "Parsing the same document gives an equal result every time, whatever was parsed or drawn before (including documents that failed) and however many goroutines parse at the same time, without data races. Results of separate parses share no mutable memory: changing anything in one changes neither another result nor any later one. The exported default style and identity matrix are never changed by parsing or drawing.",
  ["inputs", "histories", "schedules"], "all documents x all histories of earlier parses and draws x all schedules of concurrent ones",
  TESTS + "They never parse twice, concurrently, or compare results.",
  ["svg.go", "parse.go", "types.go", "matrix.go"], [("all parse state lives in a cursor made per call", "svg.go Parse"), ("styles are copied by value per element", "parse.go pushStyle")],
  [("DefaultStyle, Identity, drawFuncs", "package level variables", "types.go, matrix.go, svg_elements.go")], ["svg.Parse", "svg.DefaultStyle", "svg.Identity", "race detector"])

p("C04", "Error modes: strict rejects, warn logs, ignore skips what is unsupported",
  "An unsupported element, an unknown path command, and an unknown keyword for fill-rule, stroke-linecap, stroke-linejoin, stroke-leadlinecap or stroke-linegap make parsing fail in strict mode, while ignore and warn mode skip just that element, command or keyword and keep everything else, including the content of that element; warn mode logs each one, ignore mode logs nothing. Ignore and warn mode give equal results and errors for every document. If strict mode succeeds, all modes give the same result and nothing is logged.",
  ["inputs", "configurations"], "all documents x 3 error modes, unsupported constructs anywhere (also inside used definitions, masks and gradients)",
  TESTS + "No test compares modes or contains an unsupported construct in strict mode.",
  ["parse.go", "parse_path.go", "svg_elements.go"], [("handleError", "parse.go"), ("unknown element branch", "parse.go readStartElement, svg_elements.go useF"), ("unknown command branch", "parse_path.go addSeg")], (), ["svg.Parse", "log output"])

p("C05", "Path data becomes exactly the segments SVG defines",
  "The path parsed from path data has exactly the moves, lines, curves and closes that SVG's path grammar gives, in order and within 1/64 user unit: all commands but arcs in absolute and relative form, repeated parameters without a command letter, smooth control points, drawing on after a close, and all number notations and separators. Nothing carries over from one path element to another. A command with a wrong number of parameters is an error.",
  ["inputs"], "all path data strings made of M L H V C S Q T Z (any case), of any length, in documents with any number of paths",
  "parse_path_test.go has two path strings and compares nothing but the absence of an error; which command follows which, relative positions and number notations combine without bound.",
  ["parse_path.go", "path.go"], [("compilePath, addSeg, getPoints, readFloat", "parse_path.go")],
  [("placeX/Y, cntlPtX/Y, pathStartX/Y, lastKey", "current, control and start point", "parse_path.go pathCursor")], ["Svg.SvgPaths[i].Path"])

p("C06", "Elliptical arcs follow the ellipse, direction and end point given",
  "Every arc command, absolute or relative and also repeated, is drawn as curves that begin at the current point, end at the given end point, lie on the ellipse of the given radii and rotation (enlarged when too small to span the points) and run along exactly the arc the large-arc and sweep flags select. A zero radius gives a straight line, negative radii count as positive, and an arc to the current point draws nothing. The next command continues from the arc's end point.",
  ["inputs"], "all radii, rotations, flag pairs, start and end points, and sequences of arcs mixed with other commands",
  "Arc geometry depends on seven real parameters and four flag combinations; the tests draw a handful of arcs and check no coordinate.",
  ["parse_path.go", "shapes.go"], [("addArcFromA", "parse_path.go"), ("addArc, findEllipseCenter, ellipsePointAt, ellipsePrime", "shapes.go")], (), ["Svg.SvgPaths[i].Path"])

p("C07", "Basic shapes become the outline SVG defines",
  "Each rect, rounded rect, circle, ellipse, line, polyline and polygon becomes one path whose outline is the one SVG defines, within a tenth of a user unit plus half a percent of the corner radius (corners several times taller than wide may be coarser): rectangles are closed, a missing corner radius equals the other one, a zero one leaves the corners square, and both are limited to half the size, ellipses pass through all their points once, polylines stay open and polygons are closed. Attributes that are missing count as zero and shapes without extent (zero width, height or radius, fewer than two points) draw nothing. An odd number of polyline or polygon coordinates is an error.",
  ["inputs"], "all shape elements x all attribute values, orders and omissions, after any other elements",
  TESTS + "The shapes' coordinates are never looked at.",
  ["svg_elements.go", "shapes.go", "parse_path.go"], [("rectF, circleF, lineF, polylineF, polygonF", "svg_elements.go"), ("addRect, addRoundRect, addArc", "shapes.go"), ("ellipseAt", "parse_path.go")], (), ["Svg.SvgPaths[i].Path"])

p("C08", "Lengths resolve by unit and percentages by the right reference",
  "Every length attribute of shapes, use elements, masks and strokes resolves to user units: plain numbers and px as they are, in, cm, mm, Q, pt and pc at 96 units per inch, and percentages against the view box width for horizontal, its height for vertical and its normalised diagonal for other lengths. White space around the number and the unit is allowed. A length that is not a number with one of these units makes parsing fail.",
  ["inputs"], "all length attributes x all units x all view boxes",
  "units_test.go checks 17 strings against one view box and no attribute at all.",
  ["units.go", "svg_elements.go", "parse.go"], [("parseUnit, findUnit, resolveUnit", "units.go"), ("percentage reference chosen per attribute", "svg_elements.go, parse.go readStyleAttr")], (), ["Svg.SvgPaths[i].Path", "Style.LineWidth", "Style.Dash"])

p("C09", "Styles cascade to descendants only, and never leak",
  "The fill, fill rule, stroke, stroke width, caps, join, miter limit, gap, dashes and dash offset of each shape are those set on the shape or else on its nearest ancestor that sets them, the style attribute winning over presentation attributes, and otherwise the exported default style (black nonzero fill, no stroke, full opacity, butt caps, bevel joins); opacity multiplies along the ancestors. Order of attributes, letter case and white space in property names, and settings on other elements (siblings, closed groups, definitions, gradients, masks) make no difference. stroke-dasharray none, negative or all zero means no dashes and an odd list is repeated.",
  ["inputs"], "all element trees x all assignments of style properties to their elements",
  TESTS + "No style value is compared.",
  ["parse.go", "svg.go", "types.go", "styles.go"], [("pushStyle, readStyleAttr", "parse.go"), ("style popped at each end element", "svg.go Parse"), ("DefaultStyle", "types.go")],
  [("styleStack", "style of every open element", "parse.go")], ["Svg.SvgPaths[i].Style"])

p("C10", "Transforms compose from the root to the shape in SVG's order",
  "The transform of each shape is the product of the transform lists of its ancestors and itself, outermost first, each list multiplied from left to right (one in the style attribute replacing the attribute's), with translate (one or two values), scale (one or two), rotate (with or without a centre), skewX, skewY and matrix meaning what SVG defines. It never affects elements outside of the one it is set on. A malformed function or a wrong number of values is an error.",
  ["inputs"], "all element trees x all transform lists",
  TESTS + "No transform is compared; a wrong order of composition shows only with two transforms that do not commute.",
  ["parse.go", "matrix.go"], [("parseTransform, readTransformAttr", "parse.go"), ("Mult, Translate, Scale, Rotate, SkewX, SkewY", "matrix.go")], (), ["Style.Transform"])

p("C11", "Matrix operations obey the algebra of affine maps",
  "Transforming by a product of matrices equals transforming by the right and then the left factor; translating, scaling, rotating and skewing a matrix multiply it from the right by the respective map, and the identity changes nothing. The inverse of an invertible matrix undoes it, vectors are transformed without the translation, and fixed point points, and those of path operations, like floating point ones within 1/64. The line width scale is the mean length of the transformed unit axes, so rotation and mirroring leave it unchanged.",
  ["inputs"], "all matrices, points and sequences of operations",
  "matrix.go has no test.",
  ["matrix.go"], [("Mult, Invert, Transform, TransformVector, TFixed, LineWidthScale", "matrix.go")], (), ["Matrix2D methods"])

p("C12", "Colours parse to the value SVG gives them, or fail",
  "For fill, stroke and stop-color, every SVG 1.1 colour name in any letter case, 3 and 6 digit hex colours in either case, and rgb() with integers or integer percentages (clamped when out of range) give that colour, opaque; none switches the paint off. Values that are no colour at all (wrong number of hex digits, not a hex digit, wrong or empty rgb components, unknown names, empty) make parsing fail. Which other elements or colours come before makes no difference.",
  ["inputs"], "all colour strings in every place that takes a colour",
  TESTS + "No colour value is compared.",
  ["patterns.go"], [("parseSVGColor, parseColorValue, parseSVGColorNum", "patterns.go")], (), ["Style.FillerColor", "Style.LinerColor", "Gradient.Stops"])

p("C13", "Gradients keep their geometry, stops and references",
  "A fill or stroke that refers to an earlier gradient by url(#id) gets that gradient: linear or radial with its coordinates (defaults and percentages resolved by its units), units, spread, own transform, the view box as bounds, and all its stops in order with colour, offset and opacity, the style attribute of a stop winning over its attributes; stops without colour take the paint the gradient replaces. Gradients are not changed by the elements using them or defined around them. Applying a path extent sets the bounds to it for object bounding box units, leaves all else as it is, and gives the matrix that takes the gradient's own matrix into these bounds (for user space units, the gradient's own matrix).",
  ["inputs"], "all gradient definitions x all places defining and using them",
  TESTS + "No gradient is looked at.",
  ["patterns.go", "svg_elements.go", "styles.go"], [("linearGradientF, radialGradientF, stopF", "svg_elements.go"), ("readGradURL, readGradAttr, localizeGradIfStopClrNil, ApplyPathExtent, GetColor", "patterns.go"), ("appendStyleAttrs", "styles.go")], (), ["Style.FillerColor", "Style.LinerColor", "Gradient"])

p("C14", "A use element draws exactly its definition, in place",
  "A use element draws what would be drawn if the definition it refers to were written in its place, inside a group with the attributes of the use element followed by a translation by its x and y: the same shapes in the same order, each with its own style, transform and masks, for shapes, groups, nested groups and nested uses alike. Definitions contain exactly their own content, draw nothing themselves, leave no trace on later elements, can be used any number of times, and a later definition with the same id replaces an earlier one. A reference that is missing, not of the form #id, unknown, or to a definition containing it, is an error.",
  ["inputs"], "all documents with definitions x all use elements",
  TESTS + "One file uses definitions, and its drawing is not looked at.",
  ["svg_elements.go", "parse.go", "svg.go"], [("useF", "svg_elements.go"), ("readStartElement, endDef, addPath", "parse.go"), ("end element handling", "svg.go Parse")],
  [("defs, currentDef, openDefs, openUses", "saved definitions and those being read or drawn", "svg.go, parse.go")], ["Svg.SvgPaths"])

p("C15", "Masks are collected by id and listed on the shapes they apply to",
  "Every mask element, inside or outside of defs, is available under its id with its x, y, width, height and exactly the shapes it contains, in order and with their styles and transforms (used definitions included), and none of them is drawn as part of the image; of several masks with the same id the last one counts. Every shape lists the masks of its ancestors and its own, outermost first, mask none adding nothing; masks of siblings or earlier elements never show up. The content of a mask is not transformed or masked by the elements around the mask.",
  ["inputs"], "all element trees with masks and references to masks",
  "TestMask counts the masks of one file.",
  ["svg_elements.go", "parse.go", "svg.go", "mask.go"], [("maskF", "svg_elements.go"), ("mask references", "parse.go readStyleAttr, parseSelector"), ("addPath", "parse.go")],
  [("inMask, mask", "mask being read", "parse.go")], ["Svg.SvgMasks", "Style.Masks"])

p("C16", "View box, size, titles and descriptions are reported as written",
  "The view box is the viewBox of the top level svg element, a missing or zero width or height taken from its width and height attributes in user units, and width and height are also reported verbatim; svg elements further down change nothing of that. Titles and descriptions are the text of each title and desc element outside of definitions in document order, with entities and CDATA decoded, including the text of unsupported elements inside it, and no other text. A viewBox without exactly four numbers is an error.",
  ["inputs"], "all top level attributes, and all documents with title, desc, and other text anywhere",
  TESTS + "No metadata is compared.",
  ["svg_elements.go", "svg.go"], [("svgF, titleF, descF", "svg_elements.go"), ("character data handling", "svg.go Parse")],
  [("inTitleText, inDescText", "text being collected", "parse.go")], ["Svg.ViewBox", "Svg.Width", "Svg.Height", "Svg.Titles", "Svg.Descriptions"])

p("C17", "The text of a path is path data that parses back to the path",
  "For every path, parsed or built with the exported methods with a move at the start of every subpath, its text is SVG path data that writes each operation exactly once, and parsing it gives the same operations with every coordinate within 1/32 user unit, over the whole range of coordinates. The text of an operation, of a path, and of a path as SVG agree. Building a path appends exactly the operation asked for, and clearing empties it.",
  ["inputs", "histories"], "all sequences of path operations and coordinates",
  "No test looks at the text of a path.",
  ["path.go"], [("String methods, ToSVGPath", "path.go"), ("Start, Line, QuadBezier, CubeBezier, Stop, Clear", "path.go")], (), ["Path.String", "Path.ToSVGPath", "svg.Parse"])

p("C18", "Every renderer maps the view box onto the target rectangle",
  "With a target rectangle, the corner and size of the view box are mapped onto the corner and size of the rectangle, after the transform of the path, in all three renderers alike; without one, user units are drawn as they are, and a view box without width or height is not scaled in that direction. Later options override earlier ones and opacity is 1 unless set. Options do not change the drawing.",
  ["inputs", "configurations"], "all view boxes x target rectangles x orders of options x renderers",
  "The renderers and their options have no tests.",
  ["renderer/options.go", "renderer/draw2d/draw.go", "renderer/gg/draw.go", "renderer/rasterx/draw.go"], [("targetOption.apply, Options", "renderer/options.go"), ("target applied after the path transform", "renderer/*/draw.go")], (), ["renderer.Options", "what the three Draw functions send to their contexts"])

p("C19", "draw2d receives every path with its geometry and style",
  "Drawing with draw2d paints every path that has a fill or stroke exactly once, in order, with all its subpaths, transformed points, open or closed as in the path, fill before stroke. Each paint uses that path's own colour with its opacity times the drawing's, fill rule, and for strokes the width and dashes scaled with the transform, cap and join; a gradient paints its first colour, or black if it has none. Paths without fill and stroke paint nothing and leave nothing behind in the context.",
  ["inputs"], "all parsed drawings x options",
  "The renderers have no tests.",
  ["renderer/draw2d/draw.go"], [("Draw, drawTransformed, drawTo, toColor, toLineCap, toLineJoin", "renderer/draw2d/draw.go")], (), ["draw2d.GraphicContext calls"])

p("C20", "rasterx receives every path with its geometry and style",
  "Drawing with rasterx fills and strokes every path in order: the fill with the path's points transformed, its own winding rule and its colour or gradient at its opacity times the drawing's, and then the stroke with the scaled width and dashes, miter limit, lead and trail caps, gap and join of the path, always with the nonzero rule. Gradients follow the extent of the path, or the transform for user space units. Paths without fill and stroke draw nothing, and no path's settings affect another.",
  ["inputs"], "all parsed drawings x options",
  "The renderers have no tests.",
  ["renderer/rasterx/draw.go"], [("Draw, drawTransformed, drawToFiller, drawToStroker, toLineCap, toLineJoin, toLineGap, toRasterxGradient", "renderer/rasterx/draw.go")], (), ["rasterx.Scanner calls", "painted pixels"])

p("C21", "gg paints every path with its geometry, style and masks",
  "Drawing with gg paints every path in order: the fill with its colour at its opacity times the drawing's, its fill rule and all its subpaths, then the stroke with its colour, the width and dashes scaled with the transform, cap and join (round, otherwise bevel), subpaths left open staying open. A fill with a gradient in user space units without transforms runs from its start or focus to its end or circle, each stop's colour at its opacity times the fill's and the drawing's; a stroke with a gradient takes its first colour. What a path paints is limited by the alpha of every mask it lists, drawn in the space of the path with the mask content's own transforms; unknown masks and masks applied to themselves are skipped. No path's colour, outline or mask affects another path, and no outline or mask what the caller draws afterwards.",
  ["inputs"], "all parsed drawings without gradients in bounding box units or with transforms x options",
  "The renderers have no tests.",
  ["renderer/gg/draw.go"], [("Draw, drawTransformed, drawTo, getMask, toColor, toLineCap, toLineJoin", "renderer/gg/draw.go")], (), ["pixels of the gg context"])

p("C22", "Drawing always ends, changes nothing and can be repeated concurrently",
  "Drawing any parsed document that stays within some ten thousand pixels and dashes, with any renderer and options, returns without panic, endless loop or stack exhaustion, also for gradients without stops, masks referring to each other, dashes, degenerate paths and empty view boxes. It does not change the drawing in any way, so drawing again, with another renderer or in several goroutines at the same time gives the same picture as drawing once, without data races.",
  ["inputs", "histories", "schedules"], "all parsed documents x renderers x options x sequences and schedules of drawing",
  "The renderers have no tests.",
  ["renderer/draw2d/draw.go", "renderer/gg/draw.go", "renderer/rasterx/draw.go", "patterns.go"], [("paths and gradients are passed by value", "renderer/*/draw.go"), ("mask recursion guard", "renderer/gg/draw.go getMask")], (), ["pictures", "deep snapshots of the drawing", "race detector"])

p("C23", "A malformed value anywhere is an error, in every mode",
  "A document in which a value is malformed is never parsed successfully, in any error mode, however many well-formed values surround it: a number cut short (a lone sign or point, an exponent without digits) in path data, points, a viewBox or a transform list; an unknown or wrongly parameterised transform function; a length, opacity, gradient coordinate, stop offset or miter limit that is not a number; a colour, mask or use reference of no supported form; whether written as attribute or style declaration, on shapes, groups, used definitions, masks, gradients, stops or the root. So is XML with tags, attribute values, comments or entities that are not well-formed.",
  ["inputs", "configurations"], "all documents that parse x all ways to make one value malformed x 3 error modes",
  "Two tests give malformed path data and units; no document with a malformed value is parsed.",
  ["parse.go", "parse_path.go", "units.go", "patterns.go", "svg_elements.go", "svg.go"], [("errors of getPoints and readFloat passed on", "parse_path.go"), ("errors of parseUnit, readFraction, parseTransform, parseSelector, parseSVGColor passed on", "parse.go, svg_elements.go, patterns.go")], (), ["svg.Parse"])

p("C24", "How a document is written in XML makes no difference",
  "Documents with the same elements, attribute values and text parse to the same drawing (numbers up to rounding) or all fail, whatever notation they are written in: quotes, white space in tags and between elements, order of attributes, character and predefined entity references, CDATA sections, comments and processing instructions anywhere (also inside texts), XML declaration and doctype, a prefix for the SVG namespace, xlink:href or href, empty element or start and end tag.",
  ["inputs", "configurations"], "all documents, sensible or not x all their XML notations x 3 error modes",
  "Every test file exists in one notation only.",
  ["svg.go", "parse.go", "svg_elements.go", "styles.go"], [("token loop", "svg.go Parse"), ("attributes read in any order", "svg_elements.go, parse.go pushStyle")], (), ["svg.Parse"])

p("C25", "Elements affect each other only by nesting and reference",
  "The shapes, titles and descriptions of a document are those of its top level elements one after another, each the same as if the element were alone in the document after the gradients, masks and definitions that come before it; leaving out or doubling elements that define nothing changes nothing for the others, titles, descriptions and empty groups anywhere change no shape or mask, parsing fails exactly if it does for one of them, and a group without attributes around everything changes nothing.",
  ["inputs", "histories", "configurations"], "all documents, sensible or not x all of their elements x 3 error modes",
  "No test compares results of different documents.",
  ["svg.go", "parse.go", "parse_path.go", "svg_elements.go"], [("state of the cursor restored at each end element", "svg.go Parse"), ("path cursor reset for each element", "parse_path.go init, parse.go addPath")], [("svgCursor flags (inDefs, inMask, inGrad, openDefs, styleStack)", "what is open while reading", "parse.go")], ["svg.Parse"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
