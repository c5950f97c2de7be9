From 176968192d2ef37602ab09ee3eb2eca766e86249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:00 +0000
Subject: [PATCH 01/60] fix: return an error for malformed colours instead of
 panicking

An empty colour, a hex colour that is neither 3 nor 6 digits long and an
empty rgb() component all indexed out of range.
---
 patterns.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/patterns.go b/patterns.go
index fe7f40f..bf0468d 100644
--- a/patterns.go
+++ b/patterns.go
@@ -90,7 +90,7 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 		}
 		return toOptColor(NewPlainColor(cvals[0], cvals[1], cvals[2], 0xFF)), nil
 	}
-	if colorStr[0] == '#' {
+	if strings.HasPrefix(colorStr, "#") {
 		r, g, b, err := parseSVGColorNum(colorStr)
 		if err != nil {
 			return optionnalColor{}, err
@@ -101,14 +101,15 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 }
 
 func parseColorValue(v string) (uint8, error) {
-	if v[len(v)-1] == '%' {
+	v = strings.TrimSpace(v)
+	if strings.HasSuffix(v, "%") {
 		n, err := strconv.Atoi(strings.TrimSpace(v[:len(v)-1]))
 		if err != nil {
 			return 0, err
 		}
 		return uint8(n * 0xFF / 100), nil
 	}
-	n, err := strconv.Atoi(strings.TrimSpace(v))
+	n, err := strconv.Atoi(v)
 	if n > 255 {
 		n = 255
 	}
@@ -119,12 +120,16 @@ func parseColorValue(v string) (uint8, error) {
 func parseSVGColorNum(colorStr string) (r, g, b uint8, err error) {
 	colorStr = strings.TrimPrefix(colorStr, "#")
 	var t uint64
-	if len(colorStr) != 6 {
+	switch len(colorStr) {
+	case 6:
+	case 3:
 		// SVG specs say duplicate characters in case of 3 digit hex number
 		colorStr = string([]byte{
 			colorStr[0], colorStr[0],
 			colorStr[1], colorStr[1], colorStr[2], colorStr[2],
 		})
+	default:
+		return 0, 0, 0, errParamMismatch
 	}
 	for _, v := range []struct {
 		c *uint8
-- 
2.43.0


From 99f5a11b5b6fab3da38ac00c984db350b201d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:01 +0000
Subject: [PATCH 02/60] fix: clamp out of range rgb() components instead of
 wrapping them

---
 patterns.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/patterns.go b/patterns.go
index bf0468d..5a00da9 100644
--- a/patterns.go
+++ b/patterns.go
@@ -107,13 +107,21 @@ func parseColorValue(v string) (uint8, error) {
 		if err != nil {
 			return 0, err
 		}
-		return uint8(n * 0xFF / 100), nil
+		return clampColorValue(n * 0xFF / 100), nil
 	}
 	n, err := strconv.Atoi(v)
-	if n > 255 {
-		n = 255
+	return clampColorValue(n), err
+}
+
+// clampColorValue limits an out of range color component to the nearest valid value
+func clampColorValue(n int) uint8 {
+	if n < 0 {
+		return 0
+	}
+	if n > 0xFF {
+		return 0xFF
 	}
-	return uint8(n), err
+	return uint8(n)
 }
 
 // parseSVGColorNum reads the SFG color string e.g. #FBD9BD
-- 
2.43.0


From dd15cadedc6b6a3e93330330cd27fc94d9d7abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:59 +0000
Subject: [PATCH 03/60] fix: save every definition with exactly its own content

An element inside defs was saved together with whatever followed it up to
the next element with an ID, and a group was cut at its first child with an
ID. Using such a definition drew the wrong shapes and unbalanced the style
stack, which leaked styles to later elements or panicked.
---
 parse.go        | 27 +++++++++++++++++++++++----
 svg.go          | 17 +++++++----------
 svg_elements.go | 12 +++++-------
 3 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/parse.go b/parse.go
index a45309f..9fa7ead 100644
--- a/parse.go
+++ b/parse.go
@@ -20,6 +20,7 @@ type (
 		grad                                            *Gradient
 		inTitleText, inDescText, inGrad, inDefs, inMask bool
 		currentDef                                      []definition
+		openDefs                                        []int // start of the unclosed elements of currentDef
 		mask                                            *SvgMask
 	}
 
@@ -27,6 +28,7 @@ type (
 	definition struct {
 		ID, Tag string
 		Attrs   []xml.Attr
+		End     bool // closes the last unclosed element
 	}
 )
 
@@ -350,10 +352,7 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 				ID = attr.Value
 			}
 		}
-		if ID != "" && len(c.currentDef) > 0 {
-			c.svg.defs[c.currentDef[0].ID] = c.currentDef
-			c.currentDef = make([]definition, 0)
-		}
+		c.openDefs = append(c.openDefs, len(c.currentDef))
 		c.currentDef = append(c.currentDef, definition{
 			ID:    ID,
 			Tag:   se.Name.Local,
@@ -361,6 +360,9 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 		})
 		return nil
 	}
+	if c.inDefs {
+		c.openDefs = append(c.openDefs, -1) // not part of a definition
+	}
 	df, ok := drawFuncs[se.Name.Local]
 	if !ok {
 		errStr := "Cannot process svg element " + se.Name.Local
@@ -387,3 +389,20 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 	}
 	return
 }
+
+// endDef closes the innermost element opened inside the defs tag and, when it
+// has an ID, saves the element and its content as a definition.
+// It returns false if the element is not part of a definition.
+func (c *svgCursor) endDef() bool {
+	start := c.openDefs[len(c.openDefs)-1]
+	c.openDefs = c.openDefs[:len(c.openDefs)-1]
+	if start < 0 {
+		return false
+	}
+	c.currentDef = append(c.currentDef, definition{End: true})
+	if ID := c.currentDef[start].ID; ID != "" {
+		end := len(c.currentDef)
+		c.svg.defs[ID] = c.currentDef[start:end:end]
+	}
+	return true
+}
diff --git a/svg.go b/svg.go
index 81bd73d..f2c0497 100644
--- a/svg.go
+++ b/svg.go
@@ -97,13 +97,11 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 		case xml.EndElement:
 			// pop style
 			svgCursor.styleStack = svgCursor.styleStack[:len(svgCursor.styleStack)-1]
+			nestedInDefs := len(svgCursor.openDefs) > 0
+			if nestedInDefs && svgCursor.endDef() {
+				break // saved for later use, not processed yet
+			}
 			switch se.Name.Local {
-			case "g":
-				if svgCursor.inDefs {
-					svgCursor.currentDef = append(svgCursor.currentDef, definition{
-						Tag: "endg",
-					})
-				}
 			case "mask":
 				if svgCursor.mask != nil {
 					svgCursor.svg.SvgMasks[svgCursor.mask.ID] = svgCursor.mask
@@ -115,11 +113,10 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 			case "desc":
 				svgCursor.inDescText = false
 			case "defs":
-				if len(svgCursor.currentDef) > 0 {
-					svgCursor.svg.defs[svgCursor.currentDef[0].ID] = svgCursor.currentDef
-					svgCursor.currentDef = make([]definition, 0)
+				if !nestedInDefs {
+					svgCursor.currentDef = nil
+					svgCursor.inDefs = false
 				}
-				svgCursor.inDefs = false
 			case "radialGradient", "linearGradient":
 				svgCursor.inGrad = false
 			}
diff --git a/svg_elements.go b/svg_elements.go
index 93ba5f9..47fd749 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -473,7 +473,7 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 		return errors.New("href ID in use statement was not found in saved defs")
 	}
 	for _, def := range defs {
-		if def.Tag == "endg" {
+		if def.End {
 			// pop style
 			c.styleStack = c.styleStack[:len(c.styleStack)-1]
 			continue
@@ -483,16 +483,14 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 		}
 		df, ok := drawFuncs[def.Tag]
 		if !ok {
-			errStr := "Cannot process svg element " + def.Tag
-			return c.handleError(errStr)
+			if err = c.handleError("Cannot process svg element %s", def.Tag); err != nil {
+				return err
+			}
+			continue
 		}
 		if err := df(c, def.Attrs); err != nil {
 			return err
 		}
-		if def.Tag != "g" {
-			// pop style
-			c.styleStack = c.styleStack[:len(c.styleStack)-1]
-		}
 	}
 	return nil
 }
-- 
2.43.0


From be1ef9f80d275d2b9370021139f68a8d2db60840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:49 +0000
Subject: [PATCH 04/60] fix: compose transforms in the order SVG defines

Mult did not compute the translation of the product, Scale and Translate
multiplied from the other side than Rotate and SkewX/Y, transform lists were
applied backwards, and the target was applied before the path's transform.
So rotate(a,cx,cy), nested transforms, lists, elliptical rounded corners and
targets with an offset were all misplaced. translate(x) moved along y too.
---
 matrix.go                | 36 ++++++++++++++++++------------------
 parse.go                 | 12 ++++++++----
 renderer/draw2d/draw.go  |  2 +-
 renderer/gg/draw.go      |  2 +-
 renderer/options.go      |  2 +-
 renderer/rasterx/draw.go |  2 +-
 6 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/matrix.go b/matrix.go
index 755d110..db90022 100644
--- a/matrix.go
+++ b/matrix.go
@@ -73,8 +73,8 @@ func (a Matrix2D) Mult(b Matrix2D) Matrix2D {
 		B: a.B*b.A + a.D*b.B,
 		C: a.A*b.C + a.C*b.D,
 		D: a.B*b.C + a.D*b.D,
-		E: a.A*b.E + a.C*b.F + a.E*b.A,
-		F: a.B*b.E + a.D*b.F + a.F*b.D,
+		E: a.A*b.E + a.C*b.F + a.E,
+		F: a.B*b.E + a.D*b.F + a.F,
 	}
 }
 
@@ -106,14 +106,14 @@ func (a Matrix2D) TransformVector(x1, y1 float64) (x2, y2 float64) {
 
 // Scale matrix in x and y dimensions
 func (a Matrix2D) Scale(x, y float64) Matrix2D {
-	return Matrix2D{
-		A: a.A * x,
-		B: a.B * y,
-		C: a.C * x,
-		D: a.D * y,
-		E: a.E * x,
-		F: a.F * y,
-	}
+	return a.Mult(Matrix2D{
+		A: x,
+		B: 0,
+		C: 0,
+		D: y,
+		E: 0,
+		F: 0,
+	})
 }
 
 // SkewY skews the matrix in the Y dimension
@@ -142,14 +142,14 @@ func (a Matrix2D) SkewX(theta float64) Matrix2D {
 
 // Translate translates the matrix to the x , y point
 func (a Matrix2D) Translate(x, y float64) Matrix2D {
-	return Matrix2D{
-		A: a.A,
-		B: a.B,
-		C: a.C,
-		D: a.D,
-		E: a.E + x,
-		F: a.F + y,
-	}
+	return a.Mult(Matrix2D{
+		A: 1,
+		B: 0,
+		C: 0,
+		D: 1,
+		E: x,
+		F: y,
+	})
 }
 
 // Rotate rotate the matrix by theta
diff --git a/parse.go b/parse.go
index 9fa7ead..4537a44 100644
--- a/parse.go
+++ b/parse.go
@@ -62,7 +62,7 @@ func (c *svgCursor) readTransformAttr(m1 Matrix2D, k string) (Matrix2D, error) {
 		}
 	case "translate":
 		if ln == 1 {
-			m1 = m1.Translate(c.points[0], c.points[0])
+			m1 = m1.Translate(c.points[0], 0)
 		} else if ln == 2 {
 			m1 = m1.Translate(c.points[0], c.points[1])
 		} else {
@@ -111,9 +111,13 @@ func (c *svgCursor) parseTransform(v string) (Matrix2D, error) {
 	ts := strings.Split(v, ")")
 	m1 := c.styleStack[len(c.styleStack)-1].Transform
 	// From the docs at https://devdoc.net/web/developer.mozilla.org/en-US/docs/Web/SVG/Attribute/transform.html:
-	// The items in the transform list are separated by whitespace and/or commas, and are applied from right to left.
-	for i := len(ts) - 1; i >= 0; i-- {
-		t := strings.TrimSpace(ts[i])
+	// The items in the transform list are separated by whitespace and/or commas, and are applied from right to left,
+	// which is the product of the matrices from left to right.
+	for i, t := range ts {
+		t = strings.TrimSpace(t)
+		if i > 0 {
+			t = strings.TrimSpace(strings.TrimPrefix(t, ","))
+		}
 		if len(t) == 0 {
 			continue
 		}
diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index 4c51a27..f44d74f 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -73,7 +73,7 @@ func toGradient(g svg.Gradient, opacity float64) color.Color {
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
 func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.RenderOptions) {
-	m := svgp.Style.Transform.Mult(opt.Target)
+	m := opt.Target.Mult(svgp.Style.Transform)
 
 	if svgp.Style.FillerColor != nil {
 		var fr draw2d.FillRule
diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index c586d20..0b58a09 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -14,7 +14,7 @@ import (
 func Draw(gc *gg.Context, s *svg.Svg, opts ...renderer.RenderOption) error {
 	opt := renderer.Options(s, opts...)
 	for _, svgp := range s.SvgPaths {
-		if err := drawTransformed(gc, s, svgp, svgp.Style.Transform.Mult(opt.Target), opt.Opacity); err != nil {
+		if err := drawTransformed(gc, s, svgp, opt.Target.Mult(svgp.Style.Transform), opt.Opacity); err != nil {
 			return err
 		}
 	}
diff --git a/renderer/options.go b/renderer/options.go
index cc9b06f..72b0879 100644
--- a/renderer/options.go
+++ b/renderer/options.go
@@ -30,7 +30,7 @@ type targetOption struct {
 func (o targetOption) apply(s *svg.Svg, r *RenderOptions) {
 	scaleW := o.W / s.ViewBox.W
 	scaleH := o.H / s.ViewBox.H
-	r.Target = svg.Identity.Translate(o.X-s.ViewBox.X, o.Y-s.ViewBox.Y).Scale(scaleW, scaleH)
+	r.Target = svg.Identity.Translate(o.X, o.Y).Scale(scaleW, scaleH).Translate(-s.ViewBox.X, -s.ViewBox.Y)
 }
 
 // Target specifies the rectangle to draw within.
diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index b49b9cb..97293ca 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -129,7 +129,7 @@ func toRasterxGradient(grad svg.Gradient) rasterx.Gradient {
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
 func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderOptions) {
-	m := svgp.Style.Transform.Mult(opt.Target)
+	m := opt.Target.Mult(svgp.Style.Transform)
 
 	if svgp.Style.FillerColor != nil {
 		filler := &gc.Filler
-- 
2.43.0


From 7bf7efca34cd633a83d3ee9b5ceae365758a0624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:09 +0000
Subject: [PATCH 05/60] fix: draw in user units when no target is given

Without the Target option the zero matrix collapsed every path to the origin.
---
 renderer/options.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/renderer/options.go b/renderer/options.go
index 72b0879..8097ce4 100644
--- a/renderer/options.go
+++ b/renderer/options.go
@@ -42,6 +42,7 @@ func Target(x, y, w, h float64) RenderOption {
 func Options(s *svg.Svg, opts ...RenderOption) *RenderOptions {
 	r := &RenderOptions{
 		Opacity: 1,
+		Target:  svg.Identity,
 	}
 	for _, o := range opts {
 		o.apply(s, r)
-- 
2.43.0


From d6982310d06de2b66514c0e16cac9fa5da154467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:09 +0000
Subject: [PATCH 06/60] fix: do not scale to a target by an unknown view box
 size

A drawing without viewBox, width and height got infinite coordinates.
---
 renderer/options.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/renderer/options.go b/renderer/options.go
index 8097ce4..1e1f711 100644
--- a/renderer/options.go
+++ b/renderer/options.go
@@ -28,8 +28,13 @@ type targetOption struct {
 }
 
 func (o targetOption) apply(s *svg.Svg, r *RenderOptions) {
-	scaleW := o.W / s.ViewBox.W
-	scaleH := o.H / s.ViewBox.H
+	scaleW, scaleH := 1.0, 1.0
+	if s.ViewBox.W != 0 {
+		scaleW = o.W / s.ViewBox.W
+	}
+	if s.ViewBox.H != 0 {
+		scaleH = o.H / s.ViewBox.H
+	}
 	r.Target = svg.Identity.Translate(o.X, o.Y).Scale(scaleW, scaleH).Translate(-s.ViewBox.X, -s.ViewBox.Y)
 }
 
-- 
2.43.0


From 4290392d0ade0064d710ffd47e63364fa2f9bc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:10 +0000
Subject: [PATCH 07/60] fix: keep the line width of rotated and mirrored paths

LineWidthScale only looked at the diagonal members, so that a stroke rotated by
90 degrees disappeared and a mirrored one got a negative width.
---
 matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix.go b/matrix.go
index db90022..93e45b2 100644
--- a/matrix.go
+++ b/matrix.go
@@ -219,5 +219,5 @@ func (t Matrix2D) CubicTo(m OpCubicTo) (fixed.Point26_6, fixed.Point26_6, fixed.
 // It may be used when scaling line widths with a rasterizer that does not support
 // scaling a line's horizontal and vertical aspects independently.
 func (t Matrix2D) LineWidthScale() float64 {
-	return (t.A + t.D) / 2
+	return (math.Hypot(t.A, t.B) + math.Hypot(t.C, t.D)) / 2
 }
-- 
2.43.0


From 532bea34d290788f1b1304a7841f2d0c2b28a3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:12 +0000
Subject: [PATCH 08/60] fix: write the cubic curve command once in path text

---
 path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/path.go b/path.go
index 1c72359..1c3d8c8 100644
--- a/path.go
+++ b/path.go
@@ -47,7 +47,7 @@ func (op OpQuadTo) String() string {
 }
 
 func (op OpCubicTo) String() string {
-	return "C" + fmt.Sprintf("C%4.3f,%4.3f,%4.3f,%4.3f,%4.3f,%4.3f", float32(op[0].X)/64, float32(op[0].Y)/64,
+	return fmt.Sprintf("C%4.3f,%4.3f,%4.3f,%4.3f,%4.3f,%4.3f", float32(op[0].X)/64, float32(op[0].Y)/64,
 		float32(op[1].X)/64, float32(op[1].Y)/64, float32(op[2].X)/64, float32(op[2].Y)/64)
 }
 
-- 
2.43.0


From 5c37f3c5095680713a8d0758e6a1b5f7e015f265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:43 +0000
Subject: [PATCH 09/60] fix: use the own parameters of every arc of an arc
 command

The second and later arcs of one A command were drawn with the radii, flags and
end point of the first.
---
 parse_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse_path.go b/parse_path.go
index d87d75f..f681e2e 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -400,5 +400,5 @@ func (c *pathCursor) ellipseAt(cx, cy, rx, ry float64) {
 func (c *pathCursor) addArcFromA(points []float64) {
 	cx, cy := findEllipseCenter(&points[0], &points[1], points[2]*math.Pi/180, c.placeX,
 		c.placeY, points[5], points[6], points[4] == 0, points[3] == 0)
-	c.placeX, c.placeY = c.path.addArc(c.points, cx+c.curX, cy+c.curY, c.placeX+c.curX, c.placeY+c.curY)
+	c.placeX, c.placeY = c.path.addArc(points, cx+c.curX, cy+c.curY, c.placeX+c.curX, c.placeY+c.curY)
 }
-- 
2.43.0


From 591f464daf22e03b8432b1385824f7240704e341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:44 +0000
Subject: [PATCH 10/60] fix: handle the arc parameters SVG calls out of range

Zero radii and identical end points gave NaN coordinates and negative radii a
wrong arc. Draw a line, omit the arc and use the absolute values instead.
---
 parse_path.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parse_path.go b/parse_path.go
index f681e2e..5b1937d 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -398,6 +398,15 @@ func (c *pathCursor) ellipseAt(cx, cy, rx, ry float64) {
 
 // addArcFromA adds a path of an arc element to the svgCursor path to the pathCursor
 func (c *pathCursor) addArcFromA(points []float64) {
+	points[0], points[1] = math.Abs(points[0]), math.Abs(points[1])
+	if points[5] == c.placeX && points[6] == c.placeY {
+		return // SVG specs say to omit an arc with identical end points
+	}
+	if points[0] == 0 || points[1] == 0 { // SVG specs say to draw a straight line
+		c.placeX, c.placeY = points[5], points[6]
+		c.path.Line(toFixedP(c.placeX+c.curX, c.placeY+c.curY))
+		return
+	}
 	cx, cy := findEllipseCenter(&points[0], &points[1], points[2]*math.Pi/180, c.placeX,
 		c.placeY, points[5], points[6], points[4] == 0, points[3] == 0)
 	c.placeX, c.placeY = c.path.addArc(points, cx+c.curX, cy+c.curY, c.placeX+c.curX, c.placeY+c.curY)
-- 
2.43.0


From ce46e5da284081aa30b236d6d0bc9084c15e6af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:45 +0000
Subject: [PATCH 11/60] fix: write large path coordinates with full precision

float32 cannot hold coordinates beyond 262144 with their fraction.
---
 path.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/path.go b/path.go
index 1c3d8c8..b915b46 100644
--- a/path.go
+++ b/path.go
@@ -34,21 +34,21 @@ type OpCubicTo [3]fixed.Point26_6
 type OpClose struct{}
 
 func (op OpMoveTo) String() string {
-	return fmt.Sprintf("M%4.3f,%4.3f", float32(op.X)/64, float32(op.Y)/64)
+	return fmt.Sprintf("M%4.3f,%4.3f", float64(op.X)/64, float64(op.Y)/64)
 }
 
 func (op OpLineTo) String() string {
-	return fmt.Sprintf("L%4.3f,%4.3f", float32(op.X)/64, float32(op.Y)/64)
+	return fmt.Sprintf("L%4.3f,%4.3f", float64(op.X)/64, float64(op.Y)/64)
 }
 
 func (op OpQuadTo) String() string {
-	return fmt.Sprintf("Q%4.3f,%4.3f,%4.3f,%4.3f", float32(op[0].X)/64, float32(op[0].Y)/64,
-		float32(op[1].X)/64, float32(op[1].Y)/64)
+	return fmt.Sprintf("Q%4.3f,%4.3f,%4.3f,%4.3f", float64(op[0].X)/64, float64(op[0].Y)/64,
+		float64(op[1].X)/64, float64(op[1].Y)/64)
 }
 
 func (op OpCubicTo) String() string {
-	return fmt.Sprintf("C%4.3f,%4.3f,%4.3f,%4.3f,%4.3f,%4.3f", float32(op[0].X)/64, float32(op[0].Y)/64,
-		float32(op[1].X)/64, float32(op[1].Y)/64, float32(op[2].X)/64, float32(op[2].Y)/64)
+	return fmt.Sprintf("C%4.3f,%4.3f,%4.3f,%4.3f,%4.3f,%4.3f", float64(op[0].X)/64, float64(op[0].Y)/64,
+		float64(op[1].X)/64, float64(op[1].Y)/64, float64(op[2].X)/64, float64(op[2].Y)/64)
 }
 
 func (op OpClose) String() string {
-- 
2.43.0


From f58c535c526e06f14938305dcab0244c1b5bb913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:29 +0000
Subject: [PATCH 12/60] fix: read exponents with a capital E or a plus sign

1E2 lost its exponent (E was taken for a command) and 1e+2 was an error.
---
 parse_path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse_path.go b/parse_path.go
index 5b1937d..bffaa5b 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -57,7 +57,7 @@ func (c *pathCursor) compilePath(svgPath string) error {
 	c.init()
 	lastIndex := -1
 	for i, v := range svgPath {
-		if unicode.IsLetter(v) && v != 'e' {
+		if unicode.IsLetter(v) && v != 'e' && v != 'E' {
 			if lastIndex != -1 {
 				if err := c.addSeg(svgPath[lastIndex:i]); err != nil {
 					return err
@@ -141,7 +141,7 @@ func (c *pathCursor) getPoints(dataPoints string) error {
 	c.points = c.points[0:0]
 	lr := ' '
 	for i, r := range dataPoints {
-		if !unicode.IsNumber(r) && r != '.' && !(r == '-' && lr == 'e') && r != 'e' {
+		if !unicode.IsNumber(r) && r != '.' && !((r == '-' || r == '+') && (lr == 'e' || lr == 'E')) && r != 'e' && r != 'E' {
 			if lastIndex != -1 {
 				if err := c.readFloat(dataPoints[lastIndex:i]); err != nil {
 					return err
-- 
2.43.0


From 095347e2fee681bcfc6e1f16be136d28d9b02b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:30 +0000
Subject: [PATCH 13/60] fix: start a new subpath when drawing goes on after a
 close path

In M0 0L9 0Z L5 5L7 0Z the second Z was dropped, as no path was open.
---
 parse_path.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parse_path.go b/parse_path.go
index bffaa5b..a0bb322 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"log"
 	"math"
+	"strings"
 	"unicode"
 
 	"golang.org/x/image/math/fixed"
@@ -40,6 +41,7 @@ type pathCursor struct {
 	lastKey                uint8
 	errorMode              ErrorMode
 	inPath                 bool
+	closed                 bool // the last subpath was closed, and no new one started
 }
 
 func (c *pathCursor) init() {
@@ -49,6 +51,7 @@ func (c *pathCursor) init() {
 	c.lastKey = ' '
 	c.path.Clear()
 	c.inPath = false
+	c.closed = false
 }
 
 // compilePath translates the svgPath description string into a path.
@@ -193,6 +196,12 @@ func (c *pathCursor) addSeg(segString string) error {
 	l := len(c.points)
 	k := segString[0]
 	rel := false
+	if c.closed && strings.IndexByte("LlHhVvCcSsQqTtAa", k) >= 0 {
+		// SVG specs say the next subpath starts at the initial point of the closed one
+		c.path.Start(toFixedP(c.pathStartX+c.curX, c.pathStartY+c.curY))
+		c.inPath = true
+		c.closed = false
+	}
 	switch k {
 	case 'z':
 		fallthrough
@@ -205,6 +214,7 @@ func (c *pathCursor) addSeg(segString string) error {
 			c.placeX = c.pathStartX
 			c.placeY = c.pathStartY
 			c.inPath = false
+			c.closed = true
 		}
 	case 'm':
 		rel = true
@@ -215,6 +225,7 @@ func (c *pathCursor) addSeg(segString string) error {
 		}
 		c.pathStartX, c.pathStartY = c.points[0], c.points[1]
 		c.inPath = true
+		c.closed = false
 		c.path.Start(fixed.Point26_6{X: fixed.Int26_6((c.pathStartX + c.curX) * 64), Y: fixed.Int26_6((c.pathStartY + c.curY) * 64)})
 		for i := 2; i < l-1; i += 2 {
 			c.path.Line(fixed.Point26_6{
-- 
2.43.0


From 72f01be2de0c5dd0be9f3574b9b917e9a31241a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:46 +0000
Subject: [PATCH 14/60] fix: do not draw a polyline without points

It was drawn with the numbers read last, for example from the viewBox.
---
 svg_elements.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svg_elements.go b/svg_elements.go
index 47fd749..be16028 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -206,6 +206,7 @@ func lineF(c *svgCursor, attrs []xml.Attr) error {
 
 func polylineF(c *svgCursor, attrs []xml.Attr) error {
 	var err error
+	c.points = c.points[:0] // the points attribute may be missing
 	for _, attr := range attrs {
 		switch attr.Name.Local {
 		case "points":
-- 
2.43.0


From df88226dbe3b3c1264dc8ebaaf96e57c04225a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:48 +0000
Subject: [PATCH 15/60] fix: draw polylines and polygons of two points

---
 svg_elements.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svg_elements.go b/svg_elements.go
index be16028..92b0c07 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -219,7 +219,7 @@ func polylineF(c *svgCursor, attrs []xml.Attr) error {
 			return err
 		}
 	}
-	if len(c.points) > 4 {
+	if len(c.points) >= 4 {
 		c.path.Start(fixed.Point26_6{
 			X: fixed.Int26_6((c.points[0] + c.curX) * 64),
 			Y: fixed.Int26_6((c.points[1] + c.curY) * 64),
@@ -236,7 +236,7 @@ func polylineF(c *svgCursor, attrs []xml.Attr) error {
 
 func polygonF(c *svgCursor, attrs []xml.Attr) error {
 	err := polylineF(c, attrs)
-	if len(c.points) > 4 {
+	if len(c.points) >= 4 {
 		c.path.Stop(true)
 	}
 	return err
-- 
2.43.0


From 5b3e87b52f55d143053a0b70b31f047e553e1506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:49 +0000
Subject: [PATCH 16/60] fix: do not share the mask list between sibling
 elements

Siblings below enough masked groups appended to the same backing array, so the
last one's mask replaced those of the others.
---
 parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 4537a44..d82d014 100644
--- a/parse.go
+++ b/parse.go
@@ -300,7 +300,8 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		if err != nil {
 			return err
 		}
-		curStyle.Masks = append(curStyle.Masks, id)
+		masks := curStyle.Masks
+		curStyle.Masks = append(masks[:len(masks):len(masks)], id) // not shared with siblings
 	}
 	return nil
 }
-- 
2.43.0


From 6b49952199299a956c14599ed9171ecc51ea11b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:15 +0000
Subject: [PATCH 17/60] fix: let stroke-dasharray none turn inherited dashes
 off

---
 parse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse.go b/parse.go
index d82d014..a3a537e 100644
--- a/parse.go
+++ b/parse.go
@@ -265,6 +265,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		}
 		curStyle.Dash.DashOffset = dashOffset
 	case "stroke-dasharray":
+		curStyle.Dash.Dash = nil // no dashes
 		if v != "none" {
 			dashes := splitOnCommaOrSpace(v)
 			dList := make([]float64, len(dashes))
-- 
2.43.0


From d302820cb1fb13f8976ee578498bfc53c86510da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:16 +0000
Subject: [PATCH 18/60] fix: draw a solid line when the dashes have no length

Drawing with a zero or negative dash pattern never ended in gg and draw2d.
---
 parse.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index a3a537e..a62bd5b 100644
--- a/parse.go
+++ b/parse.go
@@ -269,14 +269,21 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		if v != "none" {
 			dashes := splitOnCommaOrSpace(v)
 			dList := make([]float64, len(dashes))
+			var sum float64
 			for i, dstr := range dashes {
 				d, err := c.parseUnit(strings.TrimSpace(dstr), diagPercentage)
 				if err != nil {
 					return err
 				}
+				if !(d >= 0) || math.IsInf(d, 0) {
+					return nil // not a valid pattern
+				}
 				dList[i] = d
+				sum += d
+			}
+			if sum > 0 { // SVG specs say to draw a solid line otherwise
+				curStyle.Dash.Dash = dList
 			}
-			curStyle.Dash.Dash = dList
 			break
 		}
 	case "opacity", "stroke-opacity", "fill-opacity":
-- 
2.43.0


From 394d247596585e9cb35fd0125f2053792f6c352b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:17 +0000
Subject: [PATCH 19/60] fix: split dash arrays on any white space

---
 parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index a62bd5b..c082c2c 100644
--- a/parse.go
+++ b/parse.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"math"
 	"strings"
+	"unicode"
 
 	"golang.org/x/image/math/fixed"
 )
@@ -349,7 +350,7 @@ func (c *svgCursor) pushStyle(attrs []xml.Attr) error {
 func splitOnCommaOrSpace(s string) []string {
 	return strings.FieldsFunc(s,
 		func(r rune) bool {
-			return r == ',' || r == ' '
+			return r == ',' || unicode.IsSpace(r)
 		})
 }
 
-- 
2.43.0


From 9dce3f9a796fae7c49c12b1047df64933345e75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:38 +0000
Subject: [PATCH 20/60] fix: read opacities given in percent and limit them to
 the valid range

50% was an opacity of 50, which wraps around to an arbitrary one when drawn.
---
 parse.go        | 2 +-
 svg_elements.go | 2 +-
 units.go        | 6 ++++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index c082c2c..4560d3b 100644
--- a/parse.go
+++ b/parse.go
@@ -288,7 +288,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 			break
 		}
 	case "opacity", "stroke-opacity", "fill-opacity":
-		op, err := parseBasicFloat(v)
+		op, err := readOpacity(v)
 		if err != nil {
 			return err
 		}
diff --git a/svg_elements.go b/svg_elements.go
index 92b0c07..a812b55 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -429,7 +429,7 @@ func stopF(c *svgCursor, attrs []xml.Attr) error {
 				optColor, err = parseSVGColor(attr.Value)
 				stop.StopColor = optColor.asColor()
 			case "stop-opacity":
-				stop.Opacity, err = parseBasicFloat(attr.Value)
+				stop.Opacity, err = readOpacity(attr.Value)
 			}
 			if err != nil {
 				return err
diff --git a/units.go b/units.go
index a3d1cbd..df504a5 100644
--- a/units.go
+++ b/units.go
@@ -105,3 +105,9 @@ func readFraction(v string) (f float64, err error) {
 	// }
 	return
 }
+
+// readOpacity reads a number or percentage, limited to the range [0,1]
+func readOpacity(v string) (float64, error) {
+	f, err := readFraction(v)
+	return math.Max(0, math.Min(f, 1)), err
+}
-- 
2.43.0


From 352ddabecf290ca0acece1b9ecd0983a7c6ed7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:40 +0000
Subject: [PATCH 21/60] fix: let the style attribute override presentation
 attributes

Which one won depended on the order of the attributes.
---
 parse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 4560d3b..82847ca 100644
--- a/parse.go
+++ b/parse.go
@@ -319,15 +319,17 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 // for fill. Note that this parses both the contents of a style attribute plus
 // direct fill and opacity attributes.
 func (c *svgCursor) pushStyle(attrs []xml.Attr) error {
-	var pairs []string
+	var pairs, stylePairs []string
 	for _, attr := range attrs {
 		switch strings.ToLower(attr.Name.Local) {
 		case "style":
-			pairs = append(pairs, strings.Split(attr.Value, ";")...)
+			stylePairs = append(stylePairs, strings.Split(attr.Value, ";")...)
 		default:
 			pairs = append(pairs, attr.Name.Local+":"+attr.Value)
 		}
 	}
+	// the style attribute overrides presentation attributes
+	pairs = append(pairs, stylePairs...)
 	// Make a copy of the top style
 	curStyle := c.styleStack[len(c.styleStack)-1]
 	for _, pair := range pairs {
-- 
2.43.0


From 41daf2d0455c4eebabb2479b17b889eebc37a37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:03 +0000
Subject: [PATCH 22/60] fix: do not mix the transform of the parents into
 gradientTransform

A gradient is defined in the space of the element using it, not of the group
it is defined in.
---
 parse.go    | 6 +++---
 patterns.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parse.go b/parse.go
index 82847ca..951b81c 100644
--- a/parse.go
+++ b/parse.go
@@ -108,9 +108,9 @@ func (c *svgCursor) readTransformAttr(m1 Matrix2D, k string) (Matrix2D, error) {
 	return m1, nil
 }
 
-func (c *svgCursor) parseTransform(v string) (Matrix2D, error) {
+// parseTransform returns m1 followed by the transform list v
+func (c *svgCursor) parseTransform(m1 Matrix2D, v string) (Matrix2D, error) {
 	ts := strings.Split(v, ")")
-	m1 := c.styleStack[len(c.styleStack)-1].Transform
 	// From the docs at https://devdoc.net/web/developer.mozilla.org/en-US/docs/Web/SVG/Attribute/transform.html:
 	// The items in the transform list are separated by whitespace and/or commas, and are applied from right to left,
 	// which is the product of the matrices from left to right.
@@ -299,7 +299,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 			curStyle.LineOpacity *= op
 		}
 	case "transform":
-		m, err := c.parseTransform(v)
+		m, err := c.parseTransform(c.styleStack[len(c.styleStack)-1].Transform, v)
 		if err != nil {
 			return err
 		}
diff --git a/patterns.go b/patterns.go
index 5a00da9..6888bbd 100644
--- a/patterns.go
+++ b/patterns.go
@@ -287,7 +287,7 @@ func (c *svgCursor) readGradURL(v string, defaultColor Pattern) (grad Gradient,
 func (c *svgCursor) readGradAttr(attr xml.Attr) (err error) {
 	switch attr.Name.Local {
 	case "gradientTransform":
-		c.grad.Matrix, err = c.parseTransform(attr.Value)
+		c.grad.Matrix, err = c.parseTransform(Identity, attr.Value)
 	case "gradientUnits":
 		switch strings.TrimSpace(attr.Value) {
 		case "userSpaceOnUse":
-- 
2.43.0


From 2d18db2302fd407990f8a6c11cb3106e16524954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:04 +0000
Subject: [PATCH 23/60] fix: use a point as the default focal circle of radial
 gradients

---
 svg_elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svg_elements.go b/svg_elements.go
index a812b55..9e8e7f0 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -336,7 +336,7 @@ func radialGradientF(c *svgCursor, attrs []xml.Attr) error {
 	c.grad = &Gradient{Bounds: c.svg.ViewBox, Matrix: Identity}
 	var setFx, setFy bool
 	var err error
-	directionStrings := [6]string{"50%", "50%", "50%", "50%", "50%", "50%"} // default values
+	directionStrings := [6]string{"50%", "50%", "50%", "50%", "50%", "0%"} // default values
 	for _, attr := range attrs {
 		switch attr.Name.Local {
 		case "id":
-- 
2.43.0


From 454d7dc333174f1df75de58264fffd1e2f5f9205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:30 +0000
Subject: [PATCH 24/60] fix: read masks defined inside defs

They were saved for use elements, which cannot reference them, only.
---
 parse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parse.go b/parse.go
index 951b81c..35a38a1 100644
--- a/parse.go
+++ b/parse.go
@@ -23,6 +23,7 @@ type (
 		currentDef                                      []definition
 		openDefs                                        []int // start of the unclosed elements of currentDef
 		mask                                            *SvgMask
+		maskInDefs                                      bool
 	}
 
 	// definition is used to store what's given in a def tag
@@ -361,6 +362,12 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 	if se.Name.Local == "radialGradient" || se.Name.Local == "linearGradient" || c.inGrad {
 		skipDef = true
 	}
+	if se.Name.Local == "mask" {
+		c.maskInDefs = c.inDefs
+		skipDef = true
+	} else if c.inMask && c.maskInDefs {
+		skipDef = true
+	}
 	if c.inDefs && !skipDef {
 		ID := ""
 		for _, attr := range se.Attr {
-- 
2.43.0


From 7904e69d56e56510acadc4a752eae5b91991f46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:49 +0000
Subject: [PATCH 25/60] fix: place masks in the space of the element they are
 applied to

The parents of the mask transformed and masked its content, while gg ignored
the transforms inside of the mask.
---
 renderer/gg/draw.go | 2 +-
 svg_elements.go     | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 0b58a09..9dec7b9 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -178,7 +178,7 @@ func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix
 	// }
 
 	for _, op := range mask.SvgPaths {
-		if err := drawTransformed(gc, s, op, m, 1); err != nil {
+		if err := drawTransformed(gc, s, op, m.Mult(op.Style.Transform), 1); err != nil {
 			return nil, err
 		}
 	}
diff --git a/svg_elements.go b/svg_elements.go
index 9e8e7f0..2f12ca4 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -134,6 +134,11 @@ func maskF(c *svgCursor, attrs []xml.Attr) error {
 		}
 	}
 
+	// the parents of the mask do not transform or mask what it is applied to
+	n := len(c.styleStack) - 1
+	c.styleStack[n].Transform = Identity
+	c.styleStack[n].Masks = c.styleStack[n].Masks[len(c.styleStack[n-1].Masks):]
+
 	c.inMask = true
 	c.mask = &SvgMask{
 		ID:        id,
-- 
2.43.0


From cb040b5675b47cdb065a81614818a70e3380e07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:50 +0000
Subject: [PATCH 26/60] fix: do not add an unnamed mask for mask none

It replaced the mask of the parent when drawn.
---
 parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse.go b/parse.go
index 35a38a1..1d1b76d 100644
--- a/parse.go
+++ b/parse.go
@@ -310,6 +310,9 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		if err != nil {
 			return err
 		}
+		if id == "" {
+			break // none
+		}
 		masks := curStyle.Masks
 		curStyle.Masks = append(masks[:len(masks):len(masks)], id) // not shared with siblings
 	}
-- 
2.43.0


From baee7740cea301dcd1511324510f9ba2ca94093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:30 +0000
Subject: [PATCH 27/60] fix: draw every shape of a used group with its own
 style

A use element merged the shapes of the group into one path drawn with the style
of the use element, or lost all but the last.
---
 parse.go        | 6 +++++-
 svg_elements.go | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 1d1b76d..88f3c36 100644
--- a/parse.go
+++ b/parse.go
@@ -400,7 +400,12 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 		return nil
 	}
 	err = df(c, se.Attr)
+	c.addPath()
+	return
+}
 
+// addPath adds the path read last, if any, to the image or mask
+func (c *svgCursor) addPath() {
 	if len(c.path) > 0 {
 		// The svgCursor parsed a path from the xml element
 		pathCopy := append(Path{}, c.path...)
@@ -413,7 +418,6 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 		}
 		c.path = c.path[:0]
 	}
-	return
 }
 
 // endDef closes the innermost element opened inside the defs tag and, when it
diff --git a/svg_elements.go b/svg_elements.go
index 2f12ca4..8f6bd64 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -494,7 +494,9 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 			}
 			continue
 		}
-		if err := df(c, def.Attrs); err != nil {
+		err = df(c, def.Attrs)
+		c.addPath()
+		if err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From e79100198ea4f5f798f8a83dcf2cbb80d4e3744a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:31 +0000
Subject: [PATCH 28/60] fix: do not read the rest of the file as title when a
 titled group is used

Nor as definitions, when the used group contains definitions.
---
 svg_elements.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/svg_elements.go b/svg_elements.go
index 8f6bd64..bd8c333 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -478,15 +478,23 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 	if !ok {
 		return errors.New("href ID in use statement was not found in saved defs")
 	}
+	skip := 0 // number of open elements that are not drawn
 	for _, def := range defs {
 		if def.End {
 			// pop style
 			c.styleStack = c.styleStack[:len(c.styleStack)-1]
+			if skip > 0 {
+				skip--
+			}
 			continue
 		}
 		if err = c.pushStyle(def.Attrs); err != nil {
 			return err
 		}
+		if skip > 0 || def.Tag == "defs" || def.Tag == "title" || def.Tag == "desc" {
+			skip++
+			continue
+		}
 		df, ok := drawFuncs[def.Tag]
 		if !ok {
 			if err = c.handleError("Cannot process svg element %s", def.Tag); err != nil {
-- 
2.43.0


From 83439c90d790e2b78b9ebb4ec279c6fe4a35f174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:07 +0000
Subject: [PATCH 29/60] fix: return an error for use elements that reference
 themselves

The endless recursion crashed the process.
---
 parse.go        | 3 ++-
 svg_elements.go | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 88f3c36..b426ecb 100644
--- a/parse.go
+++ b/parse.go
@@ -21,7 +21,8 @@ type (
 		grad                                            *Gradient
 		inTitleText, inDescText, inGrad, inDefs, inMask bool
 		currentDef                                      []definition
-		openDefs                                        []int // start of the unclosed elements of currentDef
+		openDefs                                        []int           // start of the unclosed elements of currentDef
+		openUses                                        map[string]bool // href of the use elements being drawn
 		mask                                            *SvgMask
 		maskInDefs                                      bool
 	}
diff --git a/svg_elements.go b/svg_elements.go
index bd8c333..978847d 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -478,6 +478,14 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 	if !ok {
 		return errors.New("href ID in use statement was not found in saved defs")
 	}
+	if c.openUses[href] {
+		return errors.New("use statement references itself")
+	}
+	if c.openUses == nil {
+		c.openUses = make(map[string]bool)
+	}
+	c.openUses[href] = true
+	defer delete(c.openUses, href)
 	skip := 0 // number of open elements that are not drawn
 	for _, def := range defs {
 		if def.End {
-- 
2.43.0


From 540f1019aa030b4e3200e8741b95bcdb0ff4842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:09 +0000
Subject: [PATCH 30/60] fix: move everything a use element draws by its x and y

The offset was added before the transforms of the used elements, replaced by
the one of a nested use, and applied twice to the points following an arc.
---
 svg_elements.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/svg_elements.go b/svg_elements.go
index 978847d..22c9335 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -464,10 +464,8 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 			return err
 		}
 	}
-	c.curX, c.curY = x, y
-	defer func() {
-		c.curX, c.curY = 0, 0
-	}()
+	top := &c.styleStack[len(c.styleStack)-1]
+	top.Transform = top.Transform.Translate(x, y)
 	if href == "" {
 		return errors.New("only use tags with href is supported")
 	}
-- 
2.43.0


From 999dbd847d81d6eec9b85d1d4663b9da29999d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:10 +0000
Subject: [PATCH 31/60] fix: keep the view box of the top level svg element

Nested svg elements replaced it, and the width and height.
---
 parse.go        | 2 +-
 svg_elements.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index b426ecb..83421d2 100644
--- a/parse.go
+++ b/parse.go
@@ -24,7 +24,7 @@ type (
 		openDefs                                        []int           // start of the unclosed elements of currentDef
 		openUses                                        map[string]bool // href of the use elements being drawn
 		mask                                            *SvgMask
-		maskInDefs                                      bool
+		maskInDefs, seenSvg                             bool
 	}
 
 	// definition is used to store what's given in a def tag
diff --git a/svg_elements.go b/svg_elements.go
index 22c9335..d79e55a 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -36,6 +36,10 @@ var drawFuncs = map[string]svgFunc{
 }
 
 func svgF(c *svgCursor, attrs []xml.Attr) error {
+	if c.seenSvg {
+		return nil // only the top level element defines the view box
+	}
+	c.seenSvg = true
 	c.svg.ViewBox.X = 0
 	c.svg.ViewBox.Y = 0
 	c.svg.ViewBox.W = 0
-- 
2.43.0


From fece304ad98cecf7614c7928091c93bcfd60cf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:55 +0000
Subject: [PATCH 32/60] fix: draw all subpaths of a path with draw2d

Every move began a new path, so that only the last subpath was drawn.
---
 renderer/draw2d/draw.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index f44d74f..e8a96d8 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -20,8 +20,6 @@ func Draw(gc draw2d.GraphicContext, s *svg.Svg, opts ...renderer.RenderOption) {
 func drawTo(gc draw2d.GraphicContext, op svg.Operation, m svg.Matrix2D) {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
-		gc.Close()
-		gc.BeginPath()
 		t := m.MoveTo(op)
 		gc.MoveTo(float64(t.X)/64, float64(t.Y)/64)
 	case svg.OpLineTo:
@@ -101,6 +99,7 @@ func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.R
 		gc.SetLineDash(svgp.Style.Dash.Dash, svgp.Style.Dash.DashOffset)
 	}
 
+	gc.BeginPath()
 	for _, op := range svgp.Path {
 		drawTo(gc, op, m)
 	}
-- 
2.43.0


From 9d7077a9dd12a69204e33d83ee10a5aa89977d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:56 +0000
Subject: [PATCH 33/60] fix: do not close open subpaths with gg

A move closed the subpath before it, drawing a line that is not in the path.
---
 renderer/gg/draw.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 9dec7b9..6964d82 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -25,7 +25,6 @@ func Draw(gc *gg.Context, s *svg.Svg, opts ...renderer.RenderOption) error {
 func drawTo(gc *gg.Context, op svg.Operation, m svg.Matrix2D) {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
-		gc.ClosePath()
 		gc.NewSubPath()
 		t := m.MoveTo(op)
 		gc.MoveTo(float64(t.X)/64, float64(t.Y)/64)
-- 
2.43.0


From 1eb2351b5014df2c7f5313e92162e82ba9b3ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:57 +0000
Subject: [PATCH 34/60] fix: fill stroked paths with their fill color with gg

Setting the color of the stroke replaced the fill as well.
---
 renderer/gg/draw.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 6964d82..a388e86 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -124,9 +124,9 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 		gc.SetLineJoin(toLineJoin(svgp.Style.Join.LineJoin))
 		switch c := svgp.Style.LinerColor.(type) {
 		case svg.PlainColor:
-			gc.SetColor(toColor(c, svgp.Style.LineOpacity*opacity))
+			gc.SetStrokeStyle(gg.NewSolidPattern(toColor(c, svgp.Style.LineOpacity*opacity)))
 		case svg.Gradient:
-			gc.SetColor(toColor(svg.GetColor(c), svgp.Style.LineOpacity*opacity))
+			gc.SetStrokeStyle(gg.NewSolidPattern(toColor(svg.GetColor(c), svgp.Style.LineOpacity*opacity)))
 		}
 		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
 		gc.SetDash(svgp.Style.Dash.Dash...)
-- 
2.43.0


From 6087882ef51884cae017f8568e42ecd49b25232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:58 +0000
Subject: [PATCH 35/60] fix: do not leave paths that are not painted in the
 graphic context

With gg they were painted together with the path following them.
---
 renderer/draw2d/draw.go | 3 +++
 renderer/gg/draw.go     | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index e8a96d8..fdd847e 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -100,6 +100,9 @@ func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.R
 	}
 
 	gc.BeginPath()
+	if svgp.Style.FillerColor == nil && svgp.Style.LinerColor == nil {
+		return
+	}
 	for _, op := range svgp.Path {
 		drawTo(gc, op, m)
 	}
diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index a388e86..7d24578 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -133,6 +133,10 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 		gc.SetDashOffset(svgp.Style.Dash.DashOffset)
 	}
 
+	gc.ClearPath()
+	if svgp.Style.FillerColor == nil && svgp.Style.LinerColor == nil {
+		return nil
+	}
 	for _, op := range svgp.Path {
 		drawTo(gc, op, m)
 	}
-- 
2.43.0


From 0d3d5ade0e8f7b1fd08d7d03ae5f70c0fda3ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:58 +0000
Subject: [PATCH 36/60] fix: stroke with the nonzero winding rule with rasterx

The fill rule of the path left holes where its stroke overlaps itself.
---
 renderer/rasterx/draw.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index 97293ca..cd9fa04 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -154,6 +154,7 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 	if svgp.Style.LinerColor != nil {
 		stroker := &gc.Stroker
 		stroker.Clear()
+		stroker.SetWinding(true)
 		stroker.SetStroke(
 			fixed.Int26_6(svgp.Style.LineWidth*64*m.LineWidthScale()),
 			svgp.Style.Join.MiterLimit,
-- 
2.43.0


From d5bbbe2193bc76b8714cfef46b6c29274e8329d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:59 +0000
Subject: [PATCH 37/60] fix: transform user space gradients with rasterx like
 the path they paint

---
 renderer/rasterx/draw.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index cd9fa04..7c15c59 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -147,7 +147,7 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 		case svg.Gradient:
 			_ = color.ApplyPathExtent(filler.GetPathExtent())
 			g := toRasterxGradient(color)
-			filler.SetColor(g.GetColorFunction(svgp.Style.FillOpacity * opt.Opacity))
+			filler.SetColor(g.GetColorFunctionUS(svgp.Style.FillOpacity*opt.Opacity, rasterx.Matrix2D(m)))
 		}
 		filler.Draw()
 	}
@@ -174,7 +174,7 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 		case svg.Gradient:
 			_ = color.ApplyPathExtent(stroker.GetPathExtent())
 			g := toRasterxGradient(color)
-			stroker.SetColor(g.GetColorFunction(svgp.Style.LineOpacity * opt.Opacity))
+			stroker.SetColor(g.GetColorFunctionUS(svgp.Style.LineOpacity*opt.Opacity, rasterx.Matrix2D(m)))
 		}
 		stroker.Draw()
 	}
-- 
2.43.0


From 7da47587f87078daf1e44416ddd7dc8b7883ae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:37 +0000
Subject: [PATCH 38/60] fix: skip masks that are applied to themselves with gg

The endless recursion crashed the process.
---
 renderer/gg/draw.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 7d24578..546abed 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -14,7 +14,7 @@ import (
 func Draw(gc *gg.Context, s *svg.Svg, opts ...renderer.RenderOption) error {
 	opt := renderer.Options(s, opts...)
 	for _, svgp := range s.SvgPaths {
-		if err := drawTransformed(gc, s, svgp, opt.Target.Mult(svgp.Style.Transform), opt.Opacity); err != nil {
+		if err := drawTransformed(gc, s, svgp, opt.Target.Mult(svgp.Style.Transform), opt.Opacity, nil); err != nil {
 			return err
 		}
 	}
@@ -88,10 +88,11 @@ func toGradient(g svg.Gradient, opacity float64) gg.Gradient {
 }
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
-func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2D, opacity float64) error {
+// inMasks lists the masks it is part of.
+func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2D, opacity float64, inMasks []string) error {
 	var mask *image.Alpha
 	if len(svgp.Style.Masks) > 0 {
-		m, err := getMask(s, svgp.Style.Masks, gc.Image().Bounds(), m)
+		m, err := getMask(s, svgp.Style.Masks, gc.Image().Bounds(), m, inMasks)
 		if err != nil {
 			return err
 		}
@@ -156,13 +157,20 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 	return nil
 }
 
-func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix2D) (*image.Alpha, error) {
+func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix2D, inMasks []string) (*image.Alpha, error) {
 	gc := gg.NewContext(rectangle.Dx(), rectangle.Dy())
 	mask, ok := s.SvgMasks[masks[len(masks)-1]]
 	if !ok {
 		// Mask was not found skip it.
 		return nil, nil
 	}
+	for _, id := range inMasks {
+		if id == mask.ID {
+			// Mask is applied to itself skip it.
+			return nil, nil
+		}
+	}
+	inMasks = append(inMasks, mask.ID)
 
 	// TODO: How mask position/size should be applied?
 	// w := mask.W
@@ -181,7 +189,7 @@ func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix
 	// }
 
 	for _, op := range mask.SvgPaths {
-		if err := drawTransformed(gc, s, op, m.Mult(op.Style.Transform), 1); err != nil {
+		if err := drawTransformed(gc, s, op, m.Mult(op.Style.Transform), 1, inMasks); err != nil {
 			return nil, err
 		}
 	}
-- 
2.43.0


From 786420541e1793f50cc2ed9bf8eef2c7dfdfb6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:38 +0000
Subject: [PATCH 39/60] fix: do not leave the mask of the last path in the gg
 context

---
 renderer/gg/draw.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 546abed..8741f14 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -103,6 +103,7 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 		if err := gc.SetMask(mask); err != nil {
 			return err
 		}
+		defer gc.ResetClip()
 	} else {
 		gc.ResetClip()
 	}
-- 
2.43.0


From 20bdef33b3c97b9b07e69a962ecafbbb432943f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:39 +0000
Subject: [PATCH 40/60] fix: apply all masks of a path with gg

Only the innermost one was applied.
---
 renderer/gg/draw.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 8741f14..40d4e65 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -91,12 +91,19 @@ func toGradient(g svg.Gradient, opacity float64) gg.Gradient {
 // inMasks lists the masks it is part of.
 func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2D, opacity float64, inMasks []string) error {
 	var mask *image.Alpha
-	if len(svgp.Style.Masks) > 0 {
-		m, err := getMask(s, svgp.Style.Masks, gc.Image().Bounds(), m, inMasks)
+	for _, id := range svgp.Style.Masks {
+		next, err := getMask(s, id, gc.Image().Bounds(), m, inMasks)
 		if err != nil {
 			return err
 		}
-		mask = m
+		if mask != nil && next != nil {
+			for i, a := range mask.Pix {
+				next.Pix[i] = uint8(uint(next.Pix[i]) * uint(a) / 0xFF)
+			}
+		}
+		if next != nil {
+			mask = next
+		}
 	}
 
 	if mask != nil {
@@ -158,9 +165,9 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 	return nil
 }
 
-func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix2D, inMasks []string) (*image.Alpha, error) {
+func getMask(s *svg.Svg, id string, rectangle image.Rectangle, m svg.Matrix2D, inMasks []string) (*image.Alpha, error) {
 	gc := gg.NewContext(rectangle.Dx(), rectangle.Dy())
-	mask, ok := s.SvgMasks[masks[len(masks)-1]]
+	mask, ok := s.SvgMasks[id]
 	if !ok {
 		// Mask was not found skip it.
 		return nil, nil
-- 
2.43.0


From 90c79f199a253ad6373223955e66a2da57a0db34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:40 +0000
Subject: [PATCH 41/60] fix: repeat dash arrays with an odd number of values

gg and draw2d expect pairs of a dash and a gap.
---
 parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse.go b/parse.go
index 83421d2..c925f33 100644
--- a/parse.go
+++ b/parse.go
@@ -284,6 +284,9 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 				dList[i] = d
 				sum += d
 			}
+			if len(dList)%2 != 0 {
+				dList = append(dList, dList...) // SVG specs say to repeat an odd list
+			}
 			if sum > 0 { // SVG specs say to draw a solid line otherwise
 				curStyle.Dash.Dash = dList
 			}
-- 
2.43.0


From e4bf40abb6d9799c16f3a2838b1085d600636f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:04 +0000
Subject: [PATCH 42/60] fix: scale the dashes of a line like its width with
 draw2d and gg

---
 renderer/draw2d/draw.go |  3 ++-
 renderer/gg/draw.go     |  5 +++--
 types.go                | 11 +++++++++++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index fdd847e..69c9f0e 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -96,7 +96,8 @@ func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.R
 			gc.SetStrokeColor(toGradient(c, svgp.Style.LineOpacity*opt.Opacity))
 		}
 		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
-		gc.SetLineDash(svgp.Style.Dash.Dash, svgp.Style.Dash.DashOffset)
+		dash := svgp.Style.Dash.Scale(m.LineWidthScale())
+		gc.SetLineDash(dash.Dash, dash.DashOffset)
 	}
 
 	gc.BeginPath()
diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 40d4e65..d3853a5 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -138,8 +138,9 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 			gc.SetStrokeStyle(gg.NewSolidPattern(toColor(svg.GetColor(c), svgp.Style.LineOpacity*opacity)))
 		}
 		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
-		gc.SetDash(svgp.Style.Dash.Dash...)
-		gc.SetDashOffset(svgp.Style.Dash.DashOffset)
+		dash := svgp.Style.Dash.Scale(m.LineWidthScale())
+		gc.SetDash(dash.Dash...)
+		gc.SetDashOffset(dash.DashOffset)
 	}
 
 	gc.ClearPath()
diff --git a/types.go b/types.go
index 4847f97..8fa5b0a 100644
--- a/types.go
+++ b/types.go
@@ -9,6 +9,17 @@ type DashOptions struct {
 	DashOffset float64   // starting offset into the dash array
 }
 
+// Scale returns the dashes for a line scaled by s.
+func (d DashOptions) Scale(s float64) DashOptions {
+	out := DashOptions{DashOffset: d.DashOffset * s}
+	if s > 0 { // dashes without a length are no dashes
+		for _, v := range d.Dash {
+			out.Dash = append(out.Dash, v*s)
+		}
+	}
+	return out
+}
+
 // JoinMode type to specify how segments join.
 type JoinMode uint8
 
-- 
2.43.0


From 1effc89c8cb79b71b7b7086fbdd42e80cecc0fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:05 +0000
Subject: [PATCH 43/60] fix: draw dashed lines with rasterx

The dashes of the style were ignored.
---
 renderer/rasterx/draw.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index 7c15c59..7406703 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -16,7 +16,7 @@ func Draw(gc *rasterx.Dasher, s *svg.Svg, opts ...renderer.RenderOption) {
 	}
 }
 
-func drawToStroker(gc *rasterx.Stroker, op svg.Operation, m svg.Matrix2D) {
+func drawToStroker(gc *rasterx.Dasher, op svg.Operation, m svg.Matrix2D) {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
 		gc.Stop(false)
@@ -152,16 +152,18 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 		filler.Draw()
 	}
 	if svgp.Style.LinerColor != nil {
-		stroker := &gc.Stroker
+		stroker := gc
 		stroker.Clear()
 		stroker.SetWinding(true)
+		dash := svgp.Style.Dash.Scale(m.LineWidthScale())
 		stroker.SetStroke(
 			fixed.Int26_6(svgp.Style.LineWidth*64*m.LineWidthScale()),
 			svgp.Style.Join.MiterLimit,
 			toLineCap(svgp.Style.Join.LeadLineCap, toLineCap(svgp.Style.Join.TrailLineCap, rasterx.ButtCap)),
 			toLineCap(svgp.Style.Join.TrailLineCap, rasterx.ButtCap),
 			toLineGap(svgp.Style.Join.LineGap),
-			toLineJoin(svgp.Style.Join.LineJoin))
+			toLineJoin(svgp.Style.Join.LineJoin),
+			dash.Dash, dash.DashOffset)
 
 		for _, op := range svgp.Path {
 			drawToStroker(stroker, op, m)
-- 
2.43.0


From d87141398b3bf748fc57cb63006299cac3687333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:46 +0000
Subject: [PATCH 44/60] fix: resolve stroke widths in percent against the
 diagonal of the view box

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index c925f33..e109079 100644
--- a/parse.go
+++ b/parse.go
@@ -256,7 +256,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		}
 		curStyle.Join.MiterLimit = fToFixed(mLimit)
 	case "stroke-width":
-		width, err := c.parseUnit(v, widthPercentage)
+		width, err := c.parseUnit(v, diagPercentage)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 709d6de4651f8d4fa60e904340f4130c0ee03010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:15 +0000
Subject: [PATCH 45/60] fix: resolve percentages in the style of the svg
 element against its view box

The view box was not known yet, so that they were all zero.
---
 svg.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/svg.go b/svg.go
index f2c0497..2095573 100644
--- a/svg.go
+++ b/svg.go
@@ -84,6 +84,12 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 		switch se := t.(type) {
 		case xml.StartElement:
 			seenTag = true
+			if se.Name.Local == "svg" && !svgCursor.inDefs {
+				// percentages in the style attributes below refer to the view box
+				if err = svgF(svgCursor, se.Attr); err != nil {
+					return svg, err
+				}
+			}
 			// Reads all recognized style attributes from the start element
 			// and places it on top of the styleStack
 			err = svgCursor.pushStyle(se.Attr)
-- 
2.43.0


From a2a53598200a9925e5297159d1c4bf25113602f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:56 +0000
Subject: [PATCH 46/60] fix: stroke quadratic curves without direction at an
 end with rasterx

---
 renderer/rasterx/draw.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index 7406703..f9ec379 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -16,20 +16,32 @@ func Draw(gc *rasterx.Dasher, s *svg.Svg, opts ...renderer.RenderOption) {
 	}
 }
 
-func drawToStroker(gc *rasterx.Dasher, op svg.Operation, m svg.Matrix2D) {
+// drawToStroker draws the operation from point a and returns the point it ends in.
+func drawToStroker(gc *rasterx.Dasher, op svg.Operation, m svg.Matrix2D, a fixed.Point26_6) fixed.Point26_6 {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
+		a = m.MoveTo(op)
 		gc.Stop(false)
-		gc.Start(m.MoveTo(op))
+		gc.Start(a)
 	case svg.OpLineTo:
-		gc.Line(m.LineTo(op))
+		a = m.LineTo(op)
+		gc.Line(a)
 	case svg.OpQuadTo:
-		gc.QuadBezier(m.QuadTo(op))
+		b, c := m.QuadTo(op)
+		if b == a || b == c {
+			gc.Line(c) // curve without a direction at its ends
+		} else {
+			gc.QuadBezier(b, c)
+		}
+		a = c
 	case svg.OpCubicTo:
-		gc.CubeBezier(m.CubicTo(op))
+		b, c, d := m.CubicTo(op)
+		gc.CubeBezier(b, c, d)
+		a = d
 	case svg.OpClose:
 		gc.Stop(true)
 	}
+	return a
 }
 
 func drawToFiller(gc *rasterx.Filler, op svg.Operation, m svg.Matrix2D) {
@@ -165,8 +177,9 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 			toLineJoin(svgp.Style.Join.LineJoin),
 			dash.Dash, dash.DashOffset)
 
+		var a fixed.Point26_6
 		for _, op := range svgp.Path {
-			drawToStroker(stroker, op, m)
+			a = drawToStroker(stroker, op, m, a)
 		}
 		stroker.Stop(false)
 
-- 
2.43.0


From e9521bc9bb7aef7a3863abbf1e4081887bd69e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:12 +0000
Subject: [PATCH 47/60] fix: draw dashes without a length with draw2d

A zero-length line that met the exact end of a dash made draw2d divide
zero by zero, and rasterizing the result took for ever.
---
 renderer/draw2d/draw.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index 69c9f0e..c52201e 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -9,6 +9,8 @@ import (
 	"github.com/llgcode/draw2d"
 )
 
+const minDash = 1e-9
+
 // Draw the parsed SVG into the graphic context with the specified options.
 func Draw(gc draw2d.GraphicContext, s *svg.Svg, opts ...renderer.RenderOption) {
 	opt := renderer.Options(s, opts...)
@@ -60,6 +62,17 @@ func toLineJoin(join svg.JoinMode) draw2d.LineJoin {
 	return draw2d.MiterJoin
 }
 
+// toLineDash returns the dash lengths and offset. They are kept off the exact end
+// of a dash, where draw2d divides by the length of the line, which may be zero.
+func toLineDash(d svg.DashOptions) ([]float64, float64) {
+	for i, v := range d.Dash {
+		if v < minDash {
+			d.Dash[i] = minDash
+		}
+	}
+	return d.Dash, d.DashOffset * (1 + minDash)
+}
+
 func toColor(c color.Color, opacity float64) color.Color {
 	r, g, b, a := c.RGBA()
 	return color.NRGBA{uint8(r >> 8), uint8(g >> 8), uint8(b >> 8), uint8(uint32(float64(a)*opacity) >> 8)}
@@ -96,8 +109,7 @@ func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.R
 			gc.SetStrokeColor(toGradient(c, svgp.Style.LineOpacity*opt.Opacity))
 		}
 		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
-		dash := svgp.Style.Dash.Scale(m.LineWidthScale())
-		gc.SetLineDash(dash.Dash, dash.DashOffset)
+		gc.SetLineDash(toLineDash(svgp.Style.Dash.Scale(m.LineWidthScale())))
 	}
 
 	gc.BeginPath()
-- 
2.43.0


From 39fbafbf1d210018f041861871b8ce9084562312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:42 +0000
Subject: [PATCH 48/60] fix: keep colons in the values of properties

The value was cut at the second colon, so paint and mask references to ids
with a colon were not found.
---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index e109079..c718da1 100644
--- a/parse.go
+++ b/parse.go
@@ -341,8 +341,8 @@ func (c *svgCursor) pushStyle(attrs []xml.Attr) error {
 	// Make a copy of the top style
 	curStyle := c.styleStack[len(c.styleStack)-1]
 	for _, pair := range pairs {
-		kv := strings.Split(pair, ":")
-		if len(kv) >= 2 {
+		kv := strings.SplitN(pair, ":", 2)
+		if len(kv) == 2 {
 			k := strings.ToLower(kv[0])
 			k = strings.TrimSpace(k)
 			v := strings.TrimSpace(kv[1])
-- 
2.43.0


From 792a0837df183121356da63bfb2459cff77817db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:19 +0000
Subject: [PATCH 49/60] fix: read arc flags that are not followed by a
 separator

SVG allows the flags of arcs to be written directly before the next number,
as tools that minimise SVG files do. Such paths were refused or misread.
---
 parse_path.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/parse_path.go b/parse_path.go
index a0bb322..3705297 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -140,6 +140,11 @@ func (c *pathCursor) readFloat(numStr string) error {
 // getPoints reads a set of floating point values from the SVG format number string,
 // and add them to the svgCursor's points slice.
 func (c *pathCursor) getPoints(dataPoints string) error {
+	return c.readPoints(dataPoints, false)
+}
+
+// readPoints is getPoints, where the flags of arcs need no separator after them.
+func (c *pathCursor) readPoints(dataPoints string, arcs bool) error {
 	lastIndex := -1
 	c.points = c.points[0:0]
 	lr := ' '
@@ -156,7 +161,12 @@ func (c *pathCursor) getPoints(dataPoints string) error {
 				lastIndex = -1
 			}
 		} else if lastIndex == -1 {
-			lastIndex = i
+			n := len(c.points) % 7
+			if arcs && (n == 3 || n == 4) && (r == '0' || r == '1') {
+				c.points = append(c.points, float64(r-'0'))
+			} else {
+				lastIndex = i
+			}
 		}
 		lr = r
 	}
@@ -190,11 +200,11 @@ func (c *pathCursor) reflectControlCube() {
 // in the svgCursor's Path
 func (c *pathCursor) addSeg(segString string) error {
 	// Parse the string describing the numeric points in SVG format
-	if err := c.getPoints(segString[1:]); err != nil {
+	k := segString[0]
+	if err := c.readPoints(segString[1:], k == 'a' || k == 'A'); err != nil {
 		return err
 	}
 	l := len(c.points)
-	k := segString[0]
 	rel := false
 	if c.closed && strings.IndexByte("LlHhVvCcSsQqTtAa", k) >= 0 {
 		// SVG specs say the next subpath starts at the initial point of the closed one
-- 
2.43.0


From d5a220df0a1a347af3da936bb76d7c29befba1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:36 +0000
Subject: [PATCH 50/60] fix: read numbers that follow an exponent without a
 separator

1e2.5 is 1e2 and .5 in path data and lists of points.
---
 parse_path.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse_path.go b/parse_path.go
index 3705297..9dd84ab 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -127,6 +127,8 @@ func (c *pathCursor) readFloat(numStr string) error {
 			}
 			c.points = append(c.points, f)
 			last = i
+		} else if n == 'e' || n == 'E' {
+			isFirst = false // no point in the exponent
 		}
 	}
 	f, err := parseBasicFloat(numStr[last:])
-- 
2.43.0


From de50eaeffc4f1d301d59c326b6e8019aa2b0c4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:51 +0000
Subject: [PATCH 51/60] fix: paint radial gradients from the focus outwards in
 gg

gg.NewRadialGradient takes the circle of the first stop and then the one of
the last; they were passed the other way round, which painted the gradient
inside out.
---
 renderer/gg/draw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index d3853a5..227eb0d 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -79,7 +79,7 @@ func toGradient(g svg.Gradient, opacity float64) gg.Gradient {
 		grad = gg.NewLinearGradient(dir[0], dir[1], dir[2], dir[3])
 	case svg.Radial:
 		// cx, cy, fx, fy, r, fr
-		grad = gg.NewRadialGradient(dir[0], dir[1], dir[4], dir[2], dir[3], dir[5])
+		grad = gg.NewRadialGradient(dir[2], dir[3], dir[5], dir[0], dir[1], dir[4])
 	}
 	for _, stop := range g.Stops {
 		grad.AddColorStop(stop.Offset, toColor(stop.StopColor, stop.Opacity*opacity))
-- 
2.43.0


From 812de77ec31b120edbc5ff2b39fcbe7f37956722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:52 +0000
Subject: [PATCH 52/60] fix: include the position of the bounding box in the
 gradient matrix

ApplyPathExtent returned a matrix that accounted for the size of the bounding
box, but not for where it is.
---
 patterns.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/patterns.go b/patterns.go
index 6888bbd..8f7d9dc 100644
--- a/patterns.go
+++ b/patterns.go
@@ -205,7 +205,7 @@ func (g *Gradient) ApplyPathExtent(extent fixed.Rectangle26_6) Matrix2D {
 
 		// units in Direction are fraction, so
 		// we apply bounds
-		return Identity.Scale(g.Bounds.W, g.Bounds.H).Mult(g.Matrix)
+		return Identity.Translate(g.Bounds.X, g.Bounds.Y).Scale(g.Bounds.W, g.Bounds.H).Mult(g.Matrix)
 	}
 	// units in Direction are already scaled to the view box
 	// just return the gradient matrix
-- 
2.43.0


From ca6055f70609b97e174f9f885de1766b1d08ca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:33 +0000
Subject: [PATCH 53/60] fix: keep the corners of rectangles with an explicit
 zero radius square

A radius of zero was taken for a missing one, which is the same as the other.
---
 svg_elements.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/svg_elements.go b/svg_elements.go
index d79e55a..32082a5 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -79,6 +79,7 @@ func svgF(c *svgCursor, attrs []xml.Attr) error {
 func gF(*svgCursor, []xml.Attr) error { return nil } // g does nothing but push the style
 func rectF(c *svgCursor, attrs []xml.Attr) error {
 	var x, y, w, h, rx, ry float64
+	var hasRx, hasRy bool
 	var err error
 	for _, attr := range attrs {
 		switch attr.Name.Local {
@@ -92,8 +93,10 @@ func rectF(c *svgCursor, attrs []xml.Attr) error {
 			h, err = c.parseUnit(attr.Value, heightPercentage)
 		case "rx":
 			rx, err = c.parseUnit(attr.Value, widthPercentage)
+			hasRx = true
 		case "ry":
 			ry, err = c.parseUnit(attr.Value, heightPercentage)
+			hasRy = true
 		}
 		if err != nil {
 			return err
@@ -103,10 +106,10 @@ func rectF(c *svgCursor, attrs []xml.Attr) error {
 		return nil
 	}
 	// If only one of rx or ry is specified, the other should be same
-	if rx != 0 && ry == 0 {
+	if !hasRy {
 		ry = rx
 	}
-	if ry != 0 && rx == 0 {
+	if !hasRx {
 		rx = ry
 	}
 	c.path.addRoundRect(x+c.curX, y+c.curY, w+x+c.curX, h+y+c.curY, rx, ry, 0)
-- 
2.43.0


From 27b94d30e0a37addbece10fb1faa1d4492c13a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:45 +0000
Subject: [PATCH 54/60] fix: refuse transforms without a closing parenthesis

The transform of "scale(2" was applied as if it were complete.
---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index c718da1..0a05296 100644
--- a/parse.go
+++ b/parse.go
@@ -125,7 +125,7 @@ func (c *svgCursor) parseTransform(m1 Matrix2D, v string) (Matrix2D, error) {
 			continue
 		}
 		d := strings.Split(t, "(")
-		if len(d) != 2 || len(d[1]) < 1 {
+		if len(d) != 2 || len(d[1]) < 1 || i == len(ts)-1 {
 			return m1, errParamMismatch // badly formed transformation
 		}
 		err := c.getPoints(d[1])
-- 
2.43.0


From 84fe054dd8734e91c269698bef02c49f62e2a376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:36 +0000
Subject: [PATCH 55/60] fix: draw dashes with a negative offset with draw2d

draw2d takes a negative offset for a longer first dash and divides zero by
zero at a line without a length afterwards, and an offset at the end of a
dash of length zero still did so.
---
 renderer/draw2d/draw.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index c52201e..0ff18e0 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -2,6 +2,7 @@ package draw2d
 
 import (
 	"image/color"
+	"math"
 
 	"github.com/lafriks/go-svg"
 	"github.com/lafriks/go-svg/renderer"
@@ -63,14 +64,31 @@ func toLineJoin(join svg.JoinMode) draw2d.LineJoin {
 }
 
 // toLineDash returns the dash lengths and offset. They are kept off the exact end
-// of a dash, where draw2d divides by the length of the line, which may be zero.
+// of a dash, where draw2d divides by the length of the line, which may be zero, and
+// the offset is taken from the first repetition, as draw2d can't handle negative ones.
 func toLineDash(d svg.DashOptions) ([]float64, float64) {
+	sum := 0.0
+	for _, v := range d.Dash {
+		sum += v
+	}
+	if sum == 0 {
+		return nil, 0
+	}
+	min := sum * minDash
+	offset := math.Mod(d.DashOffset, sum)
+	if offset < 0 {
+		offset += sum
+	}
+	rest := offset
 	for i, v := range d.Dash {
-		if v < minDash {
-			d.Dash[i] = minDash
+		if v < min {
+			d.Dash[i] = min
+		}
+		if rest -= d.Dash[i]; rest == 0 {
+			offset += min / 2
 		}
 	}
-	return d.Dash, d.DashOffset * (1 + minDash)
+	return d.Dash, offset
 }
 
 func toColor(c color.Color, opacity float64) color.Color {
-- 
2.43.0


From 8746fd6ee77c93ff88372e0fb4188e4ffd590af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:27 +0000
Subject: [PATCH 56/60] fix: refuse lengths such as nan, inf and 0x10

They are no numbers in SVG, but were read by ParseFloat and gave paths and
styles with coordinates that are not numbers.
---
 units.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/units.go b/units.go
index df504a5..8fee3d5 100644
--- a/units.go
+++ b/units.go
@@ -42,6 +42,9 @@ func findUnit(s string) (u unite, value string) {
 // convert the unite to pixels. Return true if it is a %
 func parseUnit(s string) (float64, bool, error) {
 	unite, value := findUnit(s)
+	if strings.Trim(value, "0123456789+-.eE") != "" {
+		return 0, false, errParamMismatch // such as nan, inf or 0x10, which ParseFloat would accept
+	}
 	out, err := strconv.ParseFloat(value, 64)
 	return out * toPx[unite], unite == Perc, err
 }
-- 
2.43.0


From e44aa7f4362f213d124a5abba7c7f5721a8fb42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:39 +0000
Subject: [PATCH 57/60] fix: read titles and descriptions in linear time

Adding each part of a text to the string read so far made a document of 2 MB
with comments or CDATA sections in its title take ten seconds.
---
 parse.go        | 1 +
 svg.go          | 6 ++++--
 svg_elements.go | 2 ++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 0a05296..7386985 100644
--- a/parse.go
+++ b/parse.go
@@ -20,6 +20,7 @@ type (
 		styleStack                                      []PathStyle
 		grad                                            *Gradient
 		inTitleText, inDescText, inGrad, inDefs, inMask bool
+		titleText, descText                             strings.Builder
 		currentDef                                      []definition
 		openDefs                                        []int           // start of the unclosed elements of currentDef
 		openUses                                        map[string]bool // href of the use elements being drawn
diff --git a/svg.go b/svg.go
index 2095573..b934cdf 100644
--- a/svg.go
+++ b/svg.go
@@ -128,10 +128,12 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 			}
 		case xml.CharData:
 			if svgCursor.inTitleText {
-				svg.Titles[len(svg.Titles)-1] += string(se)
+				svgCursor.titleText.Write(se)
+				svg.Titles[len(svg.Titles)-1] = svgCursor.titleText.String()
 			}
 			if svgCursor.inDescText {
-				svg.Descriptions[len(svg.Descriptions)-1] += string(se)
+				svgCursor.descText.Write(se)
+				svg.Descriptions[len(svg.Descriptions)-1] = svgCursor.descText.String()
 			}
 		}
 	}
diff --git a/svg_elements.go b/svg_elements.go
index 32082a5..67e1786 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -270,12 +270,14 @@ func pathF(c *svgCursor, attrs []xml.Attr) error {
 
 func descF(c *svgCursor, attrs []xml.Attr) error {
 	c.inDescText = true
+	c.descText.Reset()
 	c.svg.Descriptions = append(c.svg.Descriptions, "")
 	return nil
 }
 
 func titleF(c *svgCursor, attrs []xml.Attr) error {
 	c.inTitleText = true
+	c.titleText.Reset()
 	c.svg.Titles = append(c.svg.Titles, "")
 	return nil
 }
-- 
2.43.0


From 169037ef87aa18302d1bc562283da002f2f4ae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:15 +0000
Subject: [PATCH 58/60] fix: keep the masks of open elements in linear space

Every element with a mask copied the masks of all elements around it, so 80000
nested groups, a document of 1.6 MB, took 50 GB.
---
 parse.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/parse.go b/parse.go
index 7386985..dc1b40a 100644
--- a/parse.go
+++ b/parse.go
@@ -318,8 +318,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		if id == "" {
 			break // none
 		}
-		masks := curStyle.Masks
-		curStyle.Masks = append(masks[:len(masks):len(masks)], id) // not shared with siblings
+		curStyle.Masks = append(curStyle.Masks, id)
 	}
 	return nil
 }
@@ -414,12 +413,12 @@ func (c *svgCursor) addPath() {
 	if len(c.path) > 0 {
 		// The svgCursor parsed a path from the xml element
 		pathCopy := append(Path{}, c.path...)
+		style := c.styleStack[len(c.styleStack)-1]
+		style.Masks = append([]string(nil), style.Masks...) // not shared with siblings
 		if c.inMask && c.mask != nil {
-			c.mask.SvgPaths = append(c.mask.SvgPaths,
-				SvgPath{Path: pathCopy, Style: c.styleStack[len(c.styleStack)-1]})
+			c.mask.SvgPaths = append(c.mask.SvgPaths, SvgPath{Path: pathCopy, Style: style})
 		} else if !c.inMask {
-			c.svg.SvgPaths = append(c.svg.SvgPaths,
-				SvgPath{Path: pathCopy, Style: c.styleStack[len(c.styleStack)-1]})
+			c.svg.SvgPaths = append(c.svg.SvgPaths, SvgPath{Path: pathCopy, Style: style})
 		}
 		c.path = c.path[:0]
 	}
-- 
2.43.0


From 845923fe7fe3de59211c12572a6c6b9f92f64d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:32 +0000
Subject: [PATCH 59/60] fix: limit huge rgb() components to the valid range

A percentage of 17 or more digits overflowed before it was limited, and an
integer beyond the range of int was refused instead of limited.
---
 patterns.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/patterns.go b/patterns.go
index 8f7d9dc..4d3da68 100644
--- a/patterns.go
+++ b/patterns.go
@@ -2,6 +2,7 @@ package svg
 
 import (
 	"encoding/xml"
+	"errors"
 	"image/color"
 	"strconv"
 	"strings"
@@ -102,26 +103,27 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 
 func parseColorValue(v string) (uint8, error) {
 	v = strings.TrimSpace(v)
+	max := 0xFF
 	if strings.HasSuffix(v, "%") {
-		n, err := strconv.Atoi(strings.TrimSpace(v[:len(v)-1]))
-		if err != nil {
-			return 0, err
-		}
-		return clampColorValue(n * 0xFF / 100), nil
+		max = 100
+		v = strings.TrimSpace(v[:len(v)-1])
 	}
 	n, err := strconv.Atoi(v)
-	return clampColorValue(n), err
+	if err != nil && !errors.Is(err, strconv.ErrRange) { // n is the nearest int then
+		return 0, err
+	}
+	return uint8(clampColorValue(n, max) * 0xFF / max), nil
 }
 
 // clampColorValue limits an out of range color component to the nearest valid value
-func clampColorValue(n int) uint8 {
+func clampColorValue(n, max int) int {
 	if n < 0 {
 		return 0
 	}
-	if n > 0xFF {
-		return 0xFF
+	if n > max {
+		return max
 	}
-	return uint8(n)
+	return n
 }
 
 // parseSVGColorNum reads the SFG color string e.g. #FBD9BD
-- 
2.43.0


From cf8cee929d1990110f508c3190b0a50de5a98b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:26 +0000
Subject: [PATCH 60/60] fix: keep definitions inside a mask in defs out of the
 mask

The content of a defs element inside of a mask was drawn as part of the
mask, and not available to use elements, when the mask itself was inside
of a defs element.
---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index dc1b40a..4525f5e 100644
--- a/parse.go
+++ b/parse.go
@@ -372,8 +372,8 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 	if se.Name.Local == "mask" {
 		c.maskInDefs = c.inDefs
 		skipDef = true
-	} else if c.inMask && c.maskInDefs {
-		skipDef = true
+	} else if c.inMask && c.maskInDefs && se.Name.Local != "defs" && c.openDefs[len(c.openDefs)-1] < 0 {
+		skipDef = true // drawn in the mask, unless inside a defs element of it
 	}
 	if c.inDefs && !skipDef {
 		ID := ""
-- 
2.43.0

