From 09097bdfd4090d48cef3c6c392cd5404a6f7e49e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 01/20] fix: read the difficulty name from the Version key

The metadata key is "Version"; "FileVersion" never occurs in a .osu file, so
BeatMap.Version was always empty.
---
 beatmap/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 7d394c3..50509b9 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -55,7 +55,7 @@ func parseMetadata(line []string, beatMap *BeatMap) {
 		beatMap.ArtistUnicode = line[1]
 	case "Creator":
 		beatMap.Creator = line[1]
-	case "FileVersion":
+	case "Version":
 		beatMap.Version = line[1]
 	case "Source":
 		beatMap.Source = line[1]
-- 
2.43.0


From ff17b04cc9cacf70e662feca34248febb6dd0a82 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 02/20] fix: accept fractional timing point times

They failed to parse as integers and moved the timing point to time 0.
---
 beatmap/beatmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beatmap/beatmap.go b/beatmap/beatmap.go
index 78c5a7f..874e18e 100644
--- a/beatmap/beatmap.go
+++ b/beatmap/beatmap.go
@@ -69,7 +69,7 @@ func NewBeatMap() *BeatMap {
 
 func (beatMap *BeatMap) ParsePoint(point string) {
 	line := strings.Split(point, ",")
-	pointTime, _ := strconv.ParseInt(line[0], 10, 64)
+	pointTime, _ := strconv.ParseFloat(line[0], 64)
 	bpm, _ := strconv.ParseFloat(line[1], 64)
 
 	if !math.IsNaN(bpm) && bpm >= 0 {
@@ -117,7 +117,7 @@ func (beatMap *BeatMap) ParsePoint(point string) {
 		omitFirstBarLine = (ki & 8) > 0
 	}
 
-	beatMap.Timings.AddPoint(float64(pointTime), bpm, sampleSet, sampleIndex, sampleVolume, signature, inherited, kiai, omitFirstBarLine)
+	beatMap.Timings.AddPoint(pointTime, bpm, sampleSet, sampleIndex, sampleVolume, signature, inherited, kiai, omitFirstBarLine)
 }
 
 func (beatMap *BeatMap) FinalizePoints() {
-- 
2.43.0


From e2945b7de703901c4b749cff305c2e0d7af3f211 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 03/20] fix: report read errors and over-long lines instead of
 parsing a partial file

The scanner error was never checked, so a failed read looked like the end of the file.
---
 beatmap/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 50509b9..02f81bb 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -216,6 +216,10 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 		}
 	}
 
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
+
 	beatMap.FinalizePoints()
 
 	if beatMap.Title+beatMap.Artist+beatMap.Creator == "" || counter == 0 {
-- 
2.43.0


From baab237b14a1cb8c023561e15f98f535a8d9b14a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:39 +0000
Subject: [PATCH 04/20] fix: ignore cut-off event lines

"0,0" and "2,100" made the parser panic.
---
 beatmap/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 02f81bb..d42534a 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -98,8 +98,16 @@ func parseDifficulty(line []string, beatMap *BeatMap) {
 func parseEvents(line []string, beatMap *BeatMap) {
 	switch line[0] {
 	case "Background", "0":
+		if len(line) < 3 {
+			return
+		}
+
 		beatMap.Bg = strings.Replace(line[2], "\"", "", -1)
 	case "Break", "2":
+		if len(line) < 3 {
+			return
+		}
+
 		beatMap.Pauses = append(beatMap.Pauses, NewPause(line))
 	}
 }
-- 
2.43.0


From f54e2e1a447abd3b4b332632722071b81230e445 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 05/20] fix: skip incomplete hit object lines

Hit objects with missing fields or control point coordinates, or with more
edge sounds than edges, made the parser panic.
---
 beatmap/objects/slider.go  | 12 ++++++++++++
 beatmap/objects/spinner.go |  4 ++++
 beatmap/objects/util.go    | 17 +++++++++++++++--
 beatmap/parser.go          | 14 ++++++++++----
 4 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index 0513d24..7dc2dec 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -37,6 +37,10 @@ type Slider struct {
 }
 
 func NewSlider(data []string) *Slider {
+	if len(data) < 8 {
+		return nil
+	}
+
 	slider := &Slider{
 		HitObject: commonParse(data),
 	}
@@ -51,6 +55,10 @@ func NewSlider(data []string) *Slider {
 
 	for i := 1; i < len(list); i++ {
 		list2 := strings.Split(list[i], ":")
+		if len(list2) < 2 {
+			return nil
+		}
+
 		x, _ := strconv.ParseFloat(list2[0], 32)
 		y, _ := strconv.ParseFloat(list2[1], 32)
 		points = append(points, vector.NewVec2f(float32(x), float32(y)))
@@ -72,6 +80,10 @@ func NewSlider(data []string) *Slider {
 	if len(data) > 8 {
 		subData := strings.Split(data[8], "|")
 		for i, v := range subData {
+			if i >= len(slider.sounds) {
+				break
+			}
+
 			sound, _ := strconv.Atoi(v)
 			slider.sounds[i] = audio.HitSound(sound)
 		}
diff --git a/beatmap/objects/spinner.go b/beatmap/objects/spinner.go
index 1fcbb38..57b19da 100644
--- a/beatmap/objects/spinner.go
+++ b/beatmap/objects/spinner.go
@@ -12,6 +12,10 @@ type Spinner struct {
 }
 
 func NewSpinner(data []string) *Spinner {
+	if len(data) < 6 {
+		return nil
+	}
+
 	spinner := &Spinner{
 		HitObject: commonParse(data),
 	}
diff --git a/beatmap/objects/util.go b/beatmap/objects/util.go
index c045af7..011093b 100644
--- a/beatmap/objects/util.go
+++ b/beatmap/objects/util.go
@@ -2,21 +2,34 @@ package objects
 
 import "strconv"
 
+// CreateObject returns nil if data doesn't hold a complete object
 func CreateObject(data []string) IHitObject {
+	if len(data) < 5 {
+		return nil
+	}
+
 	objTypeI, _ := strconv.Atoi(data[3])
 	objType := Type(objTypeI)
 
 	if (objType & CIRCLE) > 0 {
 		return NewCircle(data)
 	} else if (objType & SPINNER) > 0 {
-		return NewSpinner(data)
+		if spinner := NewSpinner(data); spinner != nil {
+			return spinner
+		}
 	} else if (objType & SLIDER) > 0 {
-		return NewSlider(data)
+		if slider := NewSlider(data); slider != nil {
+			return slider
+		}
 	}
 
 	return nil
 }
 
+func IsHoldNote(objType Type) bool {
+	return objType&(CIRCLE|SLIDER|SPINNER|LONGNOTE) == LONGNOTE
+}
+
 type Type int
 
 const (
diff --git a/beatmap/parser.go b/beatmap/parser.go
index d42534a..de99c00 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -112,12 +112,14 @@ func parseEvents(line []string, beatMap *BeatMap) {
 	}
 }
 
-func parseHitObjects(line []string, beatMap *BeatMap) {
+func parseHitObjects(line []string, beatMap *BeatMap) bool {
 	obj := objects.CreateObject(line)
 
 	if obj != nil {
 		beatMap.HitObjects = append(beatMap.HitObjects, obj)
 	}
+
+	return obj != nil
 }
 
 func tokenize(line, delimiter string) []string {
@@ -197,11 +199,17 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 				counter++
 			}
 		case "HitObjects":
-			if arr := tokenize(line, ","); arr != nil {
+			if arr := tokenize(line, ","); len(arr) > 4 {
 				var time string
 
 				objTypeI, _ := strconv.Atoi(arr[3])
 				objType := objects.Type(objTypeI)
+
+				// Hold notes are counted, but they have no object
+				if !parseHitObjects(arr, beatMap) && (!objects.IsHoldNote(objType) || len(arr) < 6) {
+					continue
+				}
+
 				if (objType & objects.CIRCLE) > 0 {
 					beatMap.Circles++
 					time = arr[2]
@@ -218,8 +226,6 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 				timeI, _ := strconv.Atoi(time)
 
 				beatMap.Length = mutils.MaxI(beatMap.Length, timeI)
-
-				parseHitObjects(arr, beatMap)
 			}
 		}
 	}
-- 
2.43.0


From ec3c6303f825042cd32a1a0e7913a3e5105b4f04 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 06/20] fix: rate maps without hit objects instead of panicking

---
 performance/osu/difficulty.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/performance/osu/difficulty.go b/performance/osu/difficulty.go
index e551640..6e807e7 100644
--- a/performance/osu/difficulty.go
+++ b/performance/osu/difficulty.go
@@ -168,7 +168,9 @@ func calculateSingle(objects []objects.IHitObject, diff *difficulty.Difficulty)
 
 	attr := Attributes{}
 
-	addObjectToAttribs(objects[0], &attr)
+	if len(objects) > 0 {
+		addObjectToAttribs(objects[0], &attr)
+	}
 
 	for i, o := range diffObjects {
 		addObjectToAttribs(objects[i+1], &attr)
@@ -211,6 +213,10 @@ func calculateStep(objects []objects.IHitObject, diff *difficulty.Difficulty) ([
 		flashlightSkill = skills.NewFlashlightSkill(diff)
 	}
 
+	if len(objects) == 0 {
+		return nil, aimSkill, speedSkill, flashlightSkill
+	}
+
 	stars := make([]Attributes, 1, len(objects))
 
 	addObjectToAttribs(objects[0], &stars[0])
-- 
2.43.0


From 5ac9602c4717d69770a83f087d0388e5798ce089 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 07/20] fix: rate the first object in step by step calculations

The first entry only had its counts set, so it differed from the rating of a
map that ends after its first object.
---
 performance/osu/difficulty.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/performance/osu/difficulty.go b/performance/osu/difficulty.go
index 6e807e7..3b766dc 100644
--- a/performance/osu/difficulty.go
+++ b/performance/osu/difficulty.go
@@ -221,6 +221,8 @@ func calculateStep(objects []objects.IHitObject, diff *difficulty.Difficulty) ([
 
 	addObjectToAttribs(objects[0], &stars[0])
 
+	stars[0] = getStars(aimSkill, aimNoSlidersSkill, speedSkill, flashlightSkill, diff, stars[0])
+
 	for i, o := range diffObjects {
 		attr := stars[i]
 		addObjectToAttribs(objects[i+1], &attr)
-- 
2.43.0


From 0ec8e9d574d6601461cb96b346ca56d052803a4e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:06 +0000
Subject: [PATCH 08/20] fix: limit slider repeats to 1-9000

Absurd repeat counts exhausted memory, negative ones panicked and zero left
sliders without scoring points. osu! has the same limits.
---
 beatmap/objects/slider.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index 7dc2dec..85e16e2 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -13,6 +13,8 @@ import (
 	"strings"
 )
 
+const maxRepeatCount = 9000
+
 type TickPoint struct {
 	Time      float64
 	IsReverse bool
@@ -50,6 +52,12 @@ func NewSlider(data []string) *Slider {
 	slider.pixelLength, _ = strconv.ParseFloat(data[7], 64)
 	slider.RepeatCount, _ = strconv.ParseInt(data[6], 10, 64)
 
+	if slider.RepeatCount > maxRepeatCount {
+		return nil
+	}
+
+	slider.RepeatCount = mutils.MaxI64(slider.RepeatCount, 1)
+
 	list := strings.Split(data[5], "|")
 	points := []vector.Vector2f{slider.StartPosRaw}
 
-- 
2.43.0


From 5a759a9caf2216fad17999b0a8842092c9f7b39a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:46 +0000
Subject: [PATCH 09/20] fix: default and limit the slider multiplier and tick
 rate

Missing, zero, negative or NaN values made slider parsing loop forever or
produced infinite durations. Defaults and limits are those of osu!.
---
 beatmap/beatmap.go       | 7 ++++---
 beatmap/parser.go        | 9 +++++++--
 beatmap/timing/timing.go | 2 ++
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/beatmap/beatmap.go b/beatmap/beatmap.go
index 874e18e..613663b 100644
--- a/beatmap/beatmap.go
+++ b/beatmap/beatmap.go
@@ -58,9 +58,10 @@ type BeatMap struct {
 
 func NewBeatMap() *BeatMap {
 	return &BeatMap{
-		Timings:       timing.NewTimings(),
-		StackLeniency: 0.7,
-		Difficulty:    difficulty.NewDifficulty(5, 5, 5, 5),
+		Timings:          timing.NewTimings(),
+		SliderMultiplier: 1.4,
+		StackLeniency:    0.7,
+		Difficulty:       difficulty.NewDifficulty(5, 5, 5, 5),
 
 		MinBPM: math.Inf(0),
 		MaxBPM: 0,
diff --git a/beatmap/parser.go b/beatmap/parser.go
index de99c00..53064a2 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -71,7 +71,10 @@ func parseMetadata(line []string, beatMap *BeatMap) {
 func parseDifficulty(line []string, beatMap *BeatMap) {
 	switch line[0] {
 	case "SliderMultiplier":
-		beatMap.SliderMultiplier, _ = strconv.ParseFloat(line[1], 64)
+		if parsed, _ := strconv.ParseFloat(line[1], 64); !math.IsNaN(parsed) {
+			beatMap.SliderMultiplier = mutils.ClampF64(parsed, 0.4, 3.6)
+		}
+
 		beatMap.Timings.SliderMult = beatMap.SliderMultiplier
 	case "ApproachRate":
 		parsed, _ := strconv.ParseFloat(line[1], 64)
@@ -81,7 +84,9 @@ func parseDifficulty(line []string, beatMap *BeatMap) {
 		parsed, _ := strconv.ParseFloat(line[1], 64)
 		beatMap.Difficulty.SetCS(mutils.ClampF64(parsed, 0, 10))
 	case "SliderTickRate":
-		beatMap.Timings.TickRate, _ = strconv.ParseFloat(line[1], 64)
+		if parsed, _ := strconv.ParseFloat(line[1], 64); !math.IsNaN(parsed) {
+			beatMap.Timings.TickRate = mutils.ClampF64(parsed, 0.5, 8)
+		}
 	case "HPDrainRate":
 		parsed, _ := strconv.ParseFloat(line[1], 64)
 		beatMap.Difficulty.SetHP(mutils.ClampF64(parsed, 0, 10))
diff --git a/beatmap/timing/timing.go b/beatmap/timing/timing.go
index 0d0c704..78730e8 100644
--- a/beatmap/timing/timing.go
+++ b/beatmap/timing/timing.go
@@ -56,6 +56,8 @@ type Timings struct {
 
 func NewTimings() *Timings {
 	return &Timings{
+		SliderMult: 1.4,
+		TickRate:   1,
 		defaultTimingPoint: ControlPoint{
 			Time:             0,
 			beatLengthBase:   60000 / 60,
-- 
2.43.0


From c08ec87fa25b10a7cb60eb002d378c772a7385f3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:46 +0000
Subject: [PATCH 10/20] fix: ignore NaN difficulty settings

NaN passes through the clamp, so every rating of such a map was NaN.
---
 beatmap/parser.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 53064a2..2d2aab8 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -78,10 +78,18 @@ func parseDifficulty(line []string, beatMap *BeatMap) {
 		beatMap.Timings.SliderMult = beatMap.SliderMultiplier
 	case "ApproachRate":
 		parsed, _ := strconv.ParseFloat(line[1], 64)
+		if math.IsNaN(parsed) {
+			return
+		}
+
 		beatMap.Difficulty.SetAR(mutils.ClampF64(parsed, 0, 10))
 		beatMap.arSpecified = true
 	case "CircleSize":
 		parsed, _ := strconv.ParseFloat(line[1], 64)
+		if math.IsNaN(parsed) {
+			return
+		}
+
 		beatMap.Difficulty.SetCS(mutils.ClampF64(parsed, 0, 10))
 	case "SliderTickRate":
 		if parsed, _ := strconv.ParseFloat(line[1], 64); !math.IsNaN(parsed) {
@@ -89,9 +97,17 @@ func parseDifficulty(line []string, beatMap *BeatMap) {
 		}
 	case "HPDrainRate":
 		parsed, _ := strconv.ParseFloat(line[1], 64)
+		if math.IsNaN(parsed) {
+			return
+		}
+
 		beatMap.Difficulty.SetHP(mutils.ClampF64(parsed, 0, 10))
 	case "OverallDifficulty":
 		parsed, _ := strconv.ParseFloat(line[1], 64)
+		if math.IsNaN(parsed) {
+			return
+		}
+
 		beatMap.Difficulty.SetOD(mutils.ClampF64(parsed, 0, 10))
 
 		if !beatMap.arSpecified {
-- 
2.43.0


From 1403fc38c38ae18d04e9aac9b23981eb17122fc3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 11/20] fix: treat arcs with absurd or undefined length as
 straight lines

Three nearly collinear points made ApproximateCircularArc allocate hundreds of
millions of segments, or panic on a negative count.
---
 math/curves/approximation.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/math/curves/approximation.go b/math/curves/approximation.go
index 79ad53e..994c2eb 100644
--- a/math/curves/approximation.go
+++ b/math/curves/approximation.go
@@ -4,10 +4,15 @@ import (
 	"github.com/Wieku/gosu-pp/math/vector"
 )
 
+// Arcs through nearly collinear points can be absurdly long, slider paths can't
+const maxArcLength = 1 << 20
+
 func ApproximateCircularArc(pt1, pt2, pt3 vector.Vector2f, detail float32) []Linear {
 	arc := NewCirArc(pt1, pt2, pt3)
 
-	if arc.Unstable {
+	length := arc.GetLength()
+
+	if arc.Unstable || !(length >= 0 && length <= maxArcLength) {
 		return []Linear{NewLinear(pt1, pt2), NewLinear(pt2, pt3)}
 	}
 
-- 
2.43.0


From 115bde0f6b213fbd41531fa2780659cbd5e69886 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 12/20] fix: skip hit objects with NaN, infinite or absurd
 numbers

They made the parser hang or exhaust memory, and ratings NaN. The limits are
those of osu!.
---
 beatmap/objects/baseobject.go | 15 +++++++++++++++
 beatmap/objects/circle.go     |  7 ++++++-
 beatmap/objects/slider.go     | 14 ++++++++++++--
 beatmap/objects/spinner.go    | 11 ++++++++++-
 beatmap/objects/util.go       |  6 ++++--
 5 files changed, 47 insertions(+), 6 deletions(-)

diff --git a/beatmap/objects/baseobject.go b/beatmap/objects/baseobject.go
index a8be52f..81e6f4f 100644
--- a/beatmap/objects/baseobject.go
+++ b/beatmap/objects/baseobject.go
@@ -3,15 +3,30 @@ package objects
 import (
 	"github.com/Wieku/gosu-pp/beatmap/audio"
 	"github.com/Wieku/gosu-pp/math/vector"
+	"math"
 	"strconv"
 )
 
+const (
+	maxCoordinate = 131072
+	maxTime       = math.MaxInt32
+)
+
+// inRange is false for NaN
+func inRange(value, limit float64) bool {
+	return math.Abs(value) <= limit
+}
+
 func commonParse(data []string) *HitObject {
 	x, _ := strconv.ParseFloat(data[0], 32)
 	y, _ := strconv.ParseFloat(data[1], 32)
 	time, _ := strconv.ParseFloat(data[2], 64)
 	objType, _ := strconv.Atoi(data[3])
 
+	if !inRange(x, maxCoordinate) || !inRange(y, maxCoordinate) || !inRange(time, maxTime) {
+		return nil
+	}
+
 	startPos := vector.NewVec2f(float32(x), float32(y))
 
 	sound, _ := strconv.Atoi(data[4])
diff --git a/beatmap/objects/circle.go b/beatmap/objects/circle.go
index df5bc3d..93a2705 100644
--- a/beatmap/objects/circle.go
+++ b/beatmap/objects/circle.go
@@ -11,8 +11,13 @@ type Circle struct {
 }
 
 func NewCircle(data []string) *Circle {
+	hitObject := commonParse(data)
+	if hitObject == nil {
+		return nil
+	}
+
 	return &Circle{
-		HitObject: commonParse(data),
+		HitObject: hitObject,
 	}
 }
 
diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index 85e16e2..c3592cb 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -43,8 +43,13 @@ func NewSlider(data []string) *Slider {
 		return nil
 	}
 
+	hitObject := commonParse(data)
+	if hitObject == nil {
+		return nil
+	}
+
 	slider := &Slider{
-		HitObject: commonParse(data),
+		HitObject: hitObject,
 	}
 
 	slider.PositionDelegate = slider.PositionAt
@@ -52,7 +57,7 @@ func NewSlider(data []string) *Slider {
 	slider.pixelLength, _ = strconv.ParseFloat(data[7], 64)
 	slider.RepeatCount, _ = strconv.ParseInt(data[6], 10, 64)
 
-	if slider.RepeatCount > maxRepeatCount {
+	if slider.RepeatCount > maxRepeatCount || !inRange(slider.pixelLength, maxCoordinate) {
 		return nil
 	}
 
@@ -69,6 +74,11 @@ func NewSlider(data []string) *Slider {
 
 		x, _ := strconv.ParseFloat(list2[0], 32)
 		y, _ := strconv.ParseFloat(list2[1], 32)
+
+		if !inRange(x, maxCoordinate) || !inRange(y, maxCoordinate) {
+			return nil
+		}
+
 		points = append(points, vector.NewVec2f(float32(x), float32(y)))
 	}
 
diff --git a/beatmap/objects/spinner.go b/beatmap/objects/spinner.go
index 57b19da..4f6b37c 100644
--- a/beatmap/objects/spinner.go
+++ b/beatmap/objects/spinner.go
@@ -16,12 +16,21 @@ func NewSpinner(data []string) *Spinner {
 		return nil
 	}
 
+	hitObject := commonParse(data)
+	if hitObject == nil {
+		return nil
+	}
+
 	spinner := &Spinner{
-		HitObject: commonParse(data),
+		HitObject: hitObject,
 	}
 
 	spinner.EndTime, _ = strconv.ParseFloat(data[5], 64)
 
+	if !inRange(spinner.EndTime, maxTime) {
+		return nil
+	}
+
 	return spinner
 }
 
diff --git a/beatmap/objects/util.go b/beatmap/objects/util.go
index 011093b..f48dba9 100644
--- a/beatmap/objects/util.go
+++ b/beatmap/objects/util.go
@@ -2,7 +2,7 @@ package objects
 
 import "strconv"
 
-// CreateObject returns nil if data doesn't hold a complete object
+// CreateObject returns nil if data doesn't hold a complete object or its numbers are out of range
 func CreateObject(data []string) IHitObject {
 	if len(data) < 5 {
 		return nil
@@ -12,7 +12,9 @@ func CreateObject(data []string) IHitObject {
 	objType := Type(objTypeI)
 
 	if (objType & CIRCLE) > 0 {
-		return NewCircle(data)
+		if circle := NewCircle(data); circle != nil {
+			return circle
+		}
 	} else if (objType & SPINNER) > 0 {
 		if spinner := NewSpinner(data); spinner != nil {
 			return spinner
-- 
2.43.0


From 84c1bf0f416c29befc9724c28ad81e3896e93f55 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:47 +0000
Subject: [PATCH 13/20] fix: ignore timing points with infinite or absurd
 numbers

Infinite beat lengths gave sliders NaN durations.
---
 beatmap/beatmap.go | 5 +++++
 beatmap/parser.go  | 5 +----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/beatmap/beatmap.go b/beatmap/beatmap.go
index 613663b..1f9f443 100644
--- a/beatmap/beatmap.go
+++ b/beatmap/beatmap.go
@@ -73,6 +73,11 @@ func (beatMap *BeatMap) ParsePoint(point string) {
 	pointTime, _ := strconv.ParseFloat(line[0], 64)
 	bpm, _ := strconv.ParseFloat(line[1], 64)
 
+	// NaN beat length is valid, it disables slider ticks
+	if !(math.Abs(pointTime) <= math.MaxInt32) || math.Abs(bpm) > math.MaxInt32 {
+		return
+	}
+
 	if !math.IsNaN(bpm) && bpm >= 0 {
 		rBPM := 60000 / bpm
 		beatMap.MinBPM = math.Min(beatMap.MinBPM, rBPM)
diff --git a/beatmap/parser.go b/beatmap/parser.go
index 2d2aab8..9b5db18 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -181,8 +181,6 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 
 	var currentSection string
 
-	counter := 0
-
 	for scanner.Scan() {
 		line := scanner.Text()
 
@@ -217,7 +215,6 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 		case "TimingPoints":
 			if arr := tokenize(line, ","); len(arr) > 1 {
 				beatMap.ParsePoint(line)
-				counter++
 			}
 		case "HitObjects":
 			if arr := tokenize(line, ","); len(arr) > 4 {
@@ -257,7 +254,7 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 
 	beatMap.FinalizePoints()
 
-	if beatMap.Title+beatMap.Artist+beatMap.Creator == "" || counter == 0 {
+	if beatMap.Title+beatMap.Artist+beatMap.Creator == "" || !beatMap.Timings.HasPoints() {
 		return nil, errors.New("corrupted file")
 	}
 
-- 
2.43.0


From d32da51a74ca6e2267c1dccee398d31a7aaa38d2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:09 +0000
Subject: [PATCH 14/20] fix: never generate slider ticks with a distance of
 zero

A slider of length 0 whose curve lengths did not add up exactly in float32 kept a
tiny piece of its curve and got a tick distance of 0, which never ends.
---
 beatmap/objects/slider.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index c3592cb..1c35e21 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -144,8 +144,9 @@ func (slider *Slider) SetTiming(timings *timing.Timings) {
 	minDistanceFromEnd := velocity * 0.01
 	tickDistance := slider.Timings.GetTickDistance(slider.TPoint)
 
-	if slider.multiCurve.GetLength() > 0 && tickDistance > slider.pixelLength {
-		tickDistance = slider.pixelLength
+	// The curve may be slightly longer than pixelLength due to rounding, a distance of 0 would never reach its end
+	if cLength > 0 && tickDistance > cLength {
+		tickDistance = cLength
 	}
 
 	for span := 0; span < int(slider.RepeatCount); span++ {
-- 
2.43.0


From c962a50856150d080c6fc03067eca7d93e611c24 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 15/20] fix: finalizing timing points again doubled the
 uninherited points

---
 beatmap/timing/timing.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beatmap/timing/timing.go b/beatmap/timing/timing.go
index 78730e8..4c69873 100644
--- a/beatmap/timing/timing.go
+++ b/beatmap/timing/timing.go
@@ -95,6 +95,8 @@ func (tim *Timings) FinalizePoints() {
 		return tim.points[i].Time < tim.points[j].Time
 	})
 
+	tim.originalPoints = nil
+
 	for i, point := range tim.points {
 		if point.Inherited && i > 0 {
 			lastPoint := tim.points[i-1]
-- 
2.43.0


From 59809383cef0f55fea2aeaf95d5a9e1ba5fac519 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 16/20] fix: applying timing to a slider again doubled its
 scoring points

---
 beatmap/objects/slider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index 1c35e21..b18e352 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -129,6 +129,7 @@ func (slider *Slider) PositionAt(time float64) vector.Vector2f {
 
 func (slider *Slider) SetTiming(timings *timing.Timings) {
 	slider.Timings = timings
+	slider.ScorePoints = nil
 	slider.TPoint = timings.GetPointAt(slider.StartTime)
 
 	nanTimingPoint := math.IsNaN(slider.TPoint.GetRawBeatLength())
-- 
2.43.0


From 83d54d38f5c207feef5a3dd291b6853742ef3903 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:10 +0000
Subject: [PATCH 17/20] fix: spaces around the fields of a timing point made
 them read as 0

---
 beatmap/beatmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beatmap/beatmap.go b/beatmap/beatmap.go
index 1f9f443..5725e1d 100644
--- a/beatmap/beatmap.go
+++ b/beatmap/beatmap.go
@@ -70,6 +70,10 @@ func NewBeatMap() *BeatMap {
 
 func (beatMap *BeatMap) ParsePoint(point string) {
 	line := strings.Split(point, ",")
+	for i, field := range line {
+		line[i] = strings.TrimSpace(field)
+	}
+
 	pointTime, _ := strconv.ParseFloat(line[0], 64)
 	bpm, _ := strconv.ParseFloat(line[1], 64)
 
-- 
2.43.0


From 2bdcf757dc1c27d837c81870b830765a9c1e0484 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 18/20] fix: spaces after the file version made it read as 0

---
 beatmap/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 9b5db18..0f6b57e 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -185,7 +185,7 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 		line := scanner.Text()
 
 		if strings.HasPrefix(line, "osu file format v") {
-			trim := strings.TrimPrefix(line, "osu file format v")
+			trim := strings.TrimSpace(strings.TrimPrefix(line, "osu file format v"))
 			beatMap.FileVersion, _ = strconv.Atoi(trim)
 		}
 
-- 
2.43.0


From a0f25ff5725447ad0e4aa2215c1ce4a78ac9391c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 19/20] fix: mod strings of odd length made parsing panic

---
 beatmap/difficulty/mods.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/difficulty/mods.go b/beatmap/difficulty/mods.go
index 229656a..ede6d60 100644
--- a/beatmap/difficulty/mods.go
+++ b/beatmap/difficulty/mods.go
@@ -210,7 +210,7 @@ func (mods Modifier) StringFull() (s []string) {
 }
 
 func ParseMods(mods string) (m Modifier) {
-	modsSl := make([]string, len(mods)/2)
+	modsSl := make([]string, (len(mods)+1)/2)
 	for n, modPart := range mods {
 		modsSl[n/2] += string(modPart)
 	}
-- 
2.43.0


From 4c671d62ed7fbd68f4d5a7f27d0a12569c902980 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 20/20] fix: decimal object times made the map length read as 0

---
 beatmap/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 0f6b57e..ce5414d 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -241,9 +241,9 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 					beatMap.Sliders++
 					time = strings.Split(arr[5], ":")[0]
 				}
-				timeI, _ := strconv.Atoi(time)
+				timeF, _ := strconv.ParseFloat(time, 64)
 
-				beatMap.Length = mutils.MaxI(beatMap.Length, timeI)
+				beatMap.Length = mutils.MaxI(beatMap.Length, int(timeF))
 			}
 		}
 	}
-- 
2.43.0

