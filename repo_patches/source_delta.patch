From 5b2917a1f123f3abc0b3fd1def3ca36beaa14186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 01/65] fix: report an empty cram expression instead of
 crashing

Parsing {} indexed the first of zero events and took the whole process
down, including a running REPL server.
---
 client/parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/parser/parser.go b/client/parser/parser.go
index 817c83e..77f9de9 100644
--- a/client/parser/parser.go
+++ b/client/parser/parser.go
@@ -900,6 +900,10 @@ func (p *parser) cram() (ASTNode, error) {
 		return ASTNode{}, err
 	}
 
+	if len(allEvents) == 0 {
+		return ASTNode{}, p.errorAtToken(cramOpenToken, "empty cram expression")
+	}
+
 	eventsNode := ASTNode{
 		Type:          EventSequenceNode,
 		SourceContext: allEvents[0].SourceContext,
-- 
2.43.0


From 9f6513992588c149dda8d552594641328709fbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 02/65] fix: report () and (quote) as errors instead of
 crashing

---
 client/model/lisp.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/client/model/lisp.go b/client/model/lisp.go
index c8965fc..1a8b6db 100644
--- a/client/model/lisp.go
+++ b/client/model/lisp.go
@@ -1671,6 +1671,10 @@ func (l LispList) Eval() (LispForm, error) {
 		}
 	}
 
+	if len(l.Elements) == 0 {
+		return nil, sourceError(fmt.Errorf("empty S-expression"))
+	}
+
 	operator, err := l.Elements[0].Eval()
 	if err != nil {
 		return nil, err
@@ -1680,10 +1684,10 @@ func (l LispList) Eval() (LispForm, error) {
 	// TODO: consider turning this into an interface?
 	switch operator.(type) {
 	case LispSpecialFormQuote:
-		if len(l.Elements[1:]) > 1 {
-			return nil, fmt.Errorf(
+		if len(l.Elements[1:]) != 1 {
+			return nil, sourceError(fmt.Errorf(
 				"expected 1 argument to quote, got %d", len(l.Elements[1:]),
-			)
+			))
 		}
 
 		return l.Elements[1], nil
-- 
2.43.0


From 0225234be21a2c123511cdffc843aaca3c257175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 03/65] fix: reject zero, infinite and malformed note lengths
 in S-expressions

(set-note-length "0") produced notes at infinite offsets, and one trailing
character ("4x") was silently ignored.
---
 client/model/lisp.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/client/model/lisp.go b/client/model/lisp.go
index 1a8b6db..91f93ac 100644
--- a/client/model/lisp.go
+++ b/client/model/lisp.go
@@ -526,7 +526,10 @@ func noteLength(str string) (NoteLength, error) {
 		}
 	}
 
-	denominator, _ := strconv.ParseFloat(string(denominatorChars), 64)
+	denominator, err := strconv.ParseFloat(string(denominatorChars), 64)
+	if err != nil {
+		return NoteLength{}, fmt.Errorf("invalid note length: %q", str)
+	}
 
 	// Any periods remaining are treated as dots.
 	dots := 0
@@ -537,11 +540,17 @@ func noteLength(str string) (NoteLength, error) {
 
 	// At this point, we should be at the end of the string. If there's anything
 	// left over, consider the string invalid.
-	if i < len(chars)-1 {
+	if i < len(chars) {
 		return NoteLength{}, fmt.Errorf("invalid note length: %q", str)
 	}
 
-	return NoteLength{Denominator: denominator, Dots: int32(dots)}, nil
+	result := NoteLength{Denominator: denominator, Dots: int32(dots)}
+
+	if err := result.Validate(); err != nil {
+		return NoteLength{}, err
+	}
+
+	return result, nil
 }
 
 func duration(form LispForm) (Duration, error) {
-- 
2.43.0


From 7dff84dc8445a3f6b227b2da75df66bb0c6f0c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 04/65] fix: reject invalid characters in an alias and a bare
 "o" at end of input

The error for an invalid alias character was created but not returned, so
any character was accepted as the closing quote. A trailing "o" was read
as "o0".
---
 client/parser/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/parser/scanner.go b/client/parser/scanner.go
index b4434e0..b14a689 100644
--- a/client/parser/scanner.go
+++ b/client/parser/scanner.go
@@ -571,7 +571,7 @@ func (s *scanner) parseAlias() error {
 	}
 
 	if c := s.peek(); c != '"' {
-		s.unexpectedCharError(c, "in alias", s.line, s.column)
+		return s.unexpectedCharError(c, "in alias", s.line, s.column)
 	}
 
 	// Consume the closing ".
@@ -751,7 +751,7 @@ func (s *scanner) scanToken() error {
 				s.addToken(NoteLetter, c)
 			case isRestLetter(c) && (followsRestLetter(n) || s.reachedEOF()):
 				s.addToken(RestLetter, nil)
-			case isOctaveLetter(c) && (isDigit(n) || s.reachedEOF()):
+			case isOctaveLetter(c) && isDigit(n):
 				err = s.parseOctaveSet()
 			case isVoiceLetter(c) && isDigit(n):
 				err = s.parseVoiceMarker()
-- 
2.43.0


From 15fd2ae11b5b8514691cedfed7ade91590adf76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 05/65] fix: repeat a note or chord zero times when asked to

"c*0" played the note once, unlike "[c]*0", which plays nothing.
---
 client/parser/parser.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/client/parser/parser.go b/client/parser/parser.go
index 77f9de9..289be6a 100644
--- a/client/parser/parser.go
+++ b/client/parser/parser.go
@@ -705,9 +705,9 @@ func (p *parser) noteRestOrChord() (ASTNode, error) {
 		times         int32
 	}
 
-	// We're essentially using this as a nil value. Below, we check whether
-	// `repeat.times` > 0, which will be true if we don't reassign `repeat`.
-	repeat := maybeRepeat{}
+	// This stays nil if there is no repeat. (We can't tell from the number of
+	// times, because an event can be repeated 0 times.)
+	var repeat *maybeRepeat
 
 	for {
 		noteOrRest, err := p.noteOrRest()
@@ -717,7 +717,7 @@ func (p *parser) noteRestOrChord() (ASTNode, error) {
 
 		if token, matched := p.match(Repeat); matched {
 			allNodes = append(allNodes, noteOrRest)
-			repeat = maybeRepeat{
+			repeat = &maybeRepeat{
 				sourceContext: p.sourceContext(token),
 				times:         token.literal.(int32),
 			}
@@ -794,7 +794,7 @@ func (p *parser) noteRestOrChord() (ASTNode, error) {
 		}
 	}
 
-	if repeat.times > 0 {
+	if repeat != nil {
 		if len(allNodes) != 1 {
 			panic(fmt.Sprintf("Expected a single node in %#v", allNodes))
 		}
-- 
2.43.0


From a2e059d819f0e1f6f57563b8a2c9bb619504597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:42 +0000
Subject: [PATCH 06/65] fix: keep an out-of-range pitch from wrapping around to
 a valid MIDI note

"o2147483647 c" overflowed 32 bits and played MIDI note 0 instead of being
rejected as out of range.
---
 client/model/pitch.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/client/model/pitch.go b/client/model/pitch.go
index c541064..8f376d9 100644
--- a/client/model/pitch.go
+++ b/client/model/pitch.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"fmt"
+	"math"
 
 	"alda.io/client/json"
 )
@@ -164,8 +165,10 @@ func (laa LetterAndAccidentals) JSON() *json.Container {
 func (laa LetterAndAccidentals) CalculateMidiNote(
 	octave int32, keySignature KeySignature, transposition int32,
 ) int32 {
-	baseMidiNoteNumber := ((octave + 1) * 12) +
-		NoteLetterIntervals[laa.NoteLetter]
+	// We do the arithmetic in 64 bits so that an absurd octave or transposition
+	// can't overflow and wrap around to a valid MIDI note.
+	baseMidiNoteNumber := ((int64(octave) + 1) * 12) +
+		int64(NoteLetterIntervals[laa.NoteLetter])
 
 	var accidentals []Accidental
 	if laa.Accidentals == nil {
@@ -183,7 +186,20 @@ func (laa LetterAndAccidentals) CalculateMidiNote(
 		}
 	}
 
-	return baseMidiNoteNumber + transposition
+	return clampToInt32(baseMidiNoteNumber + int64(transposition))
+}
+
+// clampToInt32 returns the int32 value that is closest to the provided number.
+func clampToInt32(n int64) int32 {
+	if n > math.MaxInt32 {
+		return math.MaxInt32
+	}
+
+	if n < math.MinInt32 {
+		return math.MinInt32
+	}
+
+	return int32(n)
 }
 
 // MidiNoteNumber specifies a pitch as a MIDI note number.
@@ -201,5 +217,5 @@ func (mnn MidiNoteNumber) JSON() *json.Container {
 func (mnn MidiNoteNumber) CalculateMidiNote(
 	octave int32, keySignature KeySignature, transposition int32,
 ) int32 {
-	return mnn.MidiNote + transposition
+	return clampToInt32(int64(mnn.MidiNote) + int64(transposition))
 }
-- 
2.43.0


From 95bcf76d2c9d476955b06d655e1210bdcf1feb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:42 +0000
Subject: [PATCH 07/65] fix: play a numbered ending once when several
 instruments are active

In a group of N instruments, an event with repetition numbers was applied
N times to every instrument.
---
 client/model/repetitions.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/model/repetitions.go b/client/model/repetitions.go
index e2d98f6..35c79e2 100644
--- a/client/model/repetitions.go
+++ b/client/model/repetitions.go
@@ -63,9 +63,9 @@ func (or OnRepetitions) AppliesTo(repetition int32) bool {
 func (or OnRepetitions) UpdateScore(score *Score) error {
 	for _, part := range score.CurrentParts {
 		if or.AppliesTo(part.currentRepetition) {
-			if err := score.Update(or.Event); err != nil {
-				return err
-			}
+			// All of the current parts are on the same repetition, and updating the
+			// score with the event already applies it to every one of them.
+			return score.Update(or.Event)
 		}
 	}
 
-- 
2.43.0


From 597c9e0e8a1e9d6d26b01a25f7ae4f67ecdc4875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:42 +0000
Subject: [PATCH 08/65] fix: keep the outer repetition number after a nested
 repeat

After an inner repeat, the numbered endings of the outer repeat were chosen
by the last repetition number of the inner one.
---
 client/model/repeat.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/client/model/repeat.go b/client/model/repeat.go
index d30d53f..b89a183 100644
--- a/client/model/repeat.go
+++ b/client/model/repeat.go
@@ -31,6 +31,15 @@ func (repeat Repeat) JSON() *json.Container {
 // UpdateScore implements ScoreUpdate.UpdateScore by repeatedly updating the
 // score with an event a specified number of times.
 func (repeat Repeat) UpdateScore(score *Score) error {
+	// Repeats can be nested, so once we're done, we have to restore whichever
+	// repetition of the outer repeat each part was on. (We use the parts' origins
+	// to identify them because the event can start or end a voice group, which
+	// changes the current parts.)
+	outerRepetitions := map[*Part]int32{}
+	for _, part := range score.CurrentParts {
+		outerRepetitions[part.origin] = part.currentRepetition
+	}
+
 	for repetition := int32(1); repetition <= repeat.Times; repetition++ {
 		for _, part := range score.CurrentParts {
 			part.currentRepetition = repetition
@@ -41,6 +50,10 @@ func (repeat Repeat) UpdateScore(score *Score) error {
 		}
 	}
 
+	for _, part := range score.CurrentParts {
+		part.currentRepetition = outerRepetitions[part.origin]
+	}
+
 	return nil
 }
 
@@ -49,11 +62,15 @@ func (repeat Repeat) UpdateScore(score *Score) error {
 func (repeat Repeat) DurationMs(part *Part) float64 {
 	durationMs := 0.0
 
+	outerRepetition := part.currentRepetition
+
 	for repetition := int32(1); repetition <= repeat.Times; repetition++ {
 		part.currentRepetition = repetition
 		durationMs += repeat.Event.DurationMs(part)
 	}
 
+	part.currentRepetition = outerRepetition
+
 	return durationMs
 }
 
-- 
2.43.0


From d8147abc5d1232659ee7b3aecf518a305015fae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:05 +0000
Subject: [PATCH 09/65] fix: keep playing a part after a cram expression that
 contains voices

The time scale was restored from a map entry that does not exist when the
voices have replaced the current part, so it became 0 and every later note
of the part was dropped.
---
 client/model/cram.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/client/model/cram.go b/client/model/cram.go
index 13809c9..629adf3 100644
--- a/client/model/cram.go
+++ b/client/model/cram.go
@@ -94,11 +94,13 @@ func timeScale(cram Cram, part *Part) (float64, error) {
 //
 // * Restore the part's previous TimeScale value.
 func (cram Cram) UpdateScore(score *Score) error {
+	// We use the parts' origins to identify them because the events can include
+	// voices, which changes the current parts.
 	previousDurations := map[*Part]Duration{}
 	previousTimeScales := map[*Part]float64{}
 	for _, part := range score.CurrentParts {
-		previousDurations[part] = part.Duration
-		previousTimeScales[part] = part.TimeScale
+		previousDurations[part.origin] = part.Duration
+		previousTimeScales[part.origin] = part.TimeScale
 	}
 
 	for _, part := range score.CurrentParts {
@@ -124,9 +126,9 @@ func (cram Cram) UpdateScore(score *Score) error {
 		if cram.Duration.Components != nil {
 			part.Duration = cram.Duration
 		} else {
-			part.Duration = previousDurations[part]
+			part.Duration = previousDurations[part.origin]
 		}
-		part.TimeScale = previousTimeScales[part]
+		part.TimeScale = previousTimeScales[part.origin]
 	}
 
 	return nil
-- 
2.43.0


From 084cb771ba6059e465553478a2c814152bb0126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:05 +0000
Subject: [PATCH 10/65] fix: make a cram fill its duration when its events
 change durations

Nested crams with a duration, and tempo or duration attributes inside a
cram, were ignored when tallying the inner duration, so that the cram took
more or less time than it should.
---
 client/model/attributes.go | 11 +++++++++++
 client/model/cram.go       | 15 ++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/client/model/attributes.go b/client/model/attributes.go
index bc53be3..fac9000 100644
--- a/client/model/attributes.go
+++ b/client/model/attributes.go
@@ -47,7 +47,14 @@ func (au AttributeUpdate) UpdateScore(score *Score) error {
 
 // DurationMs implements ScoreUpdate.DurationMs by returning 0, since an
 // attribute update is conceptually instantaneous.
+//
+// Also updates the part, so that e.g. a change of tempo or default duration can
+// be correctly considered when tallying the duration of subsequent events.
 func (au AttributeUpdate) DurationMs(part *Part) float64 {
+	// If there is an error, it will be propagated through when UpdateScore is
+	// called.
+	_ = au.PartUpdate.updatePart(part, false)
+
 	return 0
 }
 
@@ -216,7 +223,11 @@ func (gau GlobalAttributeUpdate) UpdateScore(score *Score) error {
 
 // DurationMs implements ScoreUpdate.DurationMs by returning 0, since an
 // attribute update is conceptually instantaneous.
+//
+// Also updates the part, for the same reason as AttributeUpdate.DurationMs.
 func (gau GlobalAttributeUpdate) DurationMs(part *Part) float64 {
+	_ = gau.PartUpdate.updatePart(part, true)
+
 	return 0
 }
 
diff --git a/client/model/cram.go b/client/model/cram.go
index 629adf3..30622d0 100644
--- a/client/model/cram.go
+++ b/client/model/cram.go
@@ -137,8 +137,21 @@ func (cram Cram) UpdateScore(score *Score) error {
 // DurationMs implements ScoreUpdate.DurationMs by returning the effective
 // duration of the Cram expression, i.e. either the specified duration of the
 // Cram expression or the part's default duration.
+//
+// Also applies the effects that the Cram expression has on the part, so that
+// they can be correctly considered when tallying the duration of subsequent
+// events.
 func (cram Cram) DurationMs(part *Part) float64 {
-	return effectiveDuration(cram.Duration, part).Ms(part.Tempo)
+	duration := effectiveDuration(cram.Duration, part)
+	durationMs := duration.Ms(part.Tempo)
+
+	for _, event := range cram.Events {
+		event.DurationMs(part)
+	}
+
+	part.Duration = duration
+
+	return durationMs
 }
 
 // VariableValue implements ScoreUpdate.VariableValue by returning a version of
-- 
2.43.0


From a20795e06ccf243b7e63a2282f95b5ff609a4ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:21 +0000
Subject: [PATCH 11/65] fix: apply pending global attributes before a local
 change or a cram

A global attribute was applied only when the next note was added. So in
"(octave! 5)" followed by "> c" the ">" was lost, of several local
overrides at one offset only the last one was respected, and a cram with a
duration in seconds was measured in the wrong tempo.
---
 client/model/attributes.go | 51 ++++++++++++++++++++++++++++++++------
 client/model/cram.go       |  5 ++++
 client/model/part.go       | 13 +++++++++-
 3 files changed, 60 insertions(+), 9 deletions(-)

diff --git a/client/model/attributes.go b/client/model/attributes.go
index fac9000..891d9da 100644
--- a/client/model/attributes.go
+++ b/client/model/attributes.go
@@ -31,6 +31,12 @@ func (au AttributeUpdate) JSON() *json.Container {
 // UpdateScore implements ScoreUpdate.UpdateScore by updating an attribute value
 // for all current parts.
 func (au AttributeUpdate) UpdateScore(score *Score) error {
+	// Any global attribute changes up to this point in time come first, so that
+	// this local change isn't undone by them when the next note is added.
+	if err := score.ApplyGlobalAttributes(); err != nil {
+		return err
+	}
+
 	for _, part := range score.CurrentParts {
 		if err := au.PartUpdate.updatePart(part, false); err != nil {
 			return err
@@ -39,7 +45,9 @@ func (au AttributeUpdate) UpdateScore(score *Score) error {
 		// This is so that we can track the case where a local attribute change is
 		// applied at the exact same time as a global attribute change, and we want
 		// the local attribute change to take precedence.
-		part.localAttributeOverride = au.PartUpdate
+		part.localAttributeOverrides = append(
+			part.localAttributeOverrides, au.PartUpdate,
+		)
 	}
 
 	return nil
@@ -146,14 +154,11 @@ func (ga GlobalAttributes) InWindow(
 // LastOffset and CurrentOffset are applied.
 func (score *Score) ApplyGlobalAttributes() error {
 	for _, part := range score.CurrentParts {
-		for _, update := range score.GlobalAttributes.InWindow(
-			part.LastOffset, part.CurrentOffset,
-		) {
-			if reflect.TypeOf(part.localAttributeOverride) == reflect.TypeOf(update) {
+		for _, update := range score.pendingGlobalAttributes(part) {
+			if part.overridesLocally(update) {
 				log.Debug().
 					Str("part", part.Name).
 					Interface("globalUpdate", update).
-					Interface("localUpdate", part.localAttributeOverride).
 					Msg("Skipping global attribute update. " +
 						"Overridden by local attribute update.")
 			} else {
@@ -167,13 +172,43 @@ func (score *Score) ApplyGlobalAttributes() error {
 				}
 			}
 		}
-
-		part.localAttributeOverride = nil
 	}
 
 	return nil
 }
 
+// pendingGlobalAttributes returns the global attribute updates that are to be
+// applied to a part at its current offset, and takes note that they were
+// applied, so that each one is only applied once.
+func (score *Score) pendingGlobalAttributes(part *Part) []PartUpdate {
+	updatesAtOffset := score.GlobalAttributes.itinerary[part.CurrentOffset]
+	alreadyApplied := part.globalAttributesApplied
+	part.globalAttributesApplied = len(updatesAtOffset)
+
+	// The part hasn't moved since the last time, so the only updates of interest
+	// are the ones that were recorded at this offset in the meantime.
+	if part.globalAttributesAppliedAt == part.CurrentOffset {
+		return updatesAtOffset[alreadyApplied:]
+	}
+
+	part.globalAttributesAppliedAt = part.CurrentOffset
+	part.localAttributeOverrides = nil
+
+	return score.GlobalAttributes.InWindow(part.LastOffset, part.CurrentOffset)
+}
+
+// overridesLocally returns true if a part has, at its current offset, a local
+// attribute change that takes precedence over the given global one.
+func (part *Part) overridesLocally(globalUpdate PartUpdate) bool {
+	for _, localUpdate := range part.localAttributeOverrides {
+		if reflect.TypeOf(localUpdate) == reflect.TypeOf(globalUpdate) {
+			return true
+		}
+	}
+
+	return false
+}
+
 // GlobalAttributeUpdate updates the value of an attribute for all parts.
 type GlobalAttributeUpdate struct {
 	SourceContext AldaSourceContext
diff --git a/client/model/cram.go b/client/model/cram.go
index 30622d0..c76d3f6 100644
--- a/client/model/cram.go
+++ b/client/model/cram.go
@@ -94,6 +94,11 @@ func timeScale(cram Cram, part *Part) (float64, error) {
 //
 // * Restore the part's previous TimeScale value.
 func (cram Cram) UpdateScore(score *Score) error {
+	// The durations below depend on the tempo as of this point in time.
+	if err := score.ApplyGlobalAttributes(); err != nil {
+		return err
+	}
+
 	// We use the parts' origins to identify them because the events can include
 	// voices, which changes the current parts.
 	previousDurations := map[*Part]Duration{}
diff --git a/client/model/part.go b/client/model/part.go
index a925f04..77f76e4 100644
--- a/client/model/part.go
+++ b/client/model/part.go
@@ -71,7 +71,11 @@ type Part struct {
 	// Used in order to track the case where a part overrides a global attribute
 	// change with a local attribute change just for that part, at the exact same
 	// offset.
-	localAttributeOverride PartUpdate
+	localAttributeOverrides []PartUpdate
+	// The last offset at which global attribute changes were applied to the part,
+	// and how many of the ones recorded at that offset were applied.
+	globalAttributesAppliedAt float64
+	globalAttributesApplied   int
 	// Used for conditionally playing or not playing an event based on how many
 	// times through a repeated sequence the part has played so far.
 	//
@@ -142,6 +146,11 @@ func (part *Part) Clone() *Part {
 	clone := deepcopy.Copy(part).(*Part)
 
 	// Instead, we manually copy the fields here.
+	clone.localAttributeOverrides = append(
+		[]PartUpdate(nil), part.localAttributeOverrides...,
+	)
+	clone.globalAttributesAppliedAt = part.globalAttributesAppliedAt
+	clone.globalAttributesApplied = part.globalAttributesApplied
 	clone.currentRepetition = part.currentRepetition
 	clone.origin = part.origin
 	clone.voiceTemplate = part.voiceTemplate
@@ -181,6 +190,8 @@ func (score *Score) NewPart(name string) (*Part, error) {
 		ReferencePitch: 440.0,
 		voices:         NewVoices(),
 		score:          score,
+
+		globalAttributesAppliedAt: -1,
 	}
 
 	part.origin = part
-- 
2.43.0


From 273caa5ecbbbd3a75df9466fc88a76dda8dfd998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 12/65] fix: report the current offset of a part after a voice
 group

PartOffsets looked at the part that the voices were created from, so in a
REPL session everything after a voice group was scheduled too late.
---
 client/model/score.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/model/score.go b/client/model/score.go
index 0473d9d..2d01063 100644
--- a/client/model/score.go
+++ b/client/model/score.go
@@ -162,7 +162,9 @@ func (score *Score) PartOffsets() map[*Part]float64 {
 	offsets := map[*Part]float64{}
 
 	for _, part := range score.Parts {
-		offsets[part.origin] = part.origin.CurrentOffset
+		// NB: After a voice group, the part in the score is one of the voices, and
+		// the part it originates from stays behind at the start of the group.
+		offsets[part.origin] = part.CurrentOffset
 	}
 
 	return offsets
-- 
2.43.0


From 022cde9c43318cc7e914d5310644cec82d3cd855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 13/65] fix: keep the ID of a part in JSON output after a voice
 group

The events of a part refer to it by an ID that was no longer among the
parts once the part contained a voice group.
---
 client/model/part.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/model/part.go b/client/model/part.go
index 77f76e4..724bd5a 100644
--- a/client/model/part.go
+++ b/client/model/part.go
@@ -102,7 +102,13 @@ func (part *Part) RecordTempoValue() {
 }
 
 // ID returns a unique identifier to the part.
+//
+// Voices are copies of a part that share the identifier of that part.
 func (part *Part) ID() string {
+	if part.origin != nil {
+		return fmt.Sprintf("%p", part.origin)
+	}
+
 	return fmt.Sprintf("%p", part)
 }
 
-- 
2.43.0


From 2059b4ec5da6227342eccfd595634a729105e13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 14/65] fix: accept positive numbers below 1 in S-expressions

---
 client/model/lisp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/model/lisp.go b/client/model/lisp.go
index 91f93ac..2dde13d 100644
--- a/client/model/lisp.go
+++ b/client/model/lisp.go
@@ -418,7 +418,7 @@ func defattribute(names []string, signatures ...attributeFunctionSignature) {
 func positiveNumber(form LispForm) (float64, error) {
 	number := form.(LispNumber)
 
-	if number.Value < 1 {
+	if number.Value <= 0 {
 		return 0, &AldaSourceError{
 			Context: number.SourceContext,
 			Err:     fmt.Errorf("expected positive number, got %f", number.Value),
-- 
2.43.0


From 683e61dafb56bdc0652adf1c4274fb7deb52768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 15/65] fix: advance after a chord by its shortest note or rest
 only

---
 client/model/chord.go | 41 ++++++++++++++++-------------------------
 client/model/note.go  |  7 ++++++-
 client/model/score.go |  2 ++
 3 files changed, 24 insertions(+), 26 deletions(-)

diff --git a/client/model/chord.go b/client/model/chord.go
index af8363f..53e29ad 100644
--- a/client/model/chord.go
+++ b/client/model/chord.go
@@ -43,39 +43,25 @@ func (chord Chord) UpdateScore(score *Score) error {
 		return err
 	}
 
+	// Notes/rests in a chord can have different durations. Following a chord, the
+	// next note/rest is placed after the shortest note/rest in the chord.
+	//
+	// As each note/rest is added in "chord mode" (which means that notes all start
+	// at the same offset), its duration is taken into account here.
 	shortestDurationMs := map[*Part]float64{}
-	for _, part := range score.CurrentParts {
-		shortestDurationMs[part] = math.MaxFloat64
-	}
 
 	score.chordMode = true
-	for _, event := range chord.Events {
-		// Notes/rests in a chord can have different durations. Following a chord, the
-		// next note/rest is placed after the shortest note/rest in the chord.
-		//
-		// Here, we take note of the event's duration so that we can keep track of
-		// which one is the shortest.
-		var specifiedDuration Duration
-		switch event := event.(type) {
-		case Note:
-			specifiedDuration = event.Duration
-		case Rest:
-			specifiedDuration = event.Duration
-		}
+	score.chordDurationMs = shortestDurationMs
+	defer func() {
+		score.chordMode = false
+		score.chordDurationMs = nil
+	}()
 
-		for _, part := range score.CurrentParts {
-			duration := effectiveDuration(specifiedDuration, part)
-			durationMs := duration.Ms(part.Tempo) * part.TimeScale
-			shortestDurationMs[part] = math.Min(shortestDurationMs[part], durationMs)
-		}
-
-		// Now, we update the score with the event, in "chord mode," which means
-		// that notes all start at the same offset.
+	for _, event := range chord.Events {
 		if err := event.UpdateScore(score); err != nil {
 			return err
 		}
 	}
-	score.chordMode = false
 
 	for _, part := range score.CurrentParts {
 		part.LastOffset = part.CurrentOffset
@@ -102,6 +88,11 @@ func (chord Chord) DurationMs(part *Part) float64 {
 		}
 	}
 
+	// There might not be any notes or rests in the chord.
+	if shortestDurationMs == math.MaxFloat64 {
+		return 0
+	}
+
 	return shortestDurationMs
 }
 
diff --git a/client/model/note.go b/client/model/note.go
index d32f7ea..6f017f0 100644
--- a/client/model/note.go
+++ b/client/model/note.go
@@ -170,7 +170,12 @@ func addNoteOrRest(score *Score, noteOrRest ScoreUpdate) error {
 			}
 		}
 
-		if !score.chordMode {
+		if score.chordMode {
+			shortestMs, recorded := score.chordDurationMs[part]
+			if !recorded || durationMs < shortestMs {
+				score.chordDurationMs[part] = durationMs
+			}
+		} else {
 			part.LastOffset = part.CurrentOffset
 			part.CurrentOffset += durationMs
 		}
diff --git a/client/model/score.go b/client/model/score.go
index 2d01063..bc5e1a9 100644
--- a/client/model/score.go
+++ b/client/model/score.go
@@ -59,6 +59,8 @@ type Score struct {
 	// When true, notes/rests added to the score are placed at the same offset.
 	// Otherwise, they are appended sequentially.
 	chordMode bool
+	// In chord mode, the shortest note/rest duration so far for each part.
+	chordDurationMs map[*Part]float64
 }
 
 // JSON implements RepresentableAsJSON.JSON.
-- 
2.43.0


From 8ba6a317d5e1264d9381a1bac633ddfd427da7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 16/65] fix: report numbers that are malformed or too large
 instead of misreading them

---
 client/model/repeat.go   |   8 ++--
 client/parser/scanner.go | 100 ++++++++++++++++++++++++++++-----------
 2 files changed, 77 insertions(+), 31 deletions(-)

diff --git a/client/model/repeat.go b/client/model/repeat.go
index b89a183..7544804 100644
--- a/client/model/repeat.go
+++ b/client/model/repeat.go
@@ -40,7 +40,9 @@ func (repeat Repeat) UpdateScore(score *Score) error {
 		outerRepetitions[part.origin] = part.currentRepetition
 	}
 
-	for repetition := int32(1); repetition <= repeat.Times; repetition++ {
+	for i := int32(0); i < repeat.Times; i++ {
+		repetition := i + 1
+
 		for _, part := range score.CurrentParts {
 			part.currentRepetition = repetition
 		}
@@ -64,8 +66,8 @@ func (repeat Repeat) DurationMs(part *Part) float64 {
 
 	outerRepetition := part.currentRepetition
 
-	for repetition := int32(1); repetition <= repeat.Times; repetition++ {
-		part.currentRepetition = repetition
+	for i := int32(0); i < repeat.Times; i++ {
+		part.currentRepetition = i + 1
 		durationMs += repeat.Event.DurationMs(part)
 	}
 
diff --git a/client/parser/scanner.go b/client/parser/scanner.go
index b14a689..1988861 100644
--- a/client/parser/scanner.go
+++ b/client/parser/scanner.go
@@ -331,18 +331,35 @@ func (s *scanner) consumeSpaces() {
 
 // This function is meant to be called after consuming a bunch of digits. It
 // reads from the start index up until the current index and parses the result
-// as an integer.
-func (s *scanner) parseIntegerFrom(startIndex int) int32 {
-	integer, _ := strconv.ParseInt(string(s.input[startIndex:s.current]), 10, 32)
-	return int32(integer)
+// as an integer. An integer that is too large to represent is an error.
+func (s *scanner) parseIntegerFrom(startIndex int) (int32, error) {
+	digits := string(s.input[startIndex:s.current])
+
+	integer, err := strconv.ParseInt(digits, 10, 32)
+	if err != nil {
+		return 0, s.errorAtPosition(
+			s.startLine, s.startColumn, "Invalid number: "+digits,
+		)
+	}
+
+	return int32(integer), nil
 }
 
 // This function is meant to be called after consuming a bunch of digits, then
 // optionally a period and a bunch more digits. It reads from the start index up
-// until the current index and parses the result as a float.
-func (s *scanner) parseFloatFrom(startIndex int) float64 {
-	number, _ := strconv.ParseFloat(string(s.input[s.start:s.current]), 64)
-	return number
+// until the current index and parses the result as a float. A number that is
+// malformed or too large to represent is an error.
+func (s *scanner) parseFloatFrom(startIndex int) (float64, error) {
+	digits := string(s.input[startIndex:s.current])
+
+	number, err := strconv.ParseFloat(digits, 64)
+	if err != nil {
+		return 0, s.errorAtPosition(
+			s.startLine, s.startColumn, "Invalid number: "+digits,
+		)
+	}
+
+	return number, nil
 }
 
 type noteLength struct {
@@ -359,7 +376,7 @@ func terminatesNoteLength(c rune) bool {
 	return false
 }
 
-func (s *scanner) parseNoteLength() {
+func (s *scanner) parseNoteLength() error {
 	// NB: This assumes that the first digit has already been consumed.
 
 	// Consume the rest of the digits.
@@ -373,7 +390,10 @@ func (s *scanner) parseNoteLength() {
 		s.consumeDigits()
 	}
 
-	number := s.parseFloatFrom(s.start)
+	number, err := s.parseFloatFrom(s.start)
+	if err != nil {
+		return err
+	}
 
 	c := s.peek()
 	n := s.peekNext()
@@ -381,7 +401,7 @@ func (s *scanner) parseNoteLength() {
 		// consume 's'
 		s.advance()
 		s.addToken(NoteLengthSeconds, number)
-		return
+		return nil
 	}
 
 	if c == 'm' && n == 's' {
@@ -389,7 +409,7 @@ func (s *scanner) parseNoteLength() {
 		s.advance()
 		s.advance()
 		s.addToken(NoteLengthMs, number)
-		return
+		return nil
 	}
 
 	dots := 0
@@ -400,11 +420,13 @@ func (s *scanner) parseNoteLength() {
 	}
 
 	s.addToken(NoteLength, noteLength{denominator: number, dots: int32(dots)})
+
+	return nil
 }
 
 // This assumes that the initial digit (or minus sign, if it's a negative
 // number) was already consumed.
-func (s *scanner) parseNumber() {
+func (s *scanner) parseNumber() error {
 	// Parse numbers before the period.
 	s.consumeDigits()
 
@@ -416,7 +438,14 @@ func (s *scanner) parseNumber() {
 	// Parse numbers after the period.
 	s.consumeDigits()
 
-	s.addToken(Number, s.parseFloatFrom(s.start))
+	number, err := s.parseFloatFrom(s.start)
+	if err != nil {
+		return err
+	}
+
+	s.addToken(Number, number)
+
+	return nil
 }
 
 func (s *scanner) parseRepetitions() error {
@@ -433,7 +462,10 @@ func (s *scanner) parseRepetitions() error {
 		// Parse the "first" number of the range.
 		startNumber := s.current
 		s.consumeDigits()
-		first := s.parseIntegerFrom(startNumber)
+		first, err := s.parseIntegerFrom(startNumber)
+		if err != nil {
+			return err
+		}
 		er := model.RepetitionRange{First: first}
 
 		// Either parse the "last" number of the range, or make the first number
@@ -446,7 +478,10 @@ func (s *scanner) parseRepetitions() error {
 
 			startNumber := s.current
 			s.consumeDigits()
-			er.Last = s.parseIntegerFrom(startNumber)
+			er.Last, err = s.parseIntegerFrom(startNumber)
+			if err != nil {
+				return err
+			}
 		} else {
 			er.Last = first
 		}
@@ -485,9 +520,12 @@ func (s *scanner) parseRepeat() error {
 		return s.unexpectedCharError(c, "in repeat", s.line, s.column)
 	}
 
-	digits := s.input[startDigits:s.current]
-	times, _ := strconv.ParseInt(string(digits), 10, 32)
-	s.addToken(Repeat, int32(times))
+	times, err := s.parseIntegerFrom(startDigits)
+	if err != nil {
+		return err
+	}
+
+	s.addToken(Repeat, times)
 
 	return nil
 }
@@ -502,9 +540,12 @@ func (s *scanner) parseOctaveSet() error {
 	}
 
 	// Trim the initial 'o'
-	digits := s.input[s.start+1 : s.current]
-	octaveNumber, _ := strconv.ParseInt(string(digits), 10, 32)
-	s.addToken(OctaveSet, int32(octaveNumber))
+	octaveNumber, err := s.parseIntegerFrom(s.start + 1)
+	if err != nil {
+		return err
+	}
+
+	s.addToken(OctaveSet, octaveNumber)
 
 	return nil
 }
@@ -518,13 +559,16 @@ func (s *scanner) parseVoiceMarker() error {
 		return s.unexpectedCharError(c, "in voice marker", s.line, s.column)
 	}
 
+	// Trim the initial 'V'.
+	voiceNumber, err := s.parseIntegerFrom(s.start + 1)
+	if err != nil {
+		return err
+	}
+
 	// Consume the final ':'
 	s.advance()
 
-	// Trim the surrounding 'V' and ':'.
-	digits := s.input[s.start+1 : s.current-1]
-	voiceNumber, _ := strconv.ParseInt(string(digits), 10, 32)
-	s.addToken(VoiceMarker, int32(voiceNumber))
+	s.addToken(VoiceMarker, voiceNumber)
 
 	return nil
 }
@@ -687,7 +731,7 @@ func (s *scanner) scanToken() error {
 		default:
 			switch {
 			case c == '-' || isDigit(c):
-				s.parseNumber()
+				err = s.parseNumber()
 			case isValidSymbolChar(c):
 				s.parseSymbol()
 			default:
@@ -741,7 +785,7 @@ func (s *scanner) scanToken() error {
 	default:
 		switch {
 		case isDigit(c):
-			s.parseNoteLength()
+			err = s.parseNoteLength()
 		case isLetter(c):
 			n := s.peek()
 			switch {
-- 
2.43.0


From 79746301423e70dc9a709ee1584a039459eccfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 17/65] fix: refuse tempos and note lengths that overflow to
 infinity or zero

---
 client/model/attributes.go | 11 ++++++++++-
 client/model/note.go       | 11 +++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/client/model/attributes.go b/client/model/attributes.go
index 891d9da..e290e87 100644
--- a/client/model/attributes.go
+++ b/client/model/attributes.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
 
@@ -312,7 +313,15 @@ func (mm MetricModulation) JSON() *json.Container {
 }
 
 func (mm MetricModulation) updatePart(part *Part, globalUpdate bool) error {
-	part.Tempo *= mm.Ratio
+	tempo := part.Tempo * mm.Ratio
+
+	if tempo <= 0 || math.IsInf(tempo, 0) || math.IsNaN(tempo) {
+		return help.UserFacingErrorf(
+			`The metric modulation would result in an invalid tempo: %f`, tempo,
+		)
+	}
+
+	part.Tempo = tempo
 
 	// Global updates are recorded separately, and we would end up getting
 	// incorrect results anyway if we recorded the tempo at the part's current
diff --git a/client/model/note.go b/client/model/note.go
index 6f017f0..ebe754f 100644
--- a/client/model/note.go
+++ b/client/model/note.go
@@ -1,6 +1,8 @@
 package model
 
 import (
+	"math"
+
 	"alda.io/client/help"
 	"alda.io/client/json"
 	log "alda.io/client/logging"
@@ -116,6 +118,11 @@ func addNoteOrRest(score *Score, noteOrRest ScoreUpdate) error {
 		duration := effectiveDuration(specifiedDuration, part)
 		durationMs := duration.Ms(part.Tempo) * part.TimeScale
 
+		endOffset := part.CurrentOffset + durationMs
+		if math.IsInf(endOffset, 0) || math.IsNaN(endOffset) {
+			return help.UserFacingErrorf(`The note length is out of range.`)
+		}
+
 		switch noteOrRest := noteOrRest.(type) {
 		case Note:
 			audibleDurationMs := durationMs
@@ -123,6 +130,10 @@ func addNoteOrRest(score *Score, noteOrRest ScoreUpdate) error {
 				audibleDurationMs *= part.Quantization
 			}
 
+			if math.IsInf(part.CurrentOffset+audibleDurationMs, 0) {
+				return help.UserFacingErrorf(`The note length is out of range.`)
+			}
+
 			if audibleDurationMs > 0 {
 				midiNote := noteOrRest.Pitch.CalculateMidiNote(
 					part.Octave, part.KeySignature, part.Transposition,
-- 
2.43.0


From e5873ecc08a32dbc791c0fe4f9fcc44d7342d22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 18/65] fix: apply successive global metric modulations to the
 resulting tempo

---
 client/model/score.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/model/score.go b/client/model/score.go
index bc5e1a9..30eafd9 100644
--- a/client/model/score.go
+++ b/client/model/score.go
@@ -258,7 +258,8 @@ func (score *Score) TempoItinerary() map[float64]float64 {
 				lastGlobalTempo = update.Tempo
 				itinerary[offset] = update.Tempo
 			case MetricModulation:
-				itinerary[offset] = lastGlobalTempo * update.Ratio
+				lastGlobalTempo *= update.Ratio
+				itinerary[offset] = lastGlobalTempo
 			}
 		}
 	}
-- 
2.43.0


From 3ba188d58aa2209c8a3a4b1f5ec4fcee662f108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 19/65] fix: keep a huge time marking from wrapping around to
 another offset

---
 client/model/score.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/client/model/score.go b/client/model/score.go
index 30eafd9..ab158c3 100644
--- a/client/model/score.go
+++ b/client/model/score.go
@@ -188,9 +188,11 @@ func (score *Score) InterpretOffsetReference(
 	captured := re.FindStringSubmatch(reference)
 	if len(captured) == 3 {
 		// captured[0] is the full string, e.g. "0:10"
-		minutes, _ := strconv.Atoi(captured[1])
-		seconds, _ := strconv.Atoi(captured[2])
-		return (float64)(minutes*60*1000) + (float64)(seconds*1000), nil
+		// We parse the numbers as floats so that a very large time marking doesn't
+		// wrap around to some other offset.
+		minutes, _ := strconv.ParseFloat(captured[1], 64)
+		seconds, _ := strconv.ParseFloat(captured[2], 64)
+		return minutes*60*1000 + seconds*1000, nil
 	}
 
 	offset, hit := score.Markers[reference]
-- 
2.43.0


From f57d7a7ed4b0ebb98f603ea23aaed5413c236e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 20/65] fix: format a slur right after the note length, before
 any barlines

---
 client/parser/format.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/client/parser/format.go b/client/parser/format.go
index 6ea8ad5..3e94cc6 100644
--- a/client/parser/format.go
+++ b/client/parser/format.go
@@ -129,6 +129,19 @@ func (f *formatter) formatWithDuration(
 	text.WriteString(pre)
 	shouldTie := false
 
+	// Any post text directly follows the final note length (or the pre text, if
+	// there is none), even if there are barlines after that.
+	lastNoteLength := -1
+	for i, child := range duration.Children {
+		if child.Type != BarlineNode {
+			lastNoteLength = i
+		}
+	}
+
+	if lastNoteLength == -1 {
+		text.WriteString(post)
+	}
+
 	for i, child := range duration.Children {
 		switch child.Type {
 
@@ -138,12 +151,6 @@ func (f *formatter) formatWithDuration(
 			)
 
 		case BarlineNode:
-			if i == len(duration.Children)-1 {
-				// The final duration is a barline
-				// We write out any post text before the barline for clarity
-				text.WriteString(post)
-			}
-
 			// Barlines in a duration split formatting into separate texts
 			if text.Len() > 0 {
 				f.write(text.String())
@@ -209,10 +216,13 @@ func (f *formatter) formatWithDuration(
 			shouldTie = true
 
 		}
+
+		if i == lastNoteLength {
+			text.WriteString(post)
+		}
 	}
 
 	if text.Len() > 0 {
-		text.WriteString(post)
 		f.write(text.String())
 	}
 
-- 
2.43.0


From 04db0e133eb7681a3870365472a903b111ced652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 21/65] fix: keep a slur after the barlines of its note when
 formatting

---
 client/parser/format.go | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/client/parser/format.go b/client/parser/format.go
index 3e94cc6..af81247 100644
--- a/client/parser/format.go
+++ b/client/parser/format.go
@@ -129,20 +129,7 @@ func (f *formatter) formatWithDuration(
 	text.WriteString(pre)
 	shouldTie := false
 
-	// Any post text directly follows the final note length (or the pre text, if
-	// there is none), even if there are barlines after that.
-	lastNoteLength := -1
-	for i, child := range duration.Children {
-		if child.Type != BarlineNode {
-			lastNoteLength = i
-		}
-	}
-
-	if lastNoteLength == -1 {
-		text.WriteString(post)
-	}
-
-	for i, child := range duration.Children {
+	for _, child := range duration.Children {
 		switch child.Type {
 
 		default:
@@ -216,12 +203,12 @@ func (f *formatter) formatWithDuration(
 			shouldTie = true
 
 		}
-
-		if i == lastNoteLength {
-			text.WriteString(post)
-		}
 	}
 
+	// Any post text follows the whole duration, including a final barline, so
+	// that what we write parses to the same duration (and can be repeated).
+	text.WriteString(post)
+
 	if text.Len() > 0 {
 		f.write(text.String())
 	}
-- 
2.43.0


From 960c2c5a02e7ad0c3bede162cc8e45d572c2c42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 22/65] fix: reject an empty alias

---
 client/parser/scanner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/parser/scanner.go b/client/parser/scanner.go
index 1988861..ca76eaf 100644
--- a/client/parser/scanner.go
+++ b/client/parser/scanner.go
@@ -614,7 +614,8 @@ func (s *scanner) parseAlias() error {
 		return s.errorAtPosition(s.line, s.column, "Unterminated alias")
 	}
 
-	if c := s.peek(); c != '"' {
+	// NB: An alias can't be empty.
+	if c := s.peek(); c != '"' || s.current == s.start+1 {
 		return s.unexpectedCharError(c, "in alias", s.line, s.column)
 	}
 
-- 
2.43.0


From e42b5eee379f24b51363d10c483dcfa0ab9db46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 23/65] fix: include the name of a variable in the JSON of its
 definition

---
 client/model/variable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/model/variable.go b/client/model/variable.go
index 42e99ab..a1cc324 100644
--- a/client/model/variable.go
+++ b/client/model/variable.go
@@ -51,7 +51,7 @@ func (vd VariableDefinition) JSON() *json.Container {
 
 	return json.Object(
 		"type", "variable-definition",
-		"value", json.Object("events", events),
+		"value", json.Object("name", vd.VariableName, "events", events),
 	)
 }
 
-- 
2.43.0


From 3755c150ad3217322ffd0dbeaa466d8f8737d4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 24/65] fix: accept a duration in seconds directly before a
 barline, repeat, ending or tab

---
 client/parser/scanner.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/client/parser/scanner.go b/client/parser/scanner.go
index ca76eaf..75b58f3 100644
--- a/client/parser/scanner.go
+++ b/client/parser/scanner.go
@@ -367,13 +367,10 @@ type noteLength struct {
 	dots        int32
 }
 
+// A note length can be followed directly by any event, e.g. a barline, a repeat
+// or a comment. Only another letter makes an "s" part of a name instead.
 func terminatesNoteLength(c rune) bool {
-	switch c {
-	case ' ', '\r', '\n', '/', '~', ']', '}':
-		return true
-	}
-
-	return false
+	return !isLetter(c)
 }
 
 func (s *scanner) parseNoteLength() error {
-- 
2.43.0


From 115e2638d824a6282b539708d18892fb15a26f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 25/65] fix: accept a tab, comment or barline directly after a
 note, octave or repeat

---
 client/parser/scanner.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/client/parser/scanner.go b/client/parser/scanner.go
index 75b58f3..7af1e16 100644
--- a/client/parser/scanner.go
+++ b/client/parser/scanner.go
@@ -496,6 +496,17 @@ func (s *scanner) parseRepetitions() error {
 	return nil
 }
 
+// What can follow the number of a repeat or an octave directly: whitespace, a
+// comment, a barline, a separator or the end of the surrounding events.
+func followsNumber(c rune) bool {
+	switch c {
+	case '#', ' ', '\t', '\r', '\n', '/', '|', '}', ']':
+		return true
+	}
+
+	return false
+}
+
 func (s *scanner) parseRepeat() error {
 	// NB: This assumes the initial '*' was already consumed.
 
@@ -508,12 +519,7 @@ func (s *scanner) parseRepeat() error {
 	startDigits := s.current
 	s.consumeDigits()
 
-	if c := s.peek(); c != ' ' &&
-		c != '\r' &&
-		c != '\n' &&
-		c != ']' &&
-		c != '}' &&
-		!s.reachedEOF() {
+	if c := s.peek(); !followsNumber(c) && !s.reachedEOF() {
 		return s.unexpectedCharError(c, "in repeat", s.line, s.column)
 	}
 
@@ -532,7 +538,7 @@ func (s *scanner) parseOctaveSet() error {
 
 	s.consumeDigits()
 
-	if c := s.peek(); c != ' ' && c != '\r' && c != '\n' && !s.reachedEOF() {
+	if c := s.peek(); !followsNumber(c) && !s.reachedEOF() {
 		return s.unexpectedCharError(c, "in octave set", s.line, s.column)
 	}
 
@@ -672,8 +678,8 @@ func followsNoteLetter(c rune) bool {
 	}
 
 	switch c {
-	case '#', ' ', '\r', '\n', '+', '-', '_', '/', '~', '*', '\'', '}', ']', '<',
-		'>':
+	case '#', ' ', '\t', '\r', '\n', '+', '-', '_', '/', '~', '*', '\'', '}', ']',
+		'<', '>', '|':
 		return true
 	}
 
@@ -686,7 +692,7 @@ func followsRestLetter(c rune) bool {
 	}
 
 	switch c {
-	case '#', ' ', '\r', '\n', '/', '~', '*', '\'', '}', ']', '<', '>':
+	case '#', ' ', '\t', '\r', '\n', '/', '~', '*', '\'', '}', ']', '<', '>', '|':
 		return true
 	}
 
-- 
2.43.0


From ce8be2f576dfff5cff213c4de3da24f13fbef8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:18 +0000
Subject: [PATCH 26/65] fix: reject a key signature with a note name that is
 not a single letter

---
 client/model/lisp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/model/lisp.go b/client/model/lisp.go
index 2dde13d..11062c8 100644
--- a/client/model/lisp.go
+++ b/client/model/lisp.go
@@ -738,6 +738,10 @@ func keySignatureFromAccidentals(forms []LispForm) (KeySignature, error) {
 		switch form := forms[i]; form.(type) {
 		case LispSymbol:
 			chars := []rune(form.(LispSymbol).Name)
+			if len(chars) > 1 {
+				return KeySignature{}, validityError
+			}
+
 			ltr, err := NewNoteLetter(chars[0])
 			if err != nil {
 				return KeySignature{}, err
-- 
2.43.0


From a2dbb4f2e0b814d50783df2f83a95a93a14d6a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 27/65] fix: list all global attribute changes in JSON when
 offsets differ by rounding only

---
 client/model/attributes.go | 21 +++++++++++++++------
 client/model/part.go       | 13 +++++++++++--
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/client/model/attributes.go b/client/model/attributes.go
index e290e87..bd6554c 100644
--- a/client/model/attributes.go
+++ b/client/model/attributes.go
@@ -86,14 +86,23 @@ type GlobalAttributes struct {
 
 // JSON implements RepresentableAsJSON.JSON.
 func (ga *GlobalAttributes) JSON() *json.Container {
-	object := json.Object()
-	for offset, updates := range ga.itinerary {
-		updatesArray := json.Array()
-		for _, update := range updates {
-			updatesArray.ArrayAppend(update.JSON())
+	// NB: Offsets that differ only slightly (by rounding) have the same key.
+	updates := map[string]*json.Container{}
+	for _, offset := range ga.offsets {
+		key := fmt.Sprintf("%f", offset)
+
+		if _, hit := updates[key]; !hit {
+			updates[key] = json.Array()
 		}
 
-		object.Set(updatesArray, fmt.Sprintf("%f", offset))
+		for _, update := range ga.itinerary[offset] {
+			updates[key].ArrayAppend(update.JSON())
+		}
+	}
+
+	object := json.Object()
+	for key, updatesArray := range updates {
+		object.Set(updatesArray, key)
 	}
 
 	return object
diff --git a/client/model/part.go b/client/model/part.go
index 724bd5a..6baae46 100644
--- a/client/model/part.go
+++ b/client/model/part.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"alda.io/client/json"
@@ -114,9 +115,17 @@ func (part *Part) ID() string {
 
 // JSON implements RepresentableAsJSON.JSON.
 func (part *Part) JSON() *json.Container {
+	offsets := []float64{}
+	for offset := range part.TempoValues {
+		offsets = append(offsets, offset)
+	}
+	sort.Float64s(offsets)
+
+	// NB: Offsets that differ only slightly (by rounding) have the same key. In
+	// that case, the last tempo prevails.
 	tempoValues := json.Object()
-	for offset, tempo := range part.TempoValues {
-		tempoValues.Set(tempo, fmt.Sprintf("%f", offset))
+	for _, offset := range offsets {
+		tempoValues.Set(part.TempoValues[offset], fmt.Sprintf("%f", offset))
 	}
 
 	return json.Object(
-- 
2.43.0


From 8d4508ffb592b2a703a59cc50cea1a700f5e9806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 28/65] fix: REPL server: do not lose requests that arrive
 together, nor crash on malformed ones

Each message was decoded through a new buffered reader, so whatever the
previous reader had buffered beyond its own message was dropped. Also, a
string length or nesting depth claimed by a client could bring down the
server.
---
 client/repl/message.go | 118 +++++++++++++++++++++++++++++++++++++++++
 client/repl/server.go  |   8 ++-
 2 files changed, 125 insertions(+), 1 deletion(-)
 create mode 100644 client/repl/message.go

diff --git a/client/repl/message.go b/client/repl/message.go
new file mode 100644
index 0000000..04d5ff2
--- /dev/null
+++ b/client/repl/message.go
@@ -0,0 +1,118 @@
+package repl
+
+import (
+	"bufio"
+	"bytes"
+	"fmt"
+	"io"
+	"strconv"
+
+	bencode "github.com/jackpal/bencode-go"
+)
+
+// The largest message, in bytes, that the server is willing to read.
+const maxMessageSize = 64 * 1024 * 1024
+
+// The deepest nesting of lists and dictionaries in a message that the server is
+// willing to read.
+const maxMessageDepth = 1000
+
+// readMessage reads the next bencoded value from a client.
+//
+// The bencode library allocates however many bytes the message says that a
+// string has and recurses as deeply as the message is nested, so we don't hand
+// over a message until we've received all of it and seen that it is of a
+// reasonable size.
+//
+// Returns io.EOF if there are no more messages, or another error if what was
+// received isn't a complete bencoded value.
+func readMessage(reader *bufio.Reader) (interface{}, error) {
+	message := &bytes.Buffer{}
+
+	if err := copyBencodedValue(message, reader); err != nil {
+		if err == io.EOF && message.Len() > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+		return nil, err
+	}
+
+	return bencode.Decode(message)
+}
+
+func copyBencodedValue(message *bytes.Buffer, reader *bufio.Reader) error {
+	copyByte := func() (byte, error) {
+		b, err := reader.ReadByte()
+		if err != nil {
+			return 0, err
+		}
+
+		message.WriteByte(b)
+
+		if message.Len() > maxMessageSize {
+			return 0, fmt.Errorf("message exceeds %d bytes", maxMessageSize)
+		}
+
+		return b, nil
+	}
+
+	depth := 0
+
+	for {
+		b, err := copyByte()
+		if err != nil {
+			return err
+		}
+
+		switch {
+		case b == 'l' || b == 'd':
+			depth++
+			if depth > maxMessageDepth {
+				return fmt.Errorf(
+					"message is nested more than %d levels deep", maxMessageDepth,
+				)
+			}
+
+		case b == 'e':
+			depth--
+			if depth < 0 {
+				return fmt.Errorf("unexpected end of list or dictionary")
+			}
+
+		case b == 'i':
+			for b != 'e' {
+				if b, err = copyByte(); err != nil {
+					return err
+				}
+			}
+
+		case b >= '0' && b <= '9':
+			digits := []byte{}
+			for b != ':' {
+				digits = append(digits, b)
+				if b, err = copyByte(); err != nil {
+					return err
+				}
+			}
+
+			length, err := strconv.ParseInt(string(digits), 10, 64)
+			if err != nil {
+				return err
+			}
+
+			if length < 0 || length > maxMessageSize-int64(message.Len()) {
+				return fmt.Errorf("message exceeds %d bytes", maxMessageSize)
+			}
+
+			if _, err := io.CopyN(message, reader, length); err != nil {
+				return err
+			}
+
+		default:
+			return fmt.Errorf("unexpected character: %q", b)
+		}
+
+		if depth == 0 {
+			return nil
+		}
+	}
+}
diff --git a/client/repl/server.go b/client/repl/server.go
index b783404..6d84ce4 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -1,6 +1,7 @@
 package repl
 
 import (
+	"bufio"
 	encjson "encoding/json"
 	"fmt"
 	"io"
@@ -291,8 +292,13 @@ func (server *Server) listen(l net.Listener) {
 		go func() {
 			defer conn.Close()
 
+			// All of the messages from this client are read through the same
+			// buffered reader, because reading one message can mean buffering (the
+			// beginning of) the next one.
+			reader := bufio.NewReader(conn)
+
 			for {
-				decoded, err := bencode.Decode(conn)
+				decoded, err := readMessage(reader)
 
 				// I think this means the client disconnected? So assuming I'm right
 				// about that, we should stop reading and close the connection.
-- 
2.43.0


From 32f8f6c224c1d8a4ce362219b2acdcf5309e1be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 29/65] fix: REPL server: one response per request, whatever
 the client does with it

Responses are no longer built in a map that is shared between requests,
written half, or waited for forever.
---
 client/repl/message.go | 15 ++++++++++++++-
 client/repl/server.go  | 26 ++++++++++++++++++++++----
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/client/repl/message.go b/client/repl/message.go
index 04d5ff2..84d102c 100644
--- a/client/repl/message.go
+++ b/client/repl/message.go
@@ -79,10 +79,23 @@ func copyBencodedValue(message *bytes.Buffer, reader *bufio.Reader) error {
 			}
 
 		case b == 'i':
-			for b != 'e' {
+			digits := []byte{}
+			for {
 				if b, err = copyByte(); err != nil {
 					return err
 				}
+				if b == 'e' {
+					break
+				}
+				digits = append(digits, b)
+			}
+
+			// The bencode library turns a number that isn't a (64-bit) integer into
+			// a float, which it couldn't include in a response.
+			if _, err := strconv.ParseInt(string(digits), 10, 64); err != nil {
+				if _, err := strconv.ParseUint(string(digits), 10, 64); err != nil {
+					return err
+				}
 			}
 
 		case b >= '0' && b <= '9':
diff --git a/client/repl/server.go b/client/repl/server.go
index 6d84ce4..98cf7f8 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -2,6 +2,7 @@ package repl
 
 import (
 	"bufio"
+	"bytes"
 	encjson "encoding/json"
 	"fmt"
 	"io"
@@ -29,6 +30,9 @@ import (
 
 const midiExportTimeout = 20 * time.Second
 
+// How long to wait for a client to receive a response.
+const responseTimeout = 5 * time.Second
+
 type nREPLRequest struct {
 	conn net.Conn
 	msg  map[string]interface{}
@@ -65,9 +69,13 @@ func (server *Server) stateFile() string {
 func (server *Server) respond(
 	req nREPLRequest, status []string, data map[string]interface{},
 ) {
-	if data == nil {
-		data = make(map[string]interface{})
+	// The data might be shared with other responses, so we make a copy before
+	// adding to it.
+	response := make(map[string]interface{})
+	for key, value := range data {
+		response[key] = value
 	}
+	data = response
 
 	data["status"] = status
 
@@ -81,8 +89,18 @@ func (server *Server) respond(
 
 	log.Info().Interface("data", data).Msg("Sending response.")
 
-	if err := bencode.Marshal(req.conn, data); err != nil {
-		log.Warn().Interface("data", data).Msg("Failed to send response.")
+	encoded := &bytes.Buffer{}
+	if err := bencode.Marshal(encoded, data); err != nil {
+		log.Warn().Err(err).Interface("data", data).Msg("Failed to send response.")
+		return
+	}
+
+	// Requests from all clients are handled one at a time, so we can't wait
+	// indefinitely for a client that isn't reading its responses.
+	req.conn.SetWriteDeadline(time.Now().Add(responseTimeout))
+	if _, err := encoded.WriteTo(req.conn); err != nil {
+		log.Warn().Err(err).Interface("data", data).Msg("Failed to send response.")
+		req.conn.Close()
 	}
 }
 
-- 
2.43.0


From fa90f887610a60670b79d2f5f01a49e988b92726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 30/65] fix: REPL server: a failed request leaves the score
 alone, and players are replaced without races

Evaluating input that turns out to be invalid, or that could not be sent to
the player, left part of it in the score. Load, replay and export threw the
score away before knowing whether they could succeed. The player management
loop and the handling of requests changed the player concurrently, so that a
player that had been shut down could come back.
---
 client/repl/player_management.go    | 115 +++++++++----
 client/repl/server.go               | 243 ++++++++++++++++++----------
 client/system/process_management.go |  12 +-
 3 files changed, 250 insertions(+), 120 deletions(-)

diff --git a/client/repl/player_management.go b/client/repl/player_management.go
index 06d24a1..3859c31 100644
--- a/client/repl/player_management.go
+++ b/client/repl/player_management.go
@@ -16,12 +16,14 @@ const playerPoolFillInterval = 10 * time.Second
 const pingTimeout = 5 * time.Second
 const pingInterval = 1 * time.Second
 
-func findAvailablePlayer() (system.PlayerState, error) {
+func (server *Server) findAvailablePlayer() (system.PlayerState, error) {
 	var player system.PlayerState
 
 	if err := util.Await(
 		func() error {
-			availablePlayer, err := system.FindAvailablePlayer()
+			availablePlayer, err := system.FindAvailablePlayerExcept(
+				server.isRetired,
+			)
 			if err != nil {
 				return err
 			}
@@ -38,12 +40,14 @@ func findAvailablePlayer() (system.PlayerState, error) {
 }
 
 func (server *Server) transmitter() (transmitter.OSCTransmitter, error) {
-	if !server.hasPlayer() {
+	player := server.currentPlayer()
+
+	if !isPlayer(player) {
 		return transmitter.OSCTransmitter{},
 			fmt.Errorf("no player process is available")
 	}
 
-	return transmitter.OSCTransmitter{Port: server.player.Port}, nil
+	return transmitter.OSCTransmitter{Port: player.Port}, nil
 }
 
 // Player management happens asynchronously (see the loop in `managePlayers`),
@@ -83,8 +87,54 @@ func (server *Server) withTransmitter(
 //
 // For practical purposes, if Port is 0, then we can be reasonably certain that
 // the server doesn't have a player to talk to.
+func isPlayer(player system.PlayerState) bool {
+	return player.Port != 0
+}
+
 func (server *Server) hasPlayer() bool {
-	return server.player.Port != 0
+	return isPlayer(server.currentPlayer())
+}
+
+func (server *Server) currentPlayer() system.PlayerState {
+	server.playerMutex.Lock()
+	defer server.playerMutex.Unlock()
+
+	return server.player
+}
+
+// replacePlayer sets `server.player` to `newPlayer`, provided that the server is
+// still using `oldPlayer`, i.e. provided that it hasn't been replaced or unset
+// in the meantime.
+func (server *Server) replacePlayer(
+	oldPlayer system.PlayerState, newPlayer system.PlayerState,
+) {
+	server.playerMutex.Lock()
+	defer server.playerMutex.Unlock()
+
+	if server.player.ID == oldPlayer.ID {
+		server.player = newPlayer
+	}
+}
+
+// A player that we've told to shut down can still look available for a little
+// while, so we keep track of which ones those are in order to avoid choosing one
+// of them as the replacement.
+func (server *Server) retirePlayer(player system.PlayerState) {
+	server.playerMutex.Lock()
+	defer server.playerMutex.Unlock()
+
+	if server.retiredPlayers == nil {
+		server.retiredPlayers = map[string]bool{}
+	}
+
+	server.retiredPlayers[player.ID] = true
+}
+
+func (server *Server) isRetired(player system.PlayerState) bool {
+	server.playerMutex.Lock()
+	defer server.playerMutex.Unlock()
+
+	return server.retiredPlayers[player.ID]
 }
 
 // The `managePlayers` loop regularly checks to see if the player process that
@@ -96,8 +146,10 @@ func (server *Server) hasPlayer() bool {
 // the zero value (`system.PlayerState{}`). At that point, `server.hasPlayer()`
 // will return false, and the player process will be replaced and
 // `server.player` will be set to the current state of the new player process.
-func (server *Server) unsetPlayer() {
-	server.player = system.PlayerState{}
+//
+// We only do that if `server.player` is still the player in question.
+func (server *Server) unsetPlayer(player system.PlayerState) {
+	server.replacePlayer(player, system.PlayerState{})
 }
 
 // The server has two responsibilities when it comes to managing player
@@ -133,8 +185,8 @@ func (server *Server) managePlayers() {
 
 		// If the server already has a player process that it's using, fetch updated
 		// state information about that player process.
-		if server.hasPlayer() {
-			updatedState, err := system.FindPlayerByID(server.player.ID)
+		if player := server.currentPlayer(); isPlayer(player) {
+			updatedState, err := system.FindPlayerByID(player.ID)
 
 			// FIXME: We are brittly depending on the verbiage in the error messages
 			// returned by `system.FindPlayerByID`.
@@ -142,34 +194,33 @@ func (server *Server) managePlayers() {
 			// TODO: Maybe UserFacingErrors could have an optional error code that we
 			// can depend on here?
 			if err == nil {
-				server.player = updatedState
+				server.replacePlayer(player, updatedState)
 			} else if strings.HasPrefix(err.Error(), "No player was found") {
 				// If the state information tells us that the player process no longer
 				// exists, then we forget about that player process and a new one will be
 				// found to replace it shortly.
 				log.Warn().
-					Interface("player", server.player).
+					Interface("player", player).
 					Msg("Player process is offline.")
-				server.unsetPlayer()
+				server.unsetPlayer(player)
 			} else {
 				log.Warn().Err(err).Msg("Failed to update player state information.")
 			}
 		}
 
 		if !server.hasPlayer() {
-			player, err := findAvailablePlayer()
+			player, err := server.findAvailablePlayer()
 			if err != nil {
 				log.Warn().Err(err).Msg("No player processes available.")
 			} else {
 				log.Info().Interface("player", player).Msg("Found player process.")
-				server.player = player
+				server.replacePlayer(system.PlayerState{}, player)
 			}
 		}
 
-		if server.hasPlayer() && now.Sub(lastPing) > pingInterval {
-			// We can safely ignore `err` here because it should always be nil, given
-			// that we just checked that `server.hasPlayer()` is true.
-			transmitter, _ := server.transmitter()
+		if player := server.currentPlayer(); isPlayer(player) &&
+			now.Sub(lastPing) > pingInterval {
+			transmitter := transmitter.OSCTransmitter{Port: player.Port}
 
 			if err := util.Await(
 				func() error { return transmitter.TransmitPingMessage() },
@@ -177,13 +228,13 @@ func (server *Server) managePlayers() {
 			); err != nil {
 				log.Warn().
 					Err(err).
-					Interface("player", server.player).
+					Interface("player", player).
 					Msg("Player process unreachable.")
 
-				server.unsetPlayer()
+				server.unsetPlayer(player)
 			} else {
 				log.Debug().
-					Interface("player", server.player).
+					Interface("player", player).
 					Msg("Sent ping to player process.")
 			}
 
@@ -195,11 +246,14 @@ func (server *Server) managePlayers() {
 }
 
 func (server *Server) shutdownPlayer() error {
-	if err := server.withTransmitter(
-		func(transmitter transmitter.OSCTransmitter) error {
-			return transmitter.TransmitShutdownMessage(0)
-		},
-	); err != nil {
+	player := server.currentPlayer()
+
+	if !isPlayer(player) {
+		return nil
+	}
+
+	transmitter := transmitter.OSCTransmitter{Port: player.Port}
+	if err := transmitter.TransmitShutdownMessage(0); err != nil {
 		return err
 	}
 
@@ -207,13 +261,8 @@ func (server *Server) shutdownPlayer() error {
 	// the same player process while it's in the process of shutting down. (This
 	// might also speed up the process of the `managePlayers` loop discovering
 	// that there is no player available, prompting it to find a replacement.)
-	//
-	// (Technically, there is still a potential race condition here where the
-	// `managePlayers` loop un-sets the player before we get to this line, so
-	// we double-unset it. But the risk is low because even if that happens, the
-	// worst case scenario is that we would end up replacing the player twice, and
-	// even if that happens, we would still end up with a player to use below.)
-	server.unsetPlayer()
+	server.retirePlayer(player)
+	server.unsetPlayer(player)
 
 	return nil
 }
diff --git a/client/repl/server.go b/client/repl/server.go
index 98cf7f8..ad8c945 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -13,6 +13,7 @@ import (
 	"path/filepath"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/google/uuid"
@@ -50,11 +51,19 @@ type Server struct {
 	// The stateful score object that should correspond to the input received so
 	// far.
 	score *model.Score
+	// The strings of input that were evaluated, one by one, to arrive at `score`.
+	evaluatedInputs []string
 	// The current index into `score.Events`, representing where to start playing
 	// any new events that are added to the score when input is added.
 	eventIndex int
 	// The server's most recent information about the player process it is using.
-	player system.PlayerState
+	//
+	// Both the `managePlayers` loop and the handling of requests use this, so it's
+	// only to be accessed via the functions in player_management.go.
+	player      system.PlayerState
+	playerMutex sync.Mutex
+	// The IDs of the players that the server has told to shut down.
+	retiredPlayers map[string]bool
 	// A queue onto which bdecoded messages from clients are placed in one
 	// routine. In another routine, the messages are handled synchronously, one at
 	// a time. Therefore, messages can be received asynchronously, but results are
@@ -134,13 +143,56 @@ func (server *Server) resetState() error {
 		}
 	}
 
+	server.setScore(model.NewScore())
+
+	return nil
+}
+
+// setScore replaces the server's score with `score`, which is the result of
+// evaluating the provided strings of input.
+func (server *Server) setScore(score *model.Score, inputs ...string) {
 	server.input = ""
-	server.score = model.NewScore()
-	server.eventIndex = 0
+	for _, input := range inputs {
+		server.input += strings.TrimSpace(input) + "\n"
+	}
+
+	server.score = score
+	server.evaluatedInputs = inputs
+	server.eventIndex = len(score.Events)
+}
+
+// restoreScore brings the score back to how it was before evaluating a string
+// of input that turned out to be no good. (By the time that we find that out,
+// part of it might have been applied to the score.)
+func (server *Server) restoreScore() error {
+	score := model.NewScore()
+
+	for _, input := range server.evaluatedInputs {
+		if err := updateScore(score, input); err != nil {
+			return err
+		}
+	}
+
+	server.score = score
 
 	return nil
 }
 
+// updateScore parses a string of `input` and applies it to the score.
+func updateScore(score *model.Score, input string) error {
+	ast, err := parser.ParseString(input)
+	if err != nil {
+		return err
+	}
+
+	scoreUpdates, err := ast.Updates()
+	if err != nil {
+		return err
+	}
+
+	return score.Update(scoreUpdates...)
+}
+
 // Adapted from: https://www.calhoun.io/creating-random-strings-in-go/
 func generateId() string {
 	const charset = "abcdefghijklmnopqrstuvwxyz"
@@ -544,7 +596,7 @@ var ops = map[string]func(*Server, nREPLRequest){
 		if err := server.withTransmitter(
 			func(transmitter transmitter.OSCTransmitter) error {
 				log.Info().
-					Interface("player", server.player).
+					Interface("player", server.currentPlayer()).
 					Msg("Sending \"stop\" message to player process.")
 				return transmitter.TransmitStopMessage()
 			},
@@ -582,47 +634,48 @@ func (server *Server) handleRequests() {
 	}
 }
 
-// Parses a string of `input`, updates the server's score and related state, and
-// returns a list of transmission options that would make it so that we're
-// transmitting only the new events that resulted from this string of input.
-func (server *Server) updateScoreWithInput(
-	input string,
-) ([]transmitter.TransmissionOption, error) {
+// Parses a string of `input` and updates the server's score, then transmits
+// only the new events that resulted from this string of input.
+//
+// If something goes wrong, the score is left as it was.
+func (server *Server) evalAndPlay(input string) error {
+	return server.withTransmitter(
+		func(t transmitter.OSCTransmitter) error {
+			err := server.evalAndTransmit(t, input)
+			if err == nil {
+				return nil
+			}
+
+			if restoreErr := server.restoreScore(); restoreErr != nil {
+				log.Warn().Err(restoreErr).Msg("Failed to restore the score.")
+			}
+
+			return err
+		},
+	)
+}
+
+func (server *Server) evalAndTransmit(
+	t transmitter.OSCTransmitter, input string,
+) error {
 	// Take note of the current offsets of all parts in the score, for the purpose
 	// of synchronization. (See below where we use the transmitter.SyncOffsets
 	// option when transmitting the score.)
 	partOffsets := server.score.PartOffsets()
 
-	// Take note of the current `eventIndex` value, so that we know where to start
-	// playing from when we want to play the new events.
-	eventIndex := server.eventIndex
-
-	ast, err := parser.ParseString(input)
-	if err != nil {
-		return nil, err
-	}
-
-	scoreUpdates, err := ast.Updates()
-	if err != nil {
-		return nil, err
+	if err := updateScore(server.score, input); err != nil {
+		return err
 	}
 
-	if err := server.score.Update(scoreUpdates...); err != nil {
-		return nil, err
-	}
+	log.Info().
+		Interface("player", server.currentPlayer()).
+		Msg("Sending OSC messages to player.")
 
-	// Add the provided `input` to our total string of input representing the
-	// entire score.
-	server.input += strings.TrimSpace(input) + "\n"
-
-	// Update the starting index so that the next invocation of `evalAndPlay` for
-	// this same score will result in only playing newly added events.
-	server.eventIndex = len(server.score.Events)
-
-	return []transmitter.TransmissionOption{
+	if err := t.TransmitScore(
+		server.score,
 		// Transmit only the new events, i.e. events added as a result of parsing
 		// the provided `input` and applying the resulting updates to the score.
-		transmitter.TransmitFromIndex(eventIndex),
+		transmitter.TransmitFromIndex(server.eventIndex),
 		// The previous offset of each part is subtracted from any new events for
 		// that part. The effect is that we "synchronize" that part with the events
 		// that we already sent to the player. For example, if a client submits the
@@ -636,56 +689,54 @@ func (server *Server) updateScoreWithInput(
 		//
 		// Then the notes `c d e f g a b > c` will be played in time.
 		transmitter.SyncOffsets(partOffsets),
-	}, nil
-}
+	); err != nil {
+		return err
+	}
 
-func (server *Server) evalAndPlay(
-	input string, additionalTransmitOpts ...transmitter.TransmissionOption,
-) error {
-	return server.withTransmitter(
-		func(transmitter transmitter.OSCTransmitter) error {
-			transmitOpts, err := server.updateScoreWithInput(input)
-			if err != nil {
-				return err
-			}
+	// Add the provided `input` to our total string of input representing the
+	// entire score.
+	server.input += strings.TrimSpace(input) + "\n"
+	server.evaluatedInputs = append(server.evaluatedInputs, input)
 
-			log.Info().
-				Interface("player", server.player).
-				Msg("Sending OSC messages to player.")
+	// Update the starting index so that the next invocation of `evalAndPlay` for
+	// this same score will result in only playing newly added events.
+	server.eventIndex = len(server.score.Events)
 
-			return transmitter.TransmitScore(
-				server.score,
-				(append(transmitOpts, additionalTransmitOpts...))...,
-			)
-		},
-	)
+	return nil
 }
 
-func (server *Server) load(input string) error {
-	if err := server.resetState(); err != nil {
-		return err
+// withFreshTransmitter is like `withTransmitter`, except that the player that we
+// transmit to is one that we haven't transmitted anything to before.
+func (server *Server) withFreshTransmitter(
+	execute func(transmitter.OSCTransmitter) error,
+) error {
+	if server.hasPlayer() {
+		if err := server.shutdownPlayer(); err != nil {
+			return err
+		}
 	}
 
-	return server.withTransmitter(
-		func(t transmitter.OSCTransmitter) error {
-			transmitOpts, err := server.updateScoreWithInput(input)
-			if err != nil {
-				return err
-			}
-
-			transmitOpts = append(transmitOpts, transmitter.LoadOnly())
+	// At this point, the `managePlayers` loop should find a replacement for the
+	// player, and this should generally happen quickly. `withTransmitter` handles
+	// the case that a player process isn't immediately available.
+	return server.withTransmitter(execute)
+}
 
+// Transmits an entire score to a fresh player, without playing it.
+func (server *Server) transmitWithoutPlaying(score *model.Score) error {
+	return server.withFreshTransmitter(
+		func(t transmitter.OSCTransmitter) error {
 			log.Info().
-				Interface("player", server.player).
+				Interface("player", server.currentPlayer()).
 				Msg("Transmitting score to player.")
 
-			err = t.TransmitScore(server.score, transmitOpts...)
+			err := t.TransmitScore(score, transmitter.LoadOnly())
 			if err != nil {
 				return err
 			}
 
 			newOffset := int32(0)
-			for _, offset := range server.score.PartOffsets() {
+			for _, offset := range score.PartOffsets() {
 				offsetRounded := int32(math.Round(offset))
 				if offsetRounded > newOffset {
 					newOffset = offsetRounded
@@ -693,7 +744,7 @@ func (server *Server) load(input string) error {
 			}
 
 			log.Info().
-				Interface("player", server.player).
+				Interface("player", server.currentPlayer()).
 				Int32("newOffset", newOffset).
 				Msg("Transmitting new offset to player.")
 
@@ -702,20 +753,42 @@ func (server *Server) load(input string) error {
 	)
 }
 
+// Replaces the score with the result of evaluating a string of input, and
+// transmits the new score to a fresh player without playing it.
+//
+// If something goes wrong, we keep the score that we had.
+func (server *Server) load(input string) error {
+	score := model.NewScore()
+
+	if err := updateScore(score, input); err != nil {
+		return err
+	}
+
+	if err := server.transmitWithoutPlaying(score); err != nil {
+		return err
+	}
+
+	server.setScore(score, input)
+
+	return nil
+}
+
 func (server *Server) reload() error {
-	return server.load(server.input)
+	return server.transmitWithoutPlaying(server.score)
 }
 
 func (server *Server) replay(
 	transmitOpts ...transmitter.TransmissionOption,
 ) error {
-	// `input` is the one thing about the server state that we DON'T want to
-	// reset, so we keep track of it here. After we reset the state, we invoke
-	// `server.evalAndPlay` on this input, which has the effect of both playing it
-	// and re-adding it to the state of the server.
-	input := server.input
+	// Before we go looking for another player, make sure that there is something
+	// to transmit, e.g. that the `from` and `to` parameters make sense.
+	if _, err := (transmitter.OSCTransmitter{}).ScoreToOSCBundle(
+		server.score, transmitOpts...,
+	); err != nil {
+		return err
+	}
 
-	// We reset the server state here so that we can re-transmit the score "from
+	// We use a fresh player here so that we can re-transmit the score "from
 	// scratch" (or just re-transmit the part that we want to hear, if `from`
 	// and/or `to` parameters are provided). This makes it so that what we hear
 	// corresponds more directly to the input entered so far.
@@ -725,15 +798,15 @@ func (server *Server) replay(
 	// between the user entering each line of REPL input, which we are presuming
 	// is not what the user wants. (This would also be a departure from the
 	// behavior of `:play` in the Alda v1 REPL.)
-	if err := server.resetState(); err != nil {
-		return err
-	}
+	return server.withFreshTransmitter(
+		func(t transmitter.OSCTransmitter) error {
+			log.Info().
+				Interface("player", server.currentPlayer()).
+				Msg("Sending OSC messages to player.")
 
-	// At this point, the `managePlayers` loop should find a replacement for the
-	// player, and this should generally happen quickly. `server.evalAndPlay` will
-	// handle the case that a player process isn't immediately available, so it's
-	// OK for us to call it immediately after resetting the state.
-	return server.evalAndPlay(input, transmitOpts...)
+			return t.TransmitScore(server.score, transmitOpts...)
+		},
+	)
 }
 
 // Reloads the score into a fresh player, sends a "MIDI export" message to the
diff --git a/client/system/process_management.go b/client/system/process_management.go
index 2630ac1..a2e302b 100644
--- a/client/system/process_management.go
+++ b/client/system/process_management.go
@@ -379,13 +379,21 @@ func PingPlayer(port int) (*osc.Client, error) {
 // Returns `ErrNoPlayersAvailable` if no player is currently in an available
 // state.
 func FindAvailablePlayer() (PlayerState, error) {
+	return FindAvailablePlayerExcept(func(PlayerState) bool { return false })
+}
+
+// FindAvailablePlayerExcept is like FindAvailablePlayer, except that it ignores
+// the players for which the provided `exclude` function returns true.
+func FindAvailablePlayerExcept(
+	exclude func(PlayerState) bool,
+) (PlayerState, error) {
 	players, err := ReadPlayerStates()
 	if err != nil {
 		return PlayerState{}, err
 	}
 
 	for _, player := range players {
-		if player.State != "ready" {
+		if player.State != "ready" || exclude(player) {
 			continue
 		}
 
@@ -403,7 +411,7 @@ func FindAvailablePlayer() (PlayerState, error) {
 				return PlayerState{}, err
 			}
 
-			return FindAvailablePlayer()
+			return FindAvailablePlayerExcept(exclude)
 		}
 
 		return player, nil
-- 
2.43.0


From 1e737d524ecc4ec95246cb6ba34a4a31d3c89f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 31/65] fix: V0: ends a voice group that started in an earlier
 line of input

---
 client/parser/gen.go    |  3 +++
 client/parser/parser.go | 11 +++++++++++
 2 files changed, 14 insertions(+)

diff --git a/client/parser/gen.go b/client/parser/gen.go
index 828c765..1bdc4e1 100644
--- a/client/parser/gen.go
+++ b/client/parser/gen.go
@@ -348,6 +348,9 @@ func mapInnerEvents(updates []model.ScoreUpdate) ([]ASTNode, error) {
 			currentNode = &currentVoiceGroup.Children[currIndex].Children[1]
 
 		case model.VoiceGroupEndMarker:
+			if currentVoiceGroup == nil {
+				currentVoiceGroup = &ASTNode{Type: VoiceGroupNode}
+			}
 			currentVoiceGroup.Children = append(currentVoiceGroup.Children,
 				ASTNode{Type: VoiceGroupEndMarkerNode},
 			)
diff --git a/client/parser/parser.go b/client/parser/parser.go
index 289be6a..4f5d709 100644
--- a/client/parser/parser.go
+++ b/client/parser/parser.go
@@ -977,6 +977,17 @@ func (p *parser) voiceGroup() (ASTNode, error) {
 		Children:      []ASTNode{},
 	}
 
+	// A voice group end marker can also appear without any voices before it, e.g.
+	// when a voice group started in an earlier line of input in a REPL session.
+	if firstVoiceMarkerToken.literal.(int32) == 0 {
+		voiceGroupNode.Children = append(voiceGroupNode.Children, ASTNode{
+			Type:          VoiceGroupEndMarkerNode,
+			SourceContext: p.sourceContext(firstVoiceMarkerToken),
+		})
+
+		return voiceGroupNode, nil
+	}
+
 	for {
 		voice, err := p.voice()
 		if err != nil {
-- 
2.43.0


From fa40993b1bd239e2c6c678dc13cd5cc74a3a15aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 32/65] fix: export: wait for the whole MIDI file, and say so
 when there is none

The file was read as soon as it existed, so that an older file with the same
name passed for the result and a file that was still being written was cut
short. When the player did not export anything, the command succeeded.
---
 client/cmd/export.go         | 67 +++++++++++++------------------
 client/repl/server.go        | 21 +---------
 client/system/midi_export.go | 78 ++++++++++++++++++++++++++++++++++++
 3 files changed, 108 insertions(+), 58 deletions(-)
 create mode 100644 client/system/midi_export.go

diff --git a/client/cmd/export.go b/client/cmd/export.go
index 1017df9..308c93a 100644
--- a/client/cmd/export.go
+++ b/client/cmd/export.go
@@ -2,7 +2,6 @@ package cmd
 
 import (
 	"fmt"
-	"io"
 	"math/rand"
 	"os"
 	"path/filepath"
@@ -186,31 +185,23 @@ Currently, the only supported output format is %s.`,
 				Msg("Sent shutdown message to player.")
 		}()
 
-		// When no output filename is specified, we write the result to stdout. But
-		// first, we need to ask the player to export to a file, so we use a
-		// temporary file.
-		tmpFilename := ""
-		if outputFilename == "" {
-			tmpdir, err := os.MkdirTemp("", "alda-export")
-			if err != nil {
-				return err
-			}
-
-			tmpFilename = filepath.Join(
-				tmpdir, fmt.Sprintf(
-					"export-%d-%d.mid",
-					time.Now().Unix(),
-					rand.Intn(10000),
-				),
-			)
+		// We ask the player to export to a temporary file, and then we write the
+		// result to where it's supposed to go. The player process might have a
+		// different working directory than we do, and there might already be a file
+		// with the output filename, which is to be replaced only if all goes well.
+		tmpdir, err := os.MkdirTemp("", "alda-export")
+		if err != nil {
+			return err
 		}
+		defer os.RemoveAll(tmpdir)
 
-		var targetFilename string
-		if outputFilename != "" {
-			targetFilename = outputFilename
-		} else {
-			targetFilename = tmpFilename
-		}
+		targetFilename := filepath.Join(
+			tmpdir, fmt.Sprintf(
+				"export-%d-%d.mid",
+				time.Now().Unix(),
+				rand.Intn(10000),
+			),
+		)
 
 		err = transmitter.TransmitMidiExportMessage(targetFilename)
 		if err != nil {
@@ -231,27 +222,25 @@ Currently, the only supported output format is %s.`,
 		// "hanging."
 		fmt.Fprintln(os.Stderr, "Exporting...")
 
-		var midiFile *os.File
-
-		if err := util.Await(
-			func() error {
-				mf, err := os.Open(targetFilename)
-				if err != nil {
-					return err
-				}
+		midiData, err := system.AwaitMidiFile(targetFilename, midiExportTimeout)
+		if err != nil {
+			return help.UserFacingErrorf(
+				`The player process did not export the score in time.
 
-				midiFile = mf
-				return nil
-			},
-			midiExportTimeout,
-		); err != nil {
-			return nil
+You can run %s to see the state of any currently running player
+processes.`,
+				color.Aurora.BrightYellow("alda ps"),
+			)
 		}
 
 		if outputFilename != "" {
+			if err := os.WriteFile(outputFilename, midiData, 0644); err != nil {
+				return err
+			}
+
 			fmt.Fprintf(os.Stderr, "Exported score to %s\n", outputFilename)
 		} else {
-			if _, err := io.Copy(os.Stdout, midiFile); err != nil {
+			if _, err := os.Stdout.Write(midiData); err != nil {
 				return err
 			}
 		}
diff --git a/client/repl/server.go b/client/repl/server.go
index ad8c945..c19c906 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -26,7 +26,6 @@ import (
 	"alda.io/client/parser"
 	"alda.io/client/system"
 	"alda.io/client/transmitter"
-	"alda.io/client/util"
 )
 
 const midiExportTimeout = 20 * time.Second
@@ -832,6 +831,7 @@ func (server *Server) export() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer os.RemoveAll(tmpdir)
 
 	midiFilename := filepath.Join(
 		tmpdir, fmt.Sprintf(
@@ -849,22 +849,5 @@ func (server *Server) export() ([]byte, error) {
 		return nil, err
 	}
 
-	var midiFile *os.File
-
-	if err := util.Await(
-		func() error {
-			mf, err := os.Open(midiFilename)
-			if err != nil {
-				return err
-			}
-
-			midiFile = mf
-			return nil
-		},
-		midiExportTimeout,
-	); err != nil {
-		return nil, err
-	}
-
-	return io.ReadAll(midiFile)
+	return system.AwaitMidiFile(midiFilename, midiExportTimeout)
 }
diff --git a/client/system/midi_export.go b/client/system/midi_export.go
new file mode 100644
index 0000000..a3671e8
--- /dev/null
+++ b/client/system/midi_export.go
@@ -0,0 +1,78 @@
+package system
+
+import (
+	"bytes"
+	"encoding/binary"
+	"fmt"
+	"os"
+	"time"
+
+	"alda.io/client/util"
+)
+
+// AwaitMidiFile waits for a player process that has been asked to export a MIDI
+// file to finish writing the file, and returns the contents of the file.
+//
+// Returns an error if the player process doesn't do so in time.
+func AwaitMidiFile(filename string, timeout time.Duration) ([]byte, error) {
+	var contents []byte
+
+	err := util.Await(
+		func() error {
+			readContents, err := os.ReadFile(filename)
+			if err != nil {
+				return err
+			}
+
+			// The file exists as soon as the player process begins to write it.
+			if !isCompleteMidiFile(readContents) {
+				return fmt.Errorf("%s is incomplete", filename)
+			}
+
+			contents = readContents
+			return nil
+		},
+		timeout,
+	)
+
+	return contents, err
+}
+
+// A MIDI file consists of chunks, each of which starts with a four-character
+// type and the length of what follows. The first chunk is a header that says how
+// many tracks there are, and there is one "MTrk" chunk for each track.
+func isCompleteMidiFile(contents []byte) bool {
+	const chunkHeaderLength = 8
+
+	remainingTracks := -1
+
+	for remainingTracks != 0 {
+		if len(contents) < chunkHeaderLength {
+			return false
+		}
+
+		chunkType := contents[:4]
+		chunkLength := uint64(binary.BigEndian.Uint32(contents[4:]))
+		contents = contents[chunkHeaderLength:]
+
+		if uint64(len(contents)) < chunkLength {
+			return false
+		}
+
+		chunk := contents[:chunkLength]
+		contents = contents[chunkLength:]
+
+		switch {
+		case remainingTracks == -1:
+			if !bytes.Equal(chunkType, []byte("MThd")) || chunkLength < 6 {
+				return false
+			}
+			remainingTracks = int(binary.BigEndian.Uint16(chunk[2:]))
+
+		case bytes.Equal(chunkType, []byte("MTrk")):
+			remainingTracks--
+		}
+	}
+
+	return true
+}
-- 
2.43.0


From fb4c71a9875b75fb78cf6a34f1a8c603141e055c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 33/65] fix: REPL server: answer the requests of a client that
 is done sending

---
 client/repl/server.go | 47 ++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/client/repl/server.go b/client/repl/server.go
index c19c906..0896f97 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -36,6 +36,8 @@ const responseTimeout = 5 * time.Second
 type nREPLRequest struct {
 	conn net.Conn
 	msg  map[string]interface{}
+	// The requests from the same connection that haven't been handled yet.
+	pending *sync.WaitGroup
 }
 
 // Server is a stateful Alda REPL server object.
@@ -361,6 +363,11 @@ func (server *Server) listen(l net.Listener) {
 		go func() {
 			defer conn.Close()
 
+			// A client can be done sending requests and still be waiting for the
+			// responses.
+			pending := &sync.WaitGroup{}
+			defer pending.Wait()
+
 			// All of the messages from this client are read through the same
 			// buffered reader, because reading one message can mean buffering (the
 			// beginning of) the next one.
@@ -408,7 +415,10 @@ func (server *Server) listen(l net.Listener) {
 						Interface("decodedRequest", msg).
 						Msg("Request received.")
 
-					server.requestQueue <- nREPLRequest{conn: conn, msg: msg}
+					pending.Add(1)
+					server.requestQueue <- nREPLRequest{
+						conn: conn, msg: msg, pending: pending,
+					}
 				}
 			}
 		}()
@@ -612,25 +622,30 @@ var ops = map[string]func(*Server, nREPLRequest){
 // synchronous fashion, one at a time.
 func (server *Server) handleRequests() {
 	for req := range server.requestQueue {
-		errors := validateRequest(
-			req.msg,
-			requestFieldSpec{name: "op", valueType: typeString, required: true},
-		)
-		if len(errors) > 0 {
-			server.respondErrors(req, errors, nil)
-			continue
-		}
+		server.handleRequest(req)
+		req.pending.Done()
+	}
+}
 
-		op := req.msg["op"].(string)
+func (server *Server) handleRequest(req nREPLRequest) {
+	errors := validateRequest(
+		req.msg,
+		requestFieldSpec{name: "op", valueType: typeString, required: true},
+	)
+	if len(errors) > 0 {
+		server.respondErrors(req, errors, nil)
+		return
+	}
 
-		handler, supported := ops[op]
-		if !supported {
-			server.respond(req, []string{"done", "error", "unknown-op"}, nil)
-			continue
-		}
+	op := req.msg["op"].(string)
 
-		handler(server, req)
+	handler, supported := ops[op]
+	if !supported {
+		server.respond(req, []string{"done", "error", "unknown-op"}, nil)
+		return
 	}
+
+	handler(server, req)
 }
 
 // Parses a string of `input` and updates the server's score, then transmits
-- 
2.43.0


From 6d003bd93dbb803fe3353edbbb63b50288a828dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 34/65] fix: ignore state files that don't describe a process

---
 client/system/process_management.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/client/system/process_management.go b/client/system/process_management.go
index a2e302b..718ad10 100644
--- a/client/system/process_management.go
+++ b/client/system/process_management.go
@@ -139,6 +139,10 @@ type REPLServerState struct {
 	PID  int    `json:"pid"`
 }
 
+func validPort(port int) bool {
+	return port > 0 && port <= 65535
+}
+
 func processFiles(
 	directory string,
 	process func(filename string, contents []byte, readError error),
@@ -207,6 +211,12 @@ func ReadPlayerStates() ([]PlayerState, error) {
 			// Now, `readError` is either a possible error reading the file or a
 			// possible error parsing its contents as JSON.
 			//
+			// If the contents are JSON that doesn't describe a player process (e.g.
+			// `null`, or an object that lacks a port), that's just as bad.
+			if readError == nil && (state.State == "" || !validPort(state.Port)) {
+				readError = errors.New("not a valid player state")
+			}
+
 			// If either of these scenarios, we log a warning and move on to the next
 			// file.
 			if readError != nil {
@@ -241,7 +251,7 @@ func ReadPlayerStates() ([]PlayerState, error) {
 func ReadREPLServerStates() ([]REPLServerState, error) {
 	states := []REPLServerState{}
 
-	processFiles(
+	if err := processFiles(
 		CachePath("state", "repl-servers"),
 		func(filename string, contents []byte, readError error) {
 			// It's common for these files to be empty, e.g. when a REPL server
@@ -264,6 +274,12 @@ func ReadREPLServerStates() ([]REPLServerState, error) {
 			// Now, `readError` is either a possible error reading the file or a
 			// possible error parsing its contents as JSON.
 			//
+			// If the contents are JSON that doesn't describe a REPL server, that's
+			// just as bad.
+			if readError == nil && !validPort(state.Port) {
+				readError = errors.New("not a valid REPL server state")
+			}
+
 			// If either of these scenarios, we log a warning and move on to the next
 			// file.
 			if readError != nil {
@@ -278,7 +294,9 @@ func ReadREPLServerStates() ([]REPLServerState, error) {
 
 			states = append(states, state)
 		},
-	)
+	); err != nil {
+		return nil, err
+	}
 
 	return states, nil
 }
-- 
2.43.0


From 7fb1d5248dd5603fd07a331b1c9cec5d3eb72218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 35/65] fix: a dead player whose state file stays doesn't hide
 the other players

---
 client/system/process_management.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/client/system/process_management.go b/client/system/process_management.go
index 718ad10..22e4385 100644
--- a/client/system/process_management.go
+++ b/client/system/process_management.go
@@ -421,15 +421,25 @@ func FindAvailablePlayerExcept(
 				Err(err).
 				Msg("Failed to reach player process. Will try another one.")
 
+			// There might be another player that we can use, so if either of these
+			// things fail, we carry on.
+
 			if err := DeletePlayerStateFile(player.ID); err != nil {
-				return PlayerState{}, err
+				log.Warn().
+					Interface("player", player).
+					Err(err).
+					Msg("Failed to delete player state file.")
 			}
 
 			if err := FillPlayerPool(); err != nil {
-				return PlayerState{}, err
+				log.Warn().Err(err).Msg("Failed to fill player pool.")
 			}
 
-			return FindAvailablePlayerExcept(exclude)
+			unreachable := player
+			return FindAvailablePlayerExcept(func(player PlayerState) bool {
+				return (player.ID == unreachable.ID &&
+					player.Port == unreachable.Port) || exclude(player)
+			})
 		}
 
 		return player, nil
-- 
2.43.0


From c3f5784d974fbc680a1a8d4ca3c32ad6b6414157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 36/65] fix: stop and shutdown fail when the player asked for
 can't be reached

---
 client/cmd/shutdown.go | 6 ++++++
 client/cmd/stop.go     | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/client/cmd/shutdown.go b/client/cmd/shutdown.go
index 6f4a0c6..04e2a10 100644
--- a/client/cmd/shutdown.go
+++ b/client/cmd/shutdown.go
@@ -62,6 +62,12 @@ var shutdownCmd = &cobra.Command{
 					Interface("player", player).
 					Err(err).
 					Msg("Failed to send \"shutdown\" message to player process.")
+
+				// If the user asked for this particular player, then we haven't done
+				// what they asked.
+				if playerPort != -1 || playerID != "" {
+					return err
+				}
 			} else {
 				log.Info().
 					Interface("player", player).
diff --git a/client/cmd/stop.go b/client/cmd/stop.go
index 48fc24d..767ab77 100644
--- a/client/cmd/stop.go
+++ b/client/cmd/stop.go
@@ -70,6 +70,12 @@ var stopCmd = &cobra.Command{
 					Interface("player", player).
 					Err(err).
 					Msg("Failed to send \"stop\" message to player process.")
+
+				// If the user asked for this particular player, then we haven't done
+				// what they asked.
+				if playerPort != -1 || playerID != "" {
+					return err
+				}
 			} else {
 				log.Info().
 					Interface("player", player).
-- 
2.43.0


From 12637c2a80f9c6849867ef164dfe9ffe7c562c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 37/65] fix: don't crash when there is no answer to a
 confirmation prompt

---
 client/text/interaction.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/text/interaction.go b/client/text/interaction.go
index 01d6ff4..c08134b 100644
--- a/client/text/interaction.go
+++ b/client/text/interaction.go
@@ -20,7 +20,9 @@ func PromptForConfirmation(prompt string, defaultToYes bool) bool {
 
 		response, err := reader.ReadString('\n')
 		if err != nil {
-			panic(err)
+			// There is nobody there to confirm anything.
+			fmt.Println()
+			return false
 		}
 
 		switch strings.ToLower(strings.TrimSpace(response)) {
-- 
2.43.0


From d534cb4db220f40586eadbb21f7df82c93027812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 38/65] fix: format, import, export: write the output file
 completely or leave it alone

---
 client/cmd/export.go   |   2 +-
 client/cmd/format.go   |  48 +++++++++---------
 client/cmd/import.go   |  37 ++++++--------
 client/system/files.go | 110 +++++++++++++++++++++++++++++++++++++++++
 4 files changed, 150 insertions(+), 47 deletions(-)
 create mode 100644 client/system/files.go

diff --git a/client/cmd/export.go b/client/cmd/export.go
index 308c93a..c10c247 100644
--- a/client/cmd/export.go
+++ b/client/cmd/export.go
@@ -234,7 +234,7 @@ processes.`,
 		}
 
 		if outputFilename != "" {
-			if err := os.WriteFile(outputFilename, midiData, 0644); err != nil {
+			if err := system.WriteOutputFile(outputFilename, midiData); err != nil {
 				return err
 			}
 
diff --git a/client/cmd/format.go b/client/cmd/format.go
index da5a827..6605872 100644
--- a/client/cmd/format.go
+++ b/client/cmd/format.go
@@ -5,9 +5,10 @@ import (
 	"alda.io/client/help"
 	log "alda.io/client/logging"
 	"alda.io/client/parser"
+	"alda.io/client/system"
+	"bytes"
 	"fmt"
 	"github.com/spf13/cobra"
-	"io"
 	"os"
 )
 
@@ -70,25 +71,6 @@ Currently, formatting cannot handle comments (i.e. all comments are dropped)
 			return err
 		}
 
-		var out io.Writer
-		if formatOverwrite {
-			f, err := os.OpenFile(
-				formatInputFile,
-				os.O_WRONLY|os.O_TRUNC,
-				0664, // default rw-rw-r perms
-			)
-			if err != nil {
-				return help.UserFacingErrorf(
-					`Issue opening file %s.`,
-					color.Aurora.BrightYellow(outputAldaFilename),
-				)
-			}
-			defer f.Close()
-			out = f
-		} else {
-			out = os.Stdout
-		}
-
 		if formatConfiguredWrapLen < 0 {
 			return help.UserFacingErrorf(
 				`Configured line wrap length %d must be positive.`,
@@ -96,27 +78,29 @@ Currently, formatting cannot handle comments (i.e. all comments are dropped)
 			)
 		}
 
+		var out bytes.Buffer
+
 		if formatConfiguredWrapLen > 0 && len(formatConfiguredIndentText) > 0 {
 			err = parser.FormatASTToCode(
 				root,
-				out,
+				&out,
 				parser.ConfigureSoftWrapLen(formatConfiguredWrapLen),
 				parser.ConfigureIndentText(formatConfiguredIndentText),
 			)
 		} else if formatConfiguredWrapLen > 0 {
 			err = parser.FormatASTToCode(
 				root,
-				out,
+				&out,
 				parser.ConfigureSoftWrapLen(formatConfiguredWrapLen),
 			)
 		} else if len(formatConfiguredIndentText) > 0 {
 			err = parser.FormatASTToCode(
 				root,
-				out,
+				&out,
 				parser.ConfigureIndentText(formatConfiguredIndentText),
 			)
 		} else {
-			err = parser.FormatASTToCode(root, out)
+			err = parser.FormatASTToCode(root, &out)
 		}
 
 		if err != nil {
@@ -126,6 +110,20 @@ Currently, formatting cannot handle comments (i.e. all comments are dropped)
 			)
 		}
 
-		return nil
+		if formatOverwrite {
+			err = system.WriteOutputFile(formatInputFile, out.Bytes())
+			if err != nil {
+				return help.UserFacingErrorf(
+					`Issue writing file %s: %s.`,
+					color.Aurora.BrightYellow(formatInputFile),
+					err.Error(),
+				)
+			}
+
+			return nil
+		}
+
+		_, err = os.Stdout.Write(out.Bytes())
+		return err
 	},
 }
diff --git a/client/cmd/import.go b/client/cmd/import.go
index a8da784..0bc5d3b 100644
--- a/client/cmd/import.go
+++ b/client/cmd/import.go
@@ -7,6 +7,7 @@ import (
 	"alda.io/client/model"
 	"alda.io/client/parser"
 	"alda.io/client/system"
+	"bytes"
 	"fmt"
 	"github.com/spf13/cobra"
 	"os"
@@ -126,40 +127,34 @@ Currently, the only supported input format is %s.`,
 			)
 		}
 
+		var out bytes.Buffer
+
+		err = parser.FormatASTToCode(root, &out)
+		if err != nil {
+			return help.UserFacingErrorf(
+				`Issue formatting imported Alda: %s.`,
+				err.Error(),
+			)
+		}
+
 		if outputAldaFilename == "" {
 			// When no output filename is specified, we write directly to stdout
-			err = parser.FormatASTToCode(root, os.Stdout)
-			if err != nil {
-				return help.UserFacingErrorf(
-					`Issue formatting imported Alda: %s.`,
-					err.Error(),
-				)
+			if _, err := os.Stdout.Write(out.Bytes()); err != nil {
+				return err
 			}
 		} else {
-			out, err := os.OpenFile(
-				outputAldaFilename,
-				os.O_WRONLY|os.O_CREATE|os.O_TRUNC,
-				0664, // default rw-rw-r perms
-			)
+			err = system.WriteOutputFile(outputAldaFilename, out.Bytes())
 			if err != nil {
 				return help.UserFacingErrorf(
-					`Issue opening output file %s.`,
+					`Issue writing output file %s: %s.`,
 					color.Aurora.BrightYellow(outputAldaFilename),
-				)
-			}
-			defer out.Close()
-
-			err = parser.FormatASTToCode(root, out)
-			if err != nil {
-				return help.UserFacingErrorf(
-					`Issue formatting imported Alda: %s.`,
 					err.Error(),
 				)
 			}
 
 			fmt.Fprintf(
 				os.Stderr,
-				"Imported score to %s\n.",
+				"Imported score to %s\n",
 				outputAldaFilename,
 			)
 		}
diff --git a/client/system/files.go b/client/system/files.go
new file mode 100644
index 0000000..9413383
--- /dev/null
+++ b/client/system/files.go
@@ -0,0 +1,110 @@
+package system
+
+import (
+	"os"
+	"path/filepath"
+)
+
+// WriteOutputFile writes `data` into the file with the provided name, creating
+// it if it doesn't exist yet.
+//
+// The file ends up with either all of the new content or, if an error is
+// returned (or we don't get to the end), whatever was in it before. To that end,
+// we write into a new file in the same directory and then rename it.
+func WriteOutputFile(filename string, data []byte) error {
+	perm := os.FileMode(0664) // default rw-rw-r perms, before umask
+	exists := false
+
+	// If the file is a symlink, it's the file it leads to that we replace.
+	path, err := filepath.EvalSymlinks(filename)
+	if err == nil {
+		info, err := os.Stat(path)
+		if err != nil {
+			return err
+		}
+
+		// There is nothing to preserve if it's a terminal, a pipe, etc.
+		if !info.Mode().IsRegular() {
+			return writeInPlace(path, data, perm)
+		}
+
+		// Don't replace a file that we're not allowed to write into.
+		file, err := os.OpenFile(path, os.O_WRONLY, 0)
+		if err != nil {
+			return err
+		}
+		file.Close()
+
+		perm = info.Mode().Perm()
+		exists = true
+	} else {
+		path = filename
+		if info, err := os.Lstat(path); err == nil &&
+			info.Mode()&os.ModeSymlink != 0 {
+			// A symlink to a file that doesn't exist yet.
+			return writeInPlace(path, data, perm)
+		}
+	}
+
+	tmpFile, err := createSibling(path, perm)
+	if err != nil {
+		// We might be allowed to write into the file, but not to create a new file
+		// in its directory.
+		if exists && os.IsPermission(err) {
+			return writeInPlace(path, data, perm)
+		}
+		return err
+	}
+	defer os.Remove(tmpFile.Name())
+
+	if exists {
+		if err := tmpFile.Chmod(perm); err != nil {
+			tmpFile.Close()
+			return err
+		}
+	}
+
+	if _, err := tmpFile.Write(data); err != nil {
+		tmpFile.Close()
+		return err
+	}
+
+	if err := tmpFile.Close(); err != nil {
+		return err
+	}
+
+	return os.Rename(tmpFile.Name(), path)
+}
+
+// createSibling creates a new file with a unique name in the same directory as
+// the provided path. The permissions are subject to the umask.
+func createSibling(path string, perm os.FileMode) (*os.File, error) {
+	reserved, err := os.CreateTemp(filepath.Dir(path), ".alda-output-*")
+	if err != nil {
+		return nil, err
+	}
+	reserved.Close()
+
+	// os.CreateTemp makes files that only their owner can read.
+	if err := os.Remove(reserved.Name()); err != nil {
+		return nil, err
+	}
+
+	return os.OpenFile(
+		reserved.Name(), os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm,
+	)
+}
+
+func writeInPlace(path string, data []byte, perm os.FileMode) error {
+	file, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
+	if err != nil {
+		return err
+	}
+
+	if _, err := file.Write(data); err != nil {
+		file.Close()
+		return err
+	}
+
+	return file.Close()
+}
-- 
2.43.0


From 42282720330f7b11517e96eedb739f5ecfa408b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 39/65] fix: REPL client: :save and :export write the file
 completely or leave it alone

---
 client/repl/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/repl/client.go b/client/repl/client.go
index fff59ec..16fcc7a 100644
--- a/client/repl/client.go
+++ b/client/repl/client.go
@@ -113,7 +113,7 @@ func init() {
 				}
 				binaryData := []byte(res["binary-data"].(string))
 
-				return os.WriteFile(filename, binaryData, 0644)
+				return system.WriteOutputFile(filename, binaryData)
 			},
 		},
 
@@ -377,7 +377,7 @@ arguments will save the updated score to the same file.`,
 					return err
 				}
 
-				return os.WriteFile(client.inputFilepath, []byte(scoreText), 0644)
+				return system.WriteOutputFile(client.inputFilepath, []byte(scoreText))
 			},
 		},
 
-- 
2.43.0


From 9843bdbb2b36e83606927bea7d382e9829b6e3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:11 +0000
Subject: [PATCH 40/65] fix: fail when the output can't be written to stdout

---
 client/cmd/instruments.go |  4 ++--
 client/cmd/parse.go       | 20 ++++++++------------
 client/cmd/ps.go          | 15 +++++++++++----
 client/cmd/version.go     |  4 ++--
 4 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/client/cmd/instruments.go b/client/cmd/instruments.go
index 85cb25c..367c1c3 100644
--- a/client/cmd/instruments.go
+++ b/client/cmd/instruments.go
@@ -12,7 +12,7 @@ var instrumentsCmd = &cobra.Command{
 	Use:   "instruments",
 	Short: "Display the list of available instruments",
 	RunE: func(_ *cobra.Command, args []string) error {
-		fmt.Println(strings.Join(model.InstrumentsList(), "\n"))
-		return nil
+		_, err := fmt.Println(strings.Join(model.InstrumentsList(), "\n"))
+		return err
 	},
 }
diff --git a/client/cmd/parse.go b/client/cmd/parse.go
index bdbdcb2..eaf0ff5 100644
--- a/client/cmd/parse.go
+++ b/client/cmd/parse.go
@@ -142,9 +142,8 @@ Please choose one of:
 		}
 
 		if outputType == "ast" {
-			fmt.Println(ast.JSON().String())
-
-			return nil
+			_, err := fmt.Println(ast.JSON().String())
+			return err
 		}
 
 		if outputType == "ast-human" {
@@ -164,9 +163,8 @@ Please choose one of:
 				return err
 			}
 
-			fmt.Println(parser.HumanReadableAST(parsedJsonObj))
-
-			return nil
+			_, err = fmt.Println(parser.HumanReadableAST(parsedJsonObj))
+			return err
 		}
 
 		scoreUpdates, err = ast.Updates()
@@ -189,9 +187,8 @@ Please choose one of:
 				updates.ArrayAppend(update.JSON())
 			}
 
-			fmt.Println(updates.String())
-
-			return nil
+			_, err := fmt.Println(updates.String())
+			return err
 		}
 
 		score := model.NewScore()
@@ -216,8 +213,7 @@ Please choose one of:
 			Str("took", time.Since(start).String()).
 			Msg("Constructed score.")
 
-		fmt.Println(score.JSON().String())
-
-		return nil
+		_, err = fmt.Println(score.JSON().String())
+		return err
 	},
 }
diff --git a/client/cmd/ps.go b/client/cmd/ps.go
index 7bf3785..bf7ffb3 100644
--- a/client/cmd/ps.go
+++ b/client/cmd/ps.go
@@ -1,7 +1,9 @@
 package cmd
 
 import (
+	"bytes"
 	"fmt"
+	"os"
 	"time"
 
 	"alda.io/client/system"
@@ -23,24 +25,29 @@ var psCmd = &cobra.Command{
 			return err
 		}
 
-		fmt.Println("id\tport\tstate\texpiry\ttype\tpid")
+		var out bytes.Buffer
+
+		fmt.Fprintln(&out, "id\tport\tstate\texpiry\ttype\tpid")
 
 		for _, state := range playerStates {
 			expiry := humanize.Time(time.Unix(state.Expiry/1000, 0))
 
-			fmt.Printf(
+			fmt.Fprintf(
+				&out,
 				"%s\t%d\t%s\t%s\t%s\t%d\n",
 				state.ID, state.Port, state.State, expiry, "player", state.PID,
 			)
 		}
 
 		for _, state := range replServerStates {
-			fmt.Printf(
+			fmt.Fprintf(
+				&out,
 				"%s\t%d\t%s\t%s\t%s\t%d\n",
 				state.ID, state.Port, "-", "-", "repl-server", state.PID,
 			)
 		}
 
-		return nil
+		_, err = os.Stdout.Write(out.Bytes())
+		return err
 	},
 }
diff --git a/client/cmd/version.go b/client/cmd/version.go
index 047602b..f9871d4 100644
--- a/client/cmd/version.go
+++ b/client/cmd/version.go
@@ -11,7 +11,7 @@ var versionCmd = &cobra.Command{
 	Use:   "version",
 	Short: "Print Alda version information",
 	RunE: func(_ *cobra.Command, args []string) error {
-		fmt.Printf("alda %s\n", generated.ClientVersion)
-		return nil
+		_, err := fmt.Printf("alda %s\n", generated.ClientVersion)
+		return err
 	},
 }
-- 
2.43.0


From 0d6bff898015f9d3efc287bfcb567f30a2d8c968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:46 +0000
Subject: [PATCH 41/65] fix: telemetry status: other processes never see it
 half written

---
 client/cmd/telemetry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/cmd/telemetry.go b/client/cmd/telemetry.go
index a8c353c..28893e3 100644
--- a/client/cmd/telemetry.go
+++ b/client/cmd/telemetry.go
@@ -106,7 +106,7 @@ func writeTelemetryStatus(status string) error {
 		Str("filepath", telemetryStatusFilepath).
 		Msg("Writing telemetry status file.")
 
-	return os.WriteFile(telemetryStatusFilepath, []byte(status), 0644)
+	return system.WriteOutputFile(telemetryStatusFilepath, []byte(status))
 }
 
 func informUserOfTelemetry() {
-- 
2.43.0


From 1973239b337e22297eaf2653a8802af6a4d4feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 42/65] fix: a dead player doesn't keep other players from
 being unpaused

---
 client/cmd/play.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/client/cmd/play.go b/client/cmd/play.go
index c196ba5..836fd2e 100644
--- a/client/cmd/play.go
+++ b/client/cmd/play.go
@@ -298,6 +298,16 @@ var playCmd = &cobra.Command{
 				)
 			}
 			if transmissionError != nil {
+				// When we're unpausing all of the active players, it's possible that
+				// one of them has died. That's no reason not to unpause the others.
+				if action == "unpause" && playerPort == -1 && playerID == "" {
+					log.Warn().
+						Interface("player", player).
+						Err(transmissionError).
+						Msg("Failed to send \"play\" message to player process.")
+					continue
+				}
+
 				return transmissionError
 			}
 
-- 
2.43.0


From b212b10f87864ff1d7b4e5509e290878bc8c5d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 43/65] fix: one state file that can't be cleaned up doesn't
 keep stale ones in use

---
 client/system/process_management.go | 31 +++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/client/system/process_management.go b/client/system/process_management.go
index 22e4385..7adc617 100644
--- a/client/system/process_management.go
+++ b/client/system/process_management.go
@@ -38,6 +38,17 @@ func DeletePlayerStateFile(playerID string) error {
 	return nil
 }
 
+// A state file that hasn't been modified for longer than this is stale. (The
+// process that the file belongs to "touches" it periodically.)
+const staleAfter = time.Minute * 2
+
+func logStaleFileProblem(path string, err error) {
+	log.Warn().
+		Err(err).
+		Str("path", path).
+		Msg("Failed to clean up state file.")
+}
+
 func cleanUpStaleStateFiles(stateDir string) error {
 	if err := filepath.WalkDir(
 		stateDir,
@@ -46,8 +57,11 @@ func cleanUpStaleStateFiles(stateDir string) error {
 				return nil
 			}
 
+			// If something is wrong with a file (e.g. we aren't allowed to delete it),
+			// that's no reason not to clean up the other ones.
 			if err != nil {
-				return err
+				logStaleFileProblem(path, err)
+				return nil
 			}
 
 			if info.IsDir() {
@@ -58,12 +72,13 @@ func cleanUpStaleStateFiles(stateDir string) error {
 			if errors.Is(err, os.ErrNotExist) {
 				return nil
 			} else if err != nil {
-				return err
+				logStaleFileProblem(path, err)
+				return nil
 			}
 
 			timeSinceModified := time.Since(fileInfo.ModTime())
 
-			if timeSinceModified > time.Minute*2 {
+			if timeSinceModified > staleAfter {
 				log.Debug().
 					Float64("seconds-since-modified", timeSinceModified.Seconds()).
 					Str("path", path).
@@ -71,7 +86,7 @@ func cleanUpStaleStateFiles(stateDir string) error {
 
 				err := os.Remove(path)
 				if err != nil && !errors.Is(err, os.ErrNotExist) {
-					return err
+					logStaleFileProblem(path, err)
 				}
 				return nil
 			}
@@ -159,6 +174,14 @@ func processFiles(
 	for _, file := range files {
 		filename := file.Name()
 		filepath := filepath.Join(directory, filename)
+
+		// Normally, stale files have just been cleaned up, but it's possible that
+		// we weren't able to do that.
+		if fileInfo, err := os.Stat(filepath); err == nil &&
+			time.Since(fileInfo.ModTime()) > staleAfter {
+			continue
+		}
+
 		contents, readError := os.ReadFile(filepath)
 		process(filename, contents, readError)
 	}
-- 
2.43.0


From f30f5cf917ff808f104de180307077e332e5cb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 44/65] fix: only old executables that Alda itself renamed are
 cleaned up

---
 client/system/dirs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/system/dirs.go b/client/system/dirs.go
index 1737590..38f86f1 100644
--- a/client/system/dirs.go
+++ b/client/system/dirs.go
@@ -53,7 +53,7 @@ func RenamedExecutable(path string) string {
 // "alda.1615061099.2081.old") looks like it's a renamed Alda executable.
 func IsRenamedExecutable(basename string) bool {
 	return regexp.MustCompile(
-		`alda(-player)?(\.exe)?\.\d+\.\d+\.old`,
+		`^alda(-player)?(\.exe)?\.\d+\.\d+\.old$`,
 	).MatchString(basename)
 }
 
-- 
2.43.0


From 65ac5b412e48c359c1c09f7b2a54f141f460af01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:58 +0000
Subject: [PATCH 45/65] fix: update: install all of a release's executables
 completely or none

---
 client/cmd/update.go | 367 ++++++++++++++++++++++++++-----------------
 1 file changed, 224 insertions(+), 143 deletions(-)

diff --git a/client/cmd/update.go b/client/cmd/update.go
index 064231f..65afedc 100644
--- a/client/cmd/update.go
+++ b/client/cmd/update.go
@@ -9,7 +9,6 @@ import (
 	"path/filepath"
 	"runtime"
 	"strings"
-	"sync"
 	"time"
 
 	"alda.io/client/color"
@@ -83,11 +82,19 @@ type releaseAsset struct {
 	assetUrl  string
 }
 
+// downloadAssets downloads the provided assets into a temporary directory, which
+// the caller is expected to remove. Either all of the assets are downloaded
+// completely or an error is returned.
 func downloadAssets(assets []releaseAsset) (assetsDir string, err error) {
 	outdir, err := os.MkdirTemp("", "alda-update")
 	if err != nil {
 		return "", err
 	}
+	defer func() {
+		if err != nil {
+			os.RemoveAll(outdir)
+		}
+	}()
 
 	maxAssetNameLength := -1
 	for _, asset := range assets {
@@ -97,136 +104,125 @@ func downloadAssets(assets []releaseAsset) (assetsDir string, err error) {
 		}
 	}
 
-	var waitGroup sync.WaitGroup
-	waitGroup.Add(len(assets))
-
 	progress := mpb.New(
 		mpb.WithWidth(25),
 		mpb.WithRefreshRate(100*time.Millisecond),
-		mpb.WithWaitGroup(&waitGroup),
 	)
 
-	var downloadError error
+	downloadErrors := make(chan error, len(assets))
 
 	for _, asset := range assets {
-		client := &http.Client{Timeout: 10 * time.Second}
-		response, err := client.Get(asset.assetUrl)
-		if err != nil {
-			return "", err
-		}
-		defer response.Body.Close()
-
-		if response.StatusCode != 200 {
-			responseBody, err := io.ReadAll(response.Body)
-			if err != nil {
-				log.Error().Err(err).Msg("Unable to read response body")
-			} else {
-				log.Error().
-					Bytes("body", responseBody).
-					Int("status", response.StatusCode).
-					Msg("Asset HTTP response")
-			}
-
-			return "", fmt.Errorf(
-				"unexpected HTTP response (%d)", response.StatusCode,
+		go func(asset releaseAsset) {
+			label := fmt.Sprintf(
+				"  %s%s",
+				asset.assetName,
+				strings.Repeat(" ", maxAssetNameLength-len(asset.assetName)),
 			)
-		}
 
-		bar := progress.Add(
-			response.ContentLength,
-			mpb.NewBarFiller("[·· ]"),
-			mpb.PrependDecorators(
-				decor.Name(
-					fmt.Sprintf(
-						"  %s%s",
-						asset.assetName,
-						strings.Repeat(" ", maxAssetNameLength-len(asset.assetName)),
-					),
-				),
-			),
-			mpb.AppendDecorators(
-				decor.CurrentKibiByte("% .2f"),
-			),
-		)
-
-		proxyReader := bar.ProxyReader(response.Body)
-		defer proxyReader.Close()
+			downloadErrors <- downloadAsset(progress, label, asset, outdir)
+		}(asset)
+	}
 
-		out, err := os.Create(filepath.Join(outdir, asset.assetName))
-		if err != nil {
-			return "", err
+	for range assets {
+		if downloadError := <-downloadErrors; downloadError != nil {
+			err = downloadError
 		}
-		defer out.Close()
-
-		go func() {
-			defer waitGroup.Done()
-
-			if _, err := io.Copy(out, proxyReader); err != nil {
-				downloadError = err
-			}
-		}()
 	}
 
 	progress.Wait()
 
-	if downloadError != nil {
-		return "", downloadError
+	if err != nil {
+		return "", err
 	}
 
 	return outdir, nil
 }
 
-func installAsset(indir string, asset releaseAsset) error {
-	if asset.assetType != "executable" {
+func downloadAsset(
+	progress *mpb.Progress, label string, asset releaseAsset, outdir string,
+) error {
+	client := &http.Client{Timeout: 10 * time.Second}
+	response, err := client.Get(asset.assetUrl)
+	if err != nil {
+		return err
+	}
+	defer response.Body.Close()
+
+	if response.StatusCode != 200 {
+		responseBody, err := io.ReadAll(response.Body)
+		if err != nil {
+			log.Error().Err(err).Msg("Unable to read response body")
+		} else {
+			log.Error().
+				Bytes("body", responseBody).
+				Int("status", response.StatusCode).
+				Msg("Asset HTTP response")
+		}
+
 		return fmt.Errorf(
-			"unexpected asset type: %s (%s)", asset.assetType, asset.assetName,
+			"unexpected HTTP response (%d)", response.StatusCode,
 		)
 	}
 
-	aldaPath, err := system.AldaExecutablePath()
+	out, err := os.Create(filepath.Join(outdir, asset.assetName))
 	if err != nil {
 		return err
 	}
 
-	outdir := filepath.Dir(aldaPath)
-
-	fmt.Printf(
-		"%s\n",
-		color.Aurora.Bold(fmt.Sprintf("Installing %s...", asset.assetName)),
+	bar := progress.Add(
+		response.ContentLength,
+		mpb.NewBarFiller("[·· ]"),
+		mpb.PrependDecorators(decor.Name(label)),
+		mpb.AppendDecorators(
+			decor.CurrentKibiByte("% .2f"),
+		),
 	)
 
-	// Naïvely, you would think we could simply replace `alda` with the new
-	// version that we downloaded. However, this doesn't always work, especially
-	// given that we're currently _running_ the old version in this very process.
-	//
-	// We're doing something safer here, following the advice here:
-	// https://stackoverflow.com/a/7198760/2338327
-	//
-	// (That StackOverflow question is specifically about Windows, but this is a
-	// safer method in general, and it works regardless of OS.)
+	_, err = io.Copy(io.MultiWriter(out, progressWriter{bar}), response.Body)
 
-	inpath := filepath.Join(indir, asset.assetName)
-	outpath := filepath.Join(outdir, asset.assetName)
+	if closeErr := out.Close(); err == nil {
+		err = closeErr
+	}
 
-	oldRenamed := system.RenamedExecutable(outpath)
+	// We aren't necessarily told ahead of time how much there is to download, so
+	// the bar doesn't always know when it is complete.
+	if err != nil {
+		bar.Abort(false)
+	} else {
+		bar.SetTotal(bar.Current(), true)
+	}
 
-	// Move the old (and probably currently running) executable, giving it a new
-	// name that also designates it as an old version to be cleaned up.
-	//
-	// NOTE: The Alda CLI checks for the existence of these old executable
-	// versions and cleans them up on each run.
-	log.Debug().
-		Str("old-name", outpath).
-		Str("new-name", oldRenamed).
-		Msg("Renaming existing executable.")
+	return err
+}
 
-	err = os.Rename(outpath, oldRenamed)
-	if err != nil && !errors.Is(err, os.ErrNotExist) {
-		return err
-	}
+// A progressWriter reflects the number of bytes written in a progress bar.
+type progressWriter struct {
+	bar *mpb.Bar
+}
+
+func (pw progressWriter) Write(p []byte) (int, error) {
+	pw.bar.IncrBy(len(p))
+	return len(p), nil
+}
+
+// A stagedAsset is a downloaded asset that has been copied into the directory
+// where the executables are, ready to take the place of the existing one.
+type stagedAsset struct {
+	asset      releaseAsset
+	stagedPath string
+	outpath    string
+	oldRenamed string
+}
 
-	// Now that we've moved the existing executable, we create a new one at the
-	// same location and copy the new version into it.
+func stageAsset(
+	indir string, outdir string, asset releaseAsset,
+) (staged stagedAsset, err error) {
+	inpath := filepath.Join(indir, asset.assetName)
+	outpath := filepath.Join(outdir, asset.assetName)
+
+	if info, err := os.Stat(outpath); err == nil && !info.Mode().IsRegular() {
+		return stagedAsset{}, fmt.Errorf("%s is not a regular file", outpath)
+	}
 
 	log.Debug().
 		Str("source", inpath).
@@ -234,82 +230,149 @@ func installAsset(indir string, asset releaseAsset) error {
 
 	in, err := os.Open(inpath)
 	if err != nil {
-		return err
+		return stagedAsset{}, err
 	}
 	defer in.Close()
 
-	log.Debug().
-		Str("destination", outpath).
-		Msg("Opening destination.")
-
-	out, err := os.Create(outpath)
+	out, err := os.CreateTemp(outdir, "."+asset.assetName+"-*")
 	if err != nil {
-		return err
+		return stagedAsset{}, err
 	}
-	defer out.Close()
+	defer func() {
+		if err != nil {
+			out.Close()
+			os.Remove(out.Name())
+		}
+	}()
 
-	log.Debug().Msg("Copying file.")
+	log.Debug().
+		Str("destination", out.Name()).
+		Msg("Copying file.")
 
 	if _, err := io.Copy(out, in); err != nil {
-		return err
+		return stagedAsset{}, err
 	}
 
-	// The copy was successful, so now we can remove the temporary file that we
-	// copied in. (It isn't really a problem if this fails, because it's a temp
-	// file, so we're ignoring `err` here.)
-	_ = os.Remove(inpath)
-
 	if runtime.GOOS != "windows" {
-		// Here, we make the file executable. The code below should be equivalent to
-		// running `chmod +x ...` on the file, i.e. ensuring that the "execute" bit
-		// is present for each permissions digit (owner, group, others) in this
-		// octal number representing the file permissions.
-		//
-		// Reference:
-		// https://en.wikipedia.org/wiki/File-system_permissions#Numeric_notation
-		//
-		// The execute bit adds 1 to the total, so to ensure that each digit
-		// includes the execute bit, we do a bitwise OR operation with 0111 as the
-		// operand.
-		fileInfo, err := out.Stat()
-		if err != nil {
-			return err
+		// Make the file executable. (os.CreateTemp makes files that only their
+		// owner can read and write.)
+		if err := out.Chmod(0755); err != nil {
+			return stagedAsset{}, err
 		}
-		perms := fileInfo.Mode().Perm()
+	}
 
-		log.Debug().
-			Str("filename", outpath).
-			Str("perms", fmt.Sprintf("%#o", perms)).
-			Msg("Before making file executable")
+	if err := out.Sync(); err != nil {
+		return stagedAsset{}, err
+	}
 
-		if err := os.Chmod(outpath, perms|0111); err != nil {
-			return err
-		}
+	if err := out.Close(); err != nil {
+		return stagedAsset{}, err
+	}
 
-		fileInfo, err = out.Stat()
-		if err != nil {
+	return stagedAsset{
+		asset:      asset,
+		stagedPath: out.Name(),
+		outpath:    outpath,
+		oldRenamed: system.RenamedExecutable(outpath),
+	}, nil
+}
+
+// install puts the new executable in the place of the existing one.
+//
+// Naïvely, you would think we could simply replace `alda` with the new version
+// that we downloaded. However, this doesn't always work, especially given that
+// we're currently _running_ the old version in this very process.
+//
+// We're doing something safer here, following the advice here:
+// https://stackoverflow.com/a/7198760/2338327
+//
+// (That StackOverflow question is specifically about Windows, but this is a
+// safer method in general, and it works regardless of OS.)
+//
+// The old (and probably currently running) executable gets a new name that also
+// designates it as an old version to be cleaned up.
+//
+// NOTE: The Alda CLI checks for the existence of these old executable versions
+// and cleans them up on each run.
+func (staged stagedAsset) install() error {
+	log.Debug().
+		Str("old-name", staged.outpath).
+		Str("new-name", staged.oldRenamed).
+		Msg("Renaming existing executable.")
+
+	// Where that is possible, the old executable additionally gets a new name, so
+	// that there isn't a moment where there is no executable.
+	linkErr := os.ErrInvalid
+	if runtime.GOOS != "windows" {
+		linkErr = os.Link(staged.outpath, staged.oldRenamed)
+	}
+
+	if linkErr != nil {
+		err := os.Rename(staged.outpath, staged.oldRenamed)
+		if err != nil && !errors.Is(err, os.ErrNotExist) {
 			return err
 		}
-		perms = fileInfo.Mode().Perm()
+	}
 
-		log.Debug().
-			Str("filename", outpath).
-			Str("perms", fmt.Sprintf("%#o", perms)).
-			Msg("After making file executable")
+	if err := os.Rename(staged.stagedPath, staged.outpath); err != nil {
+		staged.uninstall()
+		return err
 	}
 
 	return nil
 }
 
-func downloadAndInstallAssets(assets []releaseAsset) error {
-	assetsDir, err := downloadAssets(assets)
+// uninstall puts the executable that was there before back in place.
+func (staged stagedAsset) uninstall() {
+	if _, err := os.Lstat(staged.oldRenamed); err != nil {
+		// There wasn't one.
+		os.Remove(staged.outpath)
+		return
+	}
+
+	// This does nothing if both names refer to the same file.
+	if err := os.Rename(staged.oldRenamed, staged.outpath); err != nil {
+		log.Error().Err(err).Msg("Failed to restore the previous executable.")
+		return
+	}
+
+	os.Remove(staged.oldRenamed)
+}
+
+// installAssets replaces the executables, either all of them or none.
+func installAssets(indir string, assets []releaseAsset) error {
+	aldaPath, err := system.AldaExecutablePath()
 	if err != nil {
 		return err
 	}
 
+	outdir := filepath.Dir(aldaPath)
+
+	stagedAssets := []stagedAsset{}
 	for _, asset := range assets {
+		staged, err := stageAsset(indir, outdir, asset)
+		if err != nil {
+			return err
+		}
+		// (The file isn't there anymore if all goes well.)
+		defer os.Remove(staged.stagedPath)
+
+		stagedAssets = append(stagedAssets, staged)
+	}
+
+	for i, staged := range stagedAssets {
 		fmt.Println()
-		if err := installAsset(assetsDir, asset); err != nil {
+		fmt.Printf(
+			"%s\n",
+			color.Aurora.Bold(
+				fmt.Sprintf("Installing %s...", staged.asset.assetName),
+			),
+		)
+
+		if err := staged.install(); err != nil {
+			for _, installed := range stagedAssets[:i] {
+				installed.uninstall()
+			}
 			return err
 		}
 	}
@@ -317,6 +380,24 @@ func downloadAndInstallAssets(assets []releaseAsset) error {
 	return nil
 }
 
+func downloadAndInstallAssets(assets []releaseAsset) error {
+	for _, asset := range assets {
+		if asset.assetType != "executable" {
+			return fmt.Errorf(
+				"unexpected asset type: %s (%s)", asset.assetType, asset.assetName,
+			)
+		}
+	}
+
+	assetsDir, err := downloadAssets(assets)
+	if err != nil {
+		return err
+	}
+	defer os.RemoveAll(assetsDir)
+
+	return installAssets(assetsDir, assets)
+}
+
 func versionString(json *json.Container) string {
 	version, ok := json.Search("version").Data().(string)
 	if !ok {
-- 
2.43.0


From f69ba65bee299ab78512703bf8e9c6e11770f50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:59 +0000
Subject: [PATCH 46/65] fix: update: don't crash when no release is chosen

---
 client/cmd/update.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/client/cmd/update.go b/client/cmd/update.go
index 65afedc..cfd22e3 100644
--- a/client/cmd/update.go
+++ b/client/cmd/update.go
@@ -647,13 +647,15 @@ func checkForUpdates() error {
 
 		selectedVersion := ""
 
-		survey.AskOne(
+		if err := survey.AskOne(
 			&survey.Select{
 				Message: "Which version would you like to install?",
 				Options: options,
 			},
 			&selectedVersion,
-		)
+		); err != nil {
+			return err
+		}
 
 		fmt.Println()
 
-- 
2.43.0


From a61af88fd2a74229eb0b3503e34b250536e0eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 47/65] fix: import: refuse MusicXML that can't be imported
 instead of crashing or hanging

---
 client/interop/musicxml/importer/handlers.go  | 175 +++++++++++++-----
 client/interop/musicxml/importer/importer.go  | 112 +++++++----
 .../interop/musicxml/importer/validation.go   |  67 +++++++
 3 files changed, 274 insertions(+), 80 deletions(-)
 create mode 100644 client/interop/musicxml/importer/validation.go

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index b419111..7b81f1a 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -54,6 +54,16 @@ func init() {
 // handle imports an element by finding and calling its handler
 func handle(element *etree.Element, importer *musicXMLImporter) {
 	if handler, ok := handlers[element.Tag]; ok {
+		switch element.Tag {
+		case "score-part", "part":
+			if importer.currentPart != nil && importer.currentPart.ongoing {
+				refuse(element, "found inside of a part")
+			}
+		default:
+			if importer.currentPart == nil || !importer.currentPart.ongoing {
+				refuse(element, "found outside of a part")
+			}
+		}
 		handler(element, importer)
 	} else {
 		recurseHandler(element, importer)
@@ -101,10 +111,13 @@ func recurseHandler(element *etree.Element, importer *musicXMLImporter) {
 
 func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 	// Create the part
-	id := element.SelectAttr("id")
+	id := requireAttr(element, "id")
+	if _, ok := importer.parts[id]; ok {
+		refuse(element, "there is already a part with id %q", id)
+	}
 
 	part := newMusicXMLPart()
-	importer.parts[id.Value] = part
+	importer.parts[id] = part
 
 	midiInstruments := element.FindElements("midi-instrument")
 	if len(midiInstruments) == 0 {
@@ -116,16 +129,19 @@ func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 		part.instruments = []string{"midi-percussion"}
 
 		// part.alias will be the Alda alias for the midi-percussion instrument
-		part.alias = percussionPartNameToAlias(
-			element.FindElement("part-name").Text(),
-		)
+		if name := element.SelectElement("part-name"); name != nil {
+			part.alias = percussionPartNameToAlias(name.Text())
+		}
 
 		// part.unpitched will be a map that tells us the MIDI pitches for the
 		// midi-percussion instruments
 		for _, instrument := range midiInstruments {
-			instrumentNumber, _ := strconv.ParseInt(
-				instrument.FindElement("midi-unpitched").Text(), 10, 8,
-			)
+			unpitched := instrument.SelectElement("midi-unpitched")
+			if unpitched == nil {
+				continue
+			}
+
+			instrumentNumber := requireInteger(unpitched, 1, 128)
 
 			instrumentId := instrument.SelectAttrValue("id", "")
 
@@ -136,10 +152,16 @@ func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 		// We use midi-program to identify what MIDI instrument is referenced
 		var instrumentIDs []int64
 		for _, instrument := range midiInstruments {
-			instrumentID, _ := strconv.ParseInt(
-				instrument.FindElement("midi-program").Text(), 10, 8,
+			program := instrument.SelectElement("midi-program")
+			if program == nil {
+				// If no program is given, we default to a piano
+				instrumentIDs = append(instrumentIDs, 1)
+				continue
+			}
+
+			instrumentIDs = append(
+				instrumentIDs, requireInteger(program, 1, 128),
 			)
-			instrumentIDs = append(instrumentIDs, instrumentID)
 		}
 
 		var instruments []string
@@ -154,7 +176,7 @@ func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 	// If there is an existing importer part with the same instruments + alias
 	// Then we must make this newer part unique by incorporating id into alias
 	for k, v := range importer.parts {
-		if k != id.Value &&
+		if k != id &&
 			reflect.DeepEqual(v.instruments, part.instruments) &&
 			v.alias == part.alias {
 			addIdToAlias := func(alias string, id string) string {
@@ -165,7 +187,7 @@ func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 				}
 			}
 			v.alias = addIdToAlias(v.alias, k)
-			part.alias = addIdToAlias(part.alias, id.Value)
+			part.alias = addIdToAlias(part.alias, id)
 		}
 	}
 }
@@ -227,18 +249,25 @@ func addBarline(importer *musicXMLImporter) {
 
 func partHandler(element *etree.Element, importer *musicXMLImporter) {
 	// Set current part in importer
-	id := element.SelectAttr("id")
-	part := importer.parts[id.Value]
+	id := requireAttr(element, "id")
+	part, ok := importer.parts[id]
+	if !ok {
+		refuse(element, "there is no <score-part> with id %q", id)
+	}
+	if part.imported {
+		refuse(element, "there is more than one part with id %q", id)
+	}
 	importer.currentPart = part
+	part.imported = true
+	part.ongoing = true
+	defer func() { part.ongoing = false }()
 
 	// Do a pass through all content and create all voices
 	// This is so we can fill these voices with rests and barlines as we import
 	var recursivelyCreateVoices func(element *etree.Element)
 	recursivelyCreateVoices = func(element *etree.Element) {
 		if element.Tag == "voice" {
-			voiceNumber, _ := strconv.ParseInt(element.Text(), 10, 32)
-			voice := newMusicXMLVoice()
-			importer.part().voices[int32(voiceNumber)] = voice
+			part.addVoice(strings.TrimSpace(element.Text()))
 		}
 
 		for _, child := range element.ChildElements() {
@@ -247,7 +276,10 @@ func partHandler(element *etree.Element, importer *musicXMLImporter) {
 	}
 
 	recursivelyCreateVoices(element)
-	importer.currentPart.currentVoice = importer.part().voices[1]
+	if len(part.voices) == 0 {
+		part.addVoice("1")
+	}
+	part.currentVoice = part.voices[part.voiceNumbers()[0]]
 
 	for i, child := range element.ChildElements() {
 		handle(child, importer)
@@ -292,9 +324,8 @@ func measureHandler(element *etree.Element, importer *musicXMLImporter) {
 	for _, child := range element.ChildElements() {
 		// We handle voice switching at the measure level
 		if voice := child.FindElement("voice"); voice != nil {
-			voiceNumber, _ := strconv.ParseInt(voice.Text(), 10, 8)
 			importer.currentPart.currentVoice =
-				importer.part().voices[int32(voiceNumber)]
+				importer.part().addVoice(strings.TrimSpace(voice.Text()))
 
 			// We pad the voice with rests as necessary to align beats
 			padVoiceToPresent(child, importer)
@@ -363,7 +394,10 @@ func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
 
 	// Dealing with conclusion of repeats & endings
 	countEndings := func() int {
-		repeat, _ := importer.findLast(filterType(repeatType))
+		repeat, ni := importer.findLast(filterType(repeatType))
+		if !ni.valid(importer) {
+			refuse(element, "an ending concludes outside of a repeat")
+		}
 		repeatEvents := repeat.(model.Repeat).Event.(model.EventSequence).Events
 
 		count := 0
@@ -399,7 +433,10 @@ func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
 		}}
 
 		// Find the repetition corresponding to this ending
-		_, ni := importer.findLast(filterNestedImportableUpdate)
+		ending, ni := importer.findLast(filterNestedImportableUpdate)
+		if reflect.TypeOf(ending) != repetitionType {
+			refuse(element, "an ending concludes that has not started")
+		}
 		// Set the repetitions
 		importer.modifyAt(
 			ni,
@@ -427,9 +464,12 @@ func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
 		// (1) A normal repeat with no endings
 		maintainRepeatOctaveIntegrity()
 
-		times, _ := strconv.ParseInt(
-			repeat.SelectAttrValue("times", "2"), 10, 8,
+		times, err := strconv.ParseInt(
+			repeat.SelectAttrValue("times", "2"), 10, 32,
 		)
+		if err != nil || times < 1 {
+			refuse(repeat, "%q is not a number of times", repeat.SelectAttrValue("times", ""))
+		}
 
 		if isRepeatOngoing {
 			setRepeatTimes(int32(times))
@@ -468,15 +508,13 @@ func backupHandler(element *etree.Element, importer *musicXMLImporter) {
 	// We assume that we cannot backup to before an existing note in a voice
 	// This is not enforced by MusicXML, but exporters should have no reason to
 	// do this
-	duration, _ := translateDuration(element, importer)
-	importer.part().beats -= getBeats(model.Rest{Duration: duration})
+	importer.part().beats -= durationInBeats(element, importer)
 }
 
 func forwardHandler(element *etree.Element, importer *musicXMLImporter) {
 	// We can handle forward by moving the part-level beats counter forward
 	// This is because when switching voices, we pad to present
-	duration, _ := translateDuration(element, importer)
-	importer.part().beats += getBeats(model.Rest{Duration: duration})
+	importer.part().beats += durationInBeats(element, importer)
 }
 
 func keyHandler(element *etree.Element, importer *musicXMLImporter) {
@@ -489,9 +527,8 @@ func keyHandler(element *etree.Element, importer *musicXMLImporter) {
 		)(element, importer)
 	} else {
 		// traditional-key
-		fifths, _ := strconv.ParseInt(
-			element.FindElement("fifths").Text(), 10, 8,
-		)
+		// No key signature has more than 7 double sharps or double flats
+		fifths := requireInteger(requireChild(element, "fifths"), -14, 14)
 		keySignature := model.KeySignatureFromCircleOfFifths(int(fifths))
 		keySignatureSet := model.AttributeUpdate{
 			PartUpdate: model.KeySignatureSet{KeySignature: keySignature},
@@ -516,14 +553,13 @@ func dynamicsHandler(element *etree.Element, importer *musicXMLImporter) {
 func divisionsHandler(element *etree.Element, importer *musicXMLImporter) {
 	// Due to our management of Alda durations and beats, we do not need to
 	// maintain history for division changes
-	value, _ := strconv.ParseInt(element.Text(), 10, 8)
-	importer.part().divisions = int(value)
+	importer.part().divisions = requireNumber(
+		element, minimumDivisions, maximumDivisions,
+	)
 }
 
 func transposeHandler(element *etree.Element, importer *musicXMLImporter) {
-	semitones, _ := strconv.ParseInt(
-		element.FindElement("chromatic").Text(), 10, 8,
-	)
+	semitones := requireInteger(requireChild(element, "chromatic"), -127, 127)
 
 	transposeSet := model.AttributeUpdate{
 		PartUpdate: model.TranspositionSet{Semitones: int32(semitones)},
@@ -532,6 +568,29 @@ func transposeHandler(element *etree.Element, importer *musicXMLImporter) {
 	importer.appendPartAttrs(transposeSet)
 }
 
+// These are limits on what we accept, far beyond any actual music
+const (
+	minimumDivisions = 1.0 / 1024
+	maximumDivisions = 1 << 24
+	minimumBeats     = 1.0 / 65536
+	maximumBeats     = 16384
+)
+
+// durationInBeats obtains the number of beats (quarter notes) that a MusicXML
+// element with a duration takes
+func durationInBeats(
+	element *etree.Element, importer *musicXMLImporter,
+) float64 {
+	duration := requireNumber(
+		requireChild(element, "duration"), 0, math.MaxFloat64,
+	)
+	beats := duration / importer.part().divisions
+	if beats > maximumBeats || (beats > 0 && beats < minimumBeats) {
+		refuse(element, "a duration of %v beats is not supported", beats)
+	}
+	return beats
+}
+
 // translateDuration translates a MusicXML element with a duration to an Alda
 // duration using the tracked divisions parameter
 func translateDuration(
@@ -546,13 +605,13 @@ func translateDuration(
 	// 2 dot - total duration = 1.75x
 	// This can be represented by sum from i = 0 to i = dots of (1/2)^dots
 	// This is a geometric series with sum (1 - r^(n + 1)) / (1 - r), r = 1/2
-	duration, _ := strconv.ParseFloat(element.FindElement("duration").Text(), 64)
+	beats := durationInBeats(element, importer)
 	if dots > 0 {
 		divisor := (1 - math.Pow(0.5, float64(dots+1))) / 0.5
-		duration = duration / divisor
+		beats = beats / divisor
 	}
 
-	aldaDuration := 4 * float64(importer.currentPart.divisions) / duration
+	aldaDuration := 4 / beats
 	return idiomaticDuration(aldaDuration, dots), aldaDuration
 }
 
@@ -575,6 +634,9 @@ func translateNote(
 		// Cue notes are category (3) as they do not change music sound directly
 		// That being said, we cannot ignore cue notes as they have duration
 		// So we can handle cue notes by using a rest with the same duration
+		if cue == nil {
+			cue = noteType
+		}
 		unsupportedHandler("cue notes", true)(cue, importer)
 		return nil, 0, 0, 0
 	} else if grace := element.FindElement("grace"); grace != nil ||
@@ -582,11 +644,19 @@ func translateNote(
 		// Grace notes are category (2), as they can technically be imported
 		// into Alda by "stealing time"
 		// This is unnecessarily difficult, and is not planned to be handled
+		if grace == nil {
+			grace = noteType
+		}
 		unsupportedHandler("grace notes", false)(grace, importer)
 		return nil, 0, 0, 0
 	}
 
 	// We are dealing with a full note now
+	if durationInBeats(element, importer) == 0 {
+		warnWhileParsing(element, `Found note without a duration. The note will be ignored.`)
+		return nil, 0, 0, 0
+	}
+
 	// We start by obtaining common information
 
 	// Duration
@@ -608,11 +678,16 @@ func translateNote(
 	// A full note can be pitched, unpitched, or a rest
 	if pitch := element.FindElement("pitch"); pitch != nil {
 		// Note letter
-		step := pitch.FindElement("step")
+		step := requireChild(pitch, "step")
 
-		noteLetter, _ := model.NewNoteLetter(
-			[]rune(strings.ToLower(step.Text()))[0],
-		)
+		letter := []rune(strings.ToLower(strings.TrimSpace(step.Text())))
+		if len(letter) != 1 {
+			refuse(step, "%q is not a note letter", step.Text())
+		}
+		noteLetter, err := model.NewNoteLetter(letter[0])
+		if err != nil {
+			refuse(step, "%q is not a note letter", step.Text())
+		}
 
 		// Accidentals
 		var accidentals []model.Accidental
@@ -620,7 +695,8 @@ func translateNote(
 			accidental.Text() == "natural" {
 			accidentals = []model.Accidental{model.Natural}
 		} else if alter := pitch.FindElement("alter"); alter != nil {
-			alterAmount, _ := strconv.ParseInt(alter.Text(), 10, 8)
+			// Microtones can't be represented, so we take the integral part
+			alterAmount := int64(requireNumber(alter, -12, 12))
 
 			var accidental model.Accidental
 			if alterAmount > 0 {
@@ -635,8 +711,7 @@ func translateNote(
 		}
 
 		// Octaves
-		octave := pitch.FindElement("octave")
-		octaveVal, _ := strconv.ParseInt(octave.Text(), 10, 8)
+		octaveVal := requireInteger(requireChild(pitch, "octave"), 0, 9)
 		var octaveUpdates []model.ScoreUpdate
 		octaveDifference := octaveVal - importer.voice().octave
 		if octaveDifference != 0 {
@@ -689,8 +764,10 @@ func translateNote(
 			0
 	} else {
 		// Unpitched note
-		instrument := element.FindElement("instrument")
-		instrumentId := instrument.SelectAttrValue("id", "")
+		instrumentId := ""
+		if instrument := element.SelectElement("instrument"); instrument != nil {
+			instrumentId = instrument.SelectAttrValue("id", "")
+		}
 		if instrumentNumber, ok := importer.part().unpitched[instrumentId]; ok {
 			note := model.Note{
 				Pitch: model.MidiNoteNumber{
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index a8ce6f2..a86b61c 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -4,6 +4,7 @@ import (
 	log "alda.io/client/logging"
 	"fmt"
 	"sort"
+	"strconv"
 
 	"alda.io/client/color"
 	"alda.io/client/help"
@@ -17,12 +18,15 @@ type musicXMLPart struct {
 	instruments []string
 
 	// State
-	divisions int
+	ongoing   bool
+	imported  bool
+	divisions float64
 	beats     float64
 
 	// Imported updates
 	updates      []model.ScoreUpdate
 	voices       map[int32]*musicXMLVoice
+	voiceNames   map[string]int32
 	currentVoice *musicXMLVoice
 
 	// We maintain the following information for unpitched percussion parts
@@ -36,52 +40,88 @@ type musicXMLPart struct {
 
 func newMusicXMLPart() *musicXMLPart {
 	return &musicXMLPart{
-		voices:    make(map[int32]*musicXMLVoice),
-		divisions: 1, // Divisions for a part are set in the first measure
-		beats:     0,
-		unpitched: make(map[string]int32),
-		alias:     "",
-		opt:       newOptimizer(),
+		voices:     make(map[int32]*musicXMLVoice),
+		voiceNames: make(map[string]int32),
+		divisions:  1, // Divisions for a part are set in the first measure
+		beats:      0,
+		unpitched:  make(map[string]int32),
+		alias:      "",
+		opt:        newOptimizer(),
 	}
 }
 
+// voiceNumbers returns the numbers of the part's voices in ascending order
+func (part *musicXMLPart) voiceNumbers() []int32 {
+	var voiceNumbers []int32
+	for voiceNumber := range part.voices {
+		voiceNumbers = append(voiceNumbers, voiceNumber)
+	}
+	sort.Slice(voiceNumbers, func(i, j int) bool {
+		return voiceNumbers[i] < voiceNumbers[j]
+	})
+	return voiceNumbers
+}
+
+// addVoice creates a voice for the contents of a <voice> element
+// A MusicXML voice is a string, but it's usually a number, which we preserve
+func (part *musicXMLPart) addVoice(name string) *musicXMLVoice {
+	if number, ok := part.voiceNames[name]; ok {
+		return part.voices[number]
+	}
+
+	number := int32(0)
+	if parsed, err := strconv.ParseInt(name, 10, 32); err == nil && parsed > 0 {
+		number = int32(parsed)
+	}
+	if _, taken := part.voices[number]; taken || number == 0 {
+		for number = 1; part.voices[number] != nil; number++ {
+		}
+	}
+
+	part.voiceNames[name] = number
+	part.voices[number] = newMusicXMLVoice()
+	return part.voices[number]
+}
+
 func (part *musicXMLPart) collapseVoices(end bool) {
-	if len(part.voices) == 1 {
+	if len(part.voices) == 0 {
+		// There is a <score-part>, but no <part> with music
+		return
+	} else if len(part.voices) == 1 {
 		// For a single voice, we don't include a voice marker
 		if !part.currentVoice.isEffectivelyEmpty() {
 			part.updates = append(part.updates,
 				part.opt.optimize(part.currentVoice.getScoreUpdates())...,
 			)
-			part.voices[1] = newMusicXMLVoice()
-			part.voices[1].octave = -1 // force re-setting of octave
+			voiceNumber := part.voiceNumbers()[0]
+			part.voices[voiceNumber] = newMusicXMLVoice()
+			part.voices[voiceNumber].octave = -1 // force re-setting of octave
+			part.currentVoice = part.voices[voiceNumber]
 			part.beats = 0
 		}
 	} else {
 		// Process voices in order of voice number
-		var voiceNumber int32 = 1
 		anyVoiceUpdates := false
-		for voicesLeft := len(part.voices); voicesLeft > 0; voiceNumber++ {
-			if voice, ok := part.voices[voiceNumber]; ok {
-				voiceMarker := model.VoiceMarker{
-					VoiceNumber: voiceNumber,
-				}
-				if !voice.isEffectivelyEmpty() {
-					anyVoiceUpdates = true
-					part.updates = append(part.updates,
-						voiceMarker,
-					)
-					part.updates = append(part.updates,
-						part.opt.optimize(voice.getScoreUpdates())...,
-					)
-					part.voices[voiceNumber] = newMusicXMLVoice()
-					part.voices[voiceNumber].octave = -1
-				}
-				voicesLeft--
+		for _, voiceNumber := range part.voiceNumbers() {
+			voice := part.voices[voiceNumber]
+			voiceMarker := model.VoiceMarker{
+				VoiceNumber: voiceNumber,
+			}
+			if !voice.isEffectivelyEmpty() {
+				anyVoiceUpdates = true
+				part.updates = append(part.updates,
+					voiceMarker,
+				)
+				part.updates = append(part.updates,
+					part.opt.optimize(voice.getScoreUpdates())...,
+				)
+				part.voices[voiceNumber] = newMusicXMLVoice()
+				part.voices[voiceNumber].octave = -1
 			}
 		}
 
 		if anyVoiceUpdates {
-			part.currentVoice = part.voices[1]
+			part.currentVoice = part.voices[part.voiceNumbers()[0]]
 			part.beats = 0
 			if end {
 				part.updates = append(part.updates, model.VoiceGroupEndMarker{})
@@ -407,10 +447,20 @@ func findLastWithStateRecursive(
 
 // ImportMusicXML translates a MusicXML file into Alda score updates
 // ImportMusicXML requires valid MusicXML with a "score-partwise" root tag
-func ImportMusicXML(b []byte) ([]model.ScoreUpdate, error) {
+func ImportMusicXML(b []byte) (updates []model.ScoreUpdate, err error) {
+	defer func() {
+		if problem := recover(); problem != nil {
+			invalid, ok := problem.(invalidInput)
+			if !ok {
+				panic(problem)
+			}
+			updates, err = nil, help.UserFacingErrorf("%s.", invalid.message)
+		}
+	}()
+
 	doc := etree.NewDocument()
 
-	err := doc.ReadFromBytes(b)
+	err = doc.ReadFromBytes(b)
 	if err != nil {
 		return nil, help.UserFacingErrorf(
 			"Failed to read from input: %s.", err.Error(),
diff --git a/client/interop/musicxml/importer/validation.go b/client/interop/musicxml/importer/validation.go
new file mode 100644
index 0000000..6d9c82f
--- /dev/null
+++ b/client/interop/musicxml/importer/validation.go
@@ -0,0 +1,67 @@
+package importer
+
+import (
+	"fmt"
+	"math"
+	"strconv"
+	"strings"
+
+	"alda.io/client/color"
+	"github.com/beevik/etree"
+)
+
+// invalidInput is a problem with a MusicXML document that makes it impossible
+// to import it. The handlers report one by panicking with it, and
+// ImportMusicXML presents it to the user as an error.
+type invalidInput struct {
+	message string
+}
+
+// refuse ends the import because of a problem with an element
+func refuse(element *etree.Element, format string, args ...interface{}) {
+	panic(invalidInput{message: fmt.Sprintf(
+		"Issue importing MusicXML: %s: %s",
+		color.Aurora.BrightYellow("<"+element.Tag+">"),
+		fmt.Sprintf(format, args...),
+	)})
+}
+
+// requireAttr returns the value of an attribute that an element has to have
+func requireAttr(element *etree.Element, key string) string {
+	attr := element.SelectAttr(key)
+	if attr == nil {
+		refuse(element, "missing attribute %q", key)
+	}
+	return attr.Value
+}
+
+// requireChild returns a child that an element has to have
+func requireChild(element *etree.Element, tag string) *etree.Element {
+	child := element.SelectElement(tag)
+	if child == nil {
+		refuse(element, "missing element <%s>", tag)
+	}
+	return child
+}
+
+// requireNumber returns the text of an element, which has to be a number from
+// min to max
+func requireNumber(element *etree.Element, min float64, max float64) float64 {
+	text := strings.TrimSpace(element.Text())
+	value, err := strconv.ParseFloat(text, 64)
+	if err != nil || math.IsNaN(value) || value < min || value > max {
+		refuse(element, "%q is not a number from %v to %v", text, min, max)
+	}
+	return value
+}
+
+// requireInteger returns the text of an element, which has to be an integer
+// from min to max
+func requireInteger(element *etree.Element, min int64, max int64) int64 {
+	text := strings.TrimSpace(element.Text())
+	value, err := strconv.ParseInt(text, 10, 64)
+	if err != nil || value < min || value > max {
+		refuse(element, "%q is not an integer from %d to %d", text, min, max)
+	}
+	return value
+}
-- 
2.43.0


From 0030ed754e940ed732c92bf4b22c7f27488575c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 48/65] fix: import: keep voices of a MusicXML part in step

---
 client/interop/musicxml/importer/handlers.go | 35 ++++++++++++++++----
 client/interop/musicxml/importer/importer.go | 15 ++++++---
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 7b81f1a..aa9cc4b 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -268,6 +268,10 @@ func partHandler(element *etree.Element, importer *musicXMLImporter) {
 	recursivelyCreateVoices = func(element *etree.Element) {
 		if element.Tag == "voice" {
 			part.addVoice(strings.TrimSpace(element.Text()))
+		} else if element.Tag == "note" &&
+			element.SelectElement("voice") == nil &&
+			element.SelectElement("chord") == nil {
+			part.addVoice(defaultVoice)
 		}
 
 		for _, child := range element.ChildElements() {
@@ -277,17 +281,19 @@ func partHandler(element *etree.Element, importer *musicXMLImporter) {
 
 	recursivelyCreateVoices(element)
 	if len(part.voices) == 0 {
-		part.addVoice("1")
+		part.addVoice(defaultVoice)
 	}
 	part.currentVoice = part.voices[part.voiceNumbers()[0]]
 
 	for i, child := range element.ChildElements() {
 		handle(child, importer)
 		// Between each measure, we do cleanup
-		for _, voice := range importer.part().voices {
+		// The next measure starts after the furthest position of any voice
+		part.moveTo(part.furthest)
+		for _, voiceNumber := range part.voiceNumbers() {
 			// We pad each voice with rests
 			// This is because we can never backup to before a measure
-			importer.currentPart.currentVoice = voice
+			part.currentVoice = part.voices[voiceNumber]
 			padVoiceToPresent(child, importer)
 
 			// We add barlines to create more idiomatic Alda
@@ -295,13 +301,16 @@ func partHandler(element *etree.Element, importer *musicXMLImporter) {
 				addBarline(importer)
 			}
 		}
+		part.currentVoice = part.voices[part.voiceNumbers()[0]]
 	}
 }
 
 // padVoiceToPresent fills the current voice with rests to catch up to the
 // current beats counter
 func padVoiceToPresent(element *etree.Element, importer *musicXMLImporter) {
-	beatDifference := importer.part().beats - importer.voice().beats
+	beatDifference := roundIfCloseEnough(
+		importer.part().beats - importer.voice().beats,
+	)
 
 	if beatDifference < 0 {
 		// We make an assumption that this cannot happen
@@ -316,10 +325,12 @@ func padVoiceToPresent(element *etree.Element, importer *musicXMLImporter) {
 		importer.append(model.Rest{
 			Duration: idiomaticDuration(4/beatDifference, 0),
 		})
-		importer.voice().beats += beatDifference
 	}
 }
 
+// defaultVoice is the voice of notes that don't specify one
+const defaultVoice = "1"
+
 func measureHandler(element *etree.Element, importer *musicXMLImporter) {
 	for _, child := range element.ChildElements() {
 		// We handle voice switching at the measure level
@@ -329,6 +340,10 @@ func measureHandler(element *etree.Element, importer *musicXMLImporter) {
 
 			// We pad the voice with rests as necessary to align beats
 			padVoiceToPresent(child, importer)
+		} else if child.Tag == "note" && child.SelectElement("chord") == nil {
+			importer.currentPart.currentVoice =
+				importer.part().addVoice(defaultVoice)
+			padVoiceToPresent(child, importer)
 		}
 		handle(child, importer)
 	}
@@ -508,13 +523,15 @@ func backupHandler(element *etree.Element, importer *musicXMLImporter) {
 	// We assume that we cannot backup to before an existing note in a voice
 	// This is not enforced by MusicXML, but exporters should have no reason to
 	// do this
-	importer.part().beats -= durationInBeats(element, importer)
+	part := importer.part()
+	part.moveTo(part.beats - durationInBeats(element, importer))
 }
 
 func forwardHandler(element *etree.Element, importer *musicXMLImporter) {
 	// We can handle forward by moving the part-level beats counter forward
 	// This is because when switching voices, we pad to present
-	importer.part().beats += durationInBeats(element, importer)
+	part := importer.part()
+	part.moveTo(part.beats + durationInBeats(element, importer))
 }
 
 func keyHandler(element *etree.Element, importer *musicXMLImporter) {
@@ -801,6 +818,10 @@ func translateNote(
 }
 
 func noteHandler(element *etree.Element, importer *musicXMLImporter) {
+	defer func() {
+		importer.part().moveTo(importer.voice().beats)
+	}()
+
 	noteUpdates, newOctave, _, slurChange := translateNote(
 		element, importer,
 	)
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index a86b61c..5a5f25c 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -3,6 +3,7 @@ package importer
 import (
 	log "alda.io/client/logging"
 	"fmt"
+	"math"
 	"sort"
 	"strconv"
 
@@ -22,6 +23,7 @@ type musicXMLPart struct {
 	imported  bool
 	divisions float64
 	beats     float64
+	furthest  float64
 
 	// Imported updates
 	updates      []model.ScoreUpdate
@@ -83,6 +85,12 @@ func (part *musicXMLPart) addVoice(name string) *musicXMLVoice {
 	return part.voices[number]
 }
 
+// moveTo moves the part-level beats counter
+func (part *musicXMLPart) moveTo(beats float64) {
+	part.beats = roundIfCloseEnough(beats)
+	part.furthest = math.Max(part.furthest, part.beats)
+}
+
 func (part *musicXMLPart) collapseVoices(end bool) {
 	if len(part.voices) == 0 {
 		// There is a <score-part>, but no <part> with music
@@ -98,6 +106,7 @@ func (part *musicXMLPart) collapseVoices(end bool) {
 			part.voices[voiceNumber].octave = -1 // force re-setting of octave
 			part.currentVoice = part.voices[voiceNumber]
 			part.beats = 0
+			part.furthest = 0
 		}
 	} else {
 		// Process voices in order of voice number
@@ -123,6 +132,7 @@ func (part *musicXMLPart) collapseVoices(end bool) {
 		if anyVoiceUpdates {
 			part.currentVoice = part.voices[part.voiceNumbers()[0]]
 			part.beats = 0
+			part.furthest = 0
 			if end {
 				part.updates = append(part.updates, model.VoiceGroupEndMarker{})
 			}
@@ -296,10 +306,7 @@ func (importer *musicXMLImporter) setAll(newUpdates []model.ScoreUpdate) {
 
 func (importer *musicXMLImporter) recountBeats() {
 	beats := getBeats(importer.voice().updates...)
-	beats = roundIfCloseEnough(beats)
-
-	importer.part().beats = beats
-	importer.voice().beats = beats
+	importer.voice().beats = roundIfCloseEnough(beats)
 }
 
 // modifyAt modifies an update at a specific nestedIndex
-- 
2.43.0


From ad651ebb6142199426a63999ff5c191d80e9c3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:34 +0000
Subject: [PATCH 49/65] fix: import: MusicXML repeats, endings and octaves
 across voices and sections

---
 client/interop/musicxml/importer/handlers.go  | 225 +++++++++++++-----
 client/interop/musicxml/importer/importer.go  |  22 +-
 client/interop/musicxml/importer/optimizer.go |  22 +-
 3 files changed, 205 insertions(+), 64 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index aa9cc4b..3a9e65b 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -322,6 +322,7 @@ func padVoiceToPresent(element *etree.Element, importer *musicXMLImporter) {
 	} else if beatDifference > 0 {
 		// We update without using append and moving the part-level beats here
 		// This is because we pad the voice to "catch up", not move forwards
+		importer.concludeEndings()
 		importer.append(model.Rest{
 			Duration: idiomaticDuration(4/beatDifference, 0),
 		})
@@ -367,14 +368,43 @@ func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
 		repeatDirection = repeat.SelectAttrValue("direction", "")
 	}
 
-	importTo, _ := importer.findLast(filterNestedImportableUpdate)
-	isRepeatOngoing := reflect.TypeOf(importTo) == repeatType
-
 	// No significant barline attributes, just continue
 	if ending == nil && repeat == nil {
 		return
 	}
 
+	// Repeats and endings apply to all of the part's voices
+	part := importer.part()
+	currentVoice := part.currentVoice
+	defer func() { part.currentVoice = currentVoice }()
+
+	if element.SelectAttrValue("location", "right") == "right" {
+		// The barline is where the measure ends
+		part.moveTo(part.furthest)
+	}
+
+	for _, voiceNumber := range part.voiceNumbers() {
+		part.currentVoice = part.voices[voiceNumber]
+		padVoiceToPresent(element, importer)
+		handleRepeatOrEnding(
+			element, importer, ending, endingType, repeat, repeatDirection,
+		)
+	}
+}
+
+// handleRepeatOrEnding applies a barline's repeat and ending to the current
+// voice
+func handleRepeatOrEnding(
+	element *etree.Element,
+	importer *musicXMLImporter,
+	ending *etree.Element,
+	endingType string,
+	repeat *etree.Element,
+	repeatDirection string,
+) {
+	importTo, _ := importer.findLast(filterNestedImportableUpdate)
+	isRepeatOngoing := reflect.TypeOf(importTo) == repeatType
+
 	// Dealing with start of repeats & endings
 	startRepeat := func() {
 		importer.voice().sectionStartOctave = importer.voice().octave
@@ -386,6 +416,12 @@ func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
 		importer.append(model.OnRepetitions{Event: model.EventSequence{}})
 	}
 
+	if endingType != "start" || repeatDirection == "forward" {
+		importer.concludeEndings()
+		importTo, _ = importer.findLast(filterNestedImportableUpdate)
+		isRepeatOngoing = reflect.TypeOf(importTo) == repeatType
+	}
+
 	if ending == nil && repeatDirection == "forward" {
 		// (1) Repeat starting (no ending start)
 		startRepeat()
@@ -396,35 +432,23 @@ func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
 	} else if endingType == "start" && !isRepeatOngoing {
 		// (3) First ending start, no repeat yet
 		// We have to build the repeat
-		repeatUpdate := model.Repeat{Event: model.EventSequence{
-			Events: importer.flatUpdates(),
-		}}
-
-		importer.setAll([]model.ScoreUpdate{repeatUpdate})
+		if reflect.TypeOf(importTo) == repetitionType {
+			refuse(element, "an ending starts within another ending")
+		}
+		importer.repeatSection()
 		startEnding()
 	} else if endingType == "start" && isRepeatOngoing {
-		// (4) Ending starting, but already have repeat and previous ending
-		importer.append(model.OnRepetitions{Event: model.EventSequence{}})
+		// (4) Ending starting, repeat already started
+		startEnding()
 	}
 
 	// Dealing with conclusion of repeats & endings
-	countEndings := func() int {
-		repeat, ni := importer.findLast(filterType(repeatType))
-		if !ni.valid(importer) {
-			refuse(element, "an ending concludes outside of a repeat")
-		}
-		repeatEvents := repeat.(model.Repeat).Event.(model.EventSequence).Events
-
-		count := 0
-		for _, update := range repeatEvents {
-			if reflect.TypeOf(update) == repetitionType {
-				count++
-			}
+	maintainRepeatOctaveIntegrity := func() {
+		if importer.voice().sectionStartOctave == unknownOctave {
+			// The first note of the section sets its octave each time
+			return
 		}
-		return count
-	}
 
-	maintainRepeatOctaveIntegrity := func() {
 		for importer.voice().octave > importer.voice().sectionStartOctave {
 			importer.append(
 				model.AttributeUpdate{PartUpdate: model.OctaveDown{}},
@@ -441,17 +465,19 @@ func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
 	}
 
 	setEndingRepetitions := func() {
-		endingNumber := countEndings()
-		repetitionRange := []model.RepetitionRange{{
-			First: int32(endingNumber),
-			Last:  int32(endingNumber),
-		}}
-
 		// Find the repetition corresponding to this ending
-		ending, ni := importer.findLast(filterNestedImportableUpdate)
-		if reflect.TypeOf(ending) != repetitionType {
+		last, ni := importer.findLast(filterNestedImportableUpdate)
+		if reflect.TypeOf(last) != repetitionType {
 			refuse(element, "an ending concludes that has not started")
 		}
+
+		parent, _ := importer.findLast(filterType(repeatType))
+		repeat, ok := parent.(model.Repeat)
+		if !ok {
+			refuse(element, "an ending concludes outside of a repeat")
+		}
+		repetitionRange := endingRepetitions(ending, repeat)
+
 		// Set the repetitions
 		importer.modifyAt(
 			ni,
@@ -463,18 +489,6 @@ func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
 		)
 	}
 
-	setRepeatTimes := func(times int32) {
-		_, ni := importer.findLast(filterType(repeatType))
-		importer.modifyAt(
-			ni,
-			func(update model.ScoreUpdate) model.ScoreUpdate {
-				repeat := update.(model.Repeat)
-				repeat.Times = times
-				return repeat
-			},
-		)
-	}
-
 	if ending == nil && repeatDirection == "backward" {
 		// (1) A normal repeat with no endings
 		maintainRepeatOctaveIntegrity()
@@ -486,25 +500,20 @@ func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
 			refuse(repeat, "%q is not a number of times", repeat.SelectAttrValue("times", ""))
 		}
 
-		if isRepeatOngoing {
-			setRepeatTimes(int32(times))
-		} else {
-			// We have to create the repeat with all the existing score updates
-			repeatUpdate := model.Repeat{
-				Event: model.EventSequence{
-					Events: importer.flatUpdates(),
-				},
-			}
-			importer.setAll([]model.ScoreUpdate{repeatUpdate})
-			setRepeatTimes(int32(times))
+		if reflect.TypeOf(importTo) == repetitionType {
+			refuse(element, "a repeat concludes within an ending")
+		}
+		if !isRepeatOngoing {
+			importer.repeatSection()
 		}
+		importer.concludeRepeat(int32(times))
 	} else if endingType == "stop" && repeat == nil {
 		// (2) Only an ending is concluding, but not a repeat
 		// This means this is the last ending in a repeated section
 		// Note how we don't have to maintain any octave information because
 		// we just continue on playing after this point
 		setEndingRepetitions()
-		setRepeatTimes(int32(countEndings()))
+		importer.concludeRepeat(0)
 	} else if endingType == "stop" && repeatDirection == "backward" {
 		// (3) Both ending and repeat concluding
 		// This means this is not the last ending
@@ -518,6 +527,99 @@ func barlineHandler(element *etree.Element, importer *musicXMLImporter) {
 	}
 }
 
+// endingRepetitions returns the repetitions in which an ending is played
+func endingRepetitions(
+	ending *etree.Element, repeat model.Repeat,
+) []model.RepetitionRange {
+	var repetitions []model.RepetitionRange
+
+	if strings.TrimSpace(ending.SelectAttrValue("number", "")) == "" {
+		// The ending's number isn't given, so it's the one that comes next
+		times, _ := endingsTimes(repeat)
+		return append(
+			repetitions, model.RepetitionRange{First: times + 1, Last: times + 1},
+		)
+	}
+
+	for _, number := range strings.Split(requireAttr(ending, "number"), ",") {
+		value, err := strconv.ParseInt(strings.TrimSpace(number), 10, 16)
+		if err != nil || value < 1 {
+			refuse(ending, "%q is not the number of an ending", number)
+		}
+		repetitions = append(repetitions, model.RepetitionRange{
+			First: int32(value),
+			Last:  int32(value),
+		})
+	}
+	return repetitions
+}
+
+// endingsTimes returns how many times a repeat is played according to its
+// endings, as well as whether it has endings and they have all concluded
+func endingsTimes(repeat model.Repeat) (times int32, concluded bool) {
+	for _, update := range repeat.Event.(model.EventSequence).Events {
+		switch value := update.(type) {
+		case model.OnRepetitions:
+			concluded = len(value.Repetitions) > 0
+			for _, repetitionRange := range value.Repetitions {
+				if repetitionRange.Last > times {
+					times = repetitionRange.Last
+				}
+			}
+		}
+	}
+	return times, concluded
+}
+
+// repeatSection starts a repeat that contains everything since the last repeat
+func (importer *musicXMLImporter) repeatSection() {
+	updates := importer.flatUpdates()
+	start := 0
+	for i, update := range updates {
+		if reflect.TypeOf(update) == repeatType {
+			start = i + 1
+		}
+	}
+
+	section := append([]model.ScoreUpdate{}, updates[start:]...)
+	importer.setAll(append(
+		append([]model.ScoreUpdate{}, updates[:start]...),
+		model.Repeat{Event: model.EventSequence{Events: section}},
+	))
+}
+
+// concludeRepeat concludes the ongoing repeat, which is played a number of
+// times, or if that is 0, as many times as its endings specify
+func (importer *musicXMLImporter) concludeRepeat(times int32) {
+	_, ni := importer.findLast(filterNestedImportableUpdate)
+	importer.modifyAt(
+		ni,
+		func(update model.ScoreUpdate) model.ScoreUpdate {
+			repeat := update.(model.Repeat)
+			if times == 0 {
+				times, _ = endingsTimes(repeat)
+			}
+			repeat.Times = times
+			return repeat
+		},
+	)
+	importer.voice().sectionStartOctave = importer.voice().octave
+}
+
+// concludeEndings concludes the ongoing repeat if the music continues after
+// its last ending, in case that ending is followed by a repeat sign as well
+func (importer *musicXMLImporter) concludeEndings() {
+	last, _ := importer.findLast(filterNestedImportableUpdate)
+	repeat, ok := last.(model.Repeat)
+	if !ok {
+		return
+	}
+	if _, concluded := endingsTimes(repeat); concluded {
+		importer.voice().octave = importer.voice().sectionStartOctave
+		importer.concludeRepeat(0)
+	}
+}
+
 func backupHandler(element *etree.Element, importer *musicXMLImporter) {
 	// We can handle backup by moving the part-level beats counter back
 	// We assume that we cannot backup to before an existing note in a voice
@@ -558,6 +660,7 @@ func keyHandler(element *etree.Element, importer *musicXMLImporter) {
 func dynamicsHandler(element *etree.Element, importer *musicXMLImporter) {
 	for _, marking := range element.ChildElements() {
 		if _, ok := model.DynamicVolumes[marking.Tag]; ok {
+			importer.concludeEndings()
 			importer.append(model.AttributeUpdate{
 				PartUpdate: model.DynamicMarking{Marking: marking.Tag},
 			})
@@ -732,7 +835,8 @@ func translateNote(
 		var octaveUpdates []model.ScoreUpdate
 		octaveDifference := octaveVal - importer.voice().octave
 		if octaveDifference != 0 {
-			if len(importer.voice().getScoreUpdates()) == 0 {
+			if len(importer.voice().getScoreUpdates()) == 0 ||
+				importer.voice().octave == unknownOctave {
 				// If this is the first note, we will use an octave set
 				octaveUpdates = []model.ScoreUpdate{model.AttributeUpdate{
 					PartUpdate: model.OctaveSet{OctaveNumber: int32(octaveVal)},
@@ -818,6 +922,7 @@ func translateNote(
 }
 
 func noteHandler(element *etree.Element, importer *musicXMLImporter) {
+	importer.concludeEndings()
 	defer func() {
 		importer.part().moveTo(importer.voice().beats)
 	}()
@@ -832,6 +937,10 @@ func noteHandler(element *etree.Element, importer *musicXMLImporter) {
 	updateImporterState := func() {
 		importer.voice().octave = newOctave
 		importer.voice().slurs += slurChange
+		if importer.voice().slurs < 0 {
+			// The slur that stops here has started in another voice
+			importer.voice().slurs = 0
+		}
 	}
 
 	// We obtain part-level attributes that must be handled separately
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index 5a5f25c..7bfaa98 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -102,8 +102,7 @@ func (part *musicXMLPart) collapseVoices(end bool) {
 				part.opt.optimize(part.currentVoice.getScoreUpdates())...,
 			)
 			voiceNumber := part.voiceNumbers()[0]
-			part.voices[voiceNumber] = newMusicXMLVoice()
-			part.voices[voiceNumber].octave = -1 // force re-setting of octave
+			part.voices[voiceNumber] = part.voices[voiceNumber].continued()
 			part.currentVoice = part.voices[voiceNumber]
 			part.beats = 0
 			part.furthest = 0
@@ -124,12 +123,13 @@ func (part *musicXMLPart) collapseVoices(end bool) {
 				part.updates = append(part.updates,
 					part.opt.optimize(voice.getScoreUpdates())...,
 				)
-				part.voices[voiceNumber] = newMusicXMLVoice()
-				part.voices[voiceNumber].octave = -1
 			}
 		}
 
 		if anyVoiceUpdates {
+			for voiceNumber, voice := range part.voices {
+				part.voices[voiceNumber] = voice.continued()
+			}
 			part.currentVoice = part.voices[part.voiceNumbers()[0]]
 			part.beats = 0
 			part.furthest = 0
@@ -183,6 +183,20 @@ func newMusicXMLVoice() *musicXMLVoice {
 	}
 }
 
+// unknownOctave forces the next note to set its octave
+const unknownOctave = -1
+
+// continued returns what continues a voice once its updates so far have been
+// taken over by the part
+func (voice *musicXMLVoice) continued() *musicXMLVoice {
+	continued := newMusicXMLVoice()
+	continued.slurs = voice.slurs
+	continued.octave = unknownOctave
+	continued.sectionStartOctave = unknownOctave
+	continued.endingStartOctave = unknownOctave
+	return continued
+}
+
 func (voice *musicXMLVoice) getScoreUpdates() []model.ScoreUpdate {
 	return voice.updates[0].(model.EventSequence).Events
 }
diff --git a/client/interop/musicxml/importer/optimizer.go b/client/interop/musicxml/importer/optimizer.go
index 3969663..3791057 100644
--- a/client/interop/musicxml/importer/optimizer.go
+++ b/client/interop/musicxml/importer/optimizer.go
@@ -254,10 +254,28 @@ func (opt *optimizer) handleUnfinishedRepeats(
 	modify := func(update model.ScoreUpdate) model.ScoreUpdate {
 		switch r := update.(type) {
 		case model.Repeat:
-			if r.Times == 0 {
-				r.Times = 1
+			if r.Times != 0 {
 				return r
 			}
+
+			// An ending that is not closed is the one after those before it
+			events := r.Event.(model.EventSequence).Events
+			for i, event := range events {
+				ending, ok := event.(model.OnRepetitions)
+				if ok && len(ending.Repetitions) == 0 {
+					times, _ := endingsTimes(r)
+					ending.Repetitions = []model.RepetitionRange{
+						{First: times + 1, Last: times + 1},
+					}
+					events[i] = ending
+				}
+			}
+
+			r.Times = 1
+			if times, _ := endingsTimes(r); times > 0 {
+				r.Times = times
+			}
+			return r
 		}
 		return update
 	}
-- 
2.43.0


From 47448c2ec242a999496d70d2668262b2515199f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:53 +0000
Subject: [PATCH 50/65] fix: import: ties of only some of a MusicXML chord's
 notes

---
 client/interop/musicxml/importer/handlers.go  | 311 +++++++++++-------
 client/interop/musicxml/importer/importer.go  |  29 +-
 .../interop/musicxml/importer/nested_index.go |  11 -
 3 files changed, 214 insertions(+), 137 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 3a9e65b..fec1f32 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -407,11 +407,13 @@ func handleRepeatOrEnding(
 
 	// Dealing with start of repeats & endings
 	startRepeat := func() {
+		importer.voice().forgetTies()
 		importer.voice().sectionStartOctave = importer.voice().octave
 		importer.append(model.Repeat{Event: model.EventSequence{}})
 	}
 
 	startEnding := func() {
+		importer.voice().forgetTies()
 		importer.voice().endingStartOctave = importer.voice().octave
 		importer.append(model.OnRepetitions{Event: model.EventSequence{}})
 	}
@@ -507,6 +509,7 @@ func handleRepeatOrEnding(
 			importer.repeatSection()
 		}
 		importer.concludeRepeat(int32(times))
+		importer.voice().forgetTies()
 	} else if endingType == "stop" && repeat == nil {
 		// (2) Only an ending is concluding, but not a repeat
 		// This means this is the last ending in a repeated section
@@ -520,6 +523,7 @@ func handleRepeatOrEnding(
 		maintainRepeatOctaveIntegrity()
 
 		setEndingRepetitions()
+		importer.voice().forgetTies()
 
 		// Set the current octave manually to the ending start octave
 		// This is because when going to an ending we skip previous endings
@@ -923,10 +927,19 @@ func translateNote(
 
 func noteHandler(element *etree.Element, importer *musicXMLImporter) {
 	importer.concludeEndings()
+
 	defer func() {
 		importer.part().moveTo(importer.voice().beats)
 	}()
 
+	// We obtain part-level attributes that must be handled separately
+	isChord := element.FindElement("chord") != nil
+	voice := importer.voice()
+	if !isChord {
+		voice.groupStart = voice.beats
+		voice.groupTied = false
+	}
+
 	noteUpdates, newOctave, _, slurChange := translateNote(
 		element, importer,
 	)
@@ -934,138 +947,78 @@ func noteHandler(element *etree.Element, importer *musicXMLImporter) {
 		return
 	}
 
-	updateImporterState := func() {
-		importer.voice().octave = newOctave
-		importer.voice().slurs += slurChange
-		if importer.voice().slurs < 0 {
+	updateSlurs := func() {
+		voice.slurs += slurChange
+		if voice.slurs < 0 {
 			// The slur that stops here has started in another voice
-			importer.voice().slurs = 0
+			voice.slurs = 0
 		}
 	}
 
-	// We obtain part-level attributes that must be handled separately
-	isChord := element.FindElement("chord") != nil
+	updateImporterState := func() {
+		voice.octave = newOctave
+		updateSlurs()
+	}
 
-	isTieStop := false
+	isTieStart, isTieStop := false, false
 	for _, tie := range element.FindElements("tie") {
-		if tie.SelectAttrValue("type", "") == "stop" {
+		switch tie.SelectAttrValue("type", "") {
+		case "start":
+			isTieStart = true
+		case "stop":
 			isTieStop = true
 		}
 	}
-	if reflect.TypeOf(noteUpdates[len(noteUpdates)-1]) != noteType {
-		// rests cannot be tied
-		isTieStop = false
-	}
-
-	if isTieStop {
-		// In MusicXML, a tied note is represented by tie start & stop tags
-		// A note with a tie stop tag is tied to the previous note with the
-		// same pitch. So we start by finding this previous note
-		note := noteUpdates[len(noteUpdates)-1].(model.Note)
-
-		getOctaveChange := func(update model.ScoreUpdate) int64 {
-			if reflect.TypeOf(update) == attributeUpdateType {
-				switch update.(model.AttributeUpdate).PartUpdate.(type) {
-				case model.OctaveUp:
-					// We need to reverse the octave change
-					// Note we ignore OctaveSet's because we should really never
-					// be searching for ties between when they are generated
-					return -1
-				case model.OctaveDown:
-					return 1
-				}
-			}
-			return 0
-		}
 
-		tieStart, tieStartNI, _ := importer.findLastWithState(
-			func(update model.ScoreUpdate, state interface{}) bool {
-				switch value := update.(type) {
-				case model.Note:
-					switch pitch := value.Pitch.(type) {
-					case model.LetterAndAccidentals:
-						laa, ok := note.Pitch.(model.LetterAndAccidentals)
-						if !ok {
-							return false
-						}
-						octave := state.(int64)
-						return octave == newOctave &&
-							pitch.NoteLetter == laa.NoteLetter
-					case model.MidiNoteNumber:
-						return deep.Equal(pitch, note.Pitch) == nil
-					default:
-						return false
-					}
-				default:
-					return false
-				}
-			},
-			importer.voice().octave,
-			func(update model.ScoreUpdate, state interface{}) interface{} {
-				return state.(int64) + getOctaveChange(update)
-			},
-		)
+	note, ok := noteUpdates[len(noteUpdates)-1].(model.Note)
+	if !ok {
+		// rests cannot be tied
+		isTieStart, isTieStop = false, false
+	}
+	pitch := tiePitch{octave: newOctave}
+	switch identifier := note.Pitch.(type) {
+	case model.LetterAndAccidentals:
+		pitch.noteLetter = identifier.NoteLetter
+	case model.MidiNoteNumber:
+		pitch = tiePitch{midiNote: identifier.MidiNote}
+	}
 
-		if !tieStartNI.valid(importer) {
-			// We ignore a note if we can't find the start of the tie
-			warnWhileParsing(element, `cannot find start of tie`)
-			return
-		}
+	// In MusicXML, a tied note is represented by tie start & stop tags
+	// A note with a tie stop tag is tied to the note with the same pitch that
+	// has the corresponding tie start tag
+	tieEnd, isTied := voice.ties[pitch]
+	isTied = isTied && isTieStop
+	delete(voice.ties, pitch)
+	if isTieStart {
+		voice.ties[pitch] = voice.groupStart +
+			getBeats(model.Note{Duration: note.Duration})
+	}
 
+	if isTied && math.Abs(tieEnd-voice.groupStart) > 0.001 {
 		// A note can be tied to a previous note even if there is a gap
 		// between them. In this case, the second note is not logical
 		// so we will ignore it when importing to Alda
-		// To detect this gap, we use the fact that MusicXML restricts notes
-		// in a chord to all have the same duration
-		// Then we can find the last update with a duration, and compare its
-		// index with our tie start index
-		_, lastDurationNI := importer.findLast(filterUpdateWithDuration)
-		indexDiff := lastDiff(lastDurationNI, tieStartNI)
-
-		var isAdjacentTie bool
-		if isChord {
-			// If this note is part of a chord, we can allow one element
-			// This element represents the start of the chord
-			if indexDiff <= 0 {
-				isAdjacentTie = true
-			} else {
-				// We can allow a single element, no more
-				_, lastLastDurationNI := importer.findLastFrom(
-					filterUpdateWithDuration,
-					lastDurationNI.last(),
-				)
-
-				if !lastDurationNI.valid(importer) {
-					isAdjacentTie = true
-				} else {
-					indexDiff = lastDiff(lastLastDurationNI, tieStartNI)
-					isAdjacentTie = indexDiff <= 0
-				}
-			}
-		} else {
-			// If a note is not part of a chord, we can allow no elements
-			isAdjacentTie = indexDiff <= 0
-		}
+		warnWhileParsing(element, `Found nonadjacent tied note.`)
+		voice.groupTied = voice.groupTied || !isChord
+		return
+	}
 
-		if isAdjacentTie {
-			// We have passed all checks, so we add the duration
-			tieStartNote := tieStart.(model.Note)
-			tieStartNote.Duration.Components = append(
-				tieStartNote.Duration.Components,
-				note.Duration.Components...,
-			)
+	if isTied && importer.extendTiedNote(note, newOctave) {
+		updateSlurs()
+		voice.groupTied = voice.groupTied || !isChord
+		return
+	}
 
-			importer.setAt(tieStartNI, tieStartNote)
-		} else {
-			// We ignore a note that is in a nonadjacent tie
-			warnWhileParsing(element, `Found nonadjacent tied note.`)
-			return
-		}
+	if isChord && voice.groupTied {
+		// All of the chord's notes so far are tied to previous notes, so this
+		// one starts the part of the chord that isn't
+		importer.limitLastElement()
+		voice.groupTied = false
+		updateImporterState()
+		importer.append(noteUpdates...)
 	} else if isChord {
 		// We find the last score update that is a note, rest, or chord
-		lastDurationElement, lastDurationNI := importer.findLast(
-			filterUpdateWithDuration,
-		)
+		lastDurationElement, lastDurationNI := importer.lastElement()
 
 		if !lastDurationNI.valid(importer) {
 			// We continue by considering the note as not part of a chord
@@ -1100,3 +1053,135 @@ func noteHandler(element *etree.Element, importer *musicXMLImporter) {
 		importer.append(noteUpdates...)
 	}
 }
+
+// tiePitch identifies the pitch of tied notes
+type tiePitch struct {
+	noteLetter model.NoteLetter
+	octave     int64
+	midiNote   int32
+}
+
+// lastElement finds the last note, rest or chord that was imported into the
+// current slice to import into
+func (importer *musicXMLImporter) lastElement() (
+	model.ScoreUpdate, nestedIndex,
+) {
+	_, importInto := importer.findLast(filterNestedImportableUpdate)
+	updates := importer.updates()
+	for i := len(updates) - 1; i >= 0; i-- {
+		if filterUpdateWithDuration(updates[i]) {
+			return updates[i], nestedIndex{
+				indices: append(append([]int{}, importInto.indices...), i),
+			}
+		}
+	}
+	return nil, nestedIndex{}
+}
+
+// extendTiedNote adds the duration of a note to the note it is tied to
+// extendTiedNote returns whether there is such a note
+func (importer *musicXMLImporter) extendTiedNote(
+	note model.Note, octave int64,
+) bool {
+	getOctaveChange := func(update model.ScoreUpdate) int64 {
+		if reflect.TypeOf(update) == attributeUpdateType {
+			switch update.(model.AttributeUpdate).PartUpdate.(type) {
+			case model.OctaveUp:
+				// We need to reverse the octave change
+				// Note we ignore OctaveSet's because we should really never
+				// be searching for ties between when they are generated
+				return -1
+			case model.OctaveDown:
+				return 1
+			}
+		}
+		return 0
+	}
+
+	tieStart, tieStartNI, _ := importer.findLastWithState(
+		func(update model.ScoreUpdate, state interface{}) bool {
+			switch value := update.(type) {
+			case model.Note:
+				switch pitch := value.Pitch.(type) {
+				case model.LetterAndAccidentals:
+					laa, ok := note.Pitch.(model.LetterAndAccidentals)
+					if !ok {
+						return false
+					}
+					return state.(int64) == octave &&
+						pitch.NoteLetter == laa.NoteLetter
+				case model.MidiNoteNumber:
+					return deep.Equal(pitch, note.Pitch) == nil
+				default:
+					return false
+				}
+			default:
+				return false
+			}
+		},
+		importer.voice().octave,
+		func(update model.ScoreUpdate, state interface{}) interface{} {
+			return state.(int64) + getOctaveChange(update)
+		},
+	)
+
+	if !tieStartNI.valid(importer) {
+		return false
+	}
+
+	tieStartNote := tieStart.(model.Note)
+	tieStartNote.Slurred = note.Slurred
+	tieStartNote.Duration.Components = append(
+		append(
+			[]model.DurationComponent{}, tieStartNote.Duration.Components...,
+		),
+		note.Duration.Components...,
+	)
+
+	// What follows the tied note or its chord stays where it is
+	elementNI := tieStartNI
+	parentNI := nestedIndex{
+		indices: tieStartNI.indices[:len(tieStartNI.indices)-1],
+	}
+	if reflect.TypeOf(importer.getAt(parentNI)) == chordType {
+		elementNI = parentNI
+	}
+	_, lastNI := importer.lastElement()
+	beats := getBeats(importer.getAt(elementNI))
+	importer.setAt(tieStartNI, tieStartNote)
+	if lastNI.valid(importer) &&
+		deep.Equal(lastNI.indices, elementNI.indices) != nil {
+		importer.limitBeats(elementNI, beats)
+	}
+
+	return true
+}
+
+// limitLastElement makes what follows the last note, rest or chord start when
+// the current group of notes does, even if that element has been extended
+func (importer *musicXMLImporter) limitLastElement() {
+	element, ni := importer.lastElement()
+	if !ni.valid(importer) {
+		return
+	}
+	excess := importer.voice().beats - importer.voice().groupStart
+	importer.limitBeats(ni, getBeats(element)-excess)
+}
+
+// limitBeats makes what follows a note, rest or chord start after a number of
+// beats, even if the element is longer than that
+func (importer *musicXMLImporter) limitBeats(ni nestedIndex, beats float64) {
+	element := importer.getAt(ni)
+	if beats < minimumBeats || getBeats(element)-beats < 0.001 {
+		return
+	}
+	chord, ok := element.(model.Chord)
+	if !ok {
+		chord = model.Chord{Events: []model.ScoreUpdate{element}}
+	}
+	chord.Events = append(
+		append([]model.ScoreUpdate{}, chord.Events...),
+		model.Rest{Duration: idiomaticDuration(4/beats, 0)},
+	)
+	importer.setAt(ni, chord)
+}
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index 7bfaa98..9a9b079 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -162,6 +162,15 @@ type musicXMLVoice struct {
 	// Then a note is slurred if the depth is strictly greater than 0
 	slurs int64
 
+	// A note and those in a chord with it form a group
+	// groupTied is true while all notes of the current group are tied to
+	// previous notes, i.e. the group does not have an update of its own yet
+	groupStart float64
+	groupTied  bool
+
+	// ties contains where the notes end that have a tie start
+	ties map[tiePitch]float64
+
 	// Alda notes contain only a pitch, not an octave
 	// We must then keep track of octave information to handle repeats
 	// See barlineHandler for how this is managed
@@ -176,6 +185,7 @@ func newMusicXMLVoice() *musicXMLVoice {
 		beats:   0,
 		octave:  4, // 4 is the default Alda octave
 		slurs:   0, // By default a note is not slurred
+		ties:    make(map[tiePitch]float64),
 
 		// To handle octave setting in repeats
 		sectionStartOctave: 4,
@@ -197,6 +207,12 @@ func (voice *musicXMLVoice) continued() *musicXMLVoice {
 	return continued
 }
 
+// forgetTies makes notes that are tied to a note so far start anew, because
+// what comes next isn't always played directly after it
+func (voice *musicXMLVoice) forgetTies() {
+	voice.ties = make(map[tiePitch]float64)
+}
+
 func (voice *musicXMLVoice) getScoreUpdates() []model.ScoreUpdate {
 	return voice.updates[0].(model.EventSequence).Events
 }
@@ -390,19 +406,6 @@ func (importer *musicXMLImporter) findLast(
 	return findLastRecursive(updates, filter)
 }
 
-// findLastFrom finds the last update that passes filter, but starting from a
-// specific index in flatUpdates
-func (importer *musicXMLImporter) findLastFrom(
-	filter func(update model.ScoreUpdate) bool,
-	startIndex int,
-) (model.ScoreUpdate, nestedIndex) {
-	found, ni := findLastRecursive(importer.flatUpdates()[:startIndex], filter)
-	if len(ni.indices) > 0 {
-		return found, nestedIndex{indices: append([]int{0}, ni.indices...)}
-	}
-	return found, ni
-}
-
 func findLastRecursive(
 	updates []model.ScoreUpdate,
 	filter func(updates model.ScoreUpdate) bool,
diff --git a/client/interop/musicxml/importer/nested_index.go b/client/interop/musicxml/importer/nested_index.go
index 4f50482..b3205e1 100644
--- a/client/interop/musicxml/importer/nested_index.go
+++ b/client/interop/musicxml/importer/nested_index.go
@@ -1,7 +1,5 @@
 package importer
 
-import "math"
-
 // nestedIndex identifies a model.ScoreUpdate in a []model.ScoreUpdate
 // nestedIndex is designed to work with slices as built by musicXMLImporter
 // indices (in order) represent the indices within slices of score updates
@@ -23,12 +21,3 @@ func (ni nestedIndex) valid(importer *musicXMLImporter) bool {
 func (ni nestedIndex) last() int {
 	return ni.indices[len(ni.indices)-1]
 }
-
-// lastDiff returns the diff between indices at the deepest recursive level
-func lastDiff(minuend nestedIndex, subtrahend nestedIndex) int {
-	index := math.Min(
-		float64(len(minuend.indices)),
-		float64(len(subtrahend.indices)),
-	) - 1
-	return minuend.indices[int(index)] - subtrahend.indices[int(index)]
-}
-- 
2.43.0


From 5b07d4358093066f93afe81e0f142833d4f9c4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 51/65] fix: import: naturals in MusicXML whose key signature
 alters the note

---
 client/interop/musicxml/importer/handlers.go  | 16 +++++++++++-----
 client/interop/musicxml/importer/optimizer.go |  4 ++++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index fec1f32..7e4e0aa 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -815,12 +815,18 @@ func translateNote(
 
 		// Accidentals
 		var accidentals []model.Accidental
-		if accidental := element.FindElement("accidental"); accidental != nil &&
-			accidental.Text() == "natural" {
-			accidentals = []model.Accidental{model.Natural}
-		} else if alter := pitch.FindElement("alter"); alter != nil {
+		var alterAmount int64 = 0
+		if alter := pitch.FindElement("alter"); alter != nil {
 			// Microtones can't be represented, so we take the integral part
-			alterAmount := int64(requireNumber(alter, -12, 12))
+			alterAmount = int64(requireNumber(alter, -12, 12))
+		}
+
+		keySignature := importer.part().opt.currentKeySignature
+		if accidental := element.FindElement("accidental"); alterAmount == 0 &&
+			(accidental != nil && accidental.Text() == "natural" ||
+				len(keySignature[noteLetter]) > 0) {
+			accidentals = []model.Accidental{model.Natural}
+		} else {
 
 			var accidental model.Accidental
 			if alterAmount > 0 {
diff --git a/client/interop/musicxml/importer/optimizer.go b/client/interop/musicxml/importer/optimizer.go
index 3791057..1f3c2d0 100644
--- a/client/interop/musicxml/importer/optimizer.go
+++ b/client/interop/musicxml/importer/optimizer.go
@@ -201,6 +201,10 @@ func (opt *optimizer) translateMidiNotePitches(
 			if reflect.TypeOf(typedUpdate.Pitch) == midiNoteNumberType {
 				midiNoteNumber := typedUpdate.Pitch.(model.MidiNoteNumber)
 				laa, octave := toLetterAndAccidentalsAndOctave(midiNoteNumber)
+				if len(laa.Accidentals) == 0 &&
+					len(opt.currentKeySignature[laa.NoteLetter]) > 0 {
+					laa.Accidentals = []model.Accidental{model.Natural}
+				}
 
 				typedUpdate.Pitch = laa
 				update = typedUpdate
-- 
2.43.0


From 247fd7c0b0eb0aa7735fce731c4940d809ffb11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 52/65] fix: import: MusicXML percussion below MIDI note 24

---
 client/interop/musicxml/importer/util.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/client/interop/musicxml/importer/util.go b/client/interop/musicxml/importer/util.go
index 746aeec..b2e7097 100644
--- a/client/interop/musicxml/importer/util.go
+++ b/client/interop/musicxml/importer/util.go
@@ -271,10 +271,20 @@ func percussionPartNameToAlias(name string) string {
 func toLetterAndAccidentalsAndOctave(
 	number model.MidiNoteNumber,
 ) (model.LetterAndAccidentals, int32) {
-	quotient := (number.MidiNote - 24) / 12
-	remainder := (number.MidiNote - 24) % 12
+	if number.MidiNote < 12 {
+		// These notes are below Alda's lowest octave
+		var flats []model.Accidental
+		for i := number.MidiNote; i < 12; i++ {
+			flats = append(flats, model.Flat)
+		}
+		return model.LetterAndAccidentals{
+			NoteLetter:  model.C,
+			Accidentals: flats,
+		}, 0
+	}
 
-	octave := quotient + 1
+	octave := number.MidiNote/12 - 1
+	remainder := number.MidiNote % 12
 
 	// Find the closest letter than is above the current remainder
 	noteLetter := model.C
-- 
2.43.0


From f4055d31e9d804d04037fa5e2ca2913e61a07ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 53/65] fix: import: octave-change in a MusicXML transposition

---
 client/interop/musicxml/importer/handlers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 7e4e0aa..7789073 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -684,6 +684,9 @@ func divisionsHandler(element *etree.Element, importer *musicXMLImporter) {
 
 func transposeHandler(element *etree.Element, importer *musicXMLImporter) {
 	semitones := requireInteger(requireChild(element, "chromatic"), -127, 127)
+	if octaves := element.SelectElement("octave-change"); octaves != nil {
+		semitones += 12 * requireInteger(octaves, -10, 10)
+	}
 
 	transposeSet := model.AttributeUpdate{
 		PartUpdate: model.TranspositionSet{Semitones: int32(semitones)},
-- 
2.43.0


From e27f424c55679d0060d3b89b165cc0a44bb31c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:17 +0000
Subject: [PATCH 54/65] fix: import: MusicXML cue notes take up time

---
 client/interop/musicxml/importer/handlers.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 7789073..31c7fd5 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -765,7 +765,16 @@ func translateNote(
 			cue = noteType
 		}
 		unsupportedHandler("cue notes", true)(cue, importer)
-		return nil, 0, 0, 0
+		if element.FindElement("chord") != nil ||
+			element.FindElement("grace") != nil ||
+			durationInBeats(element, importer) == 0 {
+			return nil, 0, 0, 0
+		}
+		duration, durationValue := translateDuration(element, importer)
+		return []model.ScoreUpdate{model.Rest{Duration: duration}},
+			importer.voice().octave,
+			durationValue,
+			0
 	} else if grace := element.FindElement("grace"); grace != nil ||
 		noteType != nil && noteType.SelectAttrValue("type", "full") == "grace" {
 		// Grace notes are category (2), as they can technically be imported
-- 
2.43.0


From 43ab305e55a235f243a333eac2c281aae1cc6542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 55/65] fix: import: MusicXML parts get valid aliases that make
 them unique

---
 client/interop/musicxml/importer/handlers.go | 28 ++++--------
 client/interop/musicxml/importer/importer.go | 46 ++++++++++++++++++++
 client/interop/musicxml/importer/util.go     | 16 +++++--
 3 files changed, 66 insertions(+), 24 deletions(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index 31c7fd5..c8652d4 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -130,7 +130,7 @@ func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 
 		// part.alias will be the Alda alias for the midi-percussion instrument
 		if name := element.SelectElement("part-name"); name != nil {
-			part.alias = percussionPartNameToAlias(name.Text())
+			part.alias = toAlias(name.Text())
 		}
 
 		// part.unpitched will be a map that tells us the MIDI pitches for the
@@ -166,30 +166,18 @@ func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 
 		var instruments []string
 		instrumentsList := model.InstrumentsList()
+		included := make(map[int64]bool)
 		for _, instrumentID := range instrumentIDs {
-			instruments = append(instruments, instrumentsList[instrumentID-1])
+			if !included[instrumentID] {
+				included[instrumentID] = true
+				instruments = append(
+					instruments, instrumentsList[instrumentID-1],
+				)
+			}
 		}
 
 		part.instruments = instruments
 	}
-
-	// If there is an existing importer part with the same instruments + alias
-	// Then we must make this newer part unique by incorporating id into alias
-	for k, v := range importer.parts {
-		if k != id &&
-			reflect.DeepEqual(v.instruments, part.instruments) &&
-			v.alias == part.alias {
-			addIdToAlias := func(alias string, id string) string {
-				if alias == "" {
-					return id
-				} else {
-					return alias + fmt.Sprintf("_%s", id)
-				}
-			}
-			v.alias = addIdToAlias(v.alias, k)
-			part.alias = addIdToAlias(part.alias, id)
-		}
-	}
 }
 
 // addBarline adds a barline to represent a measure passing
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index 9a9b079..997d450 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -259,6 +259,7 @@ func (importer *musicXMLImporter) generateScoreUpdates() []model.ScoreUpdate {
 	}
 
 	sort.Strings(partIDs)
+	importer.makePartsUnique(partIDs)
 
 	for _, id := range partIDs {
 		part := importer.parts[id]
@@ -268,6 +269,51 @@ func (importer *musicXMLImporter) generateScoreUpdates() []model.ScoreUpdate {
 	return updates
 }
 
+// makePartsUnique ensures that different parts are different in Alda, too
+// Parts that share an instrument need an alias, and each alias can only be used
+// once, in which case we incorporate the part's ID into it
+func (importer *musicXMLImporter) makePartsUnique(partIDs []string) {
+	instrumentUses := make(map[string]int)
+	aliasUses := make(map[string]int)
+	for _, id := range partIDs {
+		part := importer.parts[id]
+		for _, instrument := range part.instruments {
+			instrumentUses[instrument]++
+		}
+		aliasUses[part.alias]++
+	}
+
+	taken := make(map[string]bool)
+	for _, instrument := range model.InstrumentsList() {
+		// An alias that is the name of an instrument would be ambiguous
+		taken[instrument] = true
+	}
+
+	for _, id := range partIDs {
+		part := importer.parts[id]
+
+		needsAlias := false
+		for _, instrument := range part.instruments {
+			needsAlias = needsAlias || instrumentUses[instrument] > 1
+		}
+		if part.alias == "" && !needsAlias {
+			continue
+		}
+
+		alias := part.alias
+		if alias == "" {
+			alias = toAlias(id)
+		} else if aliasUses[alias] > 1 || taken[alias] {
+			alias = toAlias(fmt.Sprintf("%s_%s", alias, id))
+		}
+		for suffix, base := 2, alias; taken[alias]; suffix++ {
+			alias = fmt.Sprintf("%s_%d", base, suffix)
+		}
+		taken[alias] = true
+		part.alias = alias
+	}
+}
+
 func (importer *musicXMLImporter) part() *musicXMLPart {
 	return importer.currentPart
 }
diff --git a/client/interop/musicxml/importer/util.go b/client/interop/musicxml/importer/util.go
index b2e7097..d0b3cfc 100644
--- a/client/interop/musicxml/importer/util.go
+++ b/client/interop/musicxml/importer/util.go
@@ -258,10 +258,18 @@ func filterType(requiredType reflect.Type) func(update model.ScoreUpdate) bool {
 	}
 }
 
-// percussionPartNameToAlias translates a MusicXML instrument part name into a
-// format acceptable for Alda instrument alias
-func percussionPartNameToAlias(name string) string {
-	return strings.Join(strings.Split(name, " "), "_")
+// toAlias translates a MusicXML part name or ID into a format acceptable for
+// an Alda instrument alias
+func toAlias(name string) string {
+	return strings.Map(func(r rune) rune {
+		switch {
+		case 'a' <= r && r <= 'z', 'A' <= r && r <= 'Z', '0' <= r && r <= '9',
+			strings.ContainsRune("_-+'()", r):
+			return r
+		default:
+			return '_'
+		}
+	}, name)
 }
 
 // toLetterAndAccidentalsAndOctave translates a MidiNoteNumber to an equivalent
-- 
2.43.0


From 37867fa76a0e98c1b7d847e1c40d54f88674ca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 56/65] fix: a key signature is always written in the same
 order

---
 client/model/key.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client/model/key.go b/client/model/key.go
index 9e71c43..9ebbe43 100644
--- a/client/model/key.go
+++ b/client/model/key.go
@@ -49,7 +49,12 @@ type KeySignature map[NoteLetter][]Accidental
 func (ks KeySignature) String() string {
 	laas := []string{}
 
-	for note, accidentals := range ks {
+	for note := A; note <= G; note++ {
+		accidentals, ok := ks[note]
+		if !ok {
+			continue
+		}
+
 		laa := strings.Builder{}
 		laa.WriteRune(rune(note + 'a'))
 
-- 
2.43.0


From 8f0954392b4b56bac0c859d8619c7593fc790d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:34 +0000
Subject: [PATCH 57/65] fix: import: key after the start of a repeat with an
 ending

---
 client/interop/musicxml/importer/importer.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index 997d450..c4fb355 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -218,19 +218,17 @@ func (voice *musicXMLVoice) getScoreUpdates() []model.ScoreUpdate {
 }
 
 // isEffectivelyEmpty returns if a voice has no updates, or just an empty repeat
+// or ending that is still ongoing
 func (voice *musicXMLVoice) isEffectivelyEmpty() bool {
-	if len(voice.getScoreUpdates()) == 1 {
-		repeat, ok := voice.getScoreUpdates()[0].(model.Repeat)
-		if ok {
-			eventSeq, ok := repeat.Event.(model.EventSequence)
-			if ok {
-				if len(eventSeq.Events) == 0 {
-					return true
-				}
-			}
+	updates := voice.getScoreUpdates()
+	for len(updates) == 1 {
+		nested, ok := getNestedUpdates(updates[0], true)
+		if !ok {
+			return false
 		}
+		updates = nested
 	}
-	return len(voice.getScoreUpdates()) == 0
+	return len(updates) == 0
 }
 
 // musicXMLImporter contains global state for importing a MusicXML file
-- 
2.43.0


From 70388179d4b8aac9400aefe45b1b3c76376902d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:02 +0000
Subject: [PATCH 58/65] fix: import: a MusicXML part without a MIDI instrument
 is a piano in every Alda

---
 client/interop/musicxml/importer/handlers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index c8652d4..e467865 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -122,7 +122,7 @@ func scorePartHandler(element *etree.Element, importer *musicXMLImporter) {
 	midiInstruments := element.FindElements("midi-instrument")
 	if len(midiInstruments) == 0 {
 		// If no instruments are listed, we default to a piano
-		part.instruments = []string{"piano"}
+		part.instruments = []string{model.InstrumentsList()[0]}
 	} else if len(element.FindElements("midi-instrument/midi-unpitched")) > 0 {
 		// We're dealing with an unpitched percussion part
 		// We must setup additional attributes of our musicXMLPart
-- 
2.43.0


From 53d131cb6cc3b696b2d4c864cede4bd938bbf7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 59/65] fix: import: MusicXML chord notes without a first note
 in their measure

---
 client/interop/musicxml/importer/handlers.go | 9 ++++++++-
 client/interop/musicxml/importer/importer.go | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/client/interop/musicxml/importer/handlers.go b/client/interop/musicxml/importer/handlers.go
index e467865..d458fed 100644
--- a/client/interop/musicxml/importer/handlers.go
+++ b/client/interop/musicxml/importer/handlers.go
@@ -939,8 +939,14 @@ func noteHandler(element *etree.Element, importer *musicXMLImporter) {
 	}()
 
 	// We obtain part-level attributes that must be handled separately
-	isChord := element.FindElement("chord") != nil
 	voice := importer.voice()
+	isChord := element.FindElement("chord") != nil
+	if isChord && voice.groupMeasure != element.Parent() {
+		warnWhileParsing(
+			element, `Note found in chord with no starting note. The note will be considered as not part of a chord.`,
+		)
+		isChord = false
+	}
 	if !isChord {
 		voice.groupStart = voice.beats
 		voice.groupTied = false
@@ -952,6 +958,7 @@ func noteHandler(element *etree.Element, importer *musicXMLImporter) {
 	if len(noteUpdates) == 0 {
 		return
 	}
+	voice.groupMeasure = element.Parent()
 
 	updateSlurs := func() {
 		voice.slurs += slurChange
diff --git a/client/interop/musicxml/importer/importer.go b/client/interop/musicxml/importer/importer.go
index c4fb355..9513bc7 100644
--- a/client/interop/musicxml/importer/importer.go
+++ b/client/interop/musicxml/importer/importer.go
@@ -167,6 +167,8 @@ type musicXMLVoice struct {
 	// previous notes, i.e. the group does not have an update of its own yet
 	groupStart float64
 	groupTied  bool
+	// groupMeasure is the measure that the current group is in
+	groupMeasure *etree.Element
 
 	// ties contains where the notes end that have a tie start
 	ties map[tiePitch]float64
-- 
2.43.0


From 03e3726eadca166542f5ebd4a54628392b80f148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 60/65] fix: an output file that is a symlink to a missing file
 is written completely or not at all

---
 client/go.mod          |  2 +-
 client/system/files.go | 33 ++++++++++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/client/go.mod b/client/go.mod
index 5adc1f7..a58991e 100644
--- a/client/go.mod
+++ b/client/go.mod
@@ -23,6 +23,7 @@ require (
 	github.com/spf13/cobra v1.7.0
 	github.com/vbauerster/mpb/v6 v6.0.2
 	gitlab.com/gomidi/midi v1.14.1
+	golang.org/x/sys v0.22.0
 )
 
 require (
@@ -36,7 +37,6 @@ require (
 	github.com/mgutz/ansi v0.0.0-20170206155736-9520e82c474b // indirect
 	github.com/rivo/uniseg v0.2.0 // indirect
 	github.com/spf13/pflag v1.0.5 // indirect
-	golang.org/x/sys v0.22.0 // indirect
 	golang.org/x/term v0.0.0-20210927222741-03fcf44c2211 // indirect
 	golang.org/x/text v0.4.0 // indirect
 )
diff --git a/client/system/files.go b/client/system/files.go
index 9413383..4f492ba 100644
--- a/client/system/files.go
+++ b/client/system/files.go
@@ -3,6 +3,7 @@ package system
 import (
 	"os"
 	"path/filepath"
+	"syscall"
 )
 
 // WriteOutputFile writes `data` into the file with the provided name, creating
@@ -38,11 +39,10 @@ func WriteOutputFile(filename string, data []byte) error {
 		perm = info.Mode().Perm()
 		exists = true
 	} else {
-		path = filename
-		if info, err := os.Lstat(path); err == nil &&
-			info.Mode()&os.ModeSymlink != 0 {
-			// A symlink to a file that doesn't exist yet.
-			return writeInPlace(path, data, perm)
+		// It might be a symlink to a file that doesn't exist yet.
+		path, err = followLinks(filename)
+		if err != nil {
+			return err
 		}
 	}
 
@@ -76,6 +76,29 @@ func WriteOutputFile(filename string, data []byte) error {
 	return os.Rename(tmpFile.Name(), path)
 }
 
+// followLinks returns the path of the file, existing or not, that a path leads
+// to via symlinks (if any).
+func followLinks(path string) (string, error) {
+	for i := 0; i < 40; i++ {
+		target, err := os.Readlink(path)
+		if err != nil {
+			return path, nil
+		}
+
+		if !filepath.IsAbs(target) {
+			dir, err := filepath.EvalSymlinks(filepath.Dir(path))
+			if err != nil {
+				return "", err
+			}
+			target = filepath.Join(dir, target)
+		}
+
+		path = target
+	}
+
+	return "", &os.PathError{Op: "open", Path: path, Err: syscall.ELOOP}
+}
+
 // createSibling creates a new file with a unique name in the same directory as
 // the provided path. The permissions are subject to the umask.
 func createSibling(path string, perm os.FileMode) (*os.File, error) {
-- 
2.43.0


From b11519fee43e6ad62dd2e17ec5f45c3c2a2d1437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:13 +0000
Subject: [PATCH 61/65] fix: create the temporary file for an output file in
 one step

---
 client/system/files.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/client/system/files.go b/client/system/files.go
index 4f492ba..8f05aae 100644
--- a/client/system/files.go
+++ b/client/system/files.go
@@ -1,6 +1,7 @@
 package system
 
 import (
+	"fmt"
 	"os"
 	"path/filepath"
 	"syscall"
@@ -102,20 +103,18 @@ func followLinks(path string) (string, error) {
 // createSibling creates a new file with a unique name in the same directory as
 // the provided path. The permissions are subject to the umask.
 func createSibling(path string, perm os.FileMode) (*os.File, error) {
-	reserved, err := os.CreateTemp(filepath.Dir(path), ".alda-output-*")
-	if err != nil {
-		return nil, err
-	}
-	reserved.Close()
-
-	// os.CreateTemp makes files that only their owner can read.
-	if err := os.Remove(reserved.Name()); err != nil {
-		return nil, err
+	for i := 0; ; i++ {
+		file, err := os.OpenFile(
+			filepath.Join(
+				filepath.Dir(path), fmt.Sprintf(".alda-output-%d-%d", os.Getpid(), i),
+			),
+			os.O_WRONLY|os.O_CREATE|os.O_EXCL,
+			perm,
+		)
+		if !os.IsExist(err) || i == 1000 {
+			return file, err
+		}
 	}
-
-	return os.OpenFile(
-		reserved.Name(), os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm,
-	)
 }
 
 func writeInPlace(path string, data []byte, perm os.FileMode) error {
-- 
2.43.0


From f3abb8525b21042c833a6d6309de8819d799fb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:53 +0000
Subject: [PATCH 62/65] fix: MusicXML import: lengths near a plain length are
 not that length

A note of 3.97 beats was imported as a whole note because lengths were
compared with a tolerance of 1% of a whole note; what followed it started
too late.
---
 client/interop/musicxml/importer/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/interop/musicxml/importer/util.go b/client/interop/musicxml/importer/util.go
index d0b3cfc..6b2d0ea 100644
--- a/client/interop/musicxml/importer/util.go
+++ b/client/interop/musicxml/importer/util.go
@@ -371,7 +371,7 @@ func idiomaticDuration(aldaDuration float64, dots int32) model.Duration {
 		remaining := aldaDuration
 		decomp := make(map[float64]int)
 		for i := 0; i < len(normal); {
-			if math.Abs(remaining-normal[i]) < 0.01 {
+			if math.Abs(remaining-normal[i]) < 0.0001 {
 				decomp[normal[i]] = decomp[normal[i]] + 1
 				remaining = 0
 				break
-- 
2.43.0


From 4d8657a5e3e7e3ab5c7538897cc70d9b2127d682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:26 +0000
Subject: [PATCH 63/65] fix: global tempo changes inside crams yield to local
 ones at the same time

---
 client/model/attributes.go |  8 +++++++-
 client/model/note.go       | 17 +++++++++++------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/client/model/attributes.go b/client/model/attributes.go
index bd6554c..fcd4649 100644
--- a/client/model/attributes.go
+++ b/client/model/attributes.go
@@ -64,6 +64,10 @@ func (au AttributeUpdate) DurationMs(part *Part) float64 {
 	// called.
 	_ = au.PartUpdate.updatePart(part, false)
 
+	part.localAttributeOverrides = append(
+		part.localAttributeOverrides, au.PartUpdate,
+	)
+
 	return 0
 }
 
@@ -271,7 +275,9 @@ func (gau GlobalAttributeUpdate) UpdateScore(score *Score) error {
 //
 // Also updates the part, for the same reason as AttributeUpdate.DurationMs.
 func (gau GlobalAttributeUpdate) DurationMs(part *Part) float64 {
-	_ = gau.PartUpdate.updatePart(part, true)
+	if !part.overridesLocally(gau.PartUpdate) {
+		_ = gau.PartUpdate.updatePart(part, true)
+	}
 
 	return 0
 }
diff --git a/client/model/note.go b/client/model/note.go
index ebe754f..16b804f 100644
--- a/client/model/note.go
+++ b/client/model/note.go
@@ -197,6 +197,15 @@ func addNoteOrRest(score *Score, noteOrRest ScoreUpdate) error {
 	return nil
 }
 
+func noteOrRestDurationMs(specifiedDuration Duration, part *Part) float64 {
+	durationMs := effectiveDuration(specifiedDuration, part).Ms(part.Tempo)
+	updateDefaultDuration(part, specifiedDuration)
+	// Local attribute changes only override the global ones that happen at the
+	// same time.
+	part.localAttributeOverrides = nil
+	return durationMs
+}
+
 // UpdateScore implements ScoreUpdate.UpdateScore by adding a note to the score
 // for all current parts and adjusting the parts' CurrentOffset, LastOffset, and
 // Duration accordingly.
@@ -211,9 +220,7 @@ func (note Note) UpdateScore(score *Score) error {
 // Also updates the part's default duration, so that it can be correctly
 // considered when tallying the duration of subsequent events.
 func (note Note) DurationMs(part *Part) float64 {
-	durationMs := effectiveDuration(note.Duration, part).Ms(part.Tempo)
-	updateDefaultDuration(part, note.Duration)
-	return durationMs
+	return noteOrRestDurationMs(note.Duration, part)
 }
 
 // VariableValue implements ScoreUpdate.VariableValue.
@@ -259,9 +266,7 @@ func (rest Rest) UpdateScore(score *Score) error {
 // Also updates the part's default duration, so that it can be correctly
 // considered when tallying the duration of subsequent events.
 func (rest Rest) DurationMs(part *Part) float64 {
-	durationMs := effectiveDuration(rest.Duration, part).Ms(part.Tempo)
-	updateDefaultDuration(part, rest.Duration)
-	return durationMs
+	return noteOrRestDurationMs(rest.Duration, part)
 }
 
 // VariableValue implements ScoreUpdate.VariableValue.
-- 
2.43.0


From 0748656c63892c86160d880fef1e6632ffc04a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:32 +0000
Subject: [PATCH 64/65] fix: endings after a voice group that began before the
 repeat apply in their repetition

---
 client/model/voice.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client/model/voice.go b/client/model/voice.go
index 8a15214..4adbc4a 100644
--- a/client/model/voice.go
+++ b/client/model/voice.go
@@ -96,6 +96,10 @@ func (vm VoiceMarker) UpdateScore(score *Score) error {
 	for _, part := range score.CurrentParts {
 		voice := part.GetVoice(vm.VoiceNumber)
 
+		// If this is happening in the middle of a repeat, the voice is on the same
+		// repetition as the part (or voice) that it takes over from.
+		voice.currentRepetition = part.currentRepetition
+
 		for i, currentPart := range score.CurrentParts {
 			if currentPart.origin == part.origin {
 				score.CurrentParts[i] = voice
@@ -162,6 +166,7 @@ func (VoiceGroupEndMarker) UpdateScore(score *Score) error {
 
 		lastVoiceToFinish.voices = NewVoices()
 		lastVoiceToFinish.voiceTemplate = nil
+		lastVoiceToFinish.currentRepetition = part.currentRepetition
 
 		score.CurrentParts[i] = lastVoiceToFinish
 
-- 
2.43.0


From 93e44c14e3b3a81b40a96424ef699e09a752cf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:19 +0000
Subject: [PATCH 65/65] fix: REPL client: a malformed reply is an error, not a
 crash

---
 client/repl/client.go  |  5 ++++-
 client/repl/message.go | 26 ++++++++++++++++----------
 client/repl/server.go  |  2 +-
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/client/repl/client.go b/client/repl/client.go
index 16fcc7a..be4a71b 100644
--- a/client/repl/client.go
+++ b/client/repl/client.go
@@ -1,6 +1,7 @@
 package repl
 
 import (
+	"bufio"
 	"fmt"
 	"io"
 	"net"
@@ -653,7 +654,9 @@ func (client *Client) sendRequest(
 	// Avoid hanging forever if the server doesn't respond.
 	client.serverConn.SetReadDeadline(time.Now().Add(30 * time.Second))
 
-	response, err := bencode.Decode(client.serverConn)
+	response, err := readMessage(
+		bufio.NewReader(client.serverConn), maxResponseSize,
+	)
 	if err != nil {
 		return nil, err
 	}
diff --git a/client/repl/message.go b/client/repl/message.go
index 84d102c..f1be34c 100644
--- a/client/repl/message.go
+++ b/client/repl/message.go
@@ -13,11 +13,15 @@ import (
 // The largest message, in bytes, that the server is willing to read.
 const maxMessageSize = 64 * 1024 * 1024
 
-// The deepest nesting of lists and dictionaries in a message that the server is
-// willing to read.
+// The largest response, in bytes, that the client is willing to read. (The data
+// representation of a score is a lot larger than its text.)
+const maxResponseSize = 1024 * 1024 * 1024
+
+// The deepest nesting of lists and dictionaries in a message that we're willing
+// to read.
 const maxMessageDepth = 1000
 
-// readMessage reads the next bencoded value from a client.
+// readMessage reads the next bencoded value from a client (or a server).
 //
 // The bencode library allocates however many bytes the message says that a
 // string has and recurses as deeply as the message is nested, so we don't hand
@@ -26,10 +30,10 @@ const maxMessageDepth = 1000
 //
 // Returns io.EOF if there are no more messages, or another error if what was
 // received isn't a complete bencoded value.
-func readMessage(reader *bufio.Reader) (interface{}, error) {
+func readMessage(reader *bufio.Reader, maxSize int) (interface{}, error) {
 	message := &bytes.Buffer{}
 
-	if err := copyBencodedValue(message, reader); err != nil {
+	if err := copyBencodedValue(message, reader, maxSize); err != nil {
 		if err == io.EOF && message.Len() > 0 {
 			err = io.ErrUnexpectedEOF
 		}
@@ -39,7 +43,9 @@ func readMessage(reader *bufio.Reader) (interface{}, error) {
 	return bencode.Decode(message)
 }
 
-func copyBencodedValue(message *bytes.Buffer, reader *bufio.Reader) error {
+func copyBencodedValue(
+	message *bytes.Buffer, reader *bufio.Reader, maxSize int,
+) error {
 	copyByte := func() (byte, error) {
 		b, err := reader.ReadByte()
 		if err != nil {
@@ -48,8 +54,8 @@ func copyBencodedValue(message *bytes.Buffer, reader *bufio.Reader) error {
 
 		message.WriteByte(b)
 
-		if message.Len() > maxMessageSize {
-			return 0, fmt.Errorf("message exceeds %d bytes", maxMessageSize)
+		if message.Len() > maxSize {
+			return 0, fmt.Errorf("message exceeds %d bytes", maxSize)
 		}
 
 		return b, nil
@@ -112,8 +118,8 @@ func copyBencodedValue(message *bytes.Buffer, reader *bufio.Reader) error {
 				return err
 			}
 
-			if length < 0 || length > maxMessageSize-int64(message.Len()) {
-				return fmt.Errorf("message exceeds %d bytes", maxMessageSize)
+			if length < 0 || length > int64(maxSize-message.Len()) {
+				return fmt.Errorf("message exceeds %d bytes", maxSize)
 			}
 
 			if _, err := io.CopyN(message, reader, length); err != nil {
diff --git a/client/repl/server.go b/client/repl/server.go
index 0896f97..288b3a3 100644
--- a/client/repl/server.go
+++ b/client/repl/server.go
@@ -374,7 +374,7 @@ func (server *Server) listen(l net.Listener) {
 			reader := bufio.NewReader(conn)
 
 			for {
-				decoded, err := readMessage(reader)
+				decoded, err := readMessage(reader, maxMessageSize)
 
 				// I think this means the client disconnected? So assuming I'm right
 				// about that, we should stop reading and close the connection.
-- 
2.43.0

