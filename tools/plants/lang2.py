plant("c03-slur-sticky", "C03", "a slurred note with a quantization above 100 percent",
 "slurred notes are lengthened by a quantization above 100 percent",
 [("model/note.go", "			if !noteOrRest.Slurred {\n", "			if !noteOrRest.Slurred || part.Quantization > 1 {\n")],
 r'''
[ "$(notes 'piano: (quant 150) c4~ d4' | head -1 | cut -d' ' -f4 | cut -d. -f1)" = 500 ]
''')
plant("c04-first-part-scale", "C04", "a cram played by several instruments whose tempos or default durations differ",
 "the notes of a cram are scaled for the first instrument of a group only",
 [("model/cram.go", "		timeScale, err := timeScale(cram, part)", "		timeScale, err := timeScale(cram, score.CurrentParts[0])")],
 r"""
notes 'piano "pa": c2
violin "pb": c8
pa/pb: {d e f} g' > "$tmp/1"
notes 'piano "pa": c2 {d e f}2 g2
violin "pb": c8 {d e f}8 g8' > "$tmp/2"
diff "$tmp/1" "$tmp/2" && [ -s "$tmp/1" ]
""")
plant("c05-range-of-one", "C05", "an ending that lists a range after a single number, on the last repetition of the range",
 "the last repetition of a range is left out unless the range is the first of the list",
 [("model/repetitions.go", "	for _, r := range or.Repetitions {\n		if r.First <= repetition && repetition <= r.Last {", "	for i, r := range or.Repetitions {\n		if r.First <= repetition && (repetition < r.Last || (repetition == r.Last && (i == 0 || r.First == r.Last))) {")],
 r"""
same "piano: [c8 [d8]'1,3-4 e8]*4" "piano: c8 d8 e8 c8 e8 c8 d8 e8 c8 d8 e8"
""")
plant("c06-capture-in-chord", "C06", "a variable defined from a sequence repeated in a definition, redefined afterwards",
 "a reference inside a repeat is looked up when the variable is played",
 [("model/repeat.go", "	result.Event = eventValue\n", "	if _, isReference := repeat.Event.(VariableReference); !isReference {\n		result.Event = eventValue\n	}\n")],
 r"""
same "xa = c8 d8
xb = e8 xa*2
xa = g4
piano: xb" "piano: e8 c8 d8 c8 d8"
""")
plant("c07-alias-after-voices", "C07", "a group alias of several parts that used voices, used again through a member",
 "after a voice group, the aliases of groups still refer to the part as it was before",
 [("model/voice.go", "				if aliasPart.origin == part.origin {\n					parts[i] = lastVoiceToFinish\n				}", "				if aliasPart.origin == part.origin && len(parts) == 1 {\n					parts[i] = lastVoiceToFinish\n				}")],
 r"""
[ "$(notes 'piano "pa": o3
violin "pb": o5
pa/pb "ga": c4
pa: V1: c4 d V2: e2 f V0: g4
ga: a4' | tail -1 | cut -d' ' -f1,2)" != "81 500" ] && notes 'piano "pa": o3
violin "pb": o5
pa/pb "ga": c4
pa: V1: c4 d V2: e2 f V0: g4
ga: a4' | grep -q '^57 3000' 
""")
plant("c08-offsets-order", "C08", "three or more global changes of which one is placed between earlier ones by a later part",
 "global changes placed out of order are found in the wrong order",
 [("model/attributes.go", "		ga.offsets = append(ga.offsets, offset)\n		sort.Float64s(ga.offsets)\n", "		ga.offsets = append(ga.offsets, offset)\n		if offset < ga.offsets[0] || len(ga.offsets) == 2 {\n			sort.Float64s(ga.offsets)\n		}\n")],
 r"""
same 'piano: r1 (vol! 10) r1 r1 (vol! 90) r1
violin: r1 r1 (vol! 50) r1
flute: r1 c1 c1 c1 c1' 'flute: (vol 54.21) r1 (vol 10) c1 (vol 50) c1 (vol 90) c1 c1'
""")
plant("c09-overlap", "C09", "a group of two groups that overlap",
 "an instrument that belongs to two groups of a group plays twice",
 [("model/part.go", "	for _, part := range namedParts {\n		if _, exists := partsSet[part]; !exists {\n			parts = append(parts, part)\n		}\n		partsSet[part] = true\n	}", "	for i, part := range namedParts {\n		if _, exists := partsSet[part]; !exists || (i > 1 && i == len(namedParts)-1) {\n			parts = append(parts, part)\n		}\n		partsSet[part] = true\n	}")],
 r"""
[ "$(notes 'piano "pa":
violin "pb":
cello "pc":
pa/pb "ga":
pb/pa "gb":
ga/gb: c4' | wc -l)" = 2 ]
""")
plant("c10-backwards", "C08", "a jump back over one of several global changes, out of a long note",
 "a jump back to a marker applies global changes a second time",
 [("model/marker.go", "		part.LastOffset = part.CurrentOffset\n		part.CurrentOffset = offset\n", "		if offset >= part.CurrentOffset {\n			part.LastOffset = part.CurrentOffset\n		}\n		part.CurrentOffset = offset\n")],
 r"""
[ "$(notes 'piano: r1 %ma (vol! 20) r1 (vol! 80) r1
flute: o4 c1~1 @ma d4' | grep '^62' | cut -d' ' -f5)" = 0.8 ]
""")
plant("c12-explicit-break", "C12", "two parts with the same explicit channel, one of which already has notes before the other's overlapping ones",
 "the check for other parts' notes stops at the first note of the same part",
 [("model/midi.go", "		if note.Part.origin == part.origin {\n			continue\n		}", "		if note.Part.origin == part.origin {\n			if part.HasExplicitMidiChannel {\n				break\n			}\n			continue\n		}")],
 r"""
"$tmp/alda" parse -o data -c 'piano: (midi-channel 3) c4 r1 d1
violin: (midi-channel 3) r4 r1 e1' > /dev/null 2>&1 && exit 1
"$tmp/alda" parse -o data -c 'piano: (midi-channel 3) c4 r1 d1
violin: (midi-channel 3) r4 c4' > /dev/null || exit 1
"$tmp/alda" parse -o data -c 'piano: (midi-channel 3) c4
violin: (midi-channel 3) r4 c4
piano: r1 d1
violin: r1 r2 e1' > /dev/null 2>&1 && exit 1
exit 0
""")
plant("c02-double-sharp-scale", "C02", "a key signature named after a scale with double sharps or double flats (e.g. B sharp major)",
 "letters that are sharp in a scale aren't made double sharp when its tonic is sharp",
 [("model/key.go", "		if !containsThat {\n", "		if !containsThat && len(accidentals) > 1 {\n")],
 r"""
same "piano: (key-sig '(b sharp major)) c d e f g a b" "piano: c++ d++ e+ f++ g++ a++ b+"
""")
