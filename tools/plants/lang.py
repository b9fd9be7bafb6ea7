plant("c12-same-name", "C12", "more than fifteen instruments, two of them instances of the same instrument, with overlapping notes",
 "instances of the same instrument are put on the same MIDI channel while both sound",
 [("model/midi.go", "if note.Part.origin == part.origin {", "if note.Part.origin.Name == part.origin.Name {")],
 r'''
code=$(python3 - <<'PY'
names = ["piano","harpsichord","celesta","glockenspiel","vibraphone","marimba","xylophone","dulcimer","accordion","harmonica","banjo","violin","viola","cello","trumpet"]
out = []
for i, n in enumerate(names): out.append(f'{n} "pa{i}": o4 c8 r1')
out.append('piano "pb1": r1 c1')
out.append('piano "pb2": r1 e1')
for i in range(1, 15): out.append(f'pa{i}: r1 g1' if i < 13 else f'pa{i}: c4')
print("\n".join(out))
PY
)
"$tmp/alda" parse -o data -c "$code" > "$tmp/o.json" 2>"$tmp/err" || { cat "$tmp/err"; exit 0; }
python3 - "$tmp/o.json" <<'PY'
import json, sys
ev = json.load(open(sys.argv[1]))["events"]
for a in ev:
    for b in ev:
        if a["part"] < b["part"] and a["midi-channel"] == b["midi-channel"] and a["offset"] < b["offset"] + b["audible-duration"] and b["offset"] < a["offset"] + a["audible-duration"]:
            sys.exit("two parts sound on channel %d: %s %s" % (a["midi-channel"], a, b))
PY
''')
OSCTEST = r'''
cat > "$tmp/x_verif_test.go" <<'GO'
%s
GO
echo "{\"Replace\": {\"$repo/client/%s/zz_verif_test.go\": \"$tmp/x_verif_test.go\"}}" > "$tmp/overlay.json"
cd "$repo/client" && go test -count=1 -vet=off -overlay "$tmp/overlay.json" -run TestVerif ./%s
'''
def gotest(pkg, src): return OSCTEST % (src.strip(), pkg, pkg)
PLAY = r'''
package transmitter

import (
	"testing"
	"strings"
	"fmt"

	"alda.io/client/model"
	"alda.io/client/parser"
	"github.com/daveyarwood/go-osc/osc"
)

func verifBundle(t *testing.T, code string, opts ...TransmissionOption) []*osc.Message {
	ast, err := parser.ParseString(code)
	if err != nil { t.Fatal(err) }
	updates, err := ast.Updates()
	if err != nil { t.Fatal(err) }
	s := model.NewScore()
	if err := s.Update(updates...); err != nil { t.Fatal(err) }
	b, err := OSCTransmitter{Port: 1}.ScoreToOSCBundle(s, opts...)
	if err != nil { t.Fatal(err) }
	return b.Messages
}
var _ = strings.Join
var _ = fmt.Sprint
'''
plant("c13-patch-per-track", "C13", "two parts that share a MIDI channel because the score has more than fifteen instruments, taking turns",
 "the instrument of a channel is not set again when a part comes back to a channel another part used in between",
 [("transmitter/osc.go", "currentPatch, recorded := channelPatch[event.MidiChannel]", "currentPatch, recorded := channelPatch[track]"),
  ("transmitter/osc.go", "channelPatch[event.MidiChannel] = thisPatch", "channelPatch[track] = thisPatch")],
 gotest("transmitter", PLAY + r'''
func TestVerif(t *testing.T) {
	names := []string{"piano","harpsichord","celesta","glockenspiel","vibraphone","marimba","xylophone","dulcimer","accordion","harmonica","banjo","violin","viola","cello","trumpet","tuba","oboe"}
	code := ""
	for i, n := range names { code += fmt.Sprintf("%s: o4 %s c8\n", n, strings.Repeat("r1 ", i)) }
	for i, n := range names { code += fmt.Sprintf("%s: %s c8\n", n, strings.Repeat("r1 ", 20+i)) }
	patch := map[int32]int32{}
	want := map[int32]int32{0:0,1:6,2:8,3:9,4:11,5:12,6:13,7:15,8:21,9:22,10:105,11:40,12:41,13:42,14:56,15:58,16:68}
	for _, m := range verifBundle(t, code) {
		if strings.HasSuffix(m.Address, "/midi/patch") { patch[m.Arguments[0].(int32)] = m.Arguments[2].(int32) }
		if strings.HasSuffix(m.Address, "/midi/note") {
			var track int32
			fmt.Sscanf(m.Address, "/track/%d/", &track)
			if got := patch[m.Arguments[0].(int32)]; got != want[track-1] { t.Fatalf("track %d plays with patch %d", track, got) }
		}
	}
}
'''))
plant("c14-tempo-at-start", "C14", "--from at a position after a tempo change that is not the first",
 "the tempo in force at the start of the window is not sent; the very first tempo of the score is used instead",
 [("transmitter/osc.go", "if tempoOffset < firstTempoOffset {", "if tempoOffset < startOffset && tempoOffset != 0 && firstTempoOffset >= 0 {")],
 gotest("transmitter", PLAY + r'''
func TestVerif(t *testing.T) {
	msgs := verifBundle(t, "piano: (tempo 60) c1 (tempo 90) c1 (tempo 100) %m c1", TransmitFrom("0:05"))
	var tempo float32
	for _, m := range msgs { if m.Address == "/system/tempo" && m.Arguments[0].(int32) == 0 { tempo = m.Arguments[1].(float32) } }
	if tempo != 90 { t.Fatalf("the tempo at the start of the window is %v", tempo) }
}
'''))
plant("c15-exponent", "C15", "a duration of a million milliseconds or more",
 "the formatter writes long millisecond durations in exponent notation, which means something else",
 [("parser/format.go", '''"%sms",
				strconv.FormatFloat(child.Literal.(float64), 'f', -1, 64),''', '''"%sms",
				strconv.FormatFloat(child.Literal.(float64), 'g', -1, 64),''')],
 r'''
printf 'piano:\n  c1200000ms d\n' > "$tmp/a.alda"
"$tmp/alda" format -f "$tmp/a.alda" > "$tmp/b.alda" || exit 1
same "$(cat "$tmp/a.alda")" "$(cat "$tmp/b.alda")"
''')
plant("c06-ending-capture", "C06", "a variable whose definition refers to another variable inside an ending, redefined before use",
 "a reference inside a numbered ending is looked up when the variable is played, not when it was defined",
 [("model/repetitions.go", "eventValue, err := or.Event.VariableValue(score)", "_, err := or.Event.VariableValue(score)"),
  ("model/repetitions.go", "result.Event = eventValue", "result.Event = or.Event")],
 r"""
same "xa = c8 d8
xb = [e8 [xa]'2]*2
xa = g4 g4 g4
piano: xb" "piano: e8 e8 c8 d8"
""")
plant("c07-longest-voice", "C07", "a voice group whose longest voice ends with a long note that starts early",
 "the part resumes after the voice whose last note started latest, not after the longest one",
 [("model/voice.go", "if voice.CurrentOffset > lastVoiceToFinish.CurrentOffset {", "if voice.LastOffset > lastVoiceToFinish.LastOffset {")],
 r'''
[ "$(notes 'piano: V1: c1 V2: e4 f g8 V0: o4 b4' | tail -1 | cut -d' ' -f1,2)" = "71 2000.0" ] || [ "$(notes 'piano: V1: c1 V2: e4 f g8 V0: o4 b4' | tail -1 | cut -d' ' -f1,2)" = "71 2000" ]
''')
plant("c10-marker-third", "C10", "a marker placed while three or more instruments are current, of which only the third or a later one is elsewhere",
 "placing a marker where the current instruments are at different positions is accepted",
 [("model/marker.go", "for _, part := range score.CurrentParts[1:len(score.CurrentParts)] {", "for _, part := range score.CurrentParts[1:2] {")],
 r'''
"$tmp/alda" parse -o data -c 'piano: c4
violin: c4
cello: c2
piano/violin/cello: %here d' >/dev/null 2>&1 && exit 1
"$tmp/alda" parse -o data -c 'piano: c4
violin: c4
cello: c4
piano/violin/cello: %here d' >/dev/null 2>&1
''')
plant("c27-shared-cache", "C27", "two scores compiled at the same time in one process",
 "a package-level cache of instruments is written without synchronisation",
 [("model/part.go", "	stock, err := stockInstrument(name)\n	if err != nil {\n		return nil, err\n	}\n", "	stock, hit := stockInstrumentCache[name]\n	if !hit {\n		instrument, err := stockInstrument(name)\n		if err != nil {\n			return nil, err\n		}\n		stockInstrumentCache[name] = instrument\n		stock = instrument\n	}\n"),
  ("model/part.go", "// NewPart returns a new part in the score.\n", "var stockInstrumentCache = map[string]Instrument{}\n\n// NewPart returns a new part in the score.\n")],
 gotest("model", r'''
package model

import (
	"sync"
	"testing"
)

func TestVerif(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := range stockInstruments { NewScore().NewPart(n) }
			for j := 0; j < 20000; j++ { NewScore().NewPart("piano") }
		}()
	}
	wg.Wait()
}
''').replace("go test -count=1", "CGO_ENABLED=1 go test -race -count=1"))
