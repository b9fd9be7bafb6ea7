package checks

import (
	"fmt"

	"alda.io/client/model"
	"verif/lang"
	"verif/sut"
)

// structure compares parts, positions and markers with the reference.
func structure(ref *lang.Ref, s *model.Score) string {
	names, stocks := ref.PartInfo()
	if len(names) != len(s.Parts) {
		return fmt.Sprintf("%d parts expected, %d seen", len(names), len(s.Parts))
	}
	for i, p := range s.Parts {
		if p.StockInstrument.Name() != stocks[i] {
			return fmt.Sprintf("part %d is %s, expected %s", i+1, p.StockInstrument.Name(), stocks[i])
		}
	}
	offs := s.PartOffsets()
	want := ref.PartOffsets()
	for p, t := range s.Tracks() {
		if ref.InVoices(int(t)) {
			continue
		}
		if o, ok := offs[p]; !ok || !sut.Close(o, want[int(t)]) {
			return fmt.Sprintf("part %d is at %v (%v), expected %v", t, o, ok, want[int(t)])
		}
	}
	for n, o := range ref.Markers {
		if !sut.Close(s.Markers[n], o.V()) {
			return fmt.Sprintf("marker %s is at %v, expected %v", n, s.Markers[n], o.V())
		}
	}
	if len(ref.Markers) != len(s.Markers) {
		return fmt.Sprintf("%d markers expected, %d seen", len(ref.Markers), len(s.Markers))
	}
	return ""
}
