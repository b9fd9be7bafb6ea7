package lang

import (
	_ "embed"
	"strings"
)

//go:embed gm.txt
var gmText string

// GM lists the documented instruments in General MIDI order: the canonical
// name first, then the other names.
var GM [][]string

// Patch maps a canonical instrument name to its General MIDI program.
var Patch = map[string]int{}

func init() {
	for i, l := range strings.Split(strings.TrimSpace(gmText), "\n") {
		n := strings.Fields(l)
		GM = append(GM, n)
		Patch[n[0]] = i
	}
}
