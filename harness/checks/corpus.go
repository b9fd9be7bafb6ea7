package checks

import (
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"verif/fw"
)

var (
	corpusOnce sync.Once
	corpusText []string
)

// Corpus is the example scores of the repository (only those of moderate size).
func Corpus() []string {
	corpusOnce.Do(func() {
		fs, _ := filepath.Glob("/repo/examples/*.alda")
		sort.Strings(fs)
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err == nil && len(b) < 60000 {
				corpusText = append(corpusText, string(b))
			}
		}
	})
	return corpusText
}

func lines(s string) []string { return strings.Split(s, "\n") }

// exampleCut is a stretch of lines of an example score.
func exampleCut(c *fw.Ctx) string {
	all := Corpus()
	l := lines(all[c.R.Intn(len(all))])
	if c.R.Intn(4) == 0 {
		return strings.Join(l, "\n")
	}
	a := c.R.Intn(len(l))
	if c.R.Intn(2) == 0 {
		a = 0
	}
	b := a + 1 + c.R.Intn(len(l)-a)
	return strings.Join(l[a:b], "\n")
}
