package vrt

import (
	"os"
	"path/filepath"
	"strings"
)

// LastRace is the last report of the race detector.
func LastRace() string {
	fs, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_SCRATCH"), "race.*"))
	var last string
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		s := string(b)
		if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
			last = s[i:]
		}
	}
	if len(last) > 4000 {
		last = last[:4000]
	}
	return last
}
