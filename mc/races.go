package mc

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
)

// raceLog is where the race detector of the workers writes (with .PID appended).
func raceLog() string {
	self, _ := os.Executable()
	return filepath.Join(filepath.Dir(self), "race")
}

var raceFile *os.File

// raceReports returns the first of the new race reports that concerns the code
// under test, "" if there is none. Accesses of the checker to its own state are
// none of its business: an access counts if the code under test made it, directly
// or through the standard library or a map iteration, or if the harness declared
// it (raceRead and raceWrite).
func raceReports() string {
	if raceFile == nil {
		raceFile, _ = os.Open(fmt.Sprintf("%s.%d", raceLog(), os.Getpid()))
		if raceFile == nil {
			return "data race (no report found)"
		}
	}
	b, _ := io.ReadAll(raceFile)
	for _, rep := range strings.Split(string(b), "WARNING: DATA RACE\n")[1:] {
		parts := strings.Split(rep, "\n\n")
		if len(parts) < 2 {
			continue
		}
		var sides []string
		for _, p := range parts[:2] {
			if s := raceSide(p); s != "" {
				sides = append(sides, s)
			}
		}
		if len(sides) == 2 {
			return "data race: " + sides[0] + " // " + sides[1]
		}
		if raceVerbose {
			fmt.Fprintf(stderr, "ignored race report: %s\n", rep)
		}
	}
	return ""
}

var raceVerbose = os.Getenv("MC_RACE_VERBOSE") != ""

// raceSide condenses one access of a report, "" if it does not count.
func raceSide(p string) string {
	ls := strings.Split(strings.TrimSpace(p), "\n")
	kind := strings.SplitN(ls[0], " at ", 2)[0]
	var fs []string
	for _, l := range ls[1:] {
		if strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "   ") {
			f := strings.TrimSpace(l)
			if i := strings.LastIndex(f, "("); i > 0 {
				f = f[:i]
			}
			fs = append(fs, f)
		}
	}
	for len(fs) > 0 && (strings.HasPrefix(fs[0], "runtime.") || strings.HasPrefix(fs[0], "internal/runtime/")) {
		fs = fs[1:]
	}
	if len(fs) == 0 {
		return ""
	}
	lib := false
	for _, f := range fs {
		lib = lib || strings.HasPrefix(f, "vh/snapws.")
	}
	declared := strings.HasPrefix(fs[0], "vh/harness.race")
	own := strings.HasPrefix(fs[0], "vh/mc.")
	for _, n := range []string{"sortedKeys", "RangeMap", "MapsKeys", "MapsValues"} {
		own = own && !strings.HasPrefix(fs[0], "vh/mc."+n)
	}
	if own || strings.HasPrefix(fs[0], "vh/harness.") && !declared || !lib && !declared {
		return ""
	}
	if len(fs) > 5 {
		fs = fs[:5]
	}
	return strings.ToLower(kind) + " in " + strings.Join(fs, " < ")
}
