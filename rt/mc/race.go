package mc

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

func raceLog() string {
	d := os.Getenv("VERIF_WORK")
	if d == "" {
		d = os.TempDir()
	}
	return filepath.Join(d, "race")
}

var raceOff int64

// newRaces returns the reports of this process since the last call in which
// the code under test takes part.
func newRaces() string {
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", raceLog(), os.Getpid()))
	if err != nil || int64(len(b)) < raceOff {
		return ""
	}
	t := string(b[raceOff:])
	raceOff = int64(len(b))
	out := ""
	for _, rep := range strings.Split(t, "WARNING: DATA RACE")[1:] {
		if i := strings.Index(rep, "=================="); i >= 0 {
			rep = rep[:i]
		}
		if !harness(rep) {
			out += "DATA RACE" + rep
		}
	}
	return out
}

// harness reports whether one access of a report is by the harness's own
// code, some of which (generic functions) is compiled with the code under
// test. What the client hands out is read by the client's goroutines.
func harness(rep string) bool {
	for _, part := range strings.Split(rep, "\n\n") {
		l := strings.Split(strings.TrimLeft(part, "\n"), "\n")
		if !strings.Contains(l[0], " at 0x") || !strings.Contains(l[0], "by ") {
			continue // how a goroutine was created
		}
		if f, own := owner(l[1:]); f == "" || own {
			return true
		}
	}
	return false
}

// owner is the first frame of a stack outside the runtime and the standard
// library, not counting the wrappers which iterate maps for the code, and
// whether it is the harness's.
func owner(l []string) (string, bool) {
	for i, f := range l {
		f = strings.TrimSpace(f)
		if strings.HasPrefix(f, "/") || !strings.Contains(f, "(") {
			continue
		}
		if strings.Contains(f, "/verifrt/vrt.RangeMap") || strings.Contains(f, "/verifrt/vrt.(*MapIter") {
			continue
		}
		file := ""
		if i+1 < len(l) {
			file = strings.TrimSpace(l[i+1])
		}
		if strings.HasPrefix(f, "main.") || strings.Contains(file, "/verifrt/") {
			return f, true
		}
		if strings.Contains(f, "/") && strings.Contains(strings.SplitN(f, "/", 2)[0], ".") {
			return f, false
		}
	}
	return "", false
}

func raceLine(rep string) string {
	var l []string
	for _, part := range strings.Split(rep, "\n\n") {
		ls := strings.Split(strings.TrimLeft(part, "\n"), "\n")
		for i, x := range ls {
			if strings.Contains(x, " at 0x") && strings.Contains(x, "by ") {
				l = append(l, strings.SplitN(strings.TrimSpace(x), " at 0x", 2)[0]+" in "+ownerName(ls[i+1:]))
			}
		}
	}
	return strings.Join(l, " / ")
}

func ownerName(l []string) string {
	f, _ := owner(l)
	return f
}
