package core

import (
	"errors"
	"fmt"
	"os"
	"strings"
)

// WatchRaces makes every execution that the race detector complains about a
// violation. Reports go to the file named by log_path in GORACE.
func WatchRaces() {
	if !RaceBuild {
		return
	}
	seen := 0
	read := int64(0)
	log := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if v, ok := strings.CutPrefix(f, "log_path="); ok {
			log = fmt.Sprintf("%s.%d", v, os.Getpid())
		}
	}
	PostExec = func() error {
		n := raceErrors()
		if n == seen {
			return nil
		}
		seen = n
		text := ""
		if b, err := os.ReadFile(log); err == nil && int64(len(b)) > read {
			text = string(b[read:])
			read = int64(len(b))
		}
		if text != "" && !strings.Contains(text, "vibe-lsm/") {
			return &EnvError{errors.New("data race outside the code under test: " + text)}
		}
		if len(text) > 2500 {
			text = text[:2500]
		}
		return fmt.Errorf("data race:\n%s", text)
	}
}
