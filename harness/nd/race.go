//go:build race

package nd

import "runtime"

func raceErrors() (n int, on bool) { return runtime.RaceErrors(), true }
