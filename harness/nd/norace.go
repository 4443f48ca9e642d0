//go:build !race

package nd

func raceErrors() (n int, on bool) { return 0, false }
