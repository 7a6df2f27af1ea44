//go:build !race

package harness

const raceOn = false

func raceErrors() int { return 0 }
