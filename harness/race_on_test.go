//go:build race

package harness

import "runtime"

const raceOn = true

func raceErrors() int { return runtime.RaceErrors() }
