//go:build race

package props

import "runtime"

const raceBuild = true

func raceErrors() int { return runtime.RaceErrors() }
