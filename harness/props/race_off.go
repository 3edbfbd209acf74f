//go:build !race

package props

const raceBuild = false

func raceErrors() int { return 0 }
