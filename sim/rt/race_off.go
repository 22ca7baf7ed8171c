//go:build !race

package verifrt

const Race = false

func raceDisable()    {}
func raceEnable()     {}
func RaceErrors() int { return 0 }
