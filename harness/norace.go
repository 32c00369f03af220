//go:build !race

package main

func raceReports() int { return 0 }

const raceBuild = false
