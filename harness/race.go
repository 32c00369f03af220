//go:build race

package main

import "runtime"

func raceReports() int { return runtime.RaceErrors() }

const raceBuild = true
