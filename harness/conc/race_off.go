//go:build go1.22 && !race

package main

const raceBuild = false

func raceErrors() int { return 0 }
