//go:build race

package main

// raceDetector says whether the monitor was built with the race detector.
const raceDetector = true
