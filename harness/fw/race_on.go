//go:build race

package fw

const raceEnabled = true
