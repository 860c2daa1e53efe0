//go:build race

package harness

// raceBuild says that this is the race build.
const raceBuild = true
