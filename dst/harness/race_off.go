//go:build !race

package harness

const raceBuild = false
