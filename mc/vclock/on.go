//go:build verifinstr && go1.21

package vclock

// Controlled reports whether the code under test runs on this clock.
const Controlled = true
