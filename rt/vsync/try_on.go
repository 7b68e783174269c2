//go:build trylocks

package vsync

const tryLocks = true
