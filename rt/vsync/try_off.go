//go:build !trylocks

package vsync

// tryLocks: giving up a lock is a scheduling point of its own. It has to be where the code asks
// whether a lock is held; elsewhere nobody can tell.
const tryLocks = false
