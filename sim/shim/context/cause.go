package context

import (
	"time"

	"simverif/rt"
)

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	return WithDeadline(parent, d)
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadline(parent, rt.Now().Add(d))
}
