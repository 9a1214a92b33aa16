package pbt

import "time"

// WaitUntil polls cond until it holds or the time is up.
func WaitUntil(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// Rendered is the log of the case so far.
func (t *T) Rendered() []string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]string{}, t.log...)
}
