package vh

import "time"

// Quiesce lets the other goroutines run until they are all finished or blocked.
func Quiesce() { time.Sleep(30 * time.Millisecond) }
