package time

import (
	"time"

	"vsim/gs/simrt"
)

func Now() time.Time {
	if simrt.W == nil {
		return time.Unix(0, 0)
	}
	return time.Unix(0, simrt.W.Now()).In(time.UTC)
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { simrt.Sleep(int64(d)) }
func After(d time.Duration) <-chan time.Time {
	ch := make(chan time.Time, 1)
	simrt.Go(func() {
		Sleep(d)
		ch <- Now()
	})
	return ch
}
func Tick(d time.Duration) <-chan time.Time { return After(d) }
