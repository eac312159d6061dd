package vmodel

import "time"

// timeSub is time.Time.Sub for times without a monotonic reading, without its
// check by division.
//
//vsym:model (time.Time).Sub
func timeSub(t, u time.Time) time.Duration {
	s := t.Unix() - u.Unix()
	n := int64(t.Nanosecond()) - int64(u.Nanosecond())
	if s > -9223372036 && s < 9223372036 {
		return time.Duration(s*1000000000 + n)
	}
	return timeSubFar(t, u)
}

func timeSubFar(t, u time.Time) time.Duration {
	s := t.Unix() - u.Unix()
	n := int64(t.Nanosecond()) - int64(u.Nanosecond())
	if t.Before(u) {
		if s < -9223372037 || (s == -9223372037 && n < 145224192) || (s == -9223372036 && n < -854775808) {
			return -1 << 63
		}
	} else if s > 9223372037 || (s == 9223372037 && n > -145224193) || (s == 9223372036 && n > 854775807) {
		return 1<<63 - 1
	}
	return time.Duration(s*1000000000 + n)
}
