package models

import "time"

// pin is replaced by the engine: one feasible value of x.
func pin(x int64) int64 { return x }

// AddDate adds days to an instant of UTC; calendar months and years are taken at one instant.
//
//gosym:replace (time.Time).AddDate
func AddDate(t time.Time, y, m, d int) time.Time {
	if y == 0 && m == 0 {
		return t.Add(time.Duration(d) * 24 * time.Hour)
	}
	s := time.Unix(pin(t.Unix()), 0).UTC()
	year, month, day := s.Date()
	hour, min, sec := s.Clock()
	return time.Date(year+y, month+time.Month(m), day+d, hour, min, sec, 0, time.UTC)
}

// Sub is the difference of two instants, without a division.
//
//gosym:replace (time.Time).Sub
func Sub(t, u time.Time) time.Duration {
	const near = 1<<33 - 1 // seconds, for which the difference is written so that it surely does not overflow
	ds, dn := t.Unix()-u.Unix(), int64(t.Nanosecond()-u.Nanosecond())
	if t.Before(u) {
		if -ds&near == -ds && dn == 0 {
			return -time.Duration((-ds & near) * 1000000000)
		}
		if ds > 0 || ds < -9223372037 || ds == -9223372037 && dn < 145224192 {
			return -1 << 63
		}
	} else {
		if ds&near == ds && dn == 0 {
			return time.Duration((ds & near) * 1000000000)
		}
		if ds < 0 || ds > 9223372036 || ds == 9223372036 && dn > 854775807 {
			return 1<<63 - 1
		}
	}
	return time.Duration(ds*1000000000 + dn)
}
