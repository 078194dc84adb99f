package h

import (
	"database/sql"
	"database/sql/driver"
	"math"
	"time"

	"github.com/qjebbs/go-sqlf/v2/util"
	"verif.local/harness/v"
)

// ---- C27 ----

type namedF64 float64

type floatValuer struct{ f float64 }

func (f floatValuer) Value() (driver.Value, error) { return f.f, nil }

// decimal reads a decimal literal: its digits as a number, the number of them
// after the point, the exponent.
func decimal(s string) (neg bool, d int64, frac, exp int) {
	p := 0
	if p < len(s) && (s[p] == '-' || s[p] == '+') {
		neg = s[p] == '-'
		p++
	}
	digits, point := 0, false
	for ; p < len(s); p++ {
		if s[p] == '.' && !point {
			point = true
			continue
		}
		if !isDigit(s[p]) {
			break
		}
		v.Assert(digits < 18, "a number of too many digits") // none within the bounds
		d = d*10 + int64(s[p]-'0')
		digits++
		if point {
			frac++
		}
	}
	v.Assert(digits > 0, "not a number")
	if p < len(s) && (s[p] == 'e' || s[p] == 'E') {
		p++
		eneg := false
		if p < len(s) && (s[p] == '-' || s[p] == '+') {
			eneg = s[p] == '-'
			p++
		}
		v.Assert(p < len(s), "not a number")
		for p < len(s) && isDigit(s[p]) && exp < 1000 {
			exp = exp*10 + int(s[p]-'0')
			p++
		}
		if eneg {
			exp = -exp
		}
	}
	v.Assert(p == len(s), "not a number")
	return
}

// floats: the literal denotes the argument up to half of 1e-6
func C27_floats() {
	v.Bound("float64 arguments (also of a named type, from a Valuer) +-M*2^x, M of 9..40 bits of which any 8 adjacent ones at one of 3 places are arbitrary, values of about 2^-24 to 2^37; zero; seven fixed float32")
	if v.Choice(2) == 0 {
		f32 := []float32{0, 1.5, -0.25, 0.0000005, 1 << 24, 16777215.0 / 128, -3}
		want := []string{"0", "1.5", "-0.25", "0.0000005", "16777216", "131071.9921875", "-3"}
		k := v.Choice(len(f32))
		s, err := util.Interpolate("?", []any{f32[k]})
		v.Assert(err == nil, "a float fails")
		n1, d1, f1, e1 := decimal(s)
		n2, d2, f2, _ := decimal(want[k])
		v.Assert(e1 == 0, "an exponent for a plain number")
		for ; f1 < 7; f1++ {
			d1 *= 10
		}
		for ; f2 < 7; f2++ {
			d2 *= 10
		}
		v.Assert((n1 == n2 || d1 == 0) && f1 == f2 && d1-d2 <= 5 && d2-d1 <= 5, "the literal of a float32 denotes another value")
		v.Cover("~float32")
		return
	}
	// k: bits of M after the first
	k, e, at, pattern := 8, 0, 0, int64(0)
	if v.Choice(2) == 0 {
		e = []int{-24, -21, -20, -19, -4, 0, 3, 16, 21, 37}[v.Choice(10)]
	} else {
		k = []int{24, 39}[v.Choice(2)]
		e = []int{-20, -3, 0, 12, 21, 37}[v.Choice(6)]
		v.Assume(k-e <= 60)
		at = []int{0, (k - 8) / 2, k - 8}[v.Choice(3)]
		pattern = []int64{0, 0x5555555555, 1<<40 - 1}[v.Choice(3)]
	}
	neg := v.Bool()
	b := v.Byte()
	m := pattern&(1<<uint(k)-1)&^(0xff<<uint(at)) | int64(b)<<uint(at)
	mant := uint64(m) << uint(52-k)
	bits := uint64(e+1023)<<52 | mant
	if neg {
		bits |= 1 << 63
	}
	f := math.Float64frombits(bits)
	var arg any = f
	if k == 8 {
		switch v.Choice(3) {
		case 1:
			arg = namedF64(f)
		case 2:
			arg = floatValuer{f}
		}
	}
	s, err := util.Interpolate("?", []any{arg})
	v.Assert(err == nil, "a float fails")
	v.Observe("literal", s)
	n, d, frac, exp := decimal(s)
	frac -= exp
	v.Assert(frac >= 0 && frac <= 12, "a literal of an unexpected form") // within the bounds
	v.Assert(n == neg || d == 0, "the sign is lost")
	// value = M*2^-x, literal = d*10^-frac
	M, x := m|1<<uint(k), k-e
	scale := int64(1000000)
	for ; frac < 6; frac++ {
		d *= 10
	}
	for ; frac > 6; frac-- {
		v.Assume(d%10 == 0) // exacter literals: not decided
		d /= 10
	}
	if x <= 0 {
		v.Assert(d == M<<uint(-x)*scale, "the literal of a float denotes another value")
	} else {
		want := M * scale
		lim := want>>uint(x) + 1
		v.Assert(d <= lim, "the literal of a float denotes another value")
		diff := d<<uint(x) - want
		half := int64(1) << uint(x-1)
		v.Assert(diff <= half && -diff <= half, "the literal of a float denotes another value")
	}
	v.Cover("float")
}

type timeValuer struct{ t time.Time }

func (t timeValuer) Value() (driver.Value, error) { return t.t, nil }

func num(s string) int64 {
	n := int64(0)
	for i := 0; i < len(s); i++ {
		v.Assert(isDigit(s[i]), "not a digit in a time")
		n = n*10 + int64(s[i]-'0')
	}
	return n
}

// times: the text denotes the argument up to a microsecond
func C27_times() {
	v.Bound("times of up to 255 s after one of 5 moments (end of February in leap and other years, end of a year, before 1970), with 256 consecutive numbers of nanoseconds from one of 5 numbers, in UTC and for two of the moments in two of three other zones (one of them time.Local); a format with microseconds, the default, one with milliseconds; as a value, from a Valuer, sql.NullTime; the zero time, nil pointers")
	moments := []struct {
		sec int64
		day [2]string
		off int64 // seconds since midnight
	}{
		{1709164740, [2]string{"2024-02-28", "2024-02-29"}, 86340},
		{1677628700, [2]string{"2023-02-28", "2023-03-01"}, 86300},
		{1735689500, [2]string{"2024-12-31", "2025-01-01"}, 86300},
		{-100, [2]string{"1969-12-31", "1970-01-01"}, 86300},
		{1700000000, [2]string{"2023-11-14", "2023-11-15"}, 80000},
	}
	which := v.Choice(5)
	mo := moments[which]
	sec, ns := int64(0), int64(0)
	if v.Choice(2) == 0 {
		sec, ns = int64(v.Byte()), []int64{0, 499, 501500, 499999500, 999999499, 999999500}[v.Choice(6)]
	} else {
		sec = []int64{0, 59, 99}[v.Choice(3)]
		ns = []int64{0, 400, 499999400, 999999000, 999999744}[v.Choice(5)] + int64(v.Byte())
	}
	zone := v.Choice(4)
	v.Assume(zone == 0 || zone <= 2 && which == 0 || zone >= 2 && which == 3)
	off := []int64{0, 7200, -19800, 28800}[zone]
	t := time.Unix(mo.sec+sec-off, ns)
	zt := "Z"
	switch zone {
	case 0:
		t = t.UTC()
	case 1:
		t, zt = t.In(time.FixedZone("east", 7200)), "+02:00"
	case 2:
		t, zt = t.In(time.FixedZone("", -19800)), "-05:30"
	case 3:
		old := time.Local
		defer func() { time.Local = old }()
		time.Local = time.FixedZone("local", 28800)
		t, zt = t.Local(), "+08:00"
	}
	var arg any = t
	switch v.Choice(4) {
	case 1:
		arg = timeValuer{t}
	case 2:
		arg = sql.NullTime{Time: t, Valid: true}
	case 3:
		arg = &timeValuer{t}
	}
	format := v.Choice(3)
	var opts []util.InterpolateOption
	if format != 1 {
		opts = append(opts, util.WithTimeFormat([]string{"2006-01-02 15:04:05.000000", "", "15:04:05.000 2006-01-02"}[format]))
	}
	s, err := util.Interpolate("t=?;", []any{arg}, opts...)
	v.Assert(err == nil, "a time fails")
	v.Observe("literal", s)
	v.Assert(len(s) > 5 && s[:3] == "t='" && s[len(s)-2:] == "';", "a time is not in quotes")
	s = s[3 : len(s)-2]
	day, clock, frac := "", "", ""
	switch format {
	case 0:
		v.Assert(len(s) == 26 && s[10] == ' ', "another format of a time")
		day, clock, frac = s[:10], s[11:19], s[19:]
	case 1:
		v.Assert(len(s) == 20+len(zt)-1 && s[10] == 'T' && s[19:] == zt, "another format of a time")
		day, clock = s[:10], s[11:19]
	case 2:
		v.Assert(len(s) == 23 && s[12] == ' ', "another format of a time")
		clock, frac, day = s[:8], s[8:12], s[13:]
	}
	v.Assert(clock[2] == ':' && clock[5] == ':', "another format of a time")
	h, m, sc := num(clock[:2]), num(clock[3:5]), num(clock[6:])
	v.Assert(h < 24 && m < 60 && sc < 60, "no time of the day")
	got := h*3600 + m*60 + sc
	if day != mo.day[0] {
		v.Assert(day == mo.day[1], "another day")
		got += 86400
	}
	diff := (got - mo.off - sec) * 1000000000
	unit := int64(1000000000)
	if frac != "" {
		v.Assert(frac[0] == '.', "another format of a time")
		f := num(frac[1:])
		unit = 1000
		if format == 2 {
			unit = 1000000
		}
		diff += f * unit
	}
	diff -= ns
	if unit == 1000 {
		v.Assert(diff <= 500 && diff >= -500, "the literal of a time denotes another time")
	} else {
		v.Assert(diff <= 500 && diff > -unit, "the literal of a time denotes another time")
	}
	v.Cover("time")
}

// the zero time, and nothing
func C27_zero() {
	v.Bound("the zero time in 3 zones, as a value, from a Valuer or a valid sql.NullTime; times of 1..255 ns or s after it; invalid sql.NullTime, nil pointers to times and Valuers")
	z := time.Time{}
	switch v.Choice(3) {
	case 1:
		z = z.In(time.FixedZone("east", 7200))
	case 2:
		z = z.In(time.UTC)
	}
	var arg any
	want := "'0000-00-00'"
	switch v.Choice(7) {
	case 0:
		arg = z
	case 1:
		arg = timeValuer{z}
	case 2:
		arg = sql.NullTime{Time: z, Valid: true}
	case 3:
		arg, want = sql.NullTime{Time: z}, "NULL"
	case 4:
		arg, want = (*timeValuer)(nil), "NULL"
	case 5:
		arg, want = (*time.Time)(nil), "NULL"
	case 6:
		arg, want = time.Time{}.Add(time.Duration(v.Int(1, 255))*time.Second), ""
	}
	s, err := util.Interpolate("?", []any{arg})
	v.Assert(err == nil, "a time fails")
	if want == "" {
		v.Assert(len(s) == 22 && s[:18] == "'0001-01-01T00:0"+s[16:18] && s != "'0000-00-00'", "a time that is not zero")
	} else {
		v.Assert(s == want, "the zero time, or no time, is something else")
	}
	v.Cover("zero")
}
