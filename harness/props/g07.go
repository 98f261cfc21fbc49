package props

import (
	"fmt"
	"math/big"
	"time"

	"pgregory.net/rapid"

	"github.com/GannettDigital/jstransform/generate"

	"verif/harness/pbt"
)

// Moment is a time: seconds and nanoseconds since the Unix epoch seen in a zone.
type Moment struct {
	Sec  int64 `json:"sec"`
	Nano int64 `json:"nano"`
	Zone int   `json:"zone"` // offset in seconds
	Name string
	Nil  bool `json:"nil,omitempty"`
	Mono bool `json:"mono,omitempty"` // carries a monotonic clock reading
}

// MomentCase is a list of times.
type MomentCase struct {
	Times []Moment `json:"times"`
	NoNil bool     `json:"noNil"`
}

const (
	firstSec = -62135596800 // year 1
	lastSec  = 253402300799 // end of year 9999
)

func genMoment(t *rapid.T) Moment {
	m := Moment{Name: pick(t, "zoneName", []string{"", "UTC", "X", "Local"})}
	switch rapid.IntRange(0, 4).Draw(t, "range") {
	case 0:
		m.Sec = rapid.Int64Range(firstSec, lastSec).Draw(t, "sec")
	case 1:
		m.Sec = rapid.Int64Range(-5, 5).Draw(t, "secEpoch")
	case 2:
		m.Sec = pick(t, "edge", []int64{firstSec, lastSec, 0, -1, 1 << 31, -(1 << 31), 1<<31 - 1, 9223372036, 9223372037, -9223372037, -9223372036, 1<<32 - 1, 951782400, 4102444800})
	default:
		m.Sec = rapid.Int64Range(1e9, 2e9).Draw(t, "secRecent")
	}
	switch rapid.IntRange(0, 3).Draw(t, "nanos") {
	case 0:
	case 1:
		m.Nano = rapid.Int64Range(0, 999).Draw(t, "milli") * 1e6
	case 2:
		m.Nano = pick(t, "edgeNano", []int64{1, 999999, 1000000, 500000, 1500000, 999999999, 999000000, 499999})
	default:
		m.Nano = rapid.Int64Range(0, 999999999).Draw(t, "nano")
	}
	if rapid.Bool().Draw(t, "zoned") {
		m.Zone = rapid.IntRange(-14*3600, 14*3600).Draw(t, "zone")
	}
	m.Mono = pct(t, 5, "mono")
	return m
}

func genMoments(t *rapid.T) MomentCase {
	var c MomentCase
	c.NoNil = pct(t, 40, "noNil")
	n := rapid.IntRange(0, 6).Draw(t, "n")
	if pct(t, 10, "long") {
		n = rapid.IntRange(7, 40).Draw(t, "many")
	}
	nilP := pick(t, "nilP", []int{10, 30, 100})
	for i := 0; i < n; i++ {
		m := genMoment(t)
		m.Nil = !c.NoNil && pct(t, nilP, "nil")
		c.Times = append(c.Times, m)
	}
	return c
}

func (m Moment) time() time.Time {
	if m.Mono { // the clock's reading moved to the moment
		now := time.Now()
		d := time.Unix(m.Sec%4e9, m.Nano).Sub(now)
		return now.Add(d)
	}
	t := time.Unix(m.Sec, m.Nano)
	switch {
	case m.Name == "UTC":
		return t.UTC()
	case m.Name == "Local":
		return t
	}
	return t.In(time.FixedZone(m.Name, m.Zone))
}

// millis checks that got is the time in milliseconds, a part of a millisecond left away.
func millis(t time.Time, got int64) error {
	exact := new(big.Int).Mul(big.NewInt(t.Unix()), big.NewInt(1e9))
	exact.Add(exact, big.NewInt(int64(t.Nanosecond())))
	d := new(big.Int).Mul(big.NewInt(got), big.NewInt(1e6))
	d.Sub(d, exact)
	if t.Nanosecond()%1e6 == 0 && d.Sign() != 0 || d.CmpAbs(big.NewInt(1e6)) >= 0 {
		return fmt.Errorf("%v is converted to %d, %s ns off", t, got, d)
	}
	return nil
}

func checkMoments(c MomentCase, info *pbt.Info) error {
	var times []time.Time
	var ptrs []*time.Time
	var present []time.Time
	for _, m := range c.Times {
		t := m.time()
		info.LabelIf(t.Unix() < 0, "before 1970")
		info.LabelIf(t.Nanosecond()%1e6 != 0, "part of a millisecond")
		info.LabelIf(t.Year() < 1678 || t.Year() > 2262, "outside the range of nanoseconds")
		times = append(times, t)
		if m.Nil {
			info.Label("nil")
			ptrs = append(ptrs, nil)
			if got := generate.AvroOptionalTime(nil); got != 0 {
				return fmt.Errorf("AvroOptionalTime(nil) is %d", got)
			}
			continue
		}
		present = append(present, t)
		ptrs = append(ptrs, &t)
		got := generate.AvroTime(t)
		if err := millis(t, got); err != nil {
			return fmt.Errorf("AvroTime: %v", err)
		}
		if u := generate.AvroTime(t.UTC()); u != got {
			return fmt.Errorf("AvroTime of %v is %d, of the same time in UTC %d", t, got, u)
		}
		keep := t
		if o := generate.AvroOptionalTime(&t); o != got {
			return fmt.Errorf("AvroOptionalTime of %v is %d, AvroTime %d", t, o, got)
		}
		if !t.Equal(keep) || t.String() != keep.String() {
			return fmt.Errorf("AvroOptionalTime changed its argument")
		}
	}
	list := generate.AvroTimeSlice(times)
	if len(list) != len(times) {
		return fmt.Errorf("AvroTimeSlice gives %d values for %d times", len(list), len(times))
	}
	for i, t := range times {
		if list[i] != generate.AvroTime(t) {
			return fmt.Errorf("AvroTimeSlice: value %d is %d, AvroTime gives %d", i, list[i], generate.AvroTime(t))
		}
	}
	opt := generate.AvroOptionalTimeSlice(ptrs)
	if len(opt) != len(present) {
		return fmt.Errorf("AvroOptionalTimeSlice gives %d values for %d times", len(opt), len(present))
	}
	if len(present) == 0 && opt != nil {
		return fmt.Errorf("AvroOptionalTimeSlice without times is no nil slice")
	}
	for i, t := range present {
		if opt[i] != generate.AvroTime(t) {
			return fmt.Errorf("AvroOptionalTimeSlice: value %d is %d, AvroTime gives %d", i, opt[i], generate.AvroTime(t))
		}
	}
	for i, p := range ptrs {
		if (p == nil) != c.Times[i].Nil {
			return fmt.Errorf("AvroOptionalTimeSlice changed its argument")
		}
	}
	info.Nontrivial = len(c.Times) > 0
	return nil
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "G07",
		Subs: []*pbt.Sub{
			pbt.NewSub("times", "lists of up to 40 times of the years 1 to 9999 (edges of the integer ranges, the epoch, parts of milliseconds, zones, monotonic readings) with missing entries, compared with exact integer arithmetic; whole milliseconds must be exact, parts of a millisecond may be rounded either way; non-trivial: not the empty list", 300000, 8000000, genMoments, checkMoments),
		},
	})
}
