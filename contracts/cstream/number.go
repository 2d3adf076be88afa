package cstream

import (
	"math/big"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/stream"
	"vf/gv"
)

// rounded: r is sum / n rounded half away from zero.
func rounded(sum, n, r gv.Z) bool {
	two := gv.ZI(2)
	// 2|r|n <= 2|sum| + n < 2(|r| + 1)n
	a, t := r.Abs().Mul(n).Mul(two), sum.Abs().Mul(two).Add(n)
	return a.Le(t) && t.Lt(a.Add(n.Mul(two))) && !(gv.ZI(0).Lt(sum) && r.Lt(gv.ZI(0))) && !(sum.Lt(gv.ZI(0)) && gv.ZI(0).Lt(r))
}

func average[T constraint.Integer](n string, min, max string, avg func(it iter.Iter[T]) iter.Iter[T]) {
	gv.Register("C25", "Avg_"+n, func() {
		s := values[T]()
		problem := eoiOr(s)
		var (
			sum      gv.Z
			over     bool
			lo, hi   = gv.ZS(min), gv.ZS(max)
			overflow = func(z gv.Z) bool { return z.Lt(lo) || hi.Lt(z) }
		)
		gv.Inv(func(a T, z gv.Z) bool { return gv.ZI(a).Eq(z) })
		gv.Inv(func(a int64, i int) bool { return a == int64(i) })
		gv.Inv(func(a uint64, i int) bool { return a == uint64(i) })
		s.seen = func(v T) {
			sum = sum.Add(gv.ZI(v))
			over = over || overflow(sum)
		}
		it := avg(s.iter())
		gv.Assert("nothing is read ahead of time", s.pos == 0)
		r, err := it.Next()
		switch {
		case over:
			gv.Assert("a sum the type does not have is an error", err != nil && err != iter.EOI)
		case problem || len(s.vals) == 0:
			gv.Assert("the error of the source", err == s.end)
		default:
			gv.Assert("no error for a sum the type has", err == nil)
			gv.Assert("of all values", s.pos == len(s.vals))
			gv.Assert("the rounded average", rounded(sum, gv.ZI(len(s.vals)), gv.ZI(r)))
		}
		once(s, it, r, err)
	})
}

func sums[T constraint.IntegerAndFloat](n string) {
	gv.Register("C25", "Sum_"+n, func() {
		s := values[T]()
		problem := eoiOr(s)
		var sum T
		s.seen = func(v T) {
			if s.pos == 1 {
				sum = v
			} else {
				sum += v
			}
		}
		gv.Inv(func(a, b T) bool { return gv.Same(a, b) })
		it := stream.Sum(s.iter())
		r, err := it.Next()
		if problem || len(s.vals) == 0 {
			gv.Assert("the error of the source", err == s.end)
		} else {
			gv.Assert("the sum of all values", err == nil && gv.Same(r, sum) && s.pos == len(s.vals))
		}
		once(s, it, r, err)
	})
}

func abs[T constraint.SignedInteger](n string, min T) {
	gv.Register("C25", "Abs_"+n, func() {
		s := values[T]()
		it := stream.Abs(s.iter())
		for gv.More("more") {
			p := s.pos
			r, err := it.Next()
			switch {
			case p >= len(s.vals):
				gv.Assert("the error of the source at the end, every time", err == s.end && r == 0 && s.pos == p)
			case s.vals[p] == min:
				gv.Assert("an error for a value without a positive one", err != nil && err != iter.EOI && r == 0)
				for gv.More("more") {
					v, e := it.Next()
					gv.Assert("the error is repeated", e == err && v == 0 && s.pos == p+1)
				}
				return
			default:
				gv.Assert("the magnitude of the next value", err == nil && s.pos == p+1 && gv.ZI(r).Eq(gv.ZI(s.vals[p]).Abs()))
			}
		}
	})
}

// bigs provides any number of arbitrary big numbers, and then the error end.
func bigs[T any](seen func(v *T)) (it iter.Iter[*T], end error) {
	end = iter.EOI
	if gv.Choice("problem", 2) == 1 {
		end = gv.Any[error]("end")
		gv.Assume(end != nil && end != iter.EOI)
	}
	it = iter.OfIter(func() (*T, error) {
		if gv.More("values") {
			v := gv.Any[*T]("v")
			gv.Assume(v != nil)
			seen(v)
			return v, nil
		}
		return nil, end
	})
	return
}

func bigInts(average bool, f func(it iter.Iter[*big.Int]) iter.Iter[*big.Int]) {
	gv.Register("C25", gv.Ite(average, "AvgBigOps", "SumBigOps")+"_big.Int", func() {
		var (
			total, count, was gv.Z
			first             *big.Int
		)
		it, end := bigs(func(v *big.Int) {
			if !average && first == nil {
				first, was = v, gv.ZB(v)
			}
			total, count = total.Add(gv.ZB(v)), count.Add(gv.ZI(1))
		})
		r, err := f(it).Next()
		gv.Assert("the first value is unchanged", first == nil || gv.ZB(first).Eq(was))
		switch {
		case end != iter.EOI || count.Eq(gv.ZI(0)):
			gv.Assert("the error of the source", err == end && r == nil)
		case average:
			gv.Assert("the rounded average", err == nil && r != nil && rounded(total, count, gv.ZB(r)))
		default:
			gv.Assert("the sum of all values", err == nil && r != nil && gv.ZB(r).Eq(total))
		}
	})
}

func bigRats(average bool, f func(it iter.Iter[*big.Rat]) iter.Iter[*big.Rat]) {
	gv.Register("C25", gv.Ite(average, "AvgBigOps", "SumBigOps")+"_big.Rat", func() {
		var total, count gv.Q
		empty := true
		it, end := bigs(func(v *big.Rat) {
			empty = false
			total, count = total.Add(gv.QB(v)), count.Add(gv.ZI(1).Q())
		})
		r, err := f(it).Next()
		switch {
		case end != iter.EOI || !average && empty || average && count.Eq(gv.Q{}):
			gv.Assert("the error of the source", err == end && r == nil)
		case average:
			gv.Assert("the exact average", err == nil && r != nil && gv.QB(r).Mul(count).Eq(total))
		default:
			gv.Assert("the sum of all values", err == nil && r != nil && gv.QB(r).Eq(total))
		}
	})
}

func bigAbs() {
	gv.Register("C25", "AbsBigOps_big.Int", func() {
		var last gv.Z
		given := false
		it, end := bigs(func(v *big.Int) { last, given = gv.ZB(v), true })
		ab := stream.AbsBigOps(it)
		for gv.More("more") {
			given = false
			r, err := ab.Next()
			if given {
				gv.Assert("the magnitude of the next value", err == nil && gv.ZB(r).Eq(last.Abs()))
			} else {
				gv.Assert("the error of the source at the end", err == end && r == nil)
			}
		}
	})
}

func init() {
	average("int8", "-128", "127", stream.AvgInt[int8])
	average("int16", "-32768", "32767", stream.AvgInt[int16])
	average("int32", "-2147483648", "2147483647", stream.AvgInt[int32])
	average("int64", "-9223372036854775808", "9223372036854775807", stream.AvgInt[int64])
	average("int", "-9223372036854775808", "9223372036854775807", stream.AvgInt[int])
	average("uint8", "0", "255", stream.AvgUint[uint8])
	average("uint16", "0", "65535", stream.AvgUint[uint16])
	average("uint32", "0", "4294967295", stream.AvgUint[uint32])
	average("uint64", "0", "18446744073709551615", stream.AvgUint[uint64])
	average("uint", "0", "18446744073709551615", stream.AvgUint[uint])
	sums[int]("int")
	sums[uint8]("uint8")
	sums[float64]("float64")
	abs[int8]("int8", -128)
	abs[int16]("int16", -32768)
	abs[int32]("int32", -1<<31)
	abs[int64]("int64", -1<<63)
	abs[int]("int", -1<<63)
	bigInts(false, stream.SumBigOps[*big.Int])
	bigInts(true, stream.AvgBigOps[*big.Int])
	bigRats(false, stream.SumBigOps[*big.Rat])
	bigRats(true, stream.AvgBigOps[*big.Rat])
	bigAbs()
}
