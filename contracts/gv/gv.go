// Package gv is the ghost vocabulary of the contracts. Every function here has two meanings:
// the verifier (gocv) gives it its logical meaning (arbitrary value, assumption, obligation,
// quantifier, mathematical integer ...), and the Go code below gives it an executable meaning,
// which is used only to replay a refutation on the real code.
package gv

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Entry struct {
	Prop, Name string
	Fn         func()
}

var Registry []Entry

// Register names a contract: the obligations of fn belong to property prop.
func Register(prop, name string, fn func()) { Registry = append(Registry, Entry{prop, name, fn}) }

// ---- run state of the executable meaning ----
type Run struct {
	Rng    *rand.Rand
	Model  map[string]interface{}
	Ints   []int64
	Strs   []string
	Floats []float64
	Log    []string
	count  map[string]int
	pastI  []int64
	pastS  []string
	mu     sync.Mutex
	funcs  map[string]interface{}
	errs   map[int]error
}

var R *Run

func NewRun(seed int64) *Run {
	return &Run{Rng: rand.New(rand.NewSource(seed)), count: map[string]int{}, funcs: map[string]interface{}{}, errs: map[int]error{}}
}

type AssumeFailed struct{}
type AssertFailed struct{ Label string }

func (r *Run) uniq(name string) string {
	r.count[name]++
	if n := r.count[name]; n > 1 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

// Any is an arbitrary value of type T.
func Any[T any](name string) T {
	var z T
	v := reflect.ValueOf(&z).Elem()
	n := R.uniq(name)
	if m, ok := R.Model[n]; ok && fromModel(v, m) {
	} else {
		R.gen(v, 0)
	}
	R.Log = append(R.Log, n+" = "+show(v))
	return z
}

// Slice is an arbitrary slice, possibly nil.
func Slice[T any](name string) []T {
	var z []T
	v := reflect.ValueOf(&z).Elem()
	n := R.uniq(name)
	if m, ok := R.Model[n]; ok && fromModel(v, m) {
	} else {
		R.gen(v, 0)
	}
	R.Log = append(R.Log, n+" = "+show(v))
	return z
}

// Map is an arbitrary map, not nil.
func Map[K comparable, V any](name string) map[K]V {
	z := map[K]V{}
	n := R.uniq(name)
	for i := R.Rng.Intn(6); i > 0; i-- {
		var k K
		var v V
		R.gen(reflect.ValueOf(&k).Elem(), 1)
		R.gen(reflect.ValueOf(&v).Elem(), 1)
		z[k] = v
	}
	R.Log = append(R.Log, n+" = "+show(reflect.ValueOf(z)))
	return z
}

// Permutation: b has the elements of a, each as often, in any order.
func Permutation[T any](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
next:
	for i := range a {
		for j := range b {
			if !used[j] && reflect.DeepEqual(a[i], b[j]) {
				used[j] = true
				continue next
			}
		}
		return false
	}
	return true
}
func show(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			return "&" + fmt.Sprintf("%v", v.Elem().Interface())
		}
	case reflect.Func:
		return "func"
	}
	return fmt.Sprintf("%#v", v.Interface())
}

func Bool(name string) bool { return Any[bool](name) }

// More decides, arbitrarily, whether a history continues.
func More(name string) bool {
	R.count["more:"+name]++
	return R.count["more:"+name] < 14 && R.Rng.Intn(5) != 0
}

// Choice is an arbitrary value 0..k-1, explored case by case.
func Choice(name string, k int) int {
	n := R.uniq(name)
	c := R.Rng.Intn(k)
	if m, ok := R.Model[n].(string); ok {
		if i, err := strconv.Atoi(m); err == nil && i >= 0 && i < k {
			c = i
		}
	}
	R.Log = append(R.Log, fmt.Sprintf("%s = %d", n, c))
	return c
}

// ErrNonNil is an arbitrary non-nil error.
func ErrNonNil(name string) error {
	return errors.New(R.uniq(name))
}

func keyOf(xs ...interface{}) string {
	s := ""
	for _, x := range xs {
		s += fmt.Sprintf("|%T:%v", x, x)
	}
	return s
}
func applyR[T any](id, key string) T {
	R.mu.Lock()
	defer R.mu.Unlock()
	k := id + key
	if v, ok := R.funcs[k]; ok {
		if v == nil {
			var z T
			return z
		}
		return v.(T)
	}
	var z T
	R.gen(reflect.ValueOf(&z).Elem(), 1)
	R.funcs[k] = z
	return z
}

// Func1 is an arbitrary pure function.
func Func1[A, B any](name string) func(A) B {
	n := R.uniq(name)
	return func(a A) B { return applyR[B](n, keyOf(a)) }
}
func Func2[A, B, C any](name string) func(A, B) C {
	n := R.uniq(name)
	return func(a A, b B) C { return applyR[C](n, keyOf(a, b)) }
}
func Func0[A any](name string) func() A {
	n := R.uniq(name)
	return func() A { return applyR[A](n, "") }
}

// FuncErr is an arbitrary pure function that may fail.
func FuncErr[A, B any](name string) func(A) (B, error) {
	n := R.uniq(name)
	return func(a A) (B, error) {
		if b := applyR[int](n+"?", keyOf(a)); b&3 == 1 {
			k := n + "!" + keyOf(a)
			R.mu.Lock()
			defer R.mu.Unlock()
			if e, ok := R.funcs[k]; ok {
				var z B
				return z, e.(error)
			}
			e := errors.New(k)
			R.funcs[k] = e
			var z B
			return z, e
		}
		return applyR[B](n, keyOf(a)), nil
	}
}

// And and Or evaluate both operands.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }

func Assume(b bool) {
	if !b {
		panic(AssumeFailed{})
	}
}
func Assert(label string, b bool) {
	if !b {
		panic(AssertFailed{label})
	}
}
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func Ite[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}
func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}
func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case AssumeFailed, AssertFailed:
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

// Caught runs f and returns the panic value (nil if none) and whether it panicked.
func Caught(f func()) (v any, p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case AssumeFailed, AssertFailed:
				panic(r)
			}
			v, p = r, true
		}
	}()
	f()
	return nil, false
}

// Join runs f, and tells the verifier to merge the ways f can end.
func Join(f func()) { f() }

// Same is identity of two interface values; all floats that are not a number are the same.
func Same(a, b any) (r bool) {
	defer func() {
		if recover() != nil {
			r = false
		}
	}()
	return a == b || a != a && b != b
}

// Inv offers a candidate loop invariant: a predicate whose parameters are typed holes, filled in
// every way with quantities of the loop state. Candidates are only kept if proved inductive.
func Inv(f any) {}

// ByContract makes calls of fn be checked against its contract instead of its body: contract has the
// same parameters and results, and results that are arbitrary but for what the contract states.
// Another obligation of the same property proves that fn satisfies it.
func ByContract[F any](fn, contract F) {}

// OpaqueProducts leaves the multiplication of two unknown integers uninterpreted, but for signs and magnitudes.
func OpaqueProducts() {}

// ProductAt is a lemma about opaque products: q * b is to c * b as q is to the constant c, for positive b.
func ProductAt(q, b, c Z) {}

// Unroll makes loops be unrolled at most n times, with an obligation that n is enough.
func Unroll(n int) {}

// Bounded states that this contract is checked within a bound and not proved.
func Bounded(what string) {}

// Known reports whether a recorded finding is to be excluded.
func Known(id string) {}

// Put sets the only field of type T of *p, exported or not, to construct an arbitrary value.
func Put[T, S any](p *S, v T) { *field[T](reflect.ValueOf(p).Elem()) = v }

// Get is the only field of type T of x, exported or not.
func Get[T, S any](x S) T { return *field[T](reflect.ValueOf(&x).Elem()) }

func field[T any](s reflect.Value) *T {
	t := reflect.TypeOf((*T)(nil)).Elem()
	for i := 0; i < s.NumField(); i++ {
		if s.Field(i).Type() == t {
			return (*T)(s.Field(i).Addr().UnsafePointer())
		}
	}
	panic("no field of type " + t.String())
}

// Clone copies a slice (a snapshot of its content).
func Clone[T any](s []T) []T {
	if s == nil {
		return nil
	}
	return append(make([]T, 0, len(s)), s...)
}

// ---- mathematical integers ----
type Z struct{ v *big.Int }

func (a Z) b() *big.Int {
	if a.v == nil {
		return new(big.Int)
	}
	return a.v
}

type Integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func ZI[T Integer](x T) Z {
	v := reflect.ValueOf(x)
	if v.CanInt() {
		return Z{big.NewInt(v.Int())}
	}
	return Z{new(big.Int).SetUint64(v.Uint())}
}
func ZB(x *big.Int) Z { return Z{new(big.Int).Set(x)} }
func ZS(s string) Z {
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("ZS")
	}
	return Z{n}
}
func (a Z) Add(c Z) Z      { return Z{new(big.Int).Add(a.b(), c.b())} }
func (a Z) Sub(c Z) Z      { return Z{new(big.Int).Sub(a.b(), c.b())} }
func (a Z) Mul(c Z) Z      { return Z{new(big.Int).Mul(a.b(), c.b())} }
func (a Z) Neg() Z         { return Z{new(big.Int).Neg(a.b())} }
func (a Z) Abs() Z         { return Z{new(big.Int).Abs(a.b())} }
func (a Z) Eq(c Z) bool    { return a.b().Cmp(c.b()) == 0 }
func (a Z) Lt(c Z) bool    { return a.b().Cmp(c.b()) < 0 }
func (a Z) Le(c Z) bool    { return a.b().Cmp(c.b()) <= 0 }
func (a Z) Q() Q           { return Q{new(big.Rat).SetInt(a.b())} }
func (a Z) String() string { return a.b().String() }

// ---- rationals ----
type Q struct{ v *big.Rat }

func (a Q) r() *big.Rat {
	if a.v == nil {
		return new(big.Rat)
	}
	return a.v
}
func QB(x *big.Rat) Q   { return Q{new(big.Rat).Set(x)} }
func (a Q) Add(c Q) Q   { return Q{new(big.Rat).Add(a.r(), c.r())} }
func (a Q) Sub(c Q) Q   { return Q{new(big.Rat).Sub(a.r(), c.r())} }
func (a Q) Mul(c Q) Q   { return Q{new(big.Rat).Mul(a.r(), c.r())} }
func (a Q) Neg() Q      { return Q{new(big.Rat).Neg(a.r())} }
func (a Q) Abs() Q      { return Q{new(big.Rat).Abs(a.r())} }
func (a Q) Eq(c Q) bool { return a.r().Cmp(c.r()) == 0 }
func (a Q) Lt(c Q) bool { return a.r().Cmp(c.r()) < 0 }
func (a Q) Le(c Q) bool { return a.r().Cmp(c.r()) <= 0 }

// QF is the exact value of a finite float.
func QF[T ~float32 | ~float64](f T) Q {
	r := new(big.Rat).SetFloat64(float64(f))
	if r == nil {
		return Q{}
	}
	return Q{r}
}
func Finite[T ~float32 | ~float64](f T) bool {
	return !math.IsNaN(float64(f)) && !math.IsInf(float64(f), 0)
}

// IsInt reports whether the value is an integer.
func IsInt(q Q) bool { return q.r().IsInt() }

// F32 and F64 report whether the value is exactly a (finite) float32 or float64.
func F32(q Q) bool { _, ok := q.r().Float32(); return ok }
func F64(q Q) bool { _, ok := q.r().Float64(); return ok }

// QBF is the exact value of a finite *big.Float.
func QBF(f *big.Float) Q {
	if f.IsInf() {
		return Q{}
	}
	r, _ := f.Rat(nil)
	return Q{r}
}

// ---- generation ----
func fromModel(v reflect.Value, m interface{}) bool {
	if m == nil {
		return false
	}
	switch x := m.(type) {
	case string:
		switch {
		case v.CanInt():
			n, err := strconv.ParseInt(x, 10, 64)
			if err != nil || v.OverflowInt(n) {
				return false
			}
			v.SetInt(n)
			return true
		case v.CanUint():
			n, err := strconv.ParseUint(x, 10, 64)
			if err != nil || v.OverflowUint(n) {
				return false
			}
			v.SetUint(n)
			return true
		case v.Kind() == reflect.Bool:
			v.SetBool(x == "true")
			return true
		case v.Kind() == reflect.Ptr:
			switch v.Interface().(type) {
			case *big.Int:
				n, ok := new(big.Int).SetString(x, 10)
				if ok {
					v.Set(reflect.ValueOf(n))
				}
				return ok
			case *big.Rat:
				n, ok := new(big.Rat).SetString(x)
				if ok {
					v.Set(reflect.ValueOf(n))
				}
				return ok
			}
		}
		return false
	case map[string]interface{}:
		switch v.Kind() {
		case reflect.Float32, reflect.Float64:
			switch x["cls"] {
			case "1":
				v.SetFloat(math.Inf(1))
			case "2":
				v.SetFloat(math.Inf(-1))
			case "3":
				v.SetFloat(math.NaN())
			default:
				s, _ := x["val"].(string)
				r, ok := new(big.Rat).SetString(s)
				if !ok {
					return false
				}
				f, _ := r.Float64()
				v.SetFloat(f)
			}
			return true
		case reflect.String:
			var bs []byte
			l, _ := x["bytes"].([]interface{})
			for _, b := range l {
				f, _ := b.(float64)
				bs = append(bs, byte(f))
			}
			v.SetString(string(bs))
			return true
		case reflect.Slice:
			if x["nil"] == "true" {
				return true
			}
			es, _ := x["elems"].([]interface{})
			s := reflect.MakeSlice(v.Type(), len(es), len(es))
			for i, e := range es {
				if !fromModel(s.Index(i), e) {
					R.gen(s.Index(i), 1)
				}
			}
			v.Set(s)
			return true
		case reflect.Ptr:
			if _, ok := v.Interface().(*big.Float); ok {
				s, _ := x["val"].(string)
				r, ok := new(big.Rat).SetString(s)
				if !ok {
					return false
				}
				v.Set(reflect.ValueOf(new(big.Float).SetPrec(200).SetRat(r)))
				return true
			}
		}
		return false
	case []interface{}:
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField() && i < len(x); i++ {
				if !v.Field(i).CanSet() || !fromModel(v.Field(i), x[i]) {
					return false
				}
			}
			return true
		case reflect.Array:
			for i := 0; i < v.Len() && i < len(x); i++ {
				fromModel(v.Index(i), x[i])
			}
			return true
		}
	}
	return false
}

var intPool = []int64{0, 1, -1, 2, -2, 3, 5, 7, 9, 10, 11, 12, 15, 16, 17, 31, 32, 99, 100, 101, 127, 128, -127, -128, -129, 255, 256, 999, 1000, 32767, 32768, -32768, -32769, 65535, 65536,
	math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1,
	1 << 24, 1<<24 + 1, 1 << 53, 1<<53 + 1, 1<<53 - 1, 999999999999999999, 1000000000000000000, -999999999999999999}

func (r *Run) int64() int64 {
	switch r.Rng.Intn(10) {
	case 0, 1:
		return int64(r.Rng.Intn(21) - 10)
	case 2:
		return intPool[r.Rng.Intn(len(intPool))]
	case 3:
		if len(r.Ints) > 0 {
			return r.Ints[r.Rng.Intn(len(r.Ints))] + int64(r.Rng.Intn(3)-1)
		}
		return int64(r.Rng.Uint64())
	case 4, 5:
		if len(r.pastI) > 0 {
			p := r.pastI[r.Rng.Intn(len(r.pastI))]
			switch r.Rng.Intn(6) {
			case 0:
				return -p
			case 1:
				return p + 1
			case 2:
				return p - 1
			case 3:
				return math.MaxInt64 - p
			}
			return p
		}
		return int64(r.Rng.Intn(4))
	case 6:
		return int64(r.Rng.Uint64() >> uint(r.Rng.Intn(64)))
	case 7:
		return -int64(r.Rng.Uint64() >> uint(r.Rng.Intn(64)))
	case 8:
		return int64(1)<<uint(r.Rng.Intn(64)) + int64(r.Rng.Intn(3)-1)
	}
	return int64(r.Rng.Intn(200) - 100)
}

var charPool = []rune("abcxyzABCXYZ0123456789019 \t\r\n._-+eE/\\\"'{}[]:,<>()#%éßΩ日€😀\x00\x7f")

func (r *Run) str() string {
	if len(r.Strs) > 0 && r.Rng.Intn(5) == 0 {
		return r.Strs[r.Rng.Intn(len(r.Strs))]
	}
	if len(r.pastS) > 0 && r.Rng.Intn(4) == 0 {
		return r.pastS[r.Rng.Intn(len(r.pastS))]
	}
	n := r.Rng.Intn(7)
	if r.Rng.Intn(8) == 0 {
		n = r.Rng.Intn(24)
	}
	var sb strings.Builder
	digits := r.Rng.Intn(3) == 0
	for i := 0; i < n; i++ {
		switch {
		case digits && r.Rng.Intn(8) != 0:
			sb.WriteByte(byte('0' + r.Rng.Intn(10)))
		case r.Rng.Intn(30) == 0:
			sb.WriteByte(byte(r.Rng.Intn(256)))
		default:
			sb.WriteRune(charPool[r.Rng.Intn(len(charPool))])
		}
	}
	return sb.String()
}

var floatPool = []float64{0, 1, -1, 0.5, -0.5, 1.5, -1.5, 2.5, 1e10, 123456789.125, 12345678901, 1 << 53, 1<<53 + 2, 1 << 63, 1 << 64, -(1 << 63), 1e18, 1e19, 1e20, 1e-10, 0.1, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.Inf(1), math.Inf(-1), math.NaN(), 9223372036854774784, 18446744073709549568, 16777216, 16777217}

func (r *Run) float() float64 {
	switch r.Rng.Intn(6) {
	case 0, 1:
		return floatPool[r.Rng.Intn(len(floatPool))]
	case 2:
		return float64(r.int64())
	case 3:
		return math.Float64frombits(r.Rng.Uint64())
	case 4:
		return float64(r.Rng.Intn(2000)-1000) / 8
	}
	return r.Rng.NormFloat64() * math.Pow(10, float64(r.Rng.Intn(30)-10))
}

func (r *Run) gen(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n := r.int64()
		if v.OverflowInt(n) {
			b := v.Type().Bits()
			switch r.Rng.Intn(3) {
			case 0:
				n = 1<<(b-1) - 1
			case 1:
				n = -(1 << (b - 1))
			default:
				n = n << (64 - b) >> (64 - b)
			}
		}
		v.SetInt(n)
		r.pastI = append(r.pastI, n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		n := uint64(r.int64())
		if r.Rng.Intn(2) == 0 && int64(n) < 0 {
			n = -n
		}
		if v.OverflowUint(n) {
			b := v.Type().Bits()
			if r.Rng.Intn(2) == 0 {
				n = 1<<b - 1
			} else {
				n = n << (64 - b) >> (64 - b)
			}
		}
		v.SetUint(n)
		r.pastI = append(r.pastI, int64(n))
	case reflect.Bool:
		v.SetBool(r.Rng.Intn(2) == 0)
	case reflect.Float32:
		v.SetFloat(float64(float32(r.float())))
	case reflect.Float64:
		v.SetFloat(r.float())
	case reflect.String:
		s := r.str()
		r.pastS = append(r.pastS, s)
		v.SetString(s)
	case reflect.Slice:
		if r.Rng.Intn(12) == 0 {
			return
		}
		n := r.Rng.Intn(6)
		if r.Rng.Intn(10) == 0 {
			n = r.Rng.Intn(20)
		}
		s := reflect.MakeSlice(v.Type(), n, n+r.Rng.Intn(3))
		for i := 0; i < n; i++ {
			r.gen(s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			r.gen(v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				r.gen(v.Field(i), depth+1)
			}
		}
	case reflect.Map:
		n := r.Rng.Intn(5)
		m := reflect.MakeMap(v.Type())
		for i := 0; i < n; i++ {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			r.gen(k, depth+1)
			r.gen(e, depth+1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Ptr:
		switch v.Interface().(type) {
		case *big.Int:
			n := big.NewInt(r.int64())
			if r.Rng.Intn(4) == 0 {
				n.Mul(n, big.NewInt(r.int64()))
			}
			v.Set(reflect.ValueOf(n))
		case *big.Rat:
			d := r.int64()
			if d == 0 || r.Rng.Intn(2) == 0 {
				d = 1
			}
			v.Set(reflect.ValueOf(big.NewRat(r.int64(), d)))
		case *big.Float:
			f := r.float()
			for math.IsNaN(f) {
				f = r.float()
			}
			g := new(big.Float).SetPrec(uint(53 + r.Rng.Intn(3)*53)).SetFloat64(f)
			if r.Rng.Intn(3) == 0 && !g.IsInf() {
				g.Add(g, new(big.Float).SetInt64(r.int64()))
			}
			v.Set(reflect.ValueOf(g))
		default:
			if depth < 3 && r.Rng.Intn(5) != 0 {
				p := reflect.New(v.Type().Elem())
				r.gen(p.Elem(), depth+1)
				v.Set(p)
			}
		}
	case reflect.Interface:
		if v.Type() == reflect.TypeOf((*error)(nil)).Elem() {
			if r.Rng.Intn(3) == 0 {
				k := r.Rng.Intn(3)
				if r.errs[k] == nil {
					r.errs[k] = fmt.Errorf("error %d", k)
				}
				v.Set(reflect.ValueOf(r.errs[k]))
			}
			return
		}
		if v.NumMethod() != 0 {
			return
		}
		switch r.Rng.Intn(5) {
		case 0:
			v.Set(reflect.ValueOf(r.int64()))
		case 1:
			v.Set(reflect.ValueOf(r.str()))
		case 2:
			v.Set(reflect.ValueOf(r.float()))
		case 3:
			v.Set(reflect.ValueOf(int(r.int64())))
		}
	}
}

var _ = time.Now

// Fold is the function i -> f(...f(f(init, 0), 1)..., i-1). f must depend on its arguments and on
// values that do not change only.
func Fold[T any](init T, f func(acc T, i int) T) func(i int) T {
	return func(i int) T {
		acc := init
		for j := 0; j < i; j++ {
			acc = f(acc, j)
		}
		return acc
	}
}

// Count is the function i -> number of j in 0..i-1 with f(j).
func Count(f func(i int) bool) func(i int) int {
	return Fold(0, func(acc, i int) int {
		if f(i) {
			return acc + 1
		}
		return acc
	})
}
