// Package zzverif is the native (executable) meaning of the specification vocabulary.
// The verifier interprets these functions symbolically; when a contract is replayed on
// concrete inputs the definitions below run.
package zzverif

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
)

// Skip is panicked when a precondition does not hold for a concrete input.
type Skip struct{}

// Fail is panicked when a postcondition is violated on a concrete input.
type Fail struct{ Name string }

func (f Fail) Error() string { return "contract clause violated: " + f.Name }

func Requires(b bool) {
	if !b {
		panic(Skip{})
	}
}
func Ensures(name string, b bool) {
	if !b {
		panic(Fail{name})
	}
}
func Assert(name string, b bool)    { Ensures(name, b) }

// Split asks the verifier to prove every later clause case by case on lo <= x < hi (and otherwise).
func Split(x, lo, hi int)           {}
func Invariant(name string, b bool) {}
func Modifies(xs ...interface{})    {}
func ModifiesNothing()              {}

// Forall: f holds for every i in [lo,hi).
func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Exists: f holds for some i in [lo,hi).
func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// Z is a mathematical integer.
type Z struct{ v *big.Int }

func (z Z) b() *big.Int {
	if z.v == nil {
		return new(big.Int)
	}
	return z.v
}
func (z Z) String() string { return z.b().String() }
func U(x uint64) Z         { return Z{new(big.Int).SetUint64(x)} }
func I(x int64) Z          { return Z{big.NewInt(x)} }
func N(x int) Z            { return Z{big.NewInt(int64(x))} }

// B snapshots a big integer (nil counts as 0).
func B(x *big.Int) Z {
	if x == nil {
		return Z{}
	}
	return Z{new(big.Int).Set(x)}
}

// Dec parses a decimal literal.
func Dec(s string) Z {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad literal " + s)
	}
	return Z{v}
}
func Pow2(n uint) Z { return Z{new(big.Int).Lsh(big.NewInt(1), n)} }
func If(c bool, a, b Z) Z {
	if c {
		return a
	}
	return b
}
func (x Z) Add(y Z) Z    { return Z{new(big.Int).Add(x.b(), y.b())} }
func (x Z) Sub(y Z) Z    { return Z{new(big.Int).Sub(x.b(), y.b())} }
func (x Z) Mul(y Z) Z    { return Z{new(big.Int).Mul(x.b(), y.b())} }
func (x Z) Div(y Z) Z    { return Z{new(big.Int).Div(x.b(), y.b())} } // Euclidean
func (x Z) Mod(y Z) Z    { return Z{new(big.Int).Mod(x.b(), y.b())} }
func (x Z) Quo(y Z) Z    { return Z{new(big.Int).Quo(x.b(), y.b())} } // truncated
func (x Z) Rem(y Z) Z    { return Z{new(big.Int).Rem(x.b(), y.b())} }
func (x Z) And(y Z) Z    { return Z{new(big.Int).And(x.b(), y.b())} }
func (x Z) Or(y Z) Z     { return Z{new(big.Int).Or(x.b(), y.b())} }
func (x Z) Xor(y Z) Z    { return Z{new(big.Int).Xor(x.b(), y.b())} }
func (x Z) Neg() Z       { return Z{new(big.Int).Neg(x.b())} }
func (x Z) Exp(y, m Z) Z { return Z{new(big.Int).Exp(x.b(), y.b(), m.b())} }
// Low is the value modulo 2^64.
func (x Z) Low() uint64 { return new(big.Int).Mod(x.b(), new(big.Int).Lsh(big.NewInt(1), 64)).Uint64() }
func (x Z) Lt(y Z) bool  { return x.b().Cmp(y.b()) < 0 }
func (x Z) Le(y Z) bool  { return x.b().Cmp(y.b()) <= 0 }
func (x Z) Gt(y Z) bool  { return x.b().Cmp(y.b()) > 0 }
func (x Z) Ge(y Z) bool  { return x.b().Cmp(y.b()) >= 0 }
func (x Z) Eq(y Z) bool  { return x.b().Cmp(y.b()) == 0 }
func (x Z) Min(y Z) Z    { return If(x.Le(y), x, y) }
func (x Z) Max(y Z) Z    { return If(x.Le(y), y, x) }

// ByteLen is the number of bytes of the minimal big-endian encoding of |x|.
func ByteLen(x Z) int { return (x.b().BitLen() + 7) / 8 }

// Seq is an immutable snapshot of a byte slice.
type Seq struct{ b []byte }

func Bytes(b []byte) Seq         { return Seq{append([]byte{}, b...)} }
func (s Seq) Len() int           { return len(s.b) }
func (s Seq) At(i int) byte      { return s.b[i] }
func (s Seq) Eq(t Seq) bool      { return bytes.Equal(s.b, t.b) }
func (s Seq) Sub(lo, hi int) Seq { return Seq{s.b[lo:hi]} }
func (s Seq) BE() Z              { return Z{new(big.Int).SetBytes(s.b)} }
func (s Seq) String() string     { return fmt.Sprintf("%x", s.b) }

// Owned: none of the numbers is a package-level constant (the generator never shares those).
func Owned(xs ...*big.Int) bool { return true }

// Kept (loop invariants only): the contents of the slices, maps or pointed-to objects are those at loop entry.
func Kept(xs ...interface{}) bool { return true }

// Disjoint: the slices (or pointers) refer to pairwise different memory. nil is disjoint from anything.
func Disjoint(xs ...interface{}) bool {
	type rng struct{ lo, hi uintptr }
	var rs []rng
	for _, x := range xs {
		v := reflect.ValueOf(x)
		if !v.IsValid() || v.IsNil() {
			continue
		}
		n := v.Type().Elem().Size()
		if v.Kind() == reflect.Slice {
			n *= uintptr(v.Cap())
		}
		if n == 0 {
			continue
		}
		r := rng{v.Pointer(), v.Pointer() + n}
		for _, q := range rs {
			if r.lo < q.hi && q.lo < r.hi {
				return false
			}
		}
		rs = append(rs, r)
	}
	return true
}
func SameError(a, b error) bool  { return a == b }
