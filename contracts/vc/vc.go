// Package vc is the specification vocabulary of the lemmas in /verif/contracts. The verifier interprets these
// calls symbolically; the bodies below only serve to replay a lemma on concrete inputs.
package vc

import (
	"bytes"
	"fmt"
	"reflect"

	"google.golang.org/protobuf/proto"
)

// Skip is raised by a failed assumption, Failure by a failed assertion.
type Skip struct{}
type Failure struct{ Name, Detail string }

func (f Failure) Error() string { return f.Name + ": " + f.Detail }

// Assume restricts the inputs considered (a precondition).
func Assume(c bool) {
	if !c {
		panic(Skip{})
	}
}

// Assert states a postcondition.
func Assert(c bool, name string) {
	if !c {
		panic(Failure{name, "condition is false"})
	}
}

// AssertBytes states that two byte strings are equal (nil and empty alike).
func AssertBytes(a, b []byte, name string) {
	if !bytes.Equal(a, b) {
		panic(Failure{name, fmt.Sprintf("%x != %x", clip(a), clip(b))})
	}
}

// AssertString states that two strings are equal.
func AssertString(a, b string, name string) {
	if a != b {
		panic(Failure{name, fmt.Sprintf("%q != %q", a, b)})
	}
}

// AssertMsg states deep equality of two messages, or of two values of the same type.
func AssertMsg(a, b any, name string) {
	x, ok1 := a.(proto.Message)
	y, ok2 := b.(proto.Message)
	if ok1 && ok2 {
		xn, yn := reflect.ValueOf(a).IsNil(), reflect.ValueOf(b).IsNil()
		if xn != yn || (!xn && !proto.Equal(x, y)) {
			panic(Failure{name, clips(fmt.Sprintf("messages differ: {%v} {%v}", a, b))})
		}
		return
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Kind() == reflect.Slice && vb.Kind() == reflect.Slice {
		if va.Len() != vb.Len() {
			panic(Failure{name, fmt.Sprintf("lengths %d and %d", va.Len(), vb.Len())})
		}
		for i := 0; i < va.Len(); i++ {
			AssertMsg(va.Index(i).Interface(), vb.Index(i).Interface(), fmt.Sprintf("%s[%d]", name, i))
		}
		return
	}
	if !reflect.DeepEqual(a, b) {
		panic(Failure{name, clips(fmt.Sprintf("values differ: %v %v", a, b))})
	}
}

// Reach marks a point the verifier must show to be reachable (guards against vacuous proofs).
func Reach(name string) {}

// Snap copies bytes as they are now.
func Snap(b []byte) []byte { return append([]byte{}, b...) }

func clip(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}
func clips(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

// Owned states that no part of b lies in memory that later calls may overwrite; decided symbolically.
func Owned(b []byte) bool { return true }

// At is a hint to the verifier: use what the loops executed so far do in iteration k.
func At(k int) {}

// Follow is a hint to the verifier: where a later loop ends, use what the loops executed so far do in that iteration.
func Follow() {}
