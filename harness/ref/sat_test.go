package ref

import (
	"math/rand"
	"testing"
)

// The oracle is itself checked against enumeration.
func TestAgainstBrute(t *testing.T) {
	r := rand.New(rand.NewSource(7))
	for i := 0; i < 20000; i++ {
		n := 1 + r.Intn(9)
		m := r.Intn(6 * n)
		var cls [][]int
		for j := 0; j < m; j++ {
			k := r.Intn(4)
			if k == 0 && r.Intn(10) > 0 {
				k = 3
			}
			var c []int
			for x := 0; x < k; x++ {
				l := 1 + r.Intn(n)
				if r.Intn(2) == 0 {
					l = -l
				}
				c = append(c, l)
			}
			cls = append(cls, c)
		}
		var as []int
		for x := r.Intn(3); x > 0; x-- {
			l := 1 + r.Intn(n)
			if r.Intn(2) == 0 {
				l = -l
			}
			as = append(as, l)
		}
		b, _ := Brute(cls, as)
		s := Solve(cls, as)
		if s.Sat != b {
			t.Fatalf("%v %v: brute %v ref %v", cls, as, b, s.Sat)
		}
		if s.Sat && (!Eval(cls, s.Model) || !EvalUnits(as, s.Model)) {
			t.Fatal("bad model")
		}
	}
}
func TestHard(t *testing.T) {
	r := rand.New(rand.NewSource(9))
	for i := 0; i < 20; i++ {
		n := 180
		var cls [][]int
		for j := 0; j < n*43/10; j++ {
			var c []int
			for x := 0; x < 3; x++ {
				l := 1 + r.Intn(n)
				if r.Intn(2) == 0 {
					l = -l
				}
				c = append(c, l)
			}
			cls = append(cls, c)
		}
		s := Solve(cls, nil)
		if s.Sat && !Eval(cls, s.Model) {
			t.Fatal("bad model")
		}
	}
}
