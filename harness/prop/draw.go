package prop

import "pgregory.net/rapid"

type rapidT = rapid.T

var sixteen [17]*rapid.Generator[bool]

func init() {
	for k := range sixteen {
		tbl := make([]bool, 16)
		for i := 16 - k; i < 16; i++ {
			tbl[i] = true
		}
		sixteen[k] = rapid.SampledFrom(tbl)
	}
}

// Chance is true in roughly k of 16 draws and shrinks to false.
func Chance(t *rapid.T, k int) bool { return sixteen[k].Draw(t, "p") }

// Int draws from [0,n); shrinks to 0.
func Int(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	return rapid.IntRange(0, n-1).Draw(t, "n")
}

// Range draws from [lo,hi]; shrinks towards lo.
func Range(t *rapid.T, lo, hi int) int {
	return rapid.IntRange(lo, hi).Draw(t, "r")
}

// Pick draws one of xs; shrinks to the first.
func Pick[T any](t *rapid.T, xs ...T) T { return xs[Int(t, len(xs))] }

// Perm draws a permutation of 0..n-1; shrinks to the identity.
func Perm(t *rapid.T, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + Int(t, n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Uniform draws from [0,n) without a preference for small numbers.
func Uniform(t *rapid.T, n int) int {
	v := 0
	for k := 1; k < 4*n; k *= 2 {
		v *= 2
		if rapid.Bool().Draw(t, "u") {
			v++
		}
	}
	return v % n
}

// Any draws one of xs, each as likely as the others.
func Any[T any](t *rapid.T, xs ...T) T { return xs[Uniform(t, len(xs))] }
