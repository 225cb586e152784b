//go:build go1.21

package lib

// Subsets calls f with every subset of 0..n-1 (as a sorted index list) of size between lo and hi.
func Subsets(n, lo, hi int, f func([]int)) {
	for m := 0; m < 1<<uint(n); m++ {
		var s []int
		for i := 0; i < n; i++ {
			if m>>uint(i)&1 == 1 {
				s = append(s, i)
			}
		}
		if len(s) >= lo && len(s) <= hi {
			f(s)
		}
	}
}

// Perms calls f with every permutation of 0..n-1.
func Perms(n int, f func([]int)) {
	p := make([]int, n)
	used := make([]bool, n)
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(append([]int(nil), p...))
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				p[k] = i
				rec(k + 1)
				used[i] = false
			}
		}
	}
	rec(0)
}

// Tuples calls f with every tuple t with 0 <= t[i] < sizes[i].
func Tuples(sizes []int, f func([]int)) {
	t := make([]int, len(sizes))
	var rec func(k int)
	rec = func(k int) {
		if k == len(sizes) {
			f(append([]int(nil), t...))
			return
		}
		for i := 0; i < sizes[k]; i++ {
			t[k] = i
			rec(k + 1)
		}
	}
	rec(0)
}

// Interleavings calls f with every interleaving of sequences of the given lengths, as the list of
// sequence numbers.
func Interleavings(lens []int, f func([]int)) {
	total := 0
	for _, l := range lens {
		total += l
	}
	left := append([]int(nil), lens...)
	out := make([]int, 0, total)
	var rec func()
	rec = func() {
		if len(out) == total {
			f(append([]int(nil), out...))
			return
		}
		for i := range left {
			if left[i] > 0 {
				left[i]--
				out = append(out, i)
				rec()
				out = out[:len(out)-1]
				left[i]++
			}
		}
	}
	rec()
}
