package core

import "time"

// Minimize shrinks a failing tape while the same violation class persists.
func Minimize(tape []uint32, spans []Span, deadline time.Time, run func([]uint32) Result, class string) ([]uint32, int) {
	best := append([]uint32(nil), tape...)
	curSpans := spans
	tries := 0
	try := func(cand []uint32) bool {
		if time.Now().After(deadline) {
			return false
		}
		tries++
		res := run(cand)
		if res.Class != class {
			return false
		}
		got := res.Tape
		// trailing zeros are implicit
		for len(got) > 0 && got[len(got)-1] == 0 {
			got = got[:len(got)-1]
		}
		if len(got) > len(best) || (len(got) == len(best) && !lessTape(got, best)) {
			return false
		}
		best, curSpans = append([]uint32(nil), got...), res.Spans
		return true
	}
	try(best)
	for progress := true; progress && time.Now().Before(deadline); {
		progress = false
		// truncate (the rest of the choices become 0)
		for n := len(best) / 2; n >= 1; n /= 2 {
			for len(best) > n && try(best[:len(best)-n]) {
				progress = true
			}
		}
		// delete whole operations, and then zero them
		for pass := 0; pass < 2; pass++ {
			for i := len(curSpans) - 1; i >= 0; i-- {
				if i >= len(curSpans) {
					continue
				}
				sp := curSpans[i]
				if sp.To <= sp.From || sp.From >= len(best) {
					continue
				}
				to := min(sp.To, len(best))
				cand := append([]uint32(nil), best[:sp.From]...)
				if pass == 1 {
					cand = append(cand, make([]uint32, to-sp.From)...)
				}
				cand = append(cand, best[to:]...)
				if try(cand) {
					progress = true
				}
			}
		}
		// delete and zero chunks
		for n := 32; n >= 1; n /= 2 {
			for i := len(best) - n; i >= 0; i -= n {
				if i+n > len(best) {
					continue
				}
				cand := append(append([]uint32(nil), best[:i]...), best[i+n:]...)
				if try(cand) {
					progress = true
					continue
				}
				if i+n > len(best) {
					continue
				}
				cand = append([]uint32(nil), best...)
				zero := true
				for j := i; j < i+n; j++ {
					zero = zero && cand[j] == 0
					cand[j] = 0
				}
				if !zero && try(cand) {
					progress = true
				}
			}
			if time.Now().After(deadline) {
				break
			}
		}
		// smaller values
		for i := 0; i < len(best); i++ {
			for i < len(best) && best[i] > 0 {
				cand := append([]uint32(nil), best...)
				cand[i] /= 2
				if try(cand) {
					progress = true
					continue
				}
				if i < len(best) && best[i] > 1 {
					cand = append([]uint32(nil), best...)
					cand[i]--
					if try(cand) {
						progress = true
						continue
					}
				}
				break
			}
			if time.Now().After(deadline) {
				break
			}
		}
	}
	return best, tries
}

func lessTape(a, b []uint32) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}
