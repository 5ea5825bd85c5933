//go:build go1.23

package harness

// linKey is a node of the linearization search.
type linKey struct {
	done uint64
	st   string
}

// linearizable looks for an order of the operations, compatible with their
// intervals, in which each gives the result it gave; step applies operation i
// to a state and gives the states that fit its result. Operations that have not
// returned may or may not have taken effect. It gives up (and returns true)
// after maxNodes states.
func linearizable(ops []iv, init string, step func(i int, st string) []string, maxNodes int) (ok, gaveUp bool, longest uint64) {
	if len(ops) > 64 {
		return true, true, 0
	}
	var must uint64
	for i, o := range ops {
		if o.ret != never {
			must |= 1 << uint(i)
		}
	}
	seen := map[linKey]bool{}
	best := 0
	nodes := 0
	var walk func(k linKey, n int) bool
	walk = func(k linKey, n int) bool {
		if k.done&must == must {
			return true
		}
		if seen[k] {
			return false
		}
		seen[k] = true
		if nodes++; nodes > maxNodes {
			gaveUp = true
			return true
		}
		if n > best {
			best, longest = n, k.done
		}
		// an operation can be next if none that has to come before it is left
		first := never
		for i, o := range ops {
			if k.done&(1<<uint(i)) == 0 && o.ret < first {
				first = o.ret
			}
		}
		for i, o := range ops {
			if k.done&(1<<uint(i)) != 0 || o.inv > first {
				continue
			}
			for _, st := range step(i, k.st) {
				if walk(linKey{k.done | 1<<uint(i), st}, n+1) {
					return true
				}
			}
		}
		return false
	}
	ok = walk(linKey{0, init}, 0)
	return ok, gaveUp, longest
}
