//go:build go1.23

package simrt

type pkgReset struct {
	path string
	f    func()
}

var resets []pkgReset

// RegisterReset is called by every rewritten package's init, dependencies
// first.
func RegisterReset(path string, f func()) { resets = append(resets, pkgReset{path, f}) }

// ResetAll starts every linked package of the code under test afresh. Packages
// for which skip reports true keep their state.
func ResetAll(skip func(path string) bool) {
	for _, r := range resets {
		if skip != nil && skip(r.path) {
			continue
		}
		r.f()
	}
}
