package sim

// Run-time support of woven packages.

type resetEnt struct {
	path string
	f    func()
}

var resets []resetEnt

// RegisterReset is called from the init of each woven package, dependencies
// first.
func RegisterReset(path string, f func()) { resets = sPush(resets, resetEnt{path, f}) }

// ResetAll gives every woven package the state of a fresh process. It runs on
// a goroutine of the starting process, because initialisers may start
// goroutines and open sockets.
func ResetAll() {
	for _, r := range resets {
		r.f()
	}
}

// ResetSome resets the packages keep accepts.
func ResetSome(keep func(path string) bool) {
	for _, r := range resets {
		if keep(r.path) {
			r.f()
		}
	}
}

func Zero[T any](p *T) {
	var z T
	*p = z
}

func ElemZero[T any](c <-chan T) (v T)                { return }
func MapKeyZero[K comparable, V any](m map[K]V) (k K) { return }
func MapValZero[K comparable, V any](m map[K]V) (v V) { return }
