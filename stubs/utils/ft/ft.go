package ft

func Map[T, R any](fn func(T) R, xs []T) []R {
	out := make([]R, len(xs))
	for i, x := range xs {
		out[i] = fn(x)
	}
	return out
}

func Sum[T ~int | ~int64 | ~float64 | ~string](xs []T) (s T) {
	for _, x := range xs {
		s += x
	}
	return s
}
