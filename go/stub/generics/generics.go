// Package generics has what the Go binding uses of github.com/anacrolix/generics, which isn't available here.
package generics

type Option[V any] struct {
	Value V
	Ok    bool
}

func Some[V any](v V) Option[V] { return Option[V]{v, true} }
func None[V any]() Option[V]    { return Option[V]{} }

func (me Option[V]) UnwrapOr(or V) V {
	if me.Ok {
		return me.Value
	}
	return or
}

func (me Option[V]) Unwrap() V {
	if !me.Ok {
		panic("unwrapped None")
	}
	return me.Value
}

// Set returns what it was before.
func (me *Option[V]) Set(v V) (prev Option[V]) {
	prev = *me
	*me = Some(v)
	return
}

func (me *Option[V]) SetNone() { *me = Option[V]{} }

func InitNew[T any](p **T) { *p = new(T) }

func SetZero[T any](p *T) {
	var zero T
	*p = zero
}

func (me Option[V]) AsTuple() (V, bool) { return me.Value, me.Ok }

func (me Option[V]) UnwrapOrZeroValue() (v V) { return me.Value }

func (me *Option[V]) UnwrapPtr() *V {
	if !me.Ok {
		panic("unwrapped None")
	}
	return &me.Value
}

func (me *Option[V]) SetFromTuple(v V, ok bool) { *me = OptionFromTuple(v, ok) }

func OptionFromTuple[V any](v V, ok bool) Option[V] {
	if !ok {
		return Option[V]{}
	}
	return Some(v)
}

func ZeroValue[T any]() (zero T) { return }

func PtrTo[T any](t T) *T { return &t }

func MakeSlice[T any, S ~[]T](s *S, n int) { *s = make(S, n) }
