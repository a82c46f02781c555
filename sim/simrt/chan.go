package simrt

import "reflect"

// GoCall is `go f(args...)`.
func GoCall(f interface{}, args ...interface{}) {
	fv := reflect.ValueOf(f)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			in[i] = reflect.Zero(fv.Type().In(i))
			continue
		}
		in[i] = reflect.ValueOf(a)
	}
	Go(func() { fv.Call(in) })
}

// Send is ch <- v for buffered channels.
func Send[T any](ch chan<- T, v T) {
	if !Active() {
		ch <- v
		return
	}
	Y(SiteLock)
	for {
		select {
		case ch <- v:
			Wake()
			return
		default:
			Block()
		}
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !Active() {
		v, ok := <-ch
		return v, ok
	}
	Y(SiteLock)
	for {
		select {
		case v, ok := <-ch:
			Wake()
			return v, ok
		default:
			Block()
		}
	}
}
