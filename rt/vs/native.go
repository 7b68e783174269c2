package vs

import "reflect"

type nativeCase interface {
	native() reflect.SelectCase
	got(v reflect.Value, ok bool)
}

func (c *RecvCase[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}
func (c *RecvCase[T]) got(v reflect.Value, ok bool) {
	c.OK = ok
	if ok {
		reflect.ValueOf(&c.V).Elem().Set(v)
	}
}
func (c *SendCase[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}
func (c *SendCase[T]) got(v reflect.Value, ok bool) {}

func nativeSelect(hasDefault bool, cases []Case) int {
	var sc []reflect.SelectCase
	for _, c := range cases {
		sc = append(sc, c.(nativeCase).native())
	}
	if hasDefault {
		sc = append(sc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(sc)
	if i >= len(cases) {
		return -1
	}
	cases[i].(nativeCase).got(v, ok)
	return i
}
