package main

import "reflect"

// kept is a decoded value that must not change any more.
type kept struct {
	v    reflect.Value
	snap string
	desc string
}
