package main

import (
	"strconv"

	"verif/harness/pbt"
)

// The checks that also decide C34, more weight to those about numbers and memory.
var on32 = []string{
	"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C09", "C09", "C10", "C11", "C12", "C13", "C14", "C14", "C15", "C15",
	"C16", "C17", "C17", "C18", "C18", "C19", "C20", "C22", "C23", "C24", "C24", "C25", "C26", "C29", "C32", "C33",
}

func init() {
	register(&Prop{
		ID:   "C34",
		Rule: "each case is one of the checks of C01-C20, C22-C26, C29, C32 and C33, built for a platform with 32-bit int and pointers (linux/386) and run there with the bounds of that platform's integers, encoding/json on the same platform being the reference; non-trivial: by the rule of the check chosen",
		Run: func(e *Env, s *pbt.Src) *Res {
			id := pbt.Pick(s, on32)
			r := props[id].Run(e, s)
			if r == nil {
				r = &Res{}
			}
			r.Key ^= pbt.HashBytes(id)
			r.Counts = append(r.Counts, "as "+id, strconv.Itoa(strconv.IntSize)+" bit")
			if d := r.desc; d != nil {
				r.desc = func() string { return "as " + id + ", " + strconv.Itoa(strconv.IntSize) + " bit: " + d() }
			}
			return r
		},
	})
}
