package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"

	jd "github.com/romshark/jscan-experimental-decoder"
	"verif/harness/sp"
)

// printKnown prints the listed findings of a property that still fail.
func printKnown(file, id string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		return 0
	}
	var k struct {
		Findings []struct{ Property, ID, What string } `json:"findings"`
	}
	if err := json.Unmarshal(b, &k); err != nil {
		fatal(9, "%s: %v", file, err)
	}
	n := 0
	for _, f := range k.Findings {
		if f.Property != id {
			continue
		}
		fn := knownRepro[f.ID]
		if fn == nil {
			fatal(9, "known finding %s has no reproduction", f.ID)
		}
		if fn() {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, f.ID, f.What)
			n++
		}
	}
	return n
}

// knownRepro tells for each listed finding whether it still occurs.
var knownRepro = map[string]func() bool{
	"embedded-struct": func() bool {
		type T struct {
			sp.EmbExp
			X int
		}
		return differs[T](`{"C":"c","D":[1],"X":2}`)
	},
	"ill-formed-utf8":         func() bool { return differs[string]("\"a\xffb\"") },
	"pointer-in-any":          func() bool { return differsInto[any](`{"A":1}`, new(struct{ A, B int }), new(struct{ A, B int })) },
	"string-option-number":    func() bool { return differsR[quotedNumber, quotedNumberR](`{"N":1.5}`) },
	"string-option-unmarshal": func() bool { return differs[quotedUnm](`{"U":"5"}`) },
}

type quotedNumber struct {
	N jd.Number `json:",string"`
}
type quotedNumberR struct {
	N json.Number `json:",string"`
}
type quotedUnm struct {
	U sp.UJInt `json:",string"`
}

// differs tells whether decoding text differs from encoding/json.
func differs[T any](text string) bool {
	var z T
	return differsInto[T](text, z, z)
}

func differsInto[T any](text string, a, b T) bool {
	sp.ResetLog(true)
	errA := jd.Unmarshal(text, &a)
	logA := fmt.Sprint(sp.Calls)
	sp.ResetLog(true)
	errB := json.Unmarshal([]byte(text), &b)
	logB := fmt.Sprint(sp.Calls)
	sp.ResetLog(false)
	return (errA == nil) != (errB == nil) || errA == nil && !reflect.DeepEqual(a, b) || logA != logB
}

func differsR[T, R any](text string) bool {
	var a T
	var b R
	errA := jd.Unmarshal(text, &a)
	errB := json.Unmarshal([]byte(text), &b)
	return (errA == nil) != (errB == nil) || errA == nil && fmt.Sprint(a) != fmt.Sprint(b)
}
