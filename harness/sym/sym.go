// Package sym is the interface between harnesses and the symbolic executor.
//
// The executor intercepts every function of this package; compiled natively
// (for replay of counterexamples and for validating the encoding) the same
// functions read concrete inputs and record what happened.
package sym

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
)

type obs struct {
	L string `json:"l"`
	K string `json:"k"`
	I int64  `json:"i"`
	F string `json:"f"`
	S string `json:"s"`
}

type run struct {
	Obs     []obs    `json:"obs"`
	Fails   []string `json:"fails"`
	Known   []string `json:"known"`
	Assume  bool     `json:"assume"`
	Panic   string   `json:"panic"`
	Reached []string `json:"reached"`
}

var (
	cur      *run
	in       map[string]string
	thorough bool
)

type assumeFailed struct{}

// Main runs harnesses on the requests read from standard input.
func Main(hs map[string]func()) {
	var req struct {
		Harness  string              `json:"harness"`
		Thorough bool                `json:"thorough"`
		Runs     []map[string]string `json:"runs"`
	}
	if err := json.NewDecoder(os.Stdin).Decode(&req); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	thorough = req.Thorough
	out := []*run{}
	h := hs[req.Harness]
	stdout := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	for _, r := range req.Runs {
		in = r
		cur = &run{}
		out = append(out, cur)
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(assumeFailed); ok {
						cur.Assume = true
						return
					}
					cur.Panic = fmt.Sprint(e)
					st := strings.Split(string(debug.Stack()), "\n")
					for _, l := range st {
						if strings.Contains(l, "/repo/") {
							cur.Panic += " at " + strings.TrimSpace(l)
							break
						}
					}
				}
			}()
			h()
		}()
	}
	json.NewEncoder(stdout).Encode(out)
}

func num(name string) uint64 {
	v, _ := strconv.ParseUint(in[name], 10, 64)
	return v
}

// Bytes is n unconstrained bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(num(fmt.Sprintf("%s[%d]", name, i)))
	}
	return b
}

// Uint is an unconstrained unsigned value of the given width.
func Uint(name string, bits int) uint64 { return num(name) }

// Bool is an unconstrained truth value.
func Bool(name string) bool { return num(name) != 0 }

// Real is an unconstrained real in [lo, hi].
func Real(name string, lo, hi float64) float64 {
	v, _ := strconv.ParseFloat(in[name], 64)
	return math.Min(math.Max(v, lo), hi)
}

// Assume restricts the inputs considered.
func Assume(b bool) {
	if !b {
		panic(assumeFailed{})
	}
}

// Assert states the property.
func Assert(b bool, label string) {
	if !b {
		cur.Fails = append(cur.Fails, label)
	}
}

// Except is Assert, except that failures inside region are the recorded finding known.
func Except(known string, region, b bool, label string) {
	if !b {
		if region {
			cur.Known = append(cur.Known, known)
		} else {
			cur.Fails = append(cur.Fails, label)
		}
	}
}

// Reach marks a point that some input must reach.
func Reach(label string) { cur.Reached = append(cur.Reached, label) }

// Eq asserts got == want and records got.
func Eq(got, want int64, label string) {
	cur.Obs = append(cur.Obs, obs{L: label, K: "i", I: got})
	Assert(got == want, label)
}

// Near asserts |got-want| <= tol and records got.
func Near(got, want, tol float64, label string) {
	ObserveFloat(label, got)
	Assert(Close(got, want, tol), label)
}

// Close reports |a-b| <= tol; NaN is close to NaN only.
func Close(a, b, tol float64) bool {
	sa, sb := math.IsNaN(a) || math.IsInf(a, 0), math.IsNaN(b) || math.IsInf(b, 0)
	if sa || sb {
		return sa && sb
	}
	return math.Abs(a-b) <= tol
}

// ObserveInt records a value for comparison between the code and its encoding.
func ObserveInt(label string, v int64) { cur.Obs = append(cur.Obs, obs{L: label, K: "i", I: v}) }

// ObserveFloat records a value for comparison between the code and its encoding.
func ObserveFloat(label string, v float64) {
	cur.Obs = append(cur.Obs, obs{L: label, K: "f", F: strconv.FormatFloat(v, 'g', -1, 64)})
}

// ObserveString records a value for comparison between the code and its encoding.
func ObserveString(label string, s string) { cur.Obs = append(cur.Obs, obs{L: label, K: "s", S: s}) }

// Contains reports whether the constant sub occurs in s.
func Contains(s, sub string) bool { return strings.Contains(s, sub) }

// Paths asks for one symbolic execution per path instead of merging paths.
func Paths() {}

// Floors also explores the values of floors with few values on paths of their own.
func Floors() {}

// Pick explores every whole value of v from lo to hi on a path of its own; v
// must be assumed to be one of them.
func Pick(v float64, lo, hi int) int { return int(v) }

// Never reports that b cannot be true here; it is false where that is not known.
func Never(b bool) bool { return !b }

// Thorough reports whether the deeper tier is running.
func Thorough() bool { return thorough }

// And is a && b without a branch.
func And(a, b bool) bool { return a && b }

// Or is a || b without a branch.
func Or(a, b bool) bool { return a || b }

// Labelled finds the first line that starts with a label, indented or not.
func Labelled(text, label string) (string, bool) {
	for _, line := range strings.Split(text, "\n") {
		line = strings.TrimLeft(line, " ")
		if strings.HasPrefix(line, label) {
			return strings.TrimLeft(line[len(label):], " "), true
		}
	}
	return "", false
}
