// Package vh is the harness API. The symbolic engine intercepts these functions;
// this native implementation reads the inputs of one concrete case from a JSON
// file (VH_REPLAY) so that counterexamples can be replayed on the real code.
package vh

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
)

type Case struct {
	Inputs map[string]string `json:"inputs"`
	Deep   bool              `json:"deep"`
}

var cur Case
var names = map[string]int{}
var rnd *rand.Rand

// AssumeFailed is thrown when an assumption does not hold natively.
type AssumeFailed struct{}

// Result of a native run.
type Result struct {
	Failed  []string          `json:"failed"`
	Panic   string            `json:"panic"`
	Assume  bool              `json:"assume_failed"`
	Obs     []string          `json:"obs"`
	Inputs  map[string]string `json:"inputs,omitempty"`
}

var res Result

// Run executes a harness natively.
func Run(f func(), c Case, seed int64) (r Result) {
	cur = c
	names = map[string]int{}
	res = Result{}
	rnd = nil
	if seed != 0 {
		rnd = rand.New(rand.NewSource(seed))
		cur.Inputs = map[string]string{}
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(AssumeFailed); ok {
				res.Assume = true
			} else {
				res.Panic = fmt.Sprint(e)
				if res.Panic == "" {
					res.Panic = "panic"
				}
			}
		}
		res.Inputs = cur.Inputs
		r = res
	}()
	f()
	return res
}

// Main is the replay driver.
func Main(hs map[string]func()) {
	name := os.Args[1]
	f := hs[name]
	if f == nil {
		var ks []string
		for k := range hs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(ks)
		os.Exit(3)
	}
	var cases []Case
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &cases); err != nil {
		panic(err)
	}
	var out []Result
	for _, c := range cases {
		out = append(out, Run(f, c, 0))
	}
	if len(os.Args) > 3 {
		// random search for a case failing the given label
		n, _ := strconv.Atoi(os.Args[3])
		want := os.Args[4]
		base, _ := strconv.ParseInt(os.Args[5], 10, 64)
		out = nil
		for i := 1; i <= n; i++ {
			r := Run(f, Case{Deep: len(os.Args) > 6}, base<<20+int64(i))
			if r.Assume {
				continue
			}
			hit := want == "panic" && r.Panic != ""
			for _, l := range r.Failed {
				hit = hit || l == want
			}
			if hit {
				out = append(out, r)
				break
			}
		}
	}
	j, _ := json.Marshal(out)
	os.Stdout.Write(append(j, '\n'))
}

func get(name string) (uint64, string) {
	n := names[name]
	names[name]++
	if n > 0 {
		name += "#" + strconv.Itoa(n)
	}
	return raw(name, 64), name
}

func raw(name string, w int) uint64 {
	s, ok := cur.Inputs[name]
	if !ok {
		if rnd != nil {
			v := rnd.Uint64()
			switch rnd.Intn(4) {
			case 0:
				v = uint64(rnd.Intn(3))
			case 1:
				v >>= uint(rnd.Intn(64))
			}
			if w < 64 {
				v &= 1<<uint(w) - 1
			}
			cur.Inputs[name] = strconv.FormatUint(v, 10)
			return v
		}
		return 0
	}
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return v
}

func nm(name string) string { _, s := getName(name); return s }
func getName(name string) (int, string) {
	n := names[name]
	names[name]++
	if n > 0 {
		return n, name + "#" + strconv.Itoa(n)
	}
	return n, name
}

func U8(n string) uint8   { return uint8(raw(nm(n), 8)) }
func U16(n string) uint16 { return uint16(raw(nm(n), 16)) }
func U32(n string) uint32 { return uint32(raw(nm(n), 32)) }
func U64(n string) uint64 { return raw(nm(n), 64) }
func I8(n string) int8    { return int8(raw(nm(n), 8)) }
func I32(n string) int32  { return int32(raw(nm(n), 32)) }
func I64(n string) int64  { return int64(raw(nm(n), 64)) }
func Int(n string) int    { return int(raw(nm(n), 64)) }
func Bool(n string) bool  { return raw(nm(n), 1) != 0 }

// Bytes is an arbitrary byte slice of length n.
func Bytes(name string, n int) []byte {
	name = nm(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(raw(name+"["+strconv.Itoa(i)+"]", 8))
	}
	return b
}

// String is an arbitrary string of n bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// IntRange is an arbitrary int in [lo,hi].
func IntRange(name string, lo, hi int) int {
	name = nm(name)
	if rnd != nil {
		if _, ok := cur.Inputs[name]; !ok {
			cur.Inputs[name] = strconv.FormatUint(uint64(lo+rnd.Intn(hi-lo+1)), 10)
		}
	}
	v := int(raw(name, 64))
	if _, ok := cur.Inputs[name]; !ok {
		v = lo
	}
	Assume(v >= lo && v <= hi)
	return v
}

// Pick is an int in [lo,hi]; the engine explores each value on its own path.
func Pick(name string, lo, hi int) int { return IntRange(name, lo, hi) }

// Split asks the engine to explore both outcomes separately.
func Split(b bool) bool { return b }

// NoMerge asks the engine to keep paths of this harness apart.
func NoMerge() {}

// Concrete asks the engine to explore each value of v separately.
func Concrete(v int) int { return v }

// Assume restricts the inputs considered.
func Assume(b bool) {
	if !b {
		panic(AssumeFailed{})
	}
}

// Assert states a property.
func Assert(label string, b bool) {
	if !b {
		res.Failed = append(res.Failed, label)
	}
}

// Cover marks a point that must be reachable.
func Cover(label string) {}

// Note records a remark in the evidence.
func Note(s string) {}

// Observe records a value for engine/native comparison.
func Observe(label string, v interface{}) {
	switch b := v.(type) {
	case []byte:
		v = string(b)
	}
	switch b := v.(type) {
	case string:
		res.Obs = append(res.Obs, fmt.Sprintf("%s=%x", label, b))
	default:
		res.Obs = append(res.Obs, fmt.Sprintf("%s=%v", label, v))
	}
}

// Deep reports whether the thorough tier is running.
func Deep() bool { return cur.Deep }

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(AssumeFailed); ok {
				panic(e)
			}
			p = true
		}
	}()
	f()
	return false
}

// Injected gives the inputs of the case being replayed.
func Injected() map[string]string { return cur.Inputs }
