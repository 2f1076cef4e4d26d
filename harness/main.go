// Harness: executes the real code of lyraproj/dgo on generated inputs and compares what it does with an
// oracle that is independent of the code. It serves two purposes: it looks for a concrete failing input when a
// proof obligation is not discharged, and it is the (bounded) stand-in for functions outside the verifier's reach.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

type Fail struct {
	Key   string `json:"key"`   // what failed: stable, used by the known findings file
	Input string `json:"input"` // the concrete input
	Msg   string `json:"msg"`
}

type Out struct {
	Property string         `json:"property"`
	Seed     int64          `json:"seed"`
	Evals    int            `json:"evaluations"`
	Distinct int            `json:"distinct_nontrivial"`
	Samples  []string       `json:"samples"`
	Fails    []Fail         `json:"fails"`
	Groups   map[string]int `json:"groups"`
	Done     bool           `json:"done"`
	Cut      bool           `json:"cut_by_time"`
}

type T struct {
	Out
	rng      *rand.Rand
	seen     map[uint64]bool
	deadline time.Time
	thorough bool
	cur      *os.File
	group    string
	keys     map[string]int
}

// Expired tells a random loop to stop.
func (t *T) Expired() bool {
	if time.Now().After(t.deadline) {
		t.Cut = true
		return true
	}
	return false
}

// N scales the number of random cases with the tier.
func (t *T) N(n int) int {
	if t.thorough {
		return n * 8
	}
	return n
}

func (t *T) Group(g string) { t.group = g }

// Check runs one case. f returns "" when the property holds and an explanation otherwise.
func (t *T) Check(key string, input func() string, f func() string) {
	if t.keys[key] >= 3 {
		return
	}
	t.Evals++
	t.Groups[t.group]++
	in := ""
	if input != nil {
		in = input()
	}
	h := fnv.New64a()
	h.Write([]byte(key + "\x00" + in))
	s := h.Sum64()
	if !t.seen[s] {
		t.seen[s] = true
		t.Distinct++
		if t.Groups[t.group] == 2 && len(t.Samples) < 12 {
			t.Samples = append(t.Samples, t.group+"/"+key+": "+in)
		}
	}
	t.cur.WriteAt([]byte(fmt.Sprintf("%-400s", cut(key+": "+in, 400))), 0)
	msg := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				msg = fmt.Sprintf("unexpected panic: %v", r)
			}
		}()
		msg = f()
	}()
	if msg != "" {
		t.keys[key]++
		t.Fails = append(t.Fails, Fail{key, in, msg})
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// Panics runs f and returns the panic message, and if it panicked.
func Panics(f func()) (msg string, p bool) {
	defer func() {
		if r := recover(); r != nil {
			msg, p = fmt.Sprint(r), true
		}
	}()
	f()
	return
}

var props = map[string]func(*T){}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "tier")
	secs := flag.Int("secs", 20, "time limit")
	cur := flag.String("cur", "/dev/null", "file that receives the current case")
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(4 << 30)
	f := props[*prop]
	if f == nil {
		fmt.Println("{}")
		return
	}
	cf, err := os.OpenFile(*cur, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		panic(err)
	}
	t := &T{rng: rand.New(rand.NewSource(*seed)), seen: map[uint64]bool{}, deadline: time.Now().Add(time.Duration(*secs) * time.Second),
		thorough: *tier == "thorough", cur: cf, keys: map[string]int{}}
	t.Out.Property = *prop
	t.Out.Seed = *seed
	t.Groups = map[string]int{}
	f(t)
	t.Done = true
	b, _ := json.Marshal(&t.Out)
	os.Stdout.Write(b)
	fmt.Println()
}

var _ = strings.Join
