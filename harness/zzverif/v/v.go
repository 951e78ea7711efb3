// Package v is the harness interface. The symbolic engine replaces every
// function here; this native version replays one concrete input.
package v

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type Job struct {
	Harness string                 `json:"harness"`
	Inputs  map[string]interface{} `json:"inputs"`
	Tier    string                 `json:"tier"`
	Repeat  int                    `json:"repeat"`
	// stop repeating once this label fails (or a panic occurs for "panic")
	Want string `json:"want"`
	// or once these observations are made
	WantObs map[string]string `json:"want_obs"`
	// seed for inputs which are not given (0: the least value)
	Fill int64 `json:"fill"`
}

type Result struct {
	Done    bool              `json:"done"`
	Fails   []string          `json:"fails,omitempty"`
	Panic   string            `json:"panic,omitempty"`
	Assume  string            `json:"assume,omitempty"`
	Missing []string          `json:"missing,omitempty"`
	Obs     map[string]string `json:"obs,omitempty"`
	Reach   []string          `json:"reach,omitempty"`
	Runs    int               `json:"runs"`
	// the inputs with those which were filled in
	Used map[string]interface{} `json:"used,omitempty"`
}

var job Job
var res Result
var names map[string]int
var obsN map[string]int
var fill *rand.Rand

type assumeFailed struct{}

func uniq(name string) string {
	n := names[name]
	names[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, n)
}

// filled makes up an input which is not given.
func filled(name string, x func() interface{}) {
	if _, ok := job.Inputs[name]; !ok && fill != nil {
		job.Inputs[name] = x()
	}
}

func between(name string, lo, hi int64) {
	filled(name, func() interface{} { return strconv.FormatInt(lo+fill.Int63n(hi-lo+1), 10) })
}

func get(name string) (interface{}, bool) {
	x, ok := job.Inputs[name]
	if !ok {
		res.Missing = append(res.Missing, name)
	}
	return x, ok
}

func geti(name string, def int64) int64 {
	x, ok := get(name)
	if !ok {
		return def
	}
	switch y := x.(type) {
	case string:
		n, err := strconv.ParseInt(y, 10, 64)
		if err != nil {
			panic(err)
		}
		return n
	case float64:
		return int64(y)
	}
	panic(fmt.Sprintf("bad input %v", x))
}

// Int is a symbolic integer in [lo,hi].
func Int(name string, lo, hi int) int {
	name = uniq(name)
	between(name, int64(lo), int64(hi))
	return int(geti(name, int64(lo)))
}

// Bool is a symbolic boolean.
func Bool(name string) bool {
	name = uniq(name)
	filled(name, func() interface{} { return fill.Intn(2) == 1 })
	x, ok := get(name)
	if !ok {
		return false
	}
	return x.(bool)
}

// Rat is a symbolic rational n/den with n in [lo,hi].
func Rat(name string, lo, hi, den int) *big.Rat {
	name = uniq(name)
	between(name, int64(lo), int64(hi))
	return big.NewRat(geti(name, int64(lo)), int64(den))
}

// Choice is one of 0..n-1, explored as separate paths.
func Choice(name string, n int) int {
	name = uniq(name)
	between(name, 0, int64(n-1))
	return int(geti(name, 0))
}

// Str is a symbolic string of min..max bytes over the alphabet.
func Str(name string, min, max int, alphabet string) string {
	name = uniq(name)
	filled(name, func() interface{} {
		b := make([]byte, min+fill.Intn(max-min+1))
		for i := range b {
			b[i] = alphabet[fill.Intn(len(alphabet))]
		}
		return "s:" + hex.EncodeToString(b)
	})
	x, ok := get(name)
	if !ok {
		return strings.Repeat(alphabet[:1], min)
	}
	b, err := hex.DecodeString(strings.TrimPrefix(x.(string), "s:"))
	if err != nil {
		panic(err)
	}
	return string(b)
}

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		res.Assume = "failed"
		panic(assumeFailed{})
	}
}

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		for _, l := range res.Fails {
			if l == label {
				return
			}
		}
		res.Fails = append(res.Fails, label)
	}
}

// Reach records that the harness got to a place that matters.
func Reach(label string) { res.Reach = append(res.Reach, label) }

// Observe records a value, compared between the engine and the real run.
func Observe(label string, x interface{}) {
	obsN[label]++
	k := label
	if obsN[label] > 1 {
		k = fmt.Sprintf("%s#%d", label, obsN[label])
	}
	res.Obs[k] = render(reflect.ValueOf(x))
}

func render(r reflect.Value) string {
	if !r.IsValid() {
		return "<nil>"
	}
	if r.CanInterface() {
		if q, ok := r.Interface().(*big.Rat); ok {
			if q == nil {
				return "<nil>"
			}
			return q.RatString()
		}
	}
	switch r.Kind() {
	case reflect.Slice:
		var l []string
		for i := 0; i < r.Len(); i++ {
			l = append(l, render(r.Index(i)))
		}
		return "[" + strings.Join(l, " ") + "]"
	case reflect.Interface:
		if r.IsNil() {
			return "<nil>"
		}
		return render(r.Elem())
	case reflect.Ptr:
		if r.IsNil() {
			return "<nil>"
		}
		return "ptr"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(r.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(r.Uint(), 10)
	case reflect.String:
		return r.String()
	case reflect.Bool:
		return fmt.Sprint(r.Bool())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprint(r.Float())
	}
	return fmt.Sprint(r.Interface())
}

// MapOrder says how many iteration orders of a map are explored (0: one,
// 1: forwards and backwards, 2: all).
func MapOrder(n int) {}

// Bound picks a bound by tier.
func Bound(name string, quick, thorough int) int {
	if job.Tier == "thorough" {
		return thorough
	}
	return quick
}

func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Not(a bool) bool    { return !a }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func RatEq(a, b *big.Rat) bool { return a.Cmp(b) == 0 }

// Stub selects a behaviour of a modelled environment call.
func Stub(k, val string) {}

// PutFile writes a file (in the scratch directory which is the working
// directory and HOME).
func PutFile(name, content string) {
	if d := filepath.Dir(name); d != "." {
		os.MkdirAll(d, 0755)
	}
	if err := os.WriteFile(name, []byte(content), 0644); err != nil {
		panic(err)
	}
}

// GetFile reads a file.
func GetFile(name string) (string, bool) {
	b, err := os.ReadFile(name)
	return string(b), err == nil
}

// Files counts the files under the working directory.
func Files() int {
	n := 0
	filepath.Walk(".", func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			n++
		}
		return nil
	})
	return n
}

// Terminal makes standard output a terminal of a size, which must be inputs
// named "terminal width" and "terminal height"; to be called first.
func Terminal(width, height int) {}

// Bubble runs f with a clock of its own, which starts in 2000 and moves by
// what is slept.
var Bubble func(f func())

// At runs f at noon of a day from 2000/01/02 on.
func At(y, m, d int, f func()) {
	days := (y-1)*365 + (y-1)/4 - (y-1)/100 + (y-1)/400 + d - 1 - 719162
	for i, n := range []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30} {
		days += IteInt(m > i+1, n, 0)
	}
	days += IteInt(And(m > 2, Or(y%400 == 0, And(y%4 == 0, y%100 != 0))), 1, 0)
	at(int64(days)*86400+43200, y, time.Month(m), d, f)
}

func at(sec int64, y int, m time.Month, d int, f func()) {
	var p interface{}
	Bubble(func() {
		defer func() { p = recover() }()
		time.Sleep(time.Until(time.Unix(sec, 0)))
		f()
	})
	if p != nil {
		panic(p)
	}
}

// Setenv sets an environment variable.
func Setenv(name, val string) { os.Setenv(name, val) }

// Unsetenv removes an environment variable.
func Unsetenv(name string) { os.Unsetenv(name) }

// LimitWrites makes writes beyond n bytes of any file fail (-1: no limit), as
// on a full disk.
func LimitWrites(n int) {
	signal.Ignore(syscall.SIGXFSZ)
	var r syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &r); err != nil {
		panic(err)
	}
	r.Cur = r.Max
	if n >= 0 {
		r.Cur = uint64(n)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &r); err != nil {
		panic(err)
	}
}

var watchFd, watchName = -1, ""

// Watch watches a file, if its directory exists, until Touched is called.
func Watch(name string) {
	watchFd = -1
	if _, err := os.Stat(filepath.Dir(name)); err != nil {
		return
	}
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err == nil {
		_, err = syscall.InotifyAddWatch(fd, filepath.Dir(name), syscall.IN_MODIFY|syscall.IN_CREATE|syscall.IN_DELETE|syscall.IN_MOVED_FROM)
	}
	if err != nil {
		panic(err)
	}
	watchFd, watchName = fd, filepath.Base(name)
}

// Touched tells whether the file was changed in place, created or removed
// since Watch, rather than replaced by another one.
func Touched() bool {
	if watchFd < 0 {
		return false
	}
	defer func() { syscall.Close(watchFd); watchFd = -1 }()
	buf := make([]byte, 65536)
	hit := false
	for {
		n, err := syscall.Read(watchFd, buf)
		if n <= 0 || err != nil {
			return hit
		}
		for i := 0; i+16 <= n; {
			l := int(buf[i+12]) | int(buf[i+13])<<8
			if strings.TrimRight(string(buf[i+16:i+16+l]), "\x00") == watchName {
				hit = true
			}
			i += 16 + l
		}
	}
}

// clean empties the scratch directory.
func clean() {
	LimitWrites(-1)
	os.Unsetenv("GOLEDGER_CONF")
	os.Unsetenv("XDG_CONFIG_HOME")
	d, err := os.Getwd()
	if err != nil || !strings.HasPrefix(filepath.Base(d), "job") || os.Getenv("HOME") != d {
		return
	}
	l, _ := os.ReadDir(d)
	for _, e := range l {
		os.RemoveAll(filepath.Join(d, e.Name()))
	}
}

var captured *os.File

// Capture keeps what is written to standard output until Captured is called.
func Capture() {
	f, err := os.CreateTemp("", "zzout")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	captured, os.Stdout = f, f
}

// Captured is what was written since Capture.
func Captured() string {
	os.Stdout = os.Stderr
	defer captured.Close()
	n, err := captured.Seek(0, 1)
	b := make([]byte, n)
	if err == nil {
		_, err = captured.ReadAt(b, 0)
	}
	if err != nil && n > 0 {
		panic(err)
	}
	return string(b)
}

// IsSymbolic tells whether the engine is running the harness.
func IsSymbolic() bool { return false }

// Main replays a job read from the file named by VERIF_JOB.
func Main(reg map[string]func()) {
	b, err := os.ReadFile(os.Getenv("VERIF_JOB"))
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	if err := json.Unmarshal(b, &job); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	f, ok := reg[job.Harness]
	if !ok {
		fmt.Println("no harness", job.Harness)
		os.Exit(3)
	}
	if job.Repeat < 1 {
		job.Repeat = 1
	}
	out := os.Getenv("VERIF_OUT")
	os.Stdout = os.Stderr
	debug.SetGCPercent(400)
	t0 := time.Now()
	for i := 0; i < job.Repeat; i++ {
		clean()
		one(f)
		res.Runs = i + 1
		if stop() || time.Since(t0) > 8*time.Second {
			break
		}
	}
	LimitWrites(-1)
	res.Done = true
	b, _ = json.Marshal(res)
	if err := os.WriteFile(out, b, 0644); err != nil {
		os.Exit(3)
	}
}

func stop() bool {
	if job.Want == "panic" {
		return res.Panic != ""
	}
	if job.Want != "" {
		for _, l := range res.Fails {
			if l == job.Want {
				return true
			}
		}
		return false
	}
	if job.WantObs != nil {
		return fmt.Sprint(job.WantObs) == fmt.Sprint(res.Obs)
	}
	return true
}

func one(f func()) {
	names = map[string]int{}
	obsN = map[string]int{}
	res = Result{Obs: map[string]string{}}
	if job.Fill != 0 {
		fill = rand.New(rand.NewSource(job.Fill))
		if job.Inputs == nil {
			job.Inputs = map[string]interface{}{}
		}
		res.Used = job.Inputs
	}
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		if _, ok := e.(assumeFailed); ok {
			return
		}
		res.Panic = fmt.Sprint(e) + "\n" + string(debug.Stack())
	}()
	f()
}
