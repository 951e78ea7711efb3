package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

type job struct {
	Harness string                 `json:"harness"`
	Inputs  map[string]interface{} `json:"inputs"`
	Tier    string                 `json:"tier"`
	Repeat  int                    `json:"repeat"`
	Want    string                 `json:"want,omitempty"`
	WantObs map[string]string      `json:"want_obs,omitempty"`
	// seed for inputs which are not given (0: the least value)
	Fill int64 `json:"fill,omitempty"`
}

type result struct {
	Done    bool              `json:"done"`
	Fails   []string          `json:"fails"`
	Panic   string            `json:"panic"`
	Assume  string            `json:"assume"`
	Missing []string          `json:"missing"`
	Obs     map[string]string `json:"obs"`
	Reach   []string          `json:"reach"`
	Runs    int               `json:"runs"`
	// the inputs with those which were filled in
	Used map[string]interface{} `json:"used"`

	exit    int
	timeout bool
	stderr  string
}

type harnessRef struct{ pkg, fn string }

func (h harnessRef) key() string { return h.pkg + "." + h.fn }

type replayer struct {
	dir  string
	bin  string
	mu   sync.Mutex
	n    int
	once sync.Once
	err  error
	hs   []harnessRef
	cfg  *paths
}

type paths struct{ repo, harness, modfile, verif string }

func newReplayer(p *paths, hs []harnessRef) (*replayer, error) {
	d, err := os.MkdirTemp("", "gosym-replay")
	if err != nil {
		return nil, err
	}
	return &replayer{dir: d, hs: hs, cfg: p}, nil
}

func (r *replayer) close() { os.RemoveAll(r.dir) }

func (r *replayer) build() error {
	r.once.Do(func() { r.err = r.build1() })
	return r.err
}

func (r *replayer) build1() error {
	ov, err := overlayFiles(r.cfg.harness, r.cfg.repo)
	if err != nil {
		return err
	}
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"" + vpkg + "\"\n")
	seen := map[string]string{}
	for _, h := range r.hs {
		if _, ok := seen[h.pkg]; !ok {
			seen[h.pkg] = fmt.Sprintf("h%d", len(seen))
			fmt.Fprintf(&b, "\t%s %q\n", seen[h.pkg], modPath+"/zzverif/"+h.pkg)
		}
	}
	// a clock which can be set, for the harnesses which set it
	bubble := false
	for _, p := range ov {
		if src, err := os.ReadFile(p); err == nil && seen[filepath.Base(filepath.Dir(p))] != "" && strings.Contains(string(src), "v.At(") {
			bubble = true
		}
	}
	if bubble {
		b.WriteString("\t_ \"unsafe\"\n")
	}
	b.WriteString(")\n\n")
	if bubble {
		b.WriteString(bubbleSrc)
	}
	b.WriteString("func main() {\n\tv.Main(map[string]func(){\n")
	for _, h := range r.hs {
		fmt.Fprintf(&b, "\t\t%q: %s.%s,\n", h.key(), seen[h.pkg], h.fn)
	}
	b.WriteString("\t})\n}\n")
	mainf := filepath.Join(r.dir, "main.go")
	if err := os.WriteFile(mainf, []byte(b.String()), 0644); err != nil {
		return err
	}
	ov[filepath.Join(r.cfg.repo, "zzverif/zzmain/main.go")] = mainf
	js, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	ovf := filepath.Join(r.dir, "overlay.json")
	if err := os.WriteFile(ovf, js, 0644); err != nil {
		return err
	}
	r.bin = filepath.Join(r.dir, "replay")
	c := exec.Command("go", "build", "-overlay", ovf, "-modfile="+r.cfg.modfile, "-ldflags=-checklinkname=0",
		"-gcflags="+modPath+"/zzverif/zzmain=-complete=false", "-o", r.bin, "./zzverif/zzmain")
	c.Dir = r.cfg.repo
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	out, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("build of the replay program: %v\n%s", err, out)
	}
	return nil
}

const bubbleSrc = `//go:linkname bubble internal/synctest.Run
func bubble(f func())

func init() { v.Bubble = bubble }

`

func (r *replayer) run(j *job, timeout time.Duration) (*result, error) {
	if err := r.build(); err != nil {
		return nil, err
	}
	r.mu.Lock()
	r.n++
	base := filepath.Join(r.dir, fmt.Sprintf("job%d", r.n))
	r.mu.Unlock()
	if err := os.Mkdir(base, 0777); err != nil {
		return nil, err
	}
	b, _ := json.Marshal(j)
	if err := os.WriteFile(base+".json", b, 0644); err != nil {
		return nil, err
	}
	cx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(cx, r.bin)
	c.Dir = base
	c.Env = []string{"VERIF_JOB=" + base + ".json", "VERIF_OUT=" + base + ".out", "HOME=" + base, "PATH=/nonexistent", "TMPDIR=" + base, "GOMEMLIMIT=2GiB", "TZ=UTC"}
	if w, ok := intInput(j, "terminal width"); ok {
		h, _ := intInput(j, "terminal height")
		master, slave, err := terminal(w, h)
		if err != nil {
			return nil, fmt.Errorf("no terminal: %v", err)
		}
		defer master.Close()
		defer slave.Close()
		c.Stdout = slave
	}
	var se strings.Builder
	c.Stderr = &limitW{w: &se, n: 4000}
	err := c.Run()
	res := &result{}
	if cx.Err() != nil {
		res.timeout = true
	}
	if err != nil {
		res.exit = -1
		if ee, ok := err.(*exec.ExitError); ok {
			res.exit = ee.ExitCode()
		}
	}
	res.stderr = se.String()
	if ob, err := os.ReadFile(base + ".out"); err == nil {
		json.Unmarshal(ob, res)
	}
	os.RemoveAll(base)
	os.Remove(base + ".json")
	os.Remove(base + ".out")
	return res, nil
}

type limitW struct {
	w *strings.Builder
	n int
}

func (l *limitW) Write(p []byte) (int, error) {
	if k := l.n - l.w.Len(); k > 0 {
		if k > len(p) {
			k = len(p)
		}
		l.w.Write(p[:k])
	}
	return len(p), nil
}

// confirm replays a candidate against the real code.
func (r *replayer) confirm(h harnessRef, c *candidate, tier string) (bool, string, error) {
	j := &job{Harness: h.key(), Inputs: c.Inputs, Tier: tier, Repeat: 2000}
	switch c.Kind {
	case "assert":
		j.Want = c.Msg
	case "panic":
		j.Want = "panic"
	default:
		j.Repeat = 1
	}
	res, err := r.run(j, 20*time.Second)
	if err != nil {
		return false, "", err
	}
	switch c.Kind {
	case "assert":
		for _, f := range res.Fails {
			if f == c.Msg {
				return true, "assertion fails", nil
			}
		}
	case "panic":
		if res.Panic != "" {
			return true, "panic: " + trunc(res.Panic, 1500), nil
		}
	case "exit":
		if !res.Done && !res.timeout && res.exit != 0 {
			return true, fmt.Sprintf("process exit %d: %s", res.exit, trunc(res.stderr, 300)), nil
		}
	case "hang":
		if res.timeout || (!res.Done && (strings.Contains(res.stderr, "stack exceeds") || strings.Contains(res.stderr, "overflow") || strings.Contains(res.stderr, "out of memory"))) {
			return true, "does not terminate", nil
		}
	}
	return false, fmt.Sprintf("not reproduced: %+v", *res), nil
}

// probe runs the real code on inputs of paths which could not be encoded to
// their end and returns what fails there.
func (r *replayer) probe(h harnessRef, e *Engine, tier string) (int, []*candidate) {
	var ins []map[string]interface{}
	for _, p := range e.probes {
		ins = append(ins, p...)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	n := 0
	found := map[string]*candidate{}
	sem := make(chan bool, 8)
	for i, in := range ins {
		wg.Add(1)
		go func(i int, in map[string]interface{}) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			mu.Lock()
			stop := found["hang"] != nil
			mu.Unlock()
			if stop {
				return
			}
			res, err := r.run(&job{Harness: h.key(), Inputs: in, Tier: tier, Repeat: 1, Fill: int64(i + 1)}, 20*time.Second)
			if err != nil || res.Assume != "" {
				return
			}
			mu.Lock()
			defer mu.Unlock()
			n++
			used := res.Used
			if used == nil {
				used = in
			}
			c := &candidate{Inputs: used, Where: "real code"}
			switch {
			case len(res.Fails) > 0:
				c.Kind, c.Msg = "assert", res.Fails[0]
			case res.Panic != "":
				c.Kind, c.Msg = "panic", trunc(res.Panic, 300)
			case !res.Done && !res.timeout && res.exit != 0:
				c.Kind, c.Msg = "exit", "the program ends"
			case res.timeout:
				c.Kind, c.Msg = "hang", "does not terminate"
			default:
				return
			}
			k := c.Kind
			if k == "assert" {
				k += c.Msg
			}
			if found[k] == nil {
				found[k] = c
			}
		}(i, in)
	}
	wg.Wait()
	var out []*candidate
	for _, c := range found {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Kind+out[i].Msg < out[j].Kind+out[j].Msg })
	return n, out
}

func intInput(j *job, name string) (int, bool) {
	x, ok := j.Inputs[name]
	if !ok {
		return 0, false
	}
	n, err := strconv.Atoi(fmt.Sprint(x))
	return n, err == nil
}

// terminal is a pseudo terminal of a size.
func terminal(w, h int) (master, slave *os.File, err error) {
	master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	ioctl := func(f *os.File, req uintptr, p unsafe.Pointer) {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(p)); e != 0 && err == nil {
			err = e
		}
	}
	var unlock int32
	var n uint32
	ioctl(master, syscall.TIOCSPTLCK, unsafe.Pointer(&unlock))
	ioctl(master, syscall.TIOCGPTN, unsafe.Pointer(&n))
	if err == nil {
		slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	}
	if err == nil {
		size := [4]uint16{uint16(h), uint16(w)}
		ioctl(slave, syscall.TIOCSWINSZ, unsafe.Pointer(&size))
	}
	if err != nil {
		master.Close()
		if slave != nil {
			slave.Close()
		}
		return nil, nil, err
	}
	return master, slave, nil
}
