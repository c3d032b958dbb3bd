// Command lib runs many processors in one process.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/vearutop/flatjsonl/flatjsonl"
)

type job struct {
	Args    []string `json:"args"`
	Config  string   `json:"config"`
	Drop    []string `json:"drop"` // Fields of configuration that are not used in this job.
	Reader  bool     `json:"reader"`
	Seek    int64    `json:"seek"` // Reader was partially read before.
	DelayUs int      `json:"delay_us"`
	Group   int      `json:"group"` // Jobs of a group run one after another.
	Stdout  string   `json:"stdout"`
}

type plan struct {
	Shared bool  `json:"shared"` // Processors with the same text of configuration have the same value of Config.
	Late   bool  `json:"late"`   // All processors are created before the first one is started.
	Jobs   []job `json:"jobs"`
}

type result struct {
	Err   string `json:"err"`
	Panic string `json:"panic"`
}

// memory is an input that is not a file.
type memory struct {
	*bytes.Reader
	data []byte
	cmp  string
}

func (m *memory) Reset()              { m.Reader = bytes.NewReader(m.data) }
func (m *memory) Size() int64         { return int64(len(m.data)) }
func (m *memory) Compression() string { return m.cmp }

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

// fds returns targets of open files.
func fds() []string {
	var res []string

	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, "/") && !strings.HasPrefix(t, "/proc/") {
			res = append(res, t)
		}
	}

	return res
}

func main() {
	var p plan

	raw, err := os.ReadFile(os.Args[1])
	check(err)
	check(json.Unmarshal(raw, &p))

	res := make([]result, len(p.Jobs))
	flags := make([]flatjsonl.Flags, len(p.Jobs))

	for i, j := range p.Jobs {
		flag.CommandLine = flag.NewFlagSet("lib", flag.ExitOnError)
		os.Args = append([]string{"lib"}, j.Args...)
		flags[i].Register()
		flags[i].Parse()
	}

	// Inputs are positional arguments of the latest parsing, so they are resolved here.
	inputs := make([][]flatjsonl.Input, len(p.Jobs))
	// Jobs of a group use the same reader of a file, one after another.
	readers := map[string]*memory{}

	for i, j := range p.Jobs {
		flag.CommandLine = flag.NewFlagSet("lib", flag.ExitOnError)
		os.Args = append([]string{"lib"}, j.Args...)

		var f flatjsonl.Flags

		f.Register()
		f.Parse()

		for _, in := range f.Inputs() {
			if j.Reader {
				id := fmt.Sprint(j.Group, " ", in.FileName)
				if readers[id] == nil {
					data, err := os.ReadFile(in.FileName)
					check(err)

					m := &memory{data: data}
					if strings.HasSuffix(in.FileName, ".gz") {
						m.cmp = "gzip"
					} else if strings.HasSuffix(in.FileName, ".zst") {
						m.cmp = "zst"
					}

					m.Reset()
					_, err = m.Seek(j.Seek, io.SeekStart)
					check(err)

					readers[id] = m
				}

				in = flatjsonl.Input{Reader: readers[id]}
			}

			inputs[i] = append(inputs[i], in)
		}
	}

	configs := map[string]flatjsonl.Config{}

	config := func(text string) flatjsonl.Config {
		if cfg, ok := configs[text]; ok && p.Shared {
			return cfg
		}

		var cfg flatjsonl.Config

		if text != "" {
			check(json.Unmarshal([]byte(text), &cfg))
		}

		configs[text] = cfg

		return cfg
	}

	cfgs := make([]flatjsonl.Config, len(p.Jobs))
	for i, j := range p.Jobs {
		cfgs[i] = config(j.Config)

		for _, f := range j.Drop {
			v := reflect.ValueOf(&cfgs[i]).Elem().FieldByName(f)
			v.Set(reflect.Zero(v.Type()))
		}
	}

	procs := make([]*flatjsonl.Processor, len(p.Jobs))
	bufs := make([]bytes.Buffer, len(p.Jobs))

	create := func(i int) {
		proc, err := flatjsonl.NewProcessor(flags[i], cfgs[i], inputs[i]...)
		if err != nil {
			res[i].Err = err.Error()

			return
		}

		proc.Log = func(_ ...any) {}
		proc.Stdout = &bufs[i]
		procs[i] = proc
	}

	process := func(i int) {
		defer func() {
			if r := recover(); r != nil {
				res[i].Panic = fmt.Sprint(r)
			}
		}()

		if procs[i] == nil && res[i].Err == "" {
			create(i)
		}

		if procs[i] == nil {
			return
		}

		if err := procs[i].Process(); err != nil {
			res[i].Err = err.Error()
		}
	}

	if p.Late {
		for i := range p.Jobs {
			create(i)
		}
	}

	before, fdBefore := runtime.NumGoroutine(), fds()
	groups := map[int][]int{}

	for i, j := range p.Jobs {
		groups[j.Group] = append(groups[j.Group], i)
	}

	var wg sync.WaitGroup

	for _, g := range groups {
		wg.Add(1)

		go func(g []int) {
			defer wg.Done()

			for _, i := range g {
				time.Sleep(time.Duration(p.Jobs[i].DelayUs) * time.Microsecond)
				process(i)
			}
		}(g)
	}

	wg.Wait()

	fdAfter := fds()

	for i, j := range p.Jobs {
		if j.Stdout != "" {
			check(os.WriteFile(j.Stdout, bufs[i].Bytes(), 0o600))
		}
	}

	after := 0
	for k := 0; k < 200; k++ {
		after = runtime.NumGoroutine()
		if after <= before {
			break
		}

		time.Sleep(5 * time.Millisecond)
	}

	out, err := json.Marshal(map[string]any{
		"results": res, "before": before, "after": after, "fd_before": fdBefore, "fd_after": fdAfter,
	})
	check(err)
	fmt.Println(string(out))
}
