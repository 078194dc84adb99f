// Command replay runs harnesses natively on recorded inputs.
//
//	replay -batch FILE   FILE: JSON list of {harness, inputs, reps, tier}
//
// One line of JSON is printed per entry, preceded by a line "start N".
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"verif.local/harness/h"
	"verif.local/harness/v"
)

type entry struct {
	Harness string  `json:"harness"`
	Inputs  []int64 `json:"inputs"`
	Reps    int     `json:"reps"`
	Tier    string  `json:"tier"`
}

type result struct {
	Status string   `json:"status"` // ok, fail, panic, exhausted, assume
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Used   int      `json:"used"`
}

func run(e entry) (r result) {
	f := h.Registry[e.Harness]
	if f == nil {
		return result{Status: "unknown"}
	}
	v.Reset(e.Inputs)
	v.Tier = e.Tier == "thorough"
	defer func() {
		x := recover()
		r.Used = v.Used()
		r.Obs = v.Obs
		r.Status = "ok"
		switch y := x.(type) {
		case nil:
		case v.AssertionFailed:
		case v.Exhausted:
			r.Status = "exhausted"
		case v.AssumeFailed:
			r.Status = "assume"
		default:
			r.Status, r.Msg = "panic", fmt.Sprintf("%v", y)
			st := strings.Split(string(debug.Stack()), "\n")
			for i, l := range st {
				if strings.Contains(l, "go-sqlf") && i > 0 {
					r.Msg += " at " + strings.TrimSpace(l)
					break
				}
			}
		}
		if v.Failed != "" {
			r.Status, r.Msg = "fail", v.Failed
		}
	}()
	f()
	return
}

func main() {
	batch := flag.String("batch", "", "")
	from := flag.Int("from", 0, "")
	flag.Parse()
	debug.SetMaxStack(128 << 20)
	data, err := os.ReadFile(*batch)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var es []entry
	if err := json.Unmarshal(data, &es); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(300 * time.Millisecond)
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3<<30 {
				fmt.Println("memory exhausted")
				os.Exit(3)
			}
		}
	}()
	enc := json.NewEncoder(os.Stdout)
	for i := *from; i < len(es); i++ {
		fmt.Println("start", i)
		e := es[i]
		if e.Reps < 1 {
			e.Reps = 1
		}
		var r result
		for k := 0; k < e.Reps; k++ {
			r = run(e)
			if r.Status != "ok" {
				break
			}
		}
		enc.Encode(r)
	}
}
