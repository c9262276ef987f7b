// Command replay runs harnesses natively on recorded vectors.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"

	"github.com/cockroachdb/pebble"
	"github.com/go-bond/bond/zzverif/env"
	"github.com/go-bond/bond/zzverif/h"
	"github.com/go-bond/bond/zzverif/nd"
	"golang.org/x/sync/errgroup"
)

type vector struct {
	Harness string   `json:"harness"`
	Params  []int    `json:"params"`
	ND      []nd.Val `json:"nd"`
	Sched   []int    `json:"sched"`
	UF      []nd.UF  `json:"uf"`
}

type result struct {
	Status string   `json:"status"`
	Label  string   `json:"label"`
	Obs    []nd.Obs `json:"obs"`
}

func runOne(v vector) (r result) {
	defer func() {
		r.Obs = nd.Seen
		h.Cleanup()
		if x := recover(); x != nil {
			switch e := x.(type) {
			case nd.Failure:
				r.Status, r.Label = "assert", e.Label
			case nd.AssumeFailed:
				r.Status = "assume"
			case nd.Exhausted:
				r.Status, r.Label = "error", e.Why
			default:
				r.Status, r.Label = "panic", fmt.Sprint(x)
			}
		}
	}()
	f, ok := h.Registry[v.Harness]
	if !ok {
		return result{Status: "error", Label: "unknown harness " + v.Harness}
	}
	nd.Load(v.ND)
	nd.LoadSched(v.Sched)
	nd.LoadUF(v.UF)
	rv := reflect.ValueOf(f)
	args := make([]reflect.Value, rv.Type().NumIn())
	for i := range args {
		args[i] = reflect.ValueOf(v.Params[i])
	}
	rv.Call(args)
	r.Status = "ok"
	return
}

func main() {
	pebble.ZZHook, pebble.ZZLend = env.Fault, env.Lend
	errgroup.ZZGo, errgroup.ZZBlock = nd.Go, nd.Block
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var vs []vector
	if err := json.Unmarshal(b, &vs); err != nil {
		panic(err)
	}
	for _, v := range vs {
		js, _ := json.Marshal(runOne(v))
		fmt.Println("@@RES " + string(js))
	}
}
