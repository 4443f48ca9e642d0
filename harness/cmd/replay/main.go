// replay runs a harness function natively on inputs taken from a solver model.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"

	"vharness/nd"
	"vharness/props"
)

type req struct {
	Harness string            `json:"harness"`
	Inputs  map[string]string `json:"inputs"`
	Tier    int               `json:"tier"`
}

type res struct {
	Fails   []nd.Fail `json:"fails"`
	Panic   string    `json:"panic"`
	Assume  bool      `json:"assume"`
	Reach   []string  `json:"reach"`
	Obs     []string  `json:"obs"`
	Missing []string  `json:"missing"`
	Err     string    `json:"err"`
}

func one(q req) (r res) {
	f := props.Registry[q.Harness]
	if f == nil {
		r.Err = "no harness " + q.Harness
		return
	}
	nd.Reset(q.Inputs, q.Tier)
	nd.Start()
	nd.Harness = q.Harness
	defer nd.Cleanup()
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(nd.AssumeFailed); ok {
					r.Assume = true
					return
				}
				st := strings.Split(string(debug.Stack()), "\n")
				var keep []string
				for _, l := range st {
					if strings.Contains(l, "/repo/") || strings.Contains(l, "/props/") {
						keep = append(keep, strings.TrimSpace(l))
						if len(keep) == 6 {
							break
						}
					}
				}
				r.Panic = fmt.Sprintf("%v | %s", e, strings.Join(keep, " < "))
			}
		}()
		f()
		nd.Settle()
	}()
	r.Fails, r.Reach, r.Obs, r.Missing = nd.Fails, nd.Labels, nd.Obs, nd.Missing
	return
}

func main() {
	out := os.Stdout
	if len(os.Args) > 1 { // replay files written by a check
		for _, p := range os.Args[1:] {
			b, err := os.ReadFile(p)
			if err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			var q req
			json.Unmarshal(b, &q)
			r, _ := json.MarshalIndent(one(q), "", " ")
			fmt.Fprintf(out, "%s\n", r)
		}
		return
	}
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var q req
		if err := json.Unmarshal(sc.Bytes(), &q); err != nil {
			fmt.Fprintf(out, "@@%s\n", `{"err":"bad request"}`)
			continue
		}
		r := one(q)
		b, _ := json.Marshal(r)
		fmt.Fprintf(out, "@@%s\n", b)
	}
}
