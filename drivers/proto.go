// Driver side of the harness protocol: one JSON request per line on stdin, one response per line.
// Compiled into the module under test through a build overlay.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
)

type response struct {
	Panic *string     `json:",omitempty"`
	Err   *string     `json:",omitempty"`
	R     interface{} `json:",omitempty"`
}

// driverError marks a failure of the driver itself rather than of the code it drives.
type driverError struct{ msg string }

func drvFail(format string, a ...interface{}) { panic(driverError{fmt.Sprintf(format, a...)}) }

func serve(handle func(line []byte) interface{}) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		resp := one(handle, line)
		b, err := json.Marshal(resp)
		if err != nil {
			s := err.Error()
			b, _ = json.Marshal(response{Err: &s})
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

func one(handle func(line []byte) interface{}, line []byte) (resp response) {
	defer func() {
		if r := recover(); r != nil {
			if de, ok := r.(driverError); ok {
				resp = response{Err: &de.msg}
				return
			}
			st := string(debug.Stack())
			if len(st) > 1500 {
				st = st[:1500]
			}
			s := fmt.Sprintf("%v\n%s", r, st)
			resp = response{Panic: &s}
		}
	}()
	return response{R: handle(line)}
}

func parse(line []byte, v interface{}) {
	if err := json.Unmarshal(line, v); err != nil {
		drvFail("bad request: %v", err)
	}
}
