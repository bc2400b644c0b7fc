// Package main drives the real code of steve for the conformance checks: it reads one JSON
// case per line, executes it with the public API of the repository and writes what happened.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"time"
)

type object = map[string]interface{}

type operation func(input json.RawMessage) (interface{}, error)

var operations = map[string]operation{}

func register(name string, op operation) {
	operations[name] = op
}

type request struct {
	ID int             `json:"id"`
	Op string          `json:"op"`
	In json.RawMessage `json:"in"`
}

func write(w *bufio.Writer, value interface{}) {
	js, err := json.Marshal(value)
	if err != nil {
		js, _ = json.Marshal(object{"fatal": err.Error()})
	}

	w.Write(js)
	w.WriteByte('\n')
	w.Flush()
}

func execute(req request) (out object) {
	defer func() {
		if r := recover(); r != nil {
			out = object{"id": req.ID, "panic": fmt.Sprintf("%v", r)}
		}
	}()

	op, ok := operations[req.Op]
	if !ok {
		return object{"id": req.ID, "fatal": "unknown operation: " + req.Op}
	}

	value, err := op(req.In)
	if err != nil {
		return object{"id": req.ID, "fatal": err.Error()}
	}

	return object{"id": req.ID, "out": value}
}

func main() {
	debug.SetMaxStack(512 * 1024 * 1024)
	timeout := 20 * time.Second
	if len(os.Args) > 1 {
		seconds, err := strconv.Atoi(os.Args[1])
		if err == nil {
			timeout = time.Duration(seconds) * time.Second
		}
	}

	writer := bufio.NewWriter(os.Stdout)
	reader := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := reader.ReadBytes('\n')
		if len(line) > 1 {
			req := request{}
			if err := json.Unmarshal(line, &req); err != nil {
				write(writer, object{"fatal": err.Error()})
				os.Exit(2)
			}

			done := make(chan object, 1)
			go func() {
				done <- execute(req)
			}()

			deadline := time.After(timeout)
			ticker := time.NewTicker(250 * time.Millisecond)
		wait:
			for {
				select {
				case out := <-done:
					write(writer, out)
					break wait
				case <-ticker.C:
					stats := runtime.MemStats{}
					runtime.ReadMemStats(&stats)
					if stats.HeapAlloc > 3*1024*1024*1024 {
						write(writer, object{"id": req.ID, "memory": true})
						os.Exit(4)
					}
				case <-deadline:
					write(writer, object{"id": req.ID, "hang": true})
					os.Exit(3)
				}
			}
			ticker.Stop()
		}

		if err != nil {
			return
		}
	}
}
