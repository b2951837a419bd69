package main

// A call that never returns is a finding of its own: the run stops and names it.

import (
	"encoding/json"
	"fmt"
	"os"
	"sync/atomic"
	"time"
)

const callLimit = 60 * time.Second

type held struct {
	op    *Op
	since time.Time
}

var slots [64]atomic.Pointer[held]

// hold notes that a call has begun; the slot is given back with free.
func hold(op *Op) int {
	h := &held{op, time.Now()}
	for i := range slots {
		if slots[i].CompareAndSwap(nil, h) {
			return i
		}
	}
	return -1
}

func free(i int) {
	if i >= 0 {
		slots[i].Store(nil)
	}
}

func watch() {
	for range time.Tick(5 * time.Second) {
		for i := range slots {
			if h := slots[i].Load(); h != nil && time.Since(h.since) > callLimit {
				b, _ := json.Marshal(json.RawMessage(h.op.appendJSON(nil)))
				fmt.Printf("{\"hung\":%s}\n", b)
				os.Exit(3)
			}
		}
	}
}
