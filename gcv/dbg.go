package main

import (
	"fmt"
	"os"
	"sort"
)

func (w *World) listFns() {
	var s []string
	for k := range w.fns {
		s = append(s, k)
	}
	sort.Strings(s)
	for _, k := range s {
		fmt.Fprintln(os.Stderr, k)
	}
}
