package main

import (
	"context"
	"fmt"
	"go/types"
	"os"
	"time"
)

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

func fieldIndex(t types.Type, name string) int {
	su, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < su.NumFields(); i++ {
		if su.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func solveOnce(q string, to time.Duration) string {
	ctx, cancel := context.WithTimeout(context.Background(), to+500*time.Millisecond)
	defer cancel()
	if l := lightQuery(q); l != "" {
		lt := to / 3
		c2, cancel2 := context.WithTimeout(context.Background(), lt+500*time.Millisecond)
		st, _ := runSolver(c2, "z3", []string{"-in", "-smt2"}, fmt.Sprintf("(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :timeout %d)\n", lt.Milliseconds())+l+"(check-sat)\n")
		cancel2()
		if st == "unsat" {
			return st
		}
	}
	st, _ := runSolver(ctx, "z3", []string{"-in", "-smt2"}, fmt.Sprintf("(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :timeout %d)\n", to.Milliseconds())+q+"(check-sat)\n")
	return st
}

var dbgSplit = os.Getenv("GOVC_SPLIT") != ""
