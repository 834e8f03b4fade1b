package main

import (
	"go/constant"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

const (
	tokEQL = token.EQL
	tokLEQ = token.LEQ
)

type ssaIf = ssa.If

func constInt(v int64) constant.Value { return constant.MakeInt64(v) }
