package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Wire primitives of the output stream: method -> (kind, index of the data argument).
var outPrims = map[string]string{
	"WriteInt8": "1", "WriteUInt8": "1", "WriteInt16": "2", "WriteInt32": "4", "WriteInt64": "8", "WriteUInt64": "8",
	"WriteFloat32": "f4", "WriteFloat64": "f8", "WriteDecimal": "dec", "WriteDecimal32": "dec", "WriteString": "text",
	"WriteBlob": "blob", "WriteBoolean": "bool", "WriteValue": "value", "WritePack": "pack", "WriteStep": "step",
	"WriteIntBytes": "intbytes", "WriteInt32Array": "i32s", "Write": "raw",
}

var inPrims = map[string]string{
	"ReadInt8": "1", "ReadUInt8": "1", "ReadInt16": "2", "ReadInt32": "4", "ReadInt64": "8",
	"ReadFloat32": "f4", "ReadFloat64": "f8", "ReadDecimal": "dec", "ReadString": "text",
	"ReadBlob": "blob", "ReadBoolean": "bool", "ReadValue": "value", "ReadPack": "pack",
	"ReadIntBytes": "intbytes", "Read": "raw",
}

func methodOn(f *ssa.Function, pkg, typ string) (string, bool) {
	if f == nil || f.Signature.Recv() == nil {
		return "", false
	}
	n, ok := deref(f.Signature.Recv().Type()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return "", false
	}
	if n.Obj().Name() != typ || relPkg(n.Obj().Pkg().Path()) != pkg {
		return "", false
	}
	return f.Name(), true
}

const ndPkg = "common/netdata"

func isFn(f *ssa.Function, pkg, name string) bool {
	return f != nil && f.Signature.Recv() == nil && f.Parent() == nil && f.Name() == name && relPkg(FnPkg(f)) == pkg
}

func isExt(f *ssa.Function, pkg, name string) bool {
	return f != nil && f.Signature.Recv() == nil && f.Name() == name && FnPkg(f) == pkg
}

func isExtMethod(f *ssa.Function, pkg, typ, name string) bool {
	if f == nil || f.Signature.Recv() == nil || f.Name() != name {
		return false
	}
	n, ok := deref(f.Signature.Recv().Type()).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == typ
}

func isErrType(t types.Type) bool {
	if t == nil {
		return false
	}
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// shortT renders a term for comparison with a layout table.
func shortT(t *Term) string {
	s := t.Strip().String()
	s = strings.ReplaceAll(s, "p0.", ".")
	return s
}
