package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
)

// The arm64 variant: a package's arm64 Go files take the place of the host's,
// and its assembly routines become calls of the emulator with the machine
// code the Go assembler makes of them.

var (
	buildLine  = regexp.MustCompile(`(?m)^//\s*\+build.*$|^//go:build.*$`)
	escapeLine = regexp.MustCompile(`(?m)^//go:noescape.*$`)
	textLine   = regexp.MustCompile(`^TEXT (\S+)\(SB\)`)
	codeLine   = regexp.MustCompile(`^\s+\S+:\d+\s+0x[0-9a-f]+\s+([0-9a-f]{8})\b`)
)

func (g *generator) swapArch(p *listPkg, arm listPkg) error {
	common := map[string]bool{}
	for _, n := range arm.GoFiles {
		common[n] = true
	}
	var files []string
	host := map[string]bool{}
	changed := false
	for _, n := range p.GoFiles {
		if common[n] {
			files, host[n] = append(files, n), true
		} else {
			g.overlay[filepath.Join(p.Dir, n)] = ""
			changed = true
		}
	}
	for _, n := range p.SFiles {
		g.overlay[filepath.Join(p.Dir, n)] = ""
		changed = true
	}
	code, err := g.assemble(arm)
	if err != nil {
		return err
	}
	for _, n := range arm.GoFiles {
		if host[n] {
			continue
		}
		changed = true
		src, err := os.ReadFile(filepath.Join(p.Dir, n))
		if err != nil {
			return err
		}
		out, err := g.standIns(src, code)
		if err != nil {
			return fmt.Errorf("%s: %v", n, err)
		}
		neutral := "zzarch_" + strings.TrimSuffix(strings.TrimSuffix(n, ".go"), "_arm64") + "_x.go"
		dst := filepath.Join(g.out, "arch", p.Dir[len(g.repo):], neutral)
		os.MkdirAll(filepath.Dir(dst), 0o755)
		if err := os.WriteFile(dst, out, 0o644); err != nil {
			return err
		}
		g.overlay[filepath.Join(p.Dir, neutral)] = dst
		files = append(files, neutral)
	}
	if changed {
		p.GoFiles = files
	}
	return nil
}

// assemble gives the code of every routine of the package.
func (g *generator) assemble(arm listPkg) (map[string][]string, error) {
	code := map[string][]string{}
	for i, n := range arm.SFiles {
		obj := filepath.Join(g.out, fmt.Sprintf("arm%d.o", i))
		os.MkdirAll(g.out, 0o755)
		root := exec.Command("go", "env", "GOROOT")
		root.Env = g.env
		r, err := root.Output()
		if err != nil {
			return nil, err
		}
		cmd := exec.Command("go", "tool", "asm", "-I", filepath.Join(strings.TrimSpace(string(r)), "pkg", "include"), "-I", arm.Dir,
			"-p", arm.ImportPath, "-o", obj, filepath.Join(arm.Dir, n))
		cmd.Env, cmd.Dir = append(append([]string{}, g.env...), "GOOS=linux", "GOARCH=arm64"), g.out
		if out, err := cmd.CombinedOutput(); err != nil {
			return nil, fmt.Errorf("assembling %s: %v: %s", n, err, out)
		}
		dump := exec.Command("go", "tool", "objdump", obj)
		dump.Env, dump.Dir = g.env, g.out
		out, err := dump.Output()
		if err != nil {
			return nil, fmt.Errorf("disassembling %s: %v", n, err)
		}
		name := ""
		for _, l := range strings.Split(string(out), "\n") {
			if m := textLine.FindStringSubmatch(l); m != nil {
				name = m[1][strings.LastIndex(m[1], ".")+1:]
			} else if m := codeLine.FindStringSubmatch(l); m != nil {
				code[name] = append(code[name], "0x"+m[1])
			} else if strings.TrimSpace(l) != "" {
				return nil, fmt.Errorf("disassembly of %s: %q", n, l)
			}
		}
	}
	return code, nil
}

// standIns gives the functions without a body one.
func (g *generator) standIns(src []byte, code map[string][]string) ([]byte, error) {
	src = buildLine.ReplaceAll(src, []byte("//"))
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	fe := &fileEdits{src: src}
	var tail bytes.Buffer
	used := false
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Body != nil {
			continue
		}
		words, ok := code[fn.Name.Name]
		if !ok || fn.Recv != nil || fn.Type.Results != nil && len(fn.Type.Results.List) > 0 {
			return nil, fmt.Errorf("no stand-in for %s", fn.Name.Name)
		}
		used = true
		var args []string
		for _, p := range fn.Type.Params.List {
			t := string(src[fset.Position(p.Type.Pos()).Offset:fset.Position(p.Type.End()).Offset])
			for _, n := range p.Names {
				switch t {
				case "[]byte", "[]uint8":
					args = append(args, "verifemu.Bytes("+n.Name+")")
				case "byte", "uint8":
					args = append(args, "verifemu.Byte("+n.Name+")")
				case "int", "uint", "int64", "uint64", "uintptr":
					args = append(args, "verifemu.Word(uint64("+n.Name+"))")
				default:
					return nil, fmt.Errorf("%s takes a %s", fn.Name.Name, t)
				}
			}
		}
		fe.ins(fset.Position(fn.End()).Offset, fmt.Sprintf(" { verifemu.Call(%q, %s) }", fn.Name.Name, strings.Join(args, ", ")))
		fmt.Fprintf(&tail, "\nvar _ = verifemu.Register(%q, []uint32{%s})\n", fn.Name.Name, strings.Join(words, ", "))
	}
	if used {
		fe.ins(fset.Position(f.Name.End()).Offset, "; import verifemu \""+modPath+"/"+virtRoot+"/emu\"")
	}
	b, err := fe.bytes()
	if err != nil {
		return nil, err
	}
	return append(escapeLine.ReplaceAll(b, []byte("//")), tail.Bytes()...), nil
}
