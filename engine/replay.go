package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// minedLiterals collects the literals of the current source; inputs which
// make a special case visible are usually built from them.
func minedLiterals(dir string) (strs []string, ints []int64) {
	ss, is := map[string]bool{}, map[int64]bool{}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		t, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(t, func(n ast.Node) bool {
			l, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch l.Kind {
			case token.STRING:
				if s, err := strconv.Unquote(l.Value); err == nil && len(s) < 60 {
					ss[s] = true
				}
			case token.CHAR:
				if s, err := strconv.Unquote(l.Value); err == nil {
					ss[s] = true
				}
			case token.INT:
				if i, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
					is[i] = true
				}
			}
			return true
		})
	}
	for s := range ss {
		strs = append(strs, s)
	}
	sort.Strings(strs)
	for i := range is {
		ints = append(ints, i)
	}
	sort.Slice(ints, func(a, b int) bool { return ints[a] < ints[b] })
	return
}

var nameLike = regexp.MustCompile("^[A-Z][A-Z0-9-]+$")

// harnessTable writes the table connecting the search with the contracts.
func harnessTable() string {
	var b strings.Builder
	b.WriteString("package ics\n\nimport (\n\t\"io\"\n\t\"reflect\"\n\n\t\"vimagination.zapto.org/parser\"\n)\n\n")
	var keys []string
	for k, c := range contracts {
		if c.fn != nil {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var encs, vals []string
	b.WriteString("var vhUnits = []vhUnit{\n")
	for _, k := range keys {
		c := contracts[k]
		recv, code := "nil", k
		typ := ""
		if c.fn.Signature.Recv() != nil {
			t, m, _ := strings.Cut(k, ".")
			typ = t
			recv = "reflect.TypeOf((*" + t + ")(nil)).Elem()"
			code = "(*" + t + ")." + m
		}
		req := "nil"
		if c.spec.requires != nil {
			req = c.spec.requires.Name()
		}
		switch c.kind {
		case "enc", "dec", "chk", "decsec", "fun":
		default:
			continue
		}
		if c.opts["search"] != "no" {
			fmt.Fprintf(&b, "\t{%q, %q, %s, %s, %s, %s},\n", k, c.kind, recv, code, c.spec.name, req)
		}
		if c.kind == "enc" && typ != "" {
			encs = append(encs, fmt.Sprintf("\t%s: %s,\n", recv, c.spec.name))
		}
		if c.kind == "chk" && typ != "" {
			vals = append(vals, fmt.Sprintf("\t%s: %s,\n", recv, c.spec.name))
		}
	}
	b.WriteString("}\n\nvar vhEnc = map[reflect.Type]any{\n" + strings.Join(encs, "") + "}\n\nvar vhValid = map[reflect.Type]any{\n" + strings.Join(vals, "") + "}\n\n")
	b.WriteString(streamTable())
	strs, ints := minedLiterals(repoDir)
	fmt.Fprintf(&b, "var vhStrings = %#v\n\nvar vhInts = %#v\n", strs, ints)
	// names of which the specification knows nothing
	said, _ := minedLiterals(filepath.Join(verifDir, "spec"))
	names := []string{}
	for _, s := range strs {
		if !contains(said, s) && s == strings.ToUpper(s) && nameLike.MatchString(s) {
			names = append(names, s)
		}
	}
	fmt.Fprintf(&b, "\nvar vhNames = %#v\n", names)
	return b.String()
}

// streamTable writes how to set up the functions which handle text as a whole.
func streamTable() string {
	var b strings.Builder
	have := map[string]string{}
	for k, c := range contracts {
		if c.fn == nil {
			continue
		}
		have[c.kind+":"+c.opts["part"]] = k
		if c.kind != "write" && c.kind != "read" {
			continue
		}
		t := ptrElem(c.fn.Params[0].Type())
		s := structOf(t)
		name := t.String()[strings.LastIndex(t.String(), ".")+1:]
		if c.kind == "write" {
			f, _ := foldFieldsOf(t)
			have["write"] = "&" + name + "{" + s.Field(f.w).Name() + ": w}"
		} else {
			f, _ := unfoldFieldsOf(t)
			have["read"] = "&" + name + "{" + s.Field(f.r).Name() + ": r}"
		}
	}
	b.WriteString("var _ io.Reader\n\nvar _ parser.Token\n\n")
	put := func(ok bool, name, typ, val string) {
		if !ok {
			val = "nil"
		}
		fmt.Fprintf(&b, "var %s %s = %s\n\n", name, typ, val)
	}
	put(have["write"] != "", "vhFolder", "func(io.Writer) io.Writer", "func(w io.Writer) io.Writer { return "+have["write"]+" }")
	put(have["read"] != "", "vhUnfolder", "func(io.Reader) io.Reader", "func(r io.Reader) io.Reader { return "+have["read"]+" }")
	put(have["phrase:"] != "" && have["tok:name"] != "", "vhPhrases", "func(io.Reader) *parser.Parser", "func(r io.Reader) *parser.Parser {\n\tp := parser.New(parser.NewReaderTokeniser(r))\n\tp.TokeniserState("+have["tok:name"]+")\n\tp.PhraserState("+have["phrase:"]+")\n\treturn &p\n}")
	put(have["encode:"] != "", "vhEncode", "func(io.Writer, *Calendar) error", have["encode:"])
	put(have["decode:"] != "", "vhDecode", "func(io.Reader) (*Calendar, error)", have["decode:"])
	return b.String()
}

// replay searches for an input on which the running code breaks a contract.
func replay(id string, def *propDef, units []string, seed int, tier string) (any, string) {
	tmp, err := os.MkdirTemp("", "verif-replay")
	if err != nil {
		return nil, ""
	}
	defer os.RemoveAll(tmp)
	writeModfile(tmp)
	rep := map[string]string{}
	specs, _ := filepath.Glob(filepath.Join(specDir, "*.go"))
	for _, s := range specs {
		rep[filepath.Join(repoDir, "zz_verif_spec_"+strings.TrimSuffix(filepath.Base(s), ".go")+"_test.go")] = s
	}
	hs, _ := filepath.Glob(filepath.Join(verifDir, "replay", "*.go"))
	for _, h := range hs {
		rep[filepath.Join(repoDir, "zz_verif_"+strings.TrimSuffix(filepath.Base(h), ".go")+"_test.go")] = h
	}
	table := filepath.Join(tmp, "table.go")
	if err := os.WriteFile(table, []byte(harnessTable()), 0o644); err != nil {
		return nil, ""
	}
	rep[filepath.Join(repoDir, "zz_verif_table_test.go")] = table
	// the tests of the repository stay out
	ts, _ := filepath.Glob(filepath.Join(repoDir, "*_test.go"))
	for _, t := range ts {
		if rep[t] == "" {
			rep[t] = ""
		}
	}
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	bin := filepath.Join(tmp, "search.test")
	build := exec.Command("go", "test", "-c", "-overlay", ovf, "-o", bin, ".")
	build.Dir = repoDir
	build.Env = goEnv(tmp)
	if out, err := build.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "the search for a failing input does not build: %s\n", clip(string(out), 1500))
		return nil, ""
	}
	secs := 60.0
	if tier == "thorough" {
		secs = 120
	}
	out := filepath.Join(tmp, "found.json")
	cfg, _ := json.Marshal(map[string]any{"Prop": id, "Units": units, "Seed": seed, "Seconds": secs, "Out": out})
	cmd := exec.Command(bin, "-test.run", "^TestVerifSearch$", "-test.timeout", "300s")
	cmd.Dir = tmp
	cmd.Env = append(os.Environ(), "VERIF_SEARCH="+string(cfg), "TZ=UTC", "GOMEMLIMIT=4GiB")
	done := make(chan struct{})
	timer := time.AfterFunc(time.Duration(secs+80)*time.Second, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	defer timer.Stop()
	msg, _ := cmd.CombinedOutput()
	close(done)
	b, err := os.ReadFile(out)
	if err != nil {
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, clip(string(msg), 3000))
		}
		return nil, ""
	}
	var found map[string]any
	if json.Unmarshal(b, &found) != nil {
		return nil, ""
	}
	return found, fmt.Sprintf("VERIF_SEED=%d bash /verif/check.sh %s", seed, id)
}
