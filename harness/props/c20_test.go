package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/build"
	"go/build/constraint"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"verifharness/gensup"
)

// the command is built once per shard from the tree under test

var cliOnce sync.Once
var cliPath string

func cliBinary() string {
	cliOnce.Do(func() {
		cliPath = filepath.Join(os.Getenv("VP_OUT"), "yamlygen")
		cmd := exec.Command("go", "build", "-o", cliPath, "github.com/KSpaceer/yamly/cmd/yamlygen")
		cmd.Dir = filepath.Join(verifDir(), "harness")
		if out, err := cmd.CombinedOutput(); err != nil {
			panic("harness: cannot build yamlygen: " + string(out))
		}
	})
	return cliPath
}

// snapshot has the path, mode and content of every file below dir.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		info, err := d.Info()
		if err != nil {
			return err
		}
		switch {
		case d.IsDir():
			m[rel] = "directory"
		case info.Mode()&fs.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			m[rel] = "link " + l
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			m[rel] = string(b)
		}
		return nil
	})
	if err != nil {
		panic("harness: " + err.Error())
	}
	return m
}

// changes lists the paths that differ, except one.
func changes(a, b map[string]string, except string) []string {
	var out []string
	for p, x := range a {
		if y, ok := b[p]; !ok && p != except {
			out = append(out, "removed "+p)
		} else if x != y && p != except {
			out = append(out, fmt.Sprintf("changed %s from %.300q to %.300q", p, x, y))
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok && p != except {
			out = append(out, "created "+p)
		}
	}
	sort.Strings(out)
	return out
}

type cliCase struct {
	b            *batch
	mod, dir     string // module path, package directory in the module
	pkg          string // package name
	types        []string
	args         []string
	where        string // directory argument, "" for none
	cwd          string
	gofile       string
	path         string // additional PATH directory
	v            variant
	tags, output string
}

func (c *cliCase) pkgDir() string { return filepath.Join(c.b.dir, filepath.FromSlash(c.dir)) }

func (c *cliCase) runCLI(typ string) (code int, stdout, stderr string) {
	cctx, cancel := context.WithTimeout(context.Background(), 4*time.Minute)
	defer cancel()
	args := append([]string(nil), c.args...)
	if typ != "" {
		args = append(args, "-type", typ)
	}
	if c.where != "" {
		args = append(args, strings.Fields(c.where)...)
	}
	cmd := exec.CommandContext(cctx, cliBinary(), args...)
	cmd.Dir = c.cwd
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOMAXPROCS=2", "PWD="+c.cwd)
	if c.path != "" {
		env = append(env, "PATH="+c.path)
	}
	if c.gofile != "" {
		env = append(env, "GOFILE="+c.gofile)
	}
	cmd.Env = env
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if cctx.Err() != nil {
		return -1, "", "the command does not end"
	}
	if err != nil {
		if x, ok := err.(*exec.ExitError); ok {
			return x.ExitCode(), o.String(), e.String()
		}
		panic("harness: " + err.Error())
	}
	return 0, o.String(), e.String()
}

// typeName draws a name and the name of the file it is generated to.
func typeName(t *rapid.T) (name, snake string) {
	words := []string{"User", "Config", "X", "Item", "Straße", "Ünit", "Data", "Kv"}
	acronyms := []string{"HTTP", "ID", "URL", "A", "XML"}
	var parts []string
	n := intn(t, "words", 1, 3)
	for i := 0; i < n; i++ {
		w := rapid.SampledFrom(words).Draw(t, "word")
		if chance(t, "acronym", 1, 4) {
			w = rapid.SampledFrom(acronyms).Draw(t, "acr")
			// two acronyms in a row are one word
			if i > 0 && strings.ToUpper(parts[i-1]) == parts[i-1] {
				w = "Mid"
			}
		} else if len(w) == 1 && i > 0 && strings.ToUpper(parts[i-1]) == parts[i-1] {
			w = "Mid"
		}
		parts = append(parts, w)
	}
	lower := make([]string, len(parts))
	for i, p := range parts {
		lower[i] = strings.ToLower(p)
	}
	sep := ""
	if chance(t, "underscores", 1, 6) {
		sep = "_"
	}
	first := parts[0]
	if chance(t, "unexported", 1, 4) {
		parts[0] = strings.ToLower(first)
	}
	end := ""
	if chance(t, "digits", 1, 4) {
		end = fmt.Sprint(intn(t, "digit", 0, 99))
	}
	return strings.Join(parts, sep) + end, strings.Join(lower, "_") + end + "_yamly.go"
}

var goKeywords = map[string]bool{"map": true, "type": true, "func": true, "string": true}

func drawCLI(t *rapid.T) *cliCase {
	c := &cliCase{b: newBatch(t)}
	c.mod = pick(t, "module", "gentest", "example.com/some-mod", "example.com/mod/v2", "gentest.io/x.y")
	c.dir = pick(t, "dir", ".", "pkg", "deep/er", "with-dash", "dot.ted", "v2", "vpkg", "internal/conf")
	c.pkg = pick(t, "package", "conf", "pkg", "generator", "model", "v2", "types")
	return c
}

// writeModule writes the module with the given types file.
func (c *cliCase) writeModule(t *rapid.T, types string) {
	b := c.b
	mod, _ := os.ReadFile(filepath.Join(b.dir, "go.mod"))
	line := "module " + c.mod
	switch intn(t, "module line", 0, 4) {
	case 0:
		line = "module \"" + c.mod + "\""
	case 1:
		line = "// module other\nmodule   " + c.mod + " // the module"
	}
	b.write("go.mod", strings.Replace(string(mod), "module gentest", line, 1))
	b.write(c.dir+"/types.go", types)
	if chance(t, "test file", 1, 4) {
		b.write(c.dir+"/x_test.go", "package "+c.pkg+"_test\n")
	}
	if chance(t, "ignored file", 1, 4) {
		b.write(c.dir+"/"+pick(t, "ignored name", "aaa.go", "zzz.go"), "//go:build ignore\n\npackage main\n\nfunc main() {}\n")
	}
	if chance(t, "other file", 1, 4) {
		b.write(c.dir+"/doc.go", "// Package "+c.pkg+" has types.\npackage "+c.pkg+"\n")
	}
	if chance(t, "notes", 1, 3) {
		b.write(c.dir+"/README.md", "notes\n")
		b.write(c.dir+"/testdata/x.yaml", "a: b\n")
	}
	root := b.dir
	c.cwd = c.pkgDir()
	switch intn(t, "call", 0, 9) {
	case 8, 9:
		link := filepath.Join(b.dir, "link")
		if err := os.Symlink(c.pkgDir(), link); err != nil {
			panic("harness: " + err.Error())
		}
		c.cwd, c.where = root, "link"
		if rapid.Bool().Draw(t, "inside") {
			c.cwd, c.where = link, ""
		}
	case 0:
		c.where = c.pkgDir()
		c.cwd = os.TempDir()
	case 1:
		c.where = "./" + c.dir
		c.cwd = root
	case 2:
		c.where = c.dir
		c.cwd = root
	case 3:
		c.where = "."
	case 4:
		c.gofile = "types.go"
	case 5:
		c.where = "./"
	case 6:
		c.where = c.pkgDir() + "/"
		c.cwd = root
	}
}

func (c *cliCase) flags(t *rapid.T) {
	v := &c.v
	v.pkg = c.pkg
	dash := pick(t, "dash", "-", "--")
	v.engine = "goyaml"
	switch intn(t, "engine flag", 0, 3) {
	case 0:
	case 1:
		c.args = append(c.args, dash+"engine", "goyaml")
	default:
		v.engine = "yayamls"
		c.args = append(c.args, dash+"engine=yayamls")
	}
	flag := func(name string, to *bool) {
		if chance(t, name, 1, 3) {
			*to = true
			c.args = append(c.args, dash+name)
		} else if chance(t, "no "+name, 1, 8) {
			c.args = append(c.args, dash+name+"=false")
		}
	}
	flag("omitempty", &v.omit)
	flag("disallow-unknown-fields", &v.disallow)
	flag("encode-pointer-receiver", &v.ptr)
	flag("inline-embedded", &v.inlineEm)
	if chance(t, "tags", 1, 3) {
		c.tags = pick(t, "build tags", "foo", "foo,bar", "foo bar", " foo ", "foo_1", "linux")
		c.args = append(c.args, dash+"build-tags", c.tags)
	}
	if chance(t, "output", 1, 3) {
		c.output = pick(t, "output name", "out.go", "gen_x.go", "zz_gen.go", "a.b.go", "Ü.go")
		c.args = append(c.args, dash+"output", c.output)
	}
}

func (c *cliCase) String() string {
	return fmt.Sprintf("module %s, directory %s, package %s\nyamlygen %s %s (in %s, GOFILE=%s)", c.mod, c.dir, c.pkg, strings.Join(c.args, " "), strings.Replace(c.where, c.b.dir, "<module>", 1), strings.Replace(c.cwd, c.b.dir, "<module>", 1), c.gofile)
}

// tagsOf are all build tags a file mentions.
func allTags() []string { return []string{"foo", "bar", "baz", "foo_1"} }

// guarded compares the build constraint of a generated file with what is asked for.
func guarded(dir, file, tags string) string {
	tags = strings.TrimSpace(tags)
	names := allTags()
	for set := 0; set < 1<<len(names); set++ {
		ctx := build.Default
		ctx.BuildTags = nil
		on := map[string]bool{"linux": true}
		for i, n := range names {
			if set&(1<<i) != 0 {
				ctx.BuildTags = append(ctx.BuildTags, n)
				on[n] = true
			}
		}
		got, err := ctx.MatchFile(dir, file)
		if err != nil {
			return err.Error()
		}
		want := true
		if tags != "" {
			x, err := constraint.Parse("// +build " + tags)
			if err != nil {
				panic("harness: " + err.Error())
			}
			want = x.Eval(func(tag string) bool { return on[tag] })
		}
		if got != want {
			return fmt.Sprintf("with the tags %v the file is built: %v, want %v", ctx.BuildTags, got, want)
		}
	}
	return ""
}

func (c *cliCase) typesFile(src string) string {
	s := c.b.pkgHeader(c.pkg) + customSrc + engineSrc[c.v.engine] + "\n" + src
	return strings.Replace(s, "\"gentest/", "\""+c.mod+"/", -1)
}

func init() {
	reg("C20", "successful runs", "yamlygen, built from the tree under test, runs in a scratch module (random module path, directory, package name, neighbouring files, way to name the directory) for 1 to 3 random targets with random flags, build tags and output names, over no, "+
		"an own or a foreign previous output: only the output file may appear, under the right name and build constraint, a second run and a run over another previous output give the same file, and the package with it behaves as the flags say (fields, methods); non-trivial: each run of the command",
		72, 1500, func(t *rapid.T, c *ctx) {
			cc := drawCLI(t)
			defer cc.b.remove()
			cc.flags(t)
			g := &pkgGen{t: t, feats: map[string]bool{}, withEngine: true}
			var targets []*tdecl
			files := map[string]string{}
			n := 1
			if cc.output == "" {
				n = intn(t, "targets", 1, 3)
			}
			for i := 0; i < n; i++ {
				name, file := typeName(t)
				if _, ok := files[file]; ok || goKeywords[name] || name == "x" {
					continue
				}
				if cc.output != "" {
					file = cc.output
				}
				g.targetName = name
				d := g.target()
				files[file] = name
				targets = append(targets, d)
			}
			if len(targets) == 0 {
				return
			}
			var sb strings.Builder
			for _, d := range g.decls {
				fmt.Fprintf(&sb, "type %s %s\n\n", d.name, d.src)
			}
			cc.writeModule(t, cc.typesFile(sb.String()))
			if cc.tags == "" && chance(t, "assertions", 1, 2) {
				// code which needs the methods to be generated
				a := "package " + cc.pkg + "\n\nimport (\n\"github.com/KSpaceer/yamly\"\n\"github.com/KSpaceer/yamly/engines/yayamls\"\n\"gopkg.in/yaml.v3\"\n)\n\nvar _ yayamls.Marshaler\nvar _ yaml.Node\nvar _ yamly.Decoder\n"
				eng := map[string]string{"goyaml": "yaml", "yayamls": "yayamls"}[cc.v.engine]
				for i, d := range targets[:1] {
					v := fmt.Sprintf("*new(%s)", d.name)
					if cc.v.ptr {
						v = fmt.Sprintf("new(%s)", d.name)
					}
					a += fmt.Sprintf("var _ %s.Marshaler = %s\nvar _ %s.Unmarshaler = new(%s)\nvar _ yamly.MarshalerYamly = %s\nvar _ yamly.UnmarshalerYamly = new(%s)\n", eng, v, eng, d.name, v, d.name)
					a += fmt.Sprintf("func use%d(v *%s) error { _, err := v.MarshalYAML(); return err }\n", i, d.name)
				}
				cc.b.write(cc.dir+"/asserts.go", a)
				c.Label("package uses generated methods")
			}
			cc.b.types, cc.b.targets, cc.b.variants = sb.String(), targets, []variant{cc.v}
			c.Case("%s\n%s", cc, cc.b.describe())
			c.Nontrivial(true)
			runs := 0
			defer func() {
				c.merge(gensup.Result{Evaluations: runs, Labels: map[string]int{"runs of the command": runs}})
			}()

			previous := pick(t, "previous output", "none", "none", "broken", "stale", "tmp")
			first := map[string]string{}
			for _, d := range targets {
				file := ""
				for f, n := range files {
					if n == d.name {
						file = f
					}
				}
				rel := filepath.ToSlash(filepath.Join(cc.dir, file))
				switch previous {
				case "broken":
					cc.b.write(rel, "package "+cc.pkg+"\n\nthis is no Go\n")
				case "stale":
					cc.b.write(rel, "package "+cc.pkg+"\n\nvar oldVersion int\n")
				case "tmp":
					cc.b.write(rel+".tmp", "notes of the user\n")
				}
				c.Label("previous: " + previous)
				before := snapshot(cc.b.dir)
				code, _, stderr := cc.runCLI(d.name)
				runs++
				if code != 0 {
					c.Failf("the command fails for %s with code %d: %s", d.name, code, stderr)
				}
				after := snapshot(cc.b.dir)
				if _, ok := after[rel]; !ok {
					c.Failf("the output %s of %s is missing; changes: %v", rel, d.name, changes(before, after, ""))
				}
				if ch := changes(before, after, rel); len(ch) > 0 {
					c.Failf("running for %s changes more than %s: %v", d.name, rel, ch)
				}
				if bad := guarded(cc.pkgDir(), file, cc.tags); bad != "" {
					c.Failf("%s: %s\n%.300s", rel, bad, after[rel])
				}
				if !strings.Contains(after[rel], "Code generated by yamlygen. DO NOT EDIT.") {
					c.Failf("%s is not marked as generated", rel)
				}
				first[rel] = after[rel]
			}
			// once more: the same files (of the first target: the others may refer to it now by its methods)
			for _, d := range targets {
				for f, n := range files {
					rel := filepath.ToSlash(filepath.Join(cc.dir, f))
					if n != d.name {
						continue
					}
					before := snapshot(cc.b.dir)
					code, _, stderr := cc.runCLI(d.name)
					runs++
					if code != 0 {
						c.Failf("the second run for %s fails with code %d: %s", d.name, code, stderr)
					}
					after := snapshot(cc.b.dir)
					if ch := changes(before, after, rel); len(ch) > 0 {
						c.Failf("running again for %s changes more than %s: %v", d.name, rel, ch)
					}
					if len(targets) == 1 && after[rel] != first[rel] {
						c.Failf("the second run gives another file:\n%s\n-----\n%s", first[rel], after[rel])
					}
				}
			}
			if bad := cc.behaves(c, targets, batchSeed(cc.b)); bad != "" {
				c.Failf("%s", bad)
			}
		})

	reg("C20", "failing runs", "runs of yamlygen that have to fail: unknown, unsupported and generic types, broken packages, package main, wrong arguments, engines and output names, output names of source files and directories, no go command, and go commands (stand-ins) that fail, are killed, print nonsense or half of the code; "+
		"with and without a previous output: the exit status is not zero, there is a message, and no file appears, disappears or changes; non-trivial: all", 144, 3000, func(t *rapid.T, c *ctx) {
		cc := drawCLI(t)
		defer cc.b.remove()
		cc.flags(t)
		src := "type Good struct {\n\tA int\n\tB []string\n}\n\ntype Gen[T any] struct{ A T }\n\ntype Chan struct{ C chan int }\n"
		typ, name := "Good", "good_yamly.go"
		kind := pick(t, "kind", "unknown type", "unsupported type", "generic type", "syntax error", "type error", "main", "engine", "output path", "output path", "no type", "two directories", "no directory", "file as directory", "source as output",
			"directory as output", "other extension", "test output", "no go", "go fails", "go is killed", "go prints nonsense", "go prints half", "broken import", "no package", "bad flag", "empty directory")
		c.Label(kind)
		cc.writeModule(t, cc.typesFile(src))
		fakeGo := func(script string) {
			dir := filepath.Join(cc.b.dir, "..", filepath.Base(cc.b.dir)+"-bin")
			os.MkdirAll(dir, 0o755)
			real, err := exec.LookPath("go")
			if err != nil {
				panic("harness: " + err.Error())
			}
			text := "#!/bin/sh\ncase \"$1\" in run) ;; *) exec " + real + " \"$@\";; esac\n" + strings.ReplaceAll(script, "GO", real) + "\n"
			if err := os.WriteFile(filepath.Join(dir, "go"), []byte(text), 0o755); err != nil {
				panic("harness: " + err.Error())
			}
			cc.path = dir + ":/usr/bin:/bin"
		}
		defer os.RemoveAll(filepath.Join(cc.b.dir, "..", filepath.Base(cc.b.dir)+"-bin"))
		setOutput := func(s string) {
			cc.args = append(cc.args, "-output", s)
			cc.output = s
		}
		switch kind {
		case "unknown type":
			typ = pick(t, "unknown", "Missing", "good", "Good2", "int", "a b", "Good;", "*Good", "")
			if typ == "" {
				typ = "time.Time"
			}
		case "unsupported type":
			typ = "Chan"
		case "generic type":
			typ = "Gen"
		case "syntax error":
			cc.b.write(cc.dir+"/broken.go", "package "+cc.pkg+"\n\nfunc {\n")
		case "type error":
			cc.b.write(cc.dir+"/broken.go", "package "+cc.pkg+"\n\nvar x int = \"text\"\n")
		case "main":
			b, _ := os.ReadFile(filepath.Join(cc.pkgDir(), "types.go"))
			cc.b.write(cc.dir+"/types.go", strings.Replace(string(b), "package "+cc.pkg, "package main", 1)+"\nfunc main() {}\n")
			os.Remove(filepath.Join(cc.pkgDir(), "doc.go"))
		case "engine":
			cc.args = append(cc.args, "-engine", pick(t, "wrong engine", "json", "", "GoYAML", "goyaml "))
		case "output path":
			setOutput(pick(t, "path", "../out.go", "x/out.go", "./out.go", "./out.go", "../"+filepath.Base(cc.pkgDir())+"/out.go", filepath.Join(cc.b.dir, "out.go")))
		case "no type":
			typ = ""
		case "two directories":
			cc.where, cc.cwd = ". .", cc.pkgDir()
		case "no directory":
			cc.where = "./missing"
		case "file as directory":
			cc.where, cc.cwd = "types.go", cc.pkgDir()
		case "source as output":
			setOutput("types.go")
		case "directory as output":
			setOutput("sub.go")
			cc.b.write(cc.dir+"/sub.go/x.txt", "x\n")
		case "other extension":
			setOutput(pick(t, "extension", "out.txt", "out", "out.go.bak"))
		case "test output":
			setOutput(pick(t, "test file name", "out_test.go", "out_windows.go", "_out.go", ".out.go"))
		case "no go":
			cc.path = "/nonexistent"
		case "go fails":
			fakeGo("echo broken >&2; exit " + pick(t, "code", "1", "2", "77"))
		case "go is killed":
			fakeGo("echo package x; kill -9 $$")
		case "go prints nonsense":
			fakeGo("echo '" + pick(t, "nonsense", "func {", "package", "%", "package x; func {") + "'")
		case "go prints half":
			fakeGo("GO \"$@\" | head -c 600; exit 1")
		case "broken import":
			cc.b.write(cc.dir+"/imp.go", "package "+cc.pkg+"\n\nimport _ \"nowhere.example/x\"\n")
		case "no package":
			cc.b.write(cc.dir+"/broken.go", "")
		case "bad flag":
			cc.args = append(cc.args, pick(t, "flag", "-omitempty=maybe", "-what", "-build-tags"))
			if cc.args[len(cc.args)-1] == "-build-tags" {
				cc.args = append(cc.args, "a'b\"c")
			}
		case "empty directory":
			for _, f := range []string{"types.go", "doc.go", "aaa.go", "zzz.go", "x_test.go"} {
				os.Remove(filepath.Join(cc.pkgDir(), f))
			}
		}
		if cc.output != "" {
			name = cc.output
		}
		previous := pick(t, "previous output", "none", "valid", "tmp")
		switch base := filepath.Base(name); {
		case kind == "source as output" || kind == "directory as output" || kind == "no package" || kind == "empty directory" || kind == "syntax error" && previous == "valid" && base == "broken.go":
		case previous == "valid":
			cc.b.write(cc.dir+"/"+base, "package "+cc.pkg+"\n\n// the previous output\nvar previous = 1\n")
			if kind == "main" {
				cc.b.write(cc.dir+"/"+base, "package main\n\n// the previous output\nvar previous = 1\n")
			}
		case previous == "tmp":
			cc.b.write(cc.dir+"/"+base+".tmp", "notes of the user\n")
		}
		c.Label("previous: " + previous)
		c.Case("%s: -type %q, previous %s\n%s", kind, typ, previous, cc)
		c.Nontrivial(true)
		outer := filepath.Dir(cc.b.dir)
		names := func() map[string]string {
			m := map[string]string{}
			es, _ := os.ReadDir(outer)
			for _, e := range es {
				m[e.Name()] = ""
			}
			return m
		}
		before, around := snapshot(cc.b.dir), names()
		code, stdout, stderr := cc.runCLI(typ)
		after, around2 := snapshot(cc.b.dir), names()
		if code == 0 {
			c.Failf("the command succeeds: %s; changes: %v", stdout+stderr, changes(before, after, ""))
		}
		if code < 0 {
			c.Failf("%s", stderr)
		}
		if strings.TrimSpace(stderr) == "" {
			c.Failf("the command fails with code %d without a message", code)
		}
		if strings.Contains(stderr, "panic:") && strings.Contains(stderr, "goroutine ") {
			c.Failf("the command panics: %s", stderr)
		}
		if ch := changes(before, after, ""); len(ch) > 0 {
			c.Failf("the failing run leaves changes: %v\nmessage: %s", ch, stderr)
		}
		if ch := changes(around, around2, ""); len(ch) > 0 && !strings.Contains(strings.Join(ch, ""), "go-build") {
			c.Failf("the failing run leaves changes outside of the module: %v\nmessage: %s", ch, stderr)
		}
	})
}

// behaves compiles the package with the generated files and checks the types as in C18.
func (cc *cliCase) behaves(c *ctx, targets []*tdecl, seed int64) string {
	imp := cc.mod
	if cc.dir != "." {
		imp += "/" + cc.dir
	}
	news := "package " + cc.pkg + "\n"
	main := "package main\n\nimport (\n\"verifharness/gensup\"\np \"" + imp + "\"\n)\n\nfunc main() {\ngensup.Main([]gensup.Entry{\n"
	for i, d := range targets {
		news += fmt.Sprintf("func NewTarget_%d() any { return new(%s) }\n", i, d.name)
		main += fmt.Sprintf("{Pkg: %q, Engine: %q, Type: %q, Omitempty: %v, Disallow: %v, PtrRecv: %v, Inline: %v, New: p.NewTarget_%d},\n",
			cc.pkg, cc.v.engine, d.name, cc.v.omit, cc.v.disallow, cc.v.ptr, cc.v.inlineEm, i)
	}
	cc.b.write(cc.dir+"/zz_news.go", news)
	runDir := "runner"
	if strings.Contains(cc.dir, "internal") {
		runDir = "internal/runner"
	}
	cc.b.write(runDir+"/main.go", main+"})\n}\n")
	tags := strings.Fields(strings.ReplaceAll(cc.tags, ",", " "))
	if _, bad := cc.b.run(5*time.Minute, "go", "build", "-tags", strings.Join(tags, ","), "-o", "run.exe", "./"+runDir); bad != "" {
		return "the package with the generated code does not compile:\n" + bad
	}
	for _, mode := range []string{"c19", "c18", "c17"} {
		out, bad := cc.b.run(4*time.Minute, "./run.exe", mode, fmt.Sprint(seed), "20")
		if bad != "" {
			if strings.Contains(bad, "harness:") {
				panic("harness: " + bad)
			}
			return bad
		}
		var res gensup.Result
		if err := json.Unmarshal(out, &res); err != nil {
			panic("harness: " + err.Error() + ": " + string(out))
		}
		if f := res.Failure; f != nil {
			return fmt.Sprintf("%s: %s\nvalue: %s\ndocument: %q", f.Entry, f.Message, f.Value, f.Doc)
		}
		c.Label("behaviour " + mode)
	}
	return ""
}
