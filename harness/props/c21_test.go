package props

import (
	"bytes"
	"fmt"
	"strings"
	"sync"

	"github.com/KSpaceer/yamly"
	gdecode "github.com/KSpaceer/yamly/engines/goyaml/decode"
	gencode "github.com/KSpaceer/yamly/engines/goyaml/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/ast/astcmp"
	"github.com/KSpaceer/yamly/engines/yayamls/ast/astprint"
	ydecode "github.com/KSpaceer/yamly/engines/yayamls/decode"
	yencode "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

// world is what the goroutines of a case share: source texts, values and trees nobody changes.
type world struct {
	srcs   [][]byte
	vals   []*val
	yay    []ast.Node
	gos    []*yaml.Node
	schema []*schema
}

type job struct {
	kind string
	a, b int
	eng  int
	plan uint64
}

func (j job) String() string {
	return fmt.Sprintf("%s(%d,%d,%s,%d)", j.kind, j.a, j.b, engines[j.eng].name, j.plan%97)
}

// do makes the work of a job and describes everything observable about it. keep is told about trees and values to be looked at later.
func (j job) do(w *world, keep func(func() string)) (out string) {
	defer func() {
		if p := recover(); p != nil {
			out = fmt.Sprintf("PANIC %v", p)
		}
	}()
	e := engines[j.eng]
	var sb strings.Builder
	decode := func(r yamly.Decoder) {
		switch j.plan % 5 {
		case 0:
			v := r.Any()
			fmt.Fprintf(&sb, "%s|%v", show(v), r.Error())
			keep(func() string { return show(v) })
		case 1:
			raw := r.Raw()
			fmt.Fprintf(&sb, "%q|%v", raw, r.Error())
			keep(func() string { return string(raw) })
		case 2:
			steps := 500
			v := w.schema[j.b%len(w.schema)].decode(r, &steps)
			fmt.Fprintf(&sb, "%s|%v", show(v), r.Error())
			keep(func() string { return show(v) })
		default:
			sb.WriteString(exerciseReader(r, j.plan))
		}
	}
	switch j.kind {
	case "decode": // an own reader on a shared source
		r, err := e.reader(w.srcs[j.a%len(w.srcs)])
		if err != nil {
			return err.Error()
		}
		decode(r)
	case "parse":
		var opts []parser.ParseOption
		if j.plan%2 == 1 {
			opts = append(opts, parser.WithUnescapedQuotedText())
		}
		if j.plan%3 == 1 {
			opts = append(opts, parser.WithOmitStream())
		}
		tree, err := parser.ParseBytes(w.srcs[j.a%len(w.srcs)], opts...)
		if err != nil {
			return err.Error()
		}
		sb.WriteString(dump(tree))
		keep(func() string { return dump(tree) })
	case "encode":
		enc := e.encoder()
		for i := 0; i < 1+int(j.plan%3); i++ {
			insert(enc, w.vals[(j.a+i)%len(w.vals)])
			b, err := enc.EncodeToBytes()
			fmt.Fprintf(&sb, "%s|%v;", b, err)
			keep(func() string { return string(b) })
		}
	case "relay": // raw of one document inserted in another
		r, err := e.reader(w.srcs[j.a%len(w.srcs)])
		if err != nil {
			return err.Error()
		}
		raw := r.Raw()
		o := engines[(j.eng+int(j.plan%2))%2]
		enc := o.encoder()
		enc.StartSequence()
		insert(enc, w.vals[j.b%len(w.vals)])
		enc.InsertRaw(raw, r.Error())
		enc.EndSequence()
		s, err := enc.EncodeToString()
		fmt.Fprintf(&sb, "%s|%v", s, err)
	case "shared read": // an own reader on a shared tree
		if j.eng == 0 {
			decode(ydecode.NewASTReader(w.yay[j.a%len(w.yay)]))
		} else {
			decode(gdecode.NewASTReader(w.gos[j.a%len(w.gos)]))
		}
	case "shared node":
		if j.eng == 0 {
			r := ydecode.NewASTReader(w.yay[j.a%len(w.yay)])
			n := r.Node()
			if r.Error() == nil {
				sb.WriteString(dump(n))
			}
			fmt.Fprint(&sb, r.Error())
		} else {
			r := gdecode.NewASTReader(w.gos[j.a%len(w.gos)])
			n := r.Node()
			if r.Error() == nil {
				sb.WriteString(viewGo(n).String())
			}
			fmt.Fprint(&sb, r.Error())
		}
	case "shared write":
		var s string
		var err error
		if j.eng == 0 {
			s, err = yencode.NewASTWriter().WriteString(w.yay[j.a%len(w.yay)])
		} else {
			s, err = (&gencode.ASTWriter{}).WriteString(w.gos[j.a%len(w.gos)])
		}
		fmt.Fprintf(&sb, "%s|%v", s, err)
	case "shared print":
		var b bytes.Buffer
		if err := astprint.NewPrinter().Print(w.yay[j.a%len(w.yay)], &b); err != nil {
			fmt.Fprint(&sb, err)
		}
		sb.Write(b.Bytes())
	case "shared compare":
		fmt.Fprint(&sb, astcmp.NewComparator().Equal(w.yay[j.a%len(w.yay)], w.yay[j.b%len(w.yay)]))
	default:
		panic("harness: " + j.kind)
	}
	return sb.String()
}

func init() {
	rule := "two to six goroutines released together, each doing one to five random jobs "
	end := "; the results are compared with the ones of the same jobs done alone afterwards, values returned earlier are looked at again at the end, and the whole runs under the race detector; non-trivial: at least four jobs"
	body := func(kinds []string) func(t *rapid.T, c *ctx) {
		return func(t *rapid.T, c *ctx) {
			w := &world{}
			for i := intn(t, "docs", 1, 4); i > 0; i-- {
				v := drawValue(t, genOpts{maxDepth: 3, maxItems: 4, maxStr: 10, anchors: chance(t, "anchors", 1, 2)})
				r := newRenderer(t)
				r.decor = chance(t, "decor", 1, 3)
				doc := r.document(v)
				tree, err := parseYay(doc)
				if err != nil {
					c.Case("%s", doc)
					c.Failf("cannot parse: %v", err)
				}
				w.yay = append(w.yay, tree)
				var n yaml.Node
				if yaml.Unmarshal([]byte(doc), &n) != nil || n.Kind == 0 {
					return
				}
				w.gos = append(w.gos, &n)
				w.schema = append(w.schema, schemaOf(t, v))
				w.vals = append(w.vals, drawValue(t, genOpts{maxDepth: 3, maxItems: 4, maxStr: 10}))
				if chance(t, "damage", 1, 4) {
					doc = mutate(t, doc)
				}
				w.srcs = append(w.srcs, []byte(doc))
			}
			jobs := make([][]job, intn(t, "goroutines", 2, 6))
			total := 0
			for g := range jobs {
				for i := intn(t, "jobs", 1, 5); i > 0; i-- {
					jobs[g] = append(jobs[g], job{kind: rapid.SampledFrom(kinds).Draw(t, "kind"), a: intn(t, "a", 0, 3), b: intn(t, "b", 0, 3), eng: intn(t, "eng", 0, 1), plan: rapid.Uint64().Draw(t, "plan")})
					total++
				}
			}
			var docs []string
			for _, s := range w.srcs {
				docs = append(docs, string(s))
			}
			c.Case("%q\nvalues %s\njobs %v", docs, w.vals, jobs)
			c.Nontrivial(total >= 4)

			got := make([][]string, len(jobs))
			kept := make([][]func() string, len(jobs))
			keptWas := make([][]string, len(jobs))
			var ready, done sync.WaitGroup
			start := make(chan struct{})
			for g := range jobs {
				ready.Add(1)
				done.Add(1)
				go func() {
					defer done.Done()
					ready.Done()
					<-start
					for _, j := range jobs[g] {
						got[g] = append(got[g], j.do(w, func(f func() string) {
							kept[g] = append(kept[g], f)
							keptWas[g] = append(keptWas[g], f())
						}))
					}
				}()
			}
			ready.Wait()
			close(start)
			done.Wait()

			for g := range jobs {
				for i, j := range jobs[g] {
					c.Label(j.kind)
					want := j.do(w, func(func() string) {})
					if strings.HasPrefix(got[g][i], "PANIC") || got[g][i] != want {
						c.Failf("goroutine %d, job %d %s gives\n%s\ntogether with others, alone\n%s", g, i, j, got[g][i], want)
					}
				}
				for i, f := range kept[g] {
					if now := f(); now != keptWas[g][i] {
						c.Failf("a result of goroutine %d changed later from\n%s\nto\n%s", g, keptWas[g][i], now)
					}
				}
			}
			for i, s := range w.srcs {
				if string(s) != docs[i] {
					c.Failf("a shared source changed to %q", s)
				}
			}
		}
	}
	reg("C21", "separate", rule+"with own parsers, readers and encoders on shared source bytes (some malformed)"+end, 6000, 400000, body([]string{"decode", "decode", "parse", "encode", "relay"}))
	reg("C21", "shared trees", rule+"on shared trees of both engines: typed, generic, raw and tree reads by own readers, serialization, printing, comparison"+end, 6000, 400000,
		body([]string{"shared read", "shared read", "shared node", "shared write", "shared print", "shared compare", "decode"}))
}
