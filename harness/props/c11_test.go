package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/KSpaceer/yamly"
	"pgregory.net/rapid"
)

var errDst = errors.New("destination failed")

// failingWriter accepts some bytes and then fails.
type failingWriter struct {
	left int
	err  error
	got  bytes.Buffer
}

func (w *failingWriter) Write(p []byte) (int, error) {
	if len(p) <= w.left {
		w.left -= len(p)
		return w.got.Write(p)
	}
	n := w.left
	w.got.Write(p[:n])
	w.left = 0
	return n, w.err
}

// keptDoc is an output an encoder returned before.
type keptDoc struct {
	b    []byte
	s    string
	copy string
}

func encodeFresh(e engine, h *history) (string, error) {
	enc := e.encoder()
	h.apply(enc)
	return enc.EncodeToString()
}

func init() {
	reg("C11", "outputs", "the same well-formed history encoded as string, as bytes and to a writer, by new encoders of both engines: equal documents which denote the history; "+
		"non-trivial: at least three nodes", 60000, 4000000, func(t *rapid.T, c *ctx) {
		h := genHistory(t, false, 25)
		c.Case("%s", h)
		c.Nontrivial(h.nodes >= 3)
		for _, e := range engines {
			s, err := encodeFresh(e, h)
			if err != nil {
				c.Failf("%s: EncodeToString: %v", e.name, err)
			}
			enc := e.encoder()
			h.apply(enc)
			b, err := enc.EncodeToBytes()
			if err != nil || string(b) != s {
				c.Failf("%s: EncodeToBytes gives %q, %v; EncodeToString %q", e.name, b, err, s)
			}
			enc = e.encoder()
			h.apply(enc)
			var buf bytes.Buffer
			if err := enc.EncodeTo(&buf); err != nil || buf.String() != s {
				c.Failf("%s: EncodeTo gives %q, %v; EncodeToString %q", e.name, buf.String(), err, s)
			}
			back, err := parseYay(s)
			if err != nil {
				c.Failf("%s: %q is rejected: %v", e.name, s, err)
			}
			h.checkResult(c, e.name+" encoded", viewYay(back), nil)
		}
	})
	reg("C11", "sequence", "two to eight encodings, one after another, with one encoder of each engine: well-formed, unfinished and ill-formed histories, encoded as string, bytes, to a writer "+
		"or to a destination failing after some bytes; results must be the ones of new encoders, ill-formed histories and failing destinations must be reported, documents returned "+
		"before must stay as they were; non-trivial: an encoding after a failed one", 60000, 4000000, func(t *rapid.T, c *ctx) {
		type step struct {
			h    *history
			how  int
			left int
			err  error
		}
		var steps []step
		desc := ""
		for i := intn(t, "steps", 2, 8); i > 0; i-- {
			st := step{h: genHistory(t, chance(t, "canfail", 1, 2), 10), how: intn(t, "how", 0, 3)}
			st.left, st.err = intn(t, "left", 0, 30), pick(t, "dst error", errDst, errDst, io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF)
			steps = append(steps, st)
			desc += fmt.Sprintf("%d/%d(%s); ", st.how, st.left, st.h)
		}
		c.Case("%s", desc)
		for _, e := range engines {
			enc := e.encoder()
			var kept []keptDoc
			failed := false
			for i, st := range steps {
				want, werr := encodeFresh(e, st.h)
				if st.h.err != "" && werr == nil {
					c.Failf("%s: step %d: no error for an ill-formed history (%s), but %q", e.name, i, st.h.err, want)
				}
				st.h.apply(enc)
				c.Nontrivial(failed)
				switch st.how {
				case 0:
					s, err := enc.EncodeToString()
					checkEncoded(c, e, i, s, err, want, werr, "EncodeToString")
					kept = append(kept, keptDoc{s: s, copy: string(append([]byte{}, s...))})
					failed = failed || err != nil
				case 1:
					b, err := enc.EncodeToBytes()
					checkEncoded(c, e, i, string(b), err, want, werr, "EncodeToBytes")
					kept = append(kept, keptDoc{b: b, copy: string(b)})
					failed = failed || err != nil
				case 2:
					var buf bytes.Buffer
					err := enc.EncodeTo(&buf)
					if werr != nil && buf.Len() > 0 && st.h.err != "" {
						c.Failf("%s: step %d: an ill-formed history writes %q", e.name, i, buf.String())
					}
					checkEncoded(c, e, i, buf.String(), err, want, werr, "EncodeTo")
					failed = failed || err != nil
				default:
					w := &failingWriter{left: st.left, err: st.err}
					err := enc.EncodeTo(w)
					switch {
					case werr != nil:
						if err == nil {
							c.Failf("%s: step %d: EncodeTo reports no error, a new encoder %v", e.name, i, werr)
						}
					case st.left < len(want):
						if err == nil {
							c.Failf("%s: step %d: EncodeTo reports no error though the destination failed after %d of %d bytes", e.name, i, st.left, len(want))
						}
						failed = true
						c.Label("destination failed")
					default:
						checkEncoded(c, e, i, w.got.String(), err, want, werr, "EncodeTo")
					}
				}
				for _, k := range kept {
					if k.s != "" && k.s != k.copy || k.b != nil && string(k.b) != k.copy {
						c.Failf("%s: step %d changed a document returned before from %q to %q", e.name, i, k.copy, k.s+string(k.b))
					}
				}
			}
		}
	})
	reg("C11", "interleaved", "two encoders of an engine fed alternately, call by call, with different histories: each gives the document a lone encoder gives; non-trivial: three nodes each",
		40000, 2000000, func(t *rapid.T, c *ctx) {
			a, b := genHistory(t, false, 14), genHistory(t, false, 14)
			order := rapid.SliceOfN(rapid.Bool(), len(a.calls)+len(b.calls), len(a.calls)+len(b.calls)).Draw(t, "order")
			c.Case("%s | %s", a, b)
			c.Nontrivial(a.nodes >= 3 && b.nodes >= 3)
			for _, e := range engines {
				ea, eb := e.encoder(), e.encoder()
				run := func(h *history, in yamly.Inserter, i *int) bool {
					if *i >= len(h.calls) {
						return false
					}
					h.calls[*i](in)
					*i++
					return true
				}
				i, j := 0, 0
				for _, o := range order {
					if !o || !run(b, eb, &j) {
						run(a, ea, &i)
					}
				}
				for run(a, ea, &i) || run(b, eb, &j) {
				}
				for k, x := range []struct {
					h   *history
					enc yamly.Encoder
				}{{a, ea}, {b, eb}} {
					want, werr := encodeFresh(e, x.h)
					s, err := x.enc.EncodeToString()
					checkEncoded(c, e, k, s, err, want, werr, "EncodeToString")
				}
			}
		})
}

func checkEncoded(c *ctx, e engine, step int, got string, err error, want string, werr error, how string) {
	if (err == nil) != (werr == nil) {
		c.Failf("%s: step %d: %s gives error %v, a new encoder %v", e.name, step, how, err, werr)
	}
	if err == nil && got != want {
		c.Failf("%s: step %d: %s gives %q, a new encoder %q", e.name, step, how, got, want)
	}
}
