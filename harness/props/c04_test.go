package props

import (
	"fmt"
	"strings"

	"github.com/KSpaceer/yamly/engines/yayamls/pkg/cpaccessor"
	"pgregory.net/rapid"
)

// countingStream produces 1, 2, 3... and records how often it was asked.
type countingStream struct{ n, base int }

func (s *countingStream) Next() int { s.n++; return s.base + s.n }

func init() {
	body := func(maxOps int) func(t *rapid.T, c *ctx) {
		return func(t *rapid.T, c *ctx) {
			n := intn(t, "n", 1, maxOps)
			// a bias per case makes long runs and deep nesting likely
			wNext, wCp, wRb, wCm := intn(t, "wn", 1, 8), intn(t, "wc", 1, 6), intn(t, "wr", 0, 4), intn(t, "wm", 0, 4)
			ops := make([]byte, 0, n)
			for i := 0; i < n; i++ {
				x := intn(t, "op", 0, wNext+wCp+wRb+wCm)
				switch {
				case x < wNext:
					ops = append(ops, 'N')
				case x < wNext+wCp:
					ops = append(ops, 'C')
				case x < wNext+wCp+wRb:
					ops = append(ops, 'R')
				case x < wNext+wCp+wRb+wCm:
					ops = append(ops, 'M')
				default:
					ops = append(ops, 'N')
				}
			}
			if chance(t, "restart", 1, 6) {
				ops = append(ops, 'S')
				for i := intn(t, "m", 1, 20); i > 0; i-- {
					ops = append(ops, pick(t, "op2", byte('N'), byte('N'), byte('C'), byte('R'), byte('M')))
				}
			}
			c.Case("%s", ops)
			c.Nontrivial(runHistory(string(ops), c.Failf))
		}
	}
	reg("C04", "history", "random sequences of Next, SetCheckpoint, Rollback, Commit and SetStream against a model (position in the history and a "+
		"stack of positions), with the requests to the underlying stream counted; non-trivial: nested checkpoints, an effective rollback and a commit",
		150000, 8000000, body(60))
	reg("C04", "long", "the same with longer histories, beyond the preallocated buffers; non-trivial as before", 6000, 300000, body(400))
	reg("C04", "runs", "histories of runs of up to 70 reads and of replays that end exactly at, just before or just after the read-ahead or a "+
		"checkpoint, with checkpoints, rollbacks and commits in between; non-trivial as before", 30000, 1500000, func(t *rapid.T, c *ctx) {
		var ops []byte
		pos, maxPos := 0, 0
		var cps []int
		next := func(k int) {
			for ; k > 0; k-- {
				ops = append(ops, 'N')
				pos++
				maxPos = max(maxPos, pos)
			}
		}
		for i := intn(t, "steps", 1, 14); i > 0; i-- {
			switch intn(t, "step", 0, 9) {
			case 0:
				next(intn(t, "run", 1, 70))
			case 1:
				next(intn(t, "few", 1, 3))
			case 2, 3:
				next(max(0, maxPos-pos+intn(t, "around", -2, 2)))
			case 4, 5:
				ops = append(ops, 'C')
				cps = append(cps, pos)
			case 6, 7:
				ops = append(ops, 'R')
				if len(cps) > 0 {
					pos, cps = cps[len(cps)-1], cps[:len(cps)-1]
				}
			default:
				ops = append(ops, 'M')
				if len(cps) > 0 {
					cps = cps[:len(cps)-1]
				}
			}
		}
		c.Case("%s", ops)
		c.Nontrivial(runHistory(string(ops), c.Failf))
	})
	// all histories of a length, by the first operations
	reg("C04", "exhaustive", "for random first four operations, all continuations by up to 6 further operations (Next, SetCheckpoint, Rollback, Commit), "+
		"so that practically all histories of up to 10 operations are run; non-trivial: always", 100, 3000, func(t *rapid.T, c *ctx) {
		prefix := ""
		for i := 0; i < 4; i++ {
			prefix += pick(t, "op", "N", "C", "R", "M")
		}
		c.Case("%s and all continuations by up to 6 operations", prefix)
		c.Nontrivial(true)
		buf := []byte(prefix)
		var rec func(n int)
		rec = func(n int) {
			h := string(buf)
			runHistory(h, func(f string, a ...any) { c.Failf("history "+h+": "+f, a...) })
			if n == 0 {
				return
			}
			for _, op := range []byte("NCRM") {
				buf = append(buf, op)
				rec(n - 1)
				buf = buf[:len(buf)-1]
			}
		}
		rec(6)
	})
}

// runHistory runs the operations against the accessor and the model: a position in the history and open checkpoints.
// It says whether the history had nested checkpoints, an effective rollback and a commit.
func runHistory(ops string, fail func(f string, a ...any)) bool {
	st := &countingStream{}
	a := cpaccessor.NewCheckpointingAccessor[int]()
	a.SetStream(st)
	pos, maxPos := 0, 0
	var cps []int
	deep, rolled := false, false
	for i := range ops {
		op := ops[i]
		at := func() string { return fmt.Sprintf("after %d operations (%c)", i+1, op) }
		switch op {
		case 'N':
			pos++
			if pos > maxPos {
				maxPos = pos
			}
			if got := a.Next(); got != st.base+pos {
				fail("%s: Next gives %d, want %d", at(), got-st.base, pos)
			}
		case 'C':
			cps = append(cps, pos)
			a.SetCheckpoint()
			deep = deep || len(cps) >= 2
		case 'R':
			if len(cps) == 0 {
				a.Rollback() // without a checkpoint there is nothing to return to: the position stays
				break
			}
			rolled = rolled || pos != cps[len(cps)-1]
			pos = cps[len(cps)-1]
			cps = cps[:len(cps)-1]
			if got := a.Rollback(); pos > 0 && got != st.base+pos {
				fail("%s: Rollback gives %d, want %d", at(), got-st.base, pos)
			}
		case 'M':
			if len(cps) > 0 {
				cps = cps[:len(cps)-1]
			}
			a.Commit()
		case 'S':
			st = &countingStream{base: 1000}
			a.SetStream(st)
			pos, maxPos, cps = 0, 0, nil
		}
		if st.n != maxPos {
			fail("%s: %d elements were requested of the stream, %d are needed", at(), st.n, maxPos)
		}
	}
	// drain: what follows is the rest of the history
	for k := 0; k < maxPos-pos+3; k++ {
		if got := a.Next(); got != st.base+pos+k+1 {
			fail("draining: Next gives %d, want %d", got-st.base, pos+k+1)
		}
	}
	return deep && rolled && strings.Contains(ops, "M")
}
