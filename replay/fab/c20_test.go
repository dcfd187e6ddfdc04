package fab_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"testing"

	"github.com/bobg/fab"
)

// copied is what an indenting copier is documented to write.
func copied(in, indent string) string {
	in = strings.TrimSuffix(in, "\r")
	in = strings.ReplaceAll(in, "\r\n", "\n")
	in = strings.ReplaceAll(in, "\r", "\n")
	var out strings.Builder
	for in != "" {
		line, rest := in, ""
		nl := strings.IndexByte(in, '\n')
		if nl >= 0 {
			line, rest = in[:nl], in[nl+1:]
		}
		if line != "" {
			out.WriteString(indent + line)
		}
		if nl >= 0 {
			out.WriteString("\n")
		}
		in = rest
	}
	return out.String()
}

// A writer that fails after a number of bytes.
type limited struct {
	buf  bytes.Buffer
	left int
	err  error
}

func (l *limited) Write(p []byte) (int, error) {
	if len(p) > l.left {
		n := l.left
		l.buf.Write(p[:n])
		l.left = 0
		return n, l.err
	}
	l.left -= len(p)
	return l.buf.Write(p)
}

func TestC20(t *testing.T) {
	defer finish()

	// try writes the pieces and compares what arrives after each.
	try := func(con *fab.Controller, depth int, prefix string, pieces []string) {
		oneCase()
		var b bytes.Buffer
		w := con.IndentingCopier(&b, prefix)
		all := ""
		for _, p := range pieces {
			all += p
			data := []byte(p)
			n, err := w.Write(data)
			if n != len(p) || err != nil {
				failf("writing %q of %q gives %d, %v", p, pieces, n, err)
			}
			if string(data) != p {
				failf("writing %q changes it to %q", p, data)
			}
			want := copied(all, strings.Repeat("  ", depth)+prefix)
			if got := b.String(); got != want {
				failf("after %q in pieces %q, with depth %d and prefix %q, the output is %q, want %q", all, pieces, depth, prefix, got, want)
				return
			}
		}
	}

	scenario(t, "all short inputs, however split", func() {
		con := fab.NewController("")
		alphabet := "\n\ra"
		most := 6
		if thorough() {
			most = 8
		}
		var rec func(s string)
		rec = func(s string) {
			for cut := 0; cut < 1<<max0(len(s)-1); cut++ {
				var pieces []string
				last := 0
				for i := 1; i < len(s); i++ {
					if cut&(1<<(i-1)) != 0 {
						pieces = append(pieces, s[last:i])
						last = i
					}
				}
				pieces = append(pieces, s[last:])
				try(con, 0, "> ", pieces)
			}
			if len(s) < most {
				for i := range alphabet {
					rec(s + alphabet[i:i+1])
				}
			}
		}
		rec("")
	})

	scenario(t, "random inputs", func() {
		r := rng()
		n := 2000
		if thorough() {
			n = 40000
		}
		con := fab.NewController("")
		alphabet := []string{"\n", "\r", "\r\n", "a", " ", "\t", "\x00", "é", "\xff", "line", "\v", "\f", "\u2028", "\x85", "\n\n", "\r\r", strings.Repeat("x", 100), strings.Repeat("long ", 1000)}
		prefixes := []string{"", "    ", "p", "\t", "é", "%s", "a\nb", strings.Repeat("p", 5000)}
		for ; n > 0; n-- {
			var pieces []string
			for k := r.Intn(6); k > 0; k-- {
				p := ""
				for j := r.Intn(6); j > 0; j-- {
					m := len(alphabet)
					if r.Intn(4) > 0 {
						m -= 2
					}
					p += alphabet[r.Intn(m)]
				}
				pieces = append(pieces, p)
			}
			try(con, 0, prefixes[r.Intn(len(prefixes))], pieces)
		}
		// Every byte.
		for b := 0; b < 256; b++ {
			s := string([]byte{byte(b)})
			try(con, 0, "  ", []string{s, s + "x" + s, "x", s})
			try(con, 0, "", []string{"x\r", s, s + "\r", s})
		}
	})

	scenario(t, "depth", func() {
		for depth := 1; depth <= 6; depth++ {
			con := fab.NewController("")
			var target fab.Target = &logged{Name: "inner", log: &runLog{}, f: func(context.Context, *fab.Controller) error {
				try(con, depth, "", []string{"a\nb", "c\r\n\nd\r", "e"})
				try(con, depth, "| ", []string{"a\n", "\n", "b"})
				return nil
			}}
			for i := 1; i < depth; i++ {
				inner := target
				target = &logged{Name: fmt.Sprint(i), log: &runLog{}, f: func(ctx context.Context, con *fab.Controller) error { return con.Run(ctx, inner) }}
			}
			if err := con.Run(context.Background(), target); err != nil {
				failf("%v", err)
			}
			try(con, 0, "", []string{"x\n"})
		}
		// The depth is that of the time of creation.
		oneCase()
		con := fab.NewController("")
		var b bytes.Buffer
		w := con.IndentingCopier(&b, "")
		con.Run(context.Background(), &logged{log: &runLog{}, f: func(context.Context, *fab.Controller) error { w.Write([]byte("x\n")); return nil }})
		if b.String() != "x\n" {
			failf("a copier made outside a run writes %q inside", b.String())
		}
	})

	scenario(t, "copiers do not share state", func() {
		con := fab.NewController("")
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 50; i++ {
					try(con, 0, fmt.Sprint(g), []string{"a\r", "\nb\r", "c", "\n\r", "d"})
				}
			}()
		}
		wg.Wait()
		var b1, b2 bytes.Buffer
		w1, w2 := con.IndentingCopier(&b1, "1"), con.IndentingCopier(&b2, "2")
		oneCase()
		for i := 0; i < 10; i++ {
			io.WriteString(w1, "a\r")
			io.WriteString(w2, "b")
		}
		if b1.String() != copied(strings.Repeat("a\r", 10), "1") || b2.String() != copied(strings.Repeat("b", 10), "2") {
			failf("two copiers write %q and %q", b1.String(), b2.String())
		}
	})

	scenario(t, "errors of the writer", func() {
		for _, e := range append([]error{nil}, kindsOfErrors...) {
			for _, in := range []string{"a", "\n", "a\nb\n", "\r\r\r", "a\rb", strings.Repeat("x", 5000), strings.Repeat("\n", 5000), strings.Repeat("\r", 5000) + "x", strings.Repeat("ab\r\n", 3000)} {
				for _, limit := range []int{0, 1, 3, 4000, 4096, 4097, 5000, 8192} {
					oneCase()
					full := copied(in, "> ")
					if limit >= len(full) {
						continue
					}
					err := e
					l := &limited{left: limit, err: err}
					w := fab.NewController("").IndentingCopier(l, "> ")
					n, got := w.Write([]byte(in))
					what := fmt.Sprintf("writing %d bytes like %q to a writer that fails with %T %v after %d bytes", len(in), in[:min0(5, len(in))], e, e, limit)
					if got == nil {
						failf("%s gives no error", what)
					} else if e == nil && !errors.Is(got, io.ErrShortWrite) {
						failf("%s gives %v", what, got)
					} else if e != nil && !sameErr(got, e) {
						failf("%s gives %v", what, got)
					}
					if n < 0 || n > len(in) {
						failf("%s gives the count %d", what, n)
					}
					if !strings.HasPrefix(full, l.buf.String()) {
						failf("%s writes %q", what, l.buf.String()[:min0(50, l.buf.Len())])
					}
				}
			}
		}
	})
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

func min0(a, b int) int {
	if a < b {
		return a
	}
	return b
}
