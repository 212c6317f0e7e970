package scen

import (
	"bytes"
	"fmt"
	"time"

	"simverif/harness"
	"simverif/world"
)

// linesOf splits a stream the way a line reader does: newline terminated, one
// carriage return before it dropped, a last line without a newline counted.
func linesOf(data []byte) [][]byte {
	var out [][]byte
	for len(data) > 0 {
		i := bytes.IndexByte(data, '\n')
		l := data
		if i >= 0 {
			l, data = data[:i], data[i+1:]
		} else {
			data = nil
		}
		if n := len(l); n > 0 && l[n-1] == '\r' {
			l = l[:n-1]
		}
		out = append(out, append([]byte{}, l...))
	}
	return out
}

// echoOf is what a line-by-line echo of the stream looks like.
func echoOf(data []byte) []byte {
	var b []byte
	for _, l := range linesOf(data) {
		b = append(append(b, l...), '\n')
	}
	return b
}

// outSpec says what program output may look like.
type outSpec struct {
	lines  int  // most lines per stream
	long   bool // lines beyond 64 KiB
	huge   bool // and a few beyond 8 MiB
	binary bool // bytes that are not UTF-8
	crlf   bool
	body   func(r *harness.Run, i int) string // content of some lines
	step   []time.Duration                    // sleeps between writes
}

// genStream draws one stream; tag makes its lines recognisable.
func genStream(r *harness.Run, tag string, o *outSpec) []byte {
	n := r.W(o.lines + 1)
	var b, last []byte
	for i := 0; i < n; i++ {
		k := r.W(16)
		switch {
		case k == 10 && i > 0 && r.W(2) == 1: // the same line again
			for _, l := range bytes.SplitAfter(b, []byte{'\n'}) {
				if len(l) > 0 {
					last = l
				}
			}
			b = append(b, last...)
			continue
		case k == 15: // empty line
		case k == 14 && o.long:
			m := []int{4095, 4096, 8192, 65535, 65536, 65537, 70000, 200000}[r.W(8)]
			if r.W(24) == 23 {
				m = []int{1<<20 - 1, 1<<20 + 1, 1500000, 3 << 20}[r.W(4)]
				if o.huge && r.W(20) == 19 {
					m = []int{9 << 20, 17 << 20, 35 << 20}[r.W(3)]
				}
			}
			l := []byte(fmt.Sprintf("%s%d:", tag, i))
			for j := len(l); j < m; j++ {
				l = append(l, byte('a'+j%26))
			}
			b = append(b, l...)
			if o.body != nil {
				b = append(b, o.body(r, i)...)
			}
		case k == 13 && o.binary:
			b = append(b, fmt.Sprintf("%s%d:", tag, i)...)
			switch r.W(4) {
			default:
				b = append(b, 0xff, 0xfe, 0, 0x80, '\r', 'x', 0xc3)
			case 1: // bytes that mean nothing at the end of a line either
				b = append(b, 'x', 0, 0)
			case 2:
				b = append(b, "\x1b[31mred\x1b[0m\x04\x1a\x7f\x08"...)
			case 3:
				b = append(b, "\xef\xbb\xbf\u2028\u0085\\n\\"...)
			}
		case k == 11: // space that belongs to the line
			b = append(b, [][]byte{[]byte("  \t"), []byte(" "), []byte("\t"), []byte("\v\f")}[r.W(4)]...)
			b = append(b, fmt.Sprintf("%s%d:", tag, i)...)
			if o.body != nil {
				b = append(b, o.body(r, i)...)
			}
			b = append(b, [][]byte{[]byte("  "), []byte("\t"), []byte(" \v"), []byte("\u00a0"), []byte(" ")}[r.W(5)]...)
		case k == 12:
			b = append(b, fmt.Sprintf("%s%d:", tag, i)...)
			pad := r.W(300)
			if r.W(4) == 3 {
				pad = []int{500, 1000, 1023, 2100, 5000}[r.W(5)]
			}
			b = append(b, bytes.Repeat([]byte{'y'}, pad)...)
			if o.body != nil {
				b = append(b, o.body(r, i)...)
			}
		case k >= 6 && o.body != nil:
			b = append(b, fmt.Sprintf("%s%d:%s", tag, i, o.body(r, i))...)
		default:
			b = append(b, fmt.Sprintf("%s%d: line", tag, i)...)
		}
		switch {
		case i == n-1 && r.W(4) == 3: // no newline at the end
		case o.crlf && r.W(6) == 5:
			b = append(b, []string{"\r\n", "\r\n", "\r\n", "\r\r\n", "\r10%\r20%\n", "\r\n\n"}[r.W(6)]...)
		default:
			b = append(b, '\n')
		}
	}
	return b
}

// genOps cuts two streams into writes and interleaves them with sleeps.
func genOps(r *harness.Run, streams [2][]byte, o *outSpec) []world.Op {
	var ops []world.Op
	kinds := [2]string{"out", "err"}
	style := r.W(4) // whole lines, everything at once, random cuts, mixed
	for len(streams[0])+len(streams[1]) > 0 {
		i := 0
		if len(streams[0]) == 0 || (len(streams[1]) > 0 && r.W(2) == 1) {
			i = 1
		}
		s := streams[i]
		n := len(s)
		st := style
		if st == 3 {
			st = r.W(3)
		}
		switch st {
		case 0:
			if k := bytes.IndexByte(s, '\n'); k >= 0 {
				n = k + 1
			}
		case 2:
			m := n
			if m > 40 && r.W(2) == 0 {
				m = 40
			}
			n = 1 + r.W(m)
		}
		ops = append(ops, world.Op{Kind: kinds[i], Data: s[:n:n]})
		streams[i] = s[n:]
		if len(o.step) > 0 {
			if d := o.step[r.W(len(o.step))]; d > 0 {
				ops = append(ops, world.Op{Kind: "sleep", D: d})
			}
		}
	}
	return ops
}
