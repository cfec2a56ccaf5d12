package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

// refScan is the reference: greedy, leftmost, non-overlapping packets.
func refScan(b []byte) [][]byte {
	var out [][]byte
	begin, end, id := []byte("<?xpacket begin"), []byte("<?xpacket end"), []byte("W5M0MpCehiHzreSzNTczkc9d")
	pos := 0
	for pos < len(b) {
		i := bytes.Index(b[pos:], begin)
		if i < 0 {
			break
		}
		i += pos
		h := b[i:]
		if len(h) > 51 {
			h = h[:51]
		}
		if !bytes.Contains(h, id) {
			pos = i + len(begin)
			continue
		}
		j := bytes.Index(b[i:], end)
		if j < 0 || i+j+len(end)+6 > len(b) {
			break
		}
		l := i + j + len(end) + 6
		out = append(out, b[i:l])
		pos = l
	}
	return out
}

// chunkReader delivers data cut at the given offsets, then fin.
type chunkReader struct {
	data []byte
	cuts []int // ascending
	pos  int
	fin  error
	with bool // deliver the last bytes together with fin
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.pos >= len(r.data) {
		return 0, r.fin
	}
	end := len(r.data)
	for _, c := range r.cuts {
		if c > r.pos && c < end {
			end = c
			break
		}
	}
	n := copy(p, r.data[r.pos:end])
	r.pos += n
	if r.with && r.pos >= len(r.data) {
		return n, r.fin
	}
	return n, nil
}

// stepReader delivers at most n bytes per read.
type stepReader struct {
	data []byte
	pos  int
	n    int
	fin  error
}

func (r *stepReader) Read(p []byte) (int, error) {
	if r.pos >= len(r.data) {
		return 0, r.fin
	}
	n := r.n
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.data)-r.pos {
		n = len(r.data) - r.pos
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	return n, nil
}

var errInjected = errors.New("injected read failure")

func scanCompare(r io.Reader, data []byte) string {
	got, err := xmp.ScanPackets(r)
	want := refScan(data)
	if len(want) == 0 {
		if err != io.EOF {
			return fmt.Sprintf("no packet in stream: got %d packets, err=%v, want io.EOF", len(got), err)
		}
		if len(got) != 0 {
			return "packets returned along with io.EOF"
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("stream holds %d packets, got error %v", len(want), err)
	}
	if len(got) != len(want) {
		return fmt.Sprintf("got %d packets, want %d", len(got), len(want))
	}
	for i := range got {
		if !bytes.Equal(got[i], want[i]) {
			return fmt.Sprintf("packet %d differs: got %d bytes %.80q, want %d bytes %.80q", i, len(got[i]), got[i], len(want[i]), want[i])
		}
	}
	// the returned packets must own their bytes
	for i := range got {
		for j := range got[i] {
			got[i][j] = 0
		}
		for k := i + 1; k < len(got); k++ {
			if !bytes.Equal(got[k], want[k]) {
				return fmt.Sprintf("packet %d shares memory with packet %d", k, i)
			}
		}
	}
	return ""
}

const pktID = "W5M0MpCehiHzreSzNTczkc9d"

func pkt(begin, body, end string) string {
	return `<?xpacket begin=` + begin + ` id="` + pktID + `"?>` + body + `<?xpacket end=` + end + `?>`
}

type frag struct{ name, s string }

func init() {
	core.Add(&core.Check{
		ID: "C01", Level: "fault_enumeration", Shards: 8,
		Rule: "A case is a stream (a sequence of fragments) with one way of delivering it (cut offsets, step size, final error). Non-trivial: the stream holds a packet marker or part of one. Oracle: a direct scan of the whole byte string.",
		Assumptions: []string{
			"packets are delimited by the ASCII markers the package documents (UTF-16/32 packets are outside the library's scope)",
			"a begin marker counts when the packet id lies within the 51 bytes the header occupies",
		},
		Run: runC01,
	})
}

func runC01(c *core.Ctx) {
	bom := "\"\uFEFF\""
	frags := []frag{
		{"none", ""},
		{"junk", "\x00\xffjunk"},
		{"lt", "<"},
		{"part-begin", "<?xpacket begi"},
		{"begin-only", "<?xpacket begin"},
		{"begin-noid", `<?xpacket begin="" id="XXXXXXXXXXXXXXXXXXXXXXXX"?>`},
		{"short-packet", `<?xpacket begin?><?xpacket end="w"?>`},
		{"end-only", `<?xpacket end="w"?>`},
		{"end-cut", `<?xpacket end="`},
		{"pkt-w", pkt(`""`, "<a/>", `"w"`)},
		{"pkt-bom-r", pkt(bom, "", `"r"`)},
		{"pkt-sq", strings.ReplaceAll(pkt(`''`, "\n<x?>\x00", `'w'`), `"`, `'`)},
		{"trunc", `<?xpacket begin="" id="` + pktID + `"?><a>`},
		{"id-alone", pktID},
		{"far-id", `<?xpacket begin="                                       " id="` + pktID + `"?>`},
	}
	maxFrags := core.Pick(c, 3, 4)
	c.Bound("fragments per stream", maxFrags)
	c.Bound("fragment alphabet", len(frags))

	deliver := func(name string, data []byte, full bool) bool {
		if !c.Case(name+"|whole", func() any { return string(data) }, func() string {
			return scanCompare(bytes.NewReader(data), data)
		}) {
			return !c.Stop()
		}
		c.Nontrivial(name)
		for _, st := range []int{1, 2, 3, 7, 14, 15, 16, 51} {
			st := st
			c.Case(fmt.Sprintf("%s|step%d", name, st), func() any { return map[string]any{"stream": string(data), "step": st} }, func() string {
				return scanCompare(&stepReader{data: data, n: st, fin: io.EOF}, data)
			})
		}
		if !full {
			return !c.Stop()
		}
		for i := 0; i <= len(data); i++ {
			i := i
			c.Case(fmt.Sprintf("%s|cut%d", name, i), func() any { return map[string]any{"stream": string(data), "cut": i} }, func() string {
				if m := scanCompare(&chunkReader{data: data, cuts: []int{i}, fin: io.EOF}, data); m != "" {
					return m
				}
				// last bytes delivered along with EOF
				return scanCompare(&chunkReader{data: data, cuts: []int{i}, fin: io.EOF, with: true}, data)
			})
			c.Case(fmt.Sprintf("%s|fail%d", name, i), func() any { return map[string]any{"stream": string(data), "fail_after": i} }, func() string {
				for _, with := range []bool{false, true} {
					if with && i == 0 {
						continue
					}
					got, err := xmp.ScanPackets(&chunkReader{data: data[:i], fin: errInjected, with: with})
					if err == nil {
						return fmt.Sprintf("read failure after %d bytes not reported: %d packets returned", i, len(got))
					}
					if !errors.Is(err, errInjected) {
						return fmt.Sprintf("read failure after %d bytes reported as %v", i, err)
					}
				}
				return ""
			})
		}
		return !c.Stop()
	}

	// 1. every fragment sequence; every single cut and failure for the shorter ones
	c.Group("fragment sequences")
	var rec func(pre string, data []byte, n int) bool
	rec = func(pre string, data []byte, n int) bool {
		for _, f := range frags {
			if f.s == "" {
				continue
			}
			name := pre + "+" + f.name
			d := append(append([]byte{}, data...), f.s...)
			if !deliver(name, d, n < maxFrags-1) {
				return false
			}
			if n+1 < maxFrags {
				if !rec(name, d, n+1) {
					return false
				}
			}
		}
		return true
	}
	deliver("empty", nil, true)
	if !rec("", nil, 0) {
		return
	}
	c.Sample(map[string]any{"stream": frags[3].s + frags[9].s, "delivery": "every cut offset"})

	// 2. every pair of cuts on selected streams
	c.Group("pairs of cuts")
	for _, p := range [][]int{{9}, {3, 9}, {9, 10}, {8, 9}, {4, 9, 1}, {5, 11}} {
		var name string
		var data []byte
		for _, i := range p {
			name += "+" + frags[i].name
			data = append(data, frags[i].s...)
		}
		for i := 0; i < len(data); i++ {
			for j := i + 1; j < len(data); j++ {
				i, j := i, j
				if !c.Case(fmt.Sprintf("%s|cuts%d,%d", name, i, j), func() any { return map[string]any{"stream": string(data), "cuts": []int{i, j}} }, func() string {
					return scanCompare(&chunkReader{data: data, cuts: []int{i, j}, fin: io.EOF}, data)
				}) && c.Stop() {
					return
				}
			}
		}
	}

	// 3. sizes around the buffer sizes a scanner can use: garbage before, body
	// inside, so that markers straddle every alignment around them
	c.Group("buffer boundaries")
	sizes := []int{4096, 8192, 65536}
	if c.Thorough() {
		sizes = append(sizes, 16384, 32768, 131072)
	}
	span := core.Pick(c, 90, 160)
	for _, sz := range sizes {
		for d := -span; d <= span; d++ {
			for _, kind := range []string{"lead", "body", "between"} {
				d, sz, kind := d, sz, kind
				n := sz + d
				c.Case(fmt.Sprintf("size|%s|%d", kind, n), func() any { return map[string]any{"kind": kind, "bytes": n} }, func() string {
					fill := strings.Repeat("<?xpacket_", n/10+1)[:n]
					var data []byte
					switch kind {
					case "lead":
						data = []byte(fill + pkt(`""`, "A", `"w"`) + "zz" + pkt(`""`, "B", `"r"`))
					case "body":
						data = []byte("zz" + pkt(`""`, fill, `"w"`) + pkt(`""`, "B", `"r"`))
					case "between":
						data = []byte(pkt(`""`, "A", `"w"`) + fill + pkt(`""`, "B", `"r"`) + "<?xpacket begin")
					}
					if m := scanCompare(bytes.NewReader(data), data); m != "" {
						return m
					}
					if m := scanCompare(&stepReader{data: data, n: 1000, fin: io.EOF}, data); m != "" {
						return m
					}
					return scanCompare(&stepReader{data: data, n: 4096, fin: io.EOF}, data)
				})
				c.Nontrivial(fmt.Sprint(kind, n))
			}
		}
	}
	// a large stream: several packets of very different sizes
	for _, big := range []int{100000, 300000, 1 << 20, 5 << 20} {
		big := big
		c.Case(fmt.Sprintf("large|%d", big), nil, func() string {
			var data []byte
			for i := 0; i < 4; i++ {
				data = append(data, bytes.Repeat([]byte{byte(i), '<'}, 333*i)...)
				data = append(data, pkt(`""`, strings.Repeat("x", big/(i+1)), `"w"`)...)
			}
			if m := scanCompare(bytes.NewReader(data), data); m != "" {
				return m
			}
			return scanCompare(&stepReader{data: data, n: 9999, fin: io.EOF}, data)
		})
	}

	// 4. Scan decodes the first packet
	c.Group("Scan")
	doc := `<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#"><rdf:Description rdf:about="%s" xmlns:dc="http://purl.org/dc/elements/1.1/" dc:format="%s"/></rdf:RDF></x:xmpmeta>`
	for _, lead := range []string{"", "junk", "<?xpacket begi", `<?xpacket begin="" id="no"?>`, frags[6].s} {
		for st := 1; st < 60; st += core.Pick(c, 7, 1) {
			lead, st := lead, st
			c.Case(fmt.Sprintf("Scan|%q|%d", lead, st), nil, func() string {
				data := []byte(lead + pkt(`""`, fmt.Sprintf(doc, "one", "f1"), `"w"`) + "mid" + pkt(`""`, fmt.Sprintf(doc, "two", "f2"), `"w"`))
				d, err := xmp.Scan(&stepReader{data: data, n: st, fin: io.EOF})
				if err != nil {
					return err.Error()
				}
				if v, err := d.GetPath("dc:format"); err != nil || v != "f1" {
					return fmt.Sprintf("Scan read dc:format=%q err=%v, want f1", v, err)
				}
				return ""
			})
		}
	}
	c.Case("Scan|none", nil, func() string {
		if _, err := xmp.Scan(strings.NewReader("nothing here")); err != io.EOF {
			return fmt.Sprintf("Scan on a stream without packet: err=%v", err)
		}
		return ""
	})
}
