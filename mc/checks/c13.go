package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/trimmer-io/go-xmp/models/dc"
	"github.com/trimmer-io/go-xmp/xmp"
	"verifmc/core"
)

func init() {
	core.Add(&core.Check{
		ID: "C13", Level: "fault_enumeration", Shards: 8,
		Rule: "A case is a document, the encoder's flags and size limit, and a fault: the byte at which the writer fails and the way it does (error with nothing, part or all of the write accepted, short write without an error, an error just once). Every limit from 1 to beyond the unlimited size and every failing byte is taken. Non-trivial: the limit or the fault is reached.",
		Assumptions: []string{
			"The unlimited output is the same on every run (C24) and is itself right (C02, C03).",
			"A writer that accepts fewer bytes than offered and reports no error has failed.",
		},
		Run: runC13,
	})
}

var errDisk = errors.New("disk full")

// faultyWriter fails at a byte offset in one of several ways.
type faultyWriter struct {
	buf   bytes.Buffer
	at    int // the first byte not accepted
	kind  int
	fired int
	after int // writes after the failure
}

const (
	wNothing   = iota // the write that reaches the byte is refused as a whole
	wPart             // accepted up to the byte, with an error
	wShort            // accepted up to the byte, without an error
	wOnce             // like wPart, but later writes are fine
	wShortOnce        // like wShort, but later writes are fine
	wAll              // accepted as a whole, with an error
	wKinds
)

func (w *faultyWriter) Write(p []byte) (int, error) {
	if w.fired > 0 {
		w.after++
		if w.kind == wOnce || w.kind == wShortOnce {
			w.buf.Write(p)
			return len(p), nil
		}
		return 0, errDisk
	}
	if w.buf.Len()+len(p) <= w.at {
		w.buf.Write(p)
		return len(p), nil
	}
	w.fired++
	n := w.at - w.buf.Len()
	switch w.kind {
	case wNothing:
		return 0, errDisk
	case wAll:
		w.buf.Write(p)
		return len(p), errDisk
	}
	w.buf.Write(p[:n])
	if w.kind == wShort || w.kind == wShortOnce {
		return n, nil
	}
	return n, errDisk
}

type encMode struct {
	name  string
	flags int
	ind   bool
}

func (m encMode) encode(d *xmp.Document, w io.Writer, limit int64) error {
	e := xmp.NewEncoder(w)
	e.SetFlags(m.flags)
	if limit != 0 {
		e.SetMaxSize(limit)
	}
	if m.ind {
		e.Indent("", " ")
	}
	return e.Encode(d)
}

func runC13(c *core.Ctx) {
	long := strings.Repeat("0123456789", 900)
	docs := []struct {
		name string
		mk   func() *xmp.Document
	}{
		{"empty", xmp.NewDocument},
		{"title", func() *xmp.Document {
			d := xmp.NewDocument()
			d.AddModel(&dc.DublinCore{Title: xmp.NewAltString("a<b & ü€😀"), Creator: xmp.NewStringList("x", "y")})
			return d
		}},
		{"unknown", func() *xmp.Document {
			d := xmp.NewDocument()
			if err := xmp.Unmarshal([]byte(c12head+c12parts["mine"]+c12parts["yours"]+c12foot), d); err != nil {
				panic(err)
			}
			return d
		}},
		{"long", func() *xmp.Document { // more than the buffers hold
			d := xmp.NewDocument()
			d.AddModel(&dc.DublinCore{Source: long, Format: "ü" + long})
			return d
		}},
		{"models", func() *xmp.Document {
			d, err := fullDoc()
			if err != nil {
				panic(err)
			}
			return d
		}},
	}
	modes := []encMode{
		{"packet", xmp.Xpacket, false}, {"padding", xmp.Xpacket | xmp.Xpadding, false}, {"plain", 0, false},
		{"packet indent", xmp.Xpacket, true}, {"padding indent", xmp.Xpacket | xmp.Xpadding, true}, {"plain padding", xmp.Xpadding, false},
	}
	foot := "\n<?xpacket end=\"w\"?>"
	for _, dc := range docs {
		for _, m := range modes {
			dc, m := dc, m
			c.Group(dc.name + " " + m.name)
			d := dc.mk()
			defer d.Close()
			var b bytes.Buffer
			if err := m.encode(d, &b, 0); err != nil {
				c.Case(dc.name+"|"+m.name, nil, func() string { return err.Error() })
				continue
			}
			full := b.Bytes()
			n := len(full)
			packet := m.flags&xmp.Xpacket > 0
			pad := packet && m.flags&xmp.Xpadding > 0
			limits := []int{-1}
			for l := 1; l <= n+400; l++ {
				if l > 600 && l < n-600 && !c.Thorough() && l%7 != 0 && l%4096 > 3 {
					continue
				}
				limits = append(limits, l)
			}
			limits = append(limits, n+4096, n+70000)
			// size limits
			for _, l := range limits {
				l := l
				key := fmt.Sprintf("limit|%s|%s|%d of %d", dc.name, m.name, l, n)
				c.Case(key, nil, func() string {
					var b bytes.Buffer
					err := m.encode(d, &b, int64(l))
					out := b.Bytes()
					if l > 0 && len(out) > l {
						return fmt.Sprintf("writes %d bytes", len(out))
					}
					if l > 0 && l < n {
						c.Nontrivial(key)
						if err == nil {
							return fmt.Sprintf("no error, but %d bytes", len(out))
						}
						if err != xmp.ErrOverflow && !errors.Is(err, xmp.ErrOverflow) {
							return "the error is " + err.Error()
						}
						if !bytes.HasPrefix(full, out) {
							return "what was written is not the start of the document"
						}
						return ""
					}
					if err != nil {
						return "error " + err.Error()
					}
					if !pad || l < 0 {
						if !bytes.Equal(out, full) {
							return fmt.Sprintf("writes %d bytes, expected the %d without a limit", len(out), n)
						}
						return ""
					}
					c.Nontrivial(key)
					if len(out) != l {
						return fmt.Sprintf("writes %d bytes", len(out))
					}
					body := full[:n-len(foot)]
					if !bytes.HasPrefix(out, body) || !bytes.HasSuffix(out, []byte(foot)) {
						return "not the document with padding before its end"
					}
					if s := strings.Trim(string(out[len(body):l-len(foot)]), " \n\t\r"); s != "" {
						return fmt.Sprintf("padding holds %q", s)
					}
					return ""
				})
			}
			if packet && !m.ind { // the parts of a packet, by eye
				c.Case("packet|"+dc.name+"|"+m.name, nil, func() string {
					s := string(full)
					if !strings.HasPrefix(s, "<?xpacket begin=") || !strings.HasSuffix(s, foot) || !strings.Contains(s[:60], "W5M0MpCehiHzreSzNTczkc9d") {
						return "not a packet"
					}
					if pp, err := xmp.ScanPackets(bytes.NewReader(full)); err != nil || len(pp) != 1 || !bytes.Equal(pp[0], full) {
						return fmt.Sprintf("does not scan as a packet: %v", err)
					}
					return ""
				})
			}
			// write faults
			lims := []int{0}
			if pad {
				lims = append(lims, n+300)
			} else if m.name == "packet" {
				lims = append(lims, n, n+50)
			}
			for _, l := range lims {
				want := full
				if l > 0 {
					var b bytes.Buffer
					if err := m.encode(d, &b, int64(l)); err != nil {
						continue
					}
					want = b.Bytes()
				}
				for at := 0; at <= len(want); at++ {
					if at > 400 && at < len(want)-400 && !c.Thorough() && at%5 != 0 && at%4096 > 2 {
						continue
					}
					for kind := 0; kind < wKinds; kind++ {
						at, kind := at, kind
						c.Case(fmt.Sprintf("fault|%s|%s|limit %d|byte %d|kind %d", dc.name, m.name, l, at, kind), nil, func() string {
							w := &faultyWriter{at: at, kind: kind}
							err := m.encode(d, w, int64(l))
							out := w.buf.Bytes()
							if w.fired == 0 {
								if err != nil || !bytes.Equal(out, want) {
									return fmt.Sprintf("without a fault: %v", err)
								}
								return ""
							}
							if err == nil {
								return fmt.Sprintf("no error, %d of %d bytes accepted, %d writes after the fault", len(out), len(want), w.after)
							}
							if !bytes.HasPrefix(want, out) {
								return fmt.Sprintf("what was accepted is not the start of the document, %d writes after the fault", w.after)
							}
							c.Nontrivial(fmt.Sprintf("%s%s%d%d%d", dc.name, m.name, l, at, kind))
							return ""
						})
					}
				}
			}
		}
	}
	// a failed write does not spoil the document: it can be written again
	c.Group("again")
	for _, dc := range docs {
		dc := dc
		c.Case("again|"+dc.name, nil, func() string {
			d := dc.mk()
			defer d.Close()
			want, err := xmp.Marshal(d)
			if err != nil {
				return err.Error()
			}
			for at := 0; at < len(want); at += 1 + len(want)/200 {
				d2 := dc.mk()
				if err := xmp.NewEncoder(&faultyWriter{at: at, kind: wPart}).Encode(d2); err == nil {
					return fmt.Sprintf("byte %d: no error", at)
				}
				if got, err := xmp.Marshal(d2); err != nil || !bytes.Equal(got, want) {
					return fmt.Sprintf("after a failure at byte %d: %v, %d bytes of %d", at, err, len(got), len(want))
				}
				d2.Close()
			}
			return ""
		})
	}
}
