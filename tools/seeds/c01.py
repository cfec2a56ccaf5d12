PRE='''package main

import (
	"bytes"
	"fmt"
	"os"
	"testing/iotest"
	"errors"
	"io"

	"github.com/trimmer-io/go-xmp/xmp"
)

var _ = iotest.OneByteReader
var _ = errors.New
var _ io.Reader
var _ = bytes.Equal

const id = "W5M0MpCehiHzreSzNTczkc9d"

func pkt(begin, body string) []byte {
	return []byte("<?xpacket begin=" + begin + " id=\\"" + id + "\\"?>" + body + "<?xpacket end=\\"w\\"?>")
}
func fail(f string, a ...interface{}) { fmt.Printf(f+"\\n", a...); os.Exit(1) }
'''
seed('C01-window','C01',[('xmp/reader.go','''	if len(b) > 51 {
		b = b[:51]
	}
	return bytes.Index(b, magic) > -1''','''	if len(b) > 51 {
		b = b[:51]
	}
	return bytes.HasSuffix(b[:len(b)-1], magic) || bytes.Index(b[:len(b)-1], magic) == 23''')],PRE+'''
func main() {
	a, b := pkt("''","<a/>"), pkt("'\\xef\\xbb\\xbf'","<b/>")
	c := []byte("<?xpacket begin='' bytes='1' id='" + id + "'?><c/><?xpacket end='r'?>")
	d := []byte("<?xpacket begin=''  id='" + id + "'?><c/><?xpacket end='r'?>")
	for _, p := range [][]byte{a, b, d} {
		pp, err := xmp.ScanPackets(bytes.NewReader(p))
		if err != nil || len(pp) != 1 || !bytes.Equal(pp[0], p) {
			fail("%q -> %q %v", p, pp, err)
		}
	}
	_ = c
}
''','a packet header with extra white space before the id','packets whose header is not laid out exactly as usual are skipped')
seed('C01-alias','C01',[('xmp/reader.go','''			x := make([]byte, len(b))
			copy(x, b)
			packets = append(packets, x)''','''			packets = append(packets, b[:len(b):len(b)])''')],PRE+'''
func main() {
	var s []byte
	var want [][]byte
	for i := 0; i < 4; i++ {
		p := pkt("''", string(bytes.Repeat([]byte{byte('a' + i)}, 3000)))
		want = append(want, p)
		s = append(s, p...)
	}
	pp, err := xmp.ScanPackets(bytes.NewReader(s))
	if err != nil || len(pp) != 4 {
		fail("%d packets, %v", len(pp), err)
	}
	for i := range pp {
		if !bytes.Equal(pp[i], want[i]) {
			fail("packet %d overwritten", i)
		}
	}
}
''','several packets in a stream larger than the scan buffer','an earlier packet is overwritten by later reads')
seed('C01-err','C01',[('xmp/reader.go','''	if err := s.Err(); err != nil {
		return nil, err
	}
	if len(packets) == 0 {
		return nil, io.EOF
	}
	return packets, nil''','''	if len(packets) == 0 {
		if err := s.Err(); err != nil {
			return nil, err
		}
		return nil, io.EOF
	}
	return packets, nil''')],PRE+'''
type failing struct{ r io.Reader }
func (f failing) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF { err = errors.New("disk") }
	return n, err
}
func main() {
	p := pkt("''", "<a/>")
	s := append(append([]byte{}, p...), pkt("''", "<b/>")[:60]...)
	pp, err := xmp.ScanPackets(failing{bytes.NewReader(s)})
	if err == nil {
		fail("read failure lost: %d packets", len(pp))
	}
}
''','a read error after the first complete packet','a read failure is returned as a shorter list without error')
seed('C01-tail','C01',[('xmp/reader.go','''	if end == -1 || last > len(data) {
		if atEOF {
			return len(data), nil, nil
		}''','''	if end == -1 || last > len(data) {
		if atEOF {
			if end != -1 {
				return len(data), data[start:], nil
			}
			return len(data), nil, nil
		}''')],PRE+'''
func main() {
	p := pkt("''", "<a/>")
	for i := 0; i < len(p); i++ {
		if pp, err := xmp.ScanPackets(bytes.NewReader(p[:i])); err != io.EOF {
			fail("cut %d: %q %v", i, pp, err)
		}
	}
}
''','a stream cut inside the last six bytes of the end marker','an incomplete packet is returned')
