package zverif

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"testing"

	ft "github.com/ipfs/go-unixfs"
	uio "github.com/ipfs/go-unixfs/io"
	pb "github.com/ipfs/go-unixfs/pb"

	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
)

// genFile makes a stored, well-formed file DAG: imported, appended to, or assembled by hand.
func genFile(c *runT, s *store) (ipld.Node, []byte) {
	r := c.r
	switch r.Intn(4) {
	case 0, 1:
		ic := genImport(r, -1)
		for len(ic.chunks) > 150 {
			ic.chunks = ic.chunks[:150]
		}
		c.logf("%v", ic)
		nd, tr, err := ic.build(s)
		must(err)
		return nd, tr.all
	case 2:
		nd, content, raw, m := genBase(c, s, 1+r.Intn(4))
		if _, ok := nd.(*mdag.ProtoNode); !ok {
			return nd, content
		}
		cs := genChunks(r, r.Intn(20), 4)
		c.logf("append %d chunks", len(cs))
		nn, err := doAppend(s, nd.Copy(), cs, 0, m, raw)
		must(err)
		must(s.Add(context.Background(), nn))
		return nn, append(append([]byte(nil), content...), join(cs)...)
	}
	left := 1 + r.Intn(40)
	var build func(d int) (ipld.Node, []byte)
	build = func(d int) (ipld.Node, []byte) {
		left--
		if d == 0 || left <= 0 || r.Intn(5) == 0 {
			data := genBytes(r, r.Intn(6))
			var n ipld.Node
			switch r.Intn(4) {
			case 0:
				n = mdag.NewRawNode(data)
			case 1:
				n = mdag.NodeWithData(ft.WrapData(data))
			case 2:
				fs := ft.NewFSNode(ft.TFile)
				fs.SetData(data)
				b, err := fs.GetBytes()
				must(err)
				n = mdag.NodeWithData(b)
			default:
				n = mdag.NodeWithData(ft.FilePBData(data, uint64(len(data))))
			}
			must(s.Add(context.Background(), n))
			return n, data
		}
		fs := ft.NewFSNode(ft.TFile)
		if r.Intn(6) == 0 {
			fs = ft.NewFSNode(ft.TRaw)
		}
		nd := new(mdag.ProtoNode)
		var all []byte
		for i, k := 0, 1+r.Intn(4); i < k; i++ {
			ch, cc := build(d - 1)
			must(nd.AddNodeLink("", ch))
			fs.AddBlockSize(uint64(len(cc)))
			all = append(all, cc...)
		}
		b, err := fs.GetBytes()
		must(err)
		nd.SetData(b)
		must(s.Add(context.Background(), nd))
		return nd, all
	}
	nd, all := build(r.Intn(5))
	t, err := s.tree(nd.Cid())
	must(err)
	must(t.sizes())
	c.logf("hand-made DAG %s of %d bytes", t.shape(), len(all))
	return nd, all
}

type readModel struct {
	content []byte
	pos     int64
}

// limitWriter fails after n bytes
type limitWriter struct {
	b bytes.Buffer
	n int
}

func (w *limitWriter) Write(p []byte) (int, error) {
	if w.n >= 0 && w.b.Len()+len(p) > w.n {
		k := w.n - w.b.Len()
		w.b.Write(p[:k])
		return k, errors.New("writer full")
	}
	return w.b.Write(p)
}

func (m *readModel) rest() []byte {
	if m.pos >= int64(len(m.content)) {
		return nil
	}
	return m.content[m.pos:]
}

func (m *readModel) read(c *runT, dr uio.DagReader) error {
	r := c.r
	n := r.Intn(8)
	switch r.Intn(6) {
	case 0:
		n = len(m.content) + 3
	case 1:
		n = r.Intn(40)
	}
	buf := make([]byte, n)
	for i := range buf {
		buf[i] = 0xEE
	}
	var got int
	var err error
	if r.Intn(2) == 0 {
		c.logf("Read(%d)", n)
		got, err = dr.Read(buf)
	} else {
		c.logf("CtxReadFull(%d)", n)
		got, err = dr.CtxReadFull(context.Background(), buf)
	}
	want := m.rest()
	if len(want) > n {
		want = want[:n]
	}
	if got < 0 || got > n {
		return fmt.Errorf("read of %d bytes reports %d", n, got)
	}
	if err != nil && err != io.EOF {
		return fmt.Errorf("read at %d of %d failed: %v", m.pos, len(m.content), err)
	}
	if err := diffBytes(fmt.Sprintf("read of %d at offset %d", n, m.pos), buf[:got], want); err != nil {
		return err
	}
	if got < n && err != io.EOF {
		return fmt.Errorf("short read (%d of %d) without an error", got, n)
	}
	if err == io.EOF && got == n && n > 0 {
		if len(m.rest()) > n {
			return fmt.Errorf("end of file reported at %d of %d", m.pos+int64(got), len(m.content))
		}
	}
	if err == io.EOF && m.pos+int64(got) < int64(len(m.content)) {
		return fmt.Errorf("end of file reported at %d of %d", m.pos+int64(got), len(m.content))
	}
	for _, b := range buf[got:] {
		if b != 0xEE {
			return errors.New("read changed the buffer beyond the bytes it reports")
		}
	}
	m.pos += int64(got)
	return nil
}

func (m *readModel) writeTo(c *runT, dr uio.DagReader) error {
	w := &limitWriter{n: -1}
	c.logf("WriteTo")
	n, err := dr.WriteTo(w)
	if err != nil {
		return fmt.Errorf("WriteTo failed: %v", err)
	}
	if n != int64(w.b.Len()) {
		return fmt.Errorf("WriteTo reports %d bytes, wrote %d", n, w.b.Len())
	}
	if err := diffBytes(fmt.Sprintf("WriteTo at offset %d", m.pos), w.b.Bytes(), m.rest()); err != nil {
		return err
	}
	m.pos += n
	return nil
}

// writeFail: a write-out to a failing writer moves the position by exactly the bytes written.
func (m *readModel) writeFail(c *runT, dr uio.DagReader) error {
	w := &limitWriter{n: c.r.Intn(len(m.rest()) + 1)}
	c.logf("WriteTo a writer that takes %d", w.n)
	n, err := dr.WriteTo(w)
	if err == nil && w.b.Len() < len(m.rest()) {
		return errors.New("write-out to a failing writer reports success")
	}
	if n != int64(w.b.Len()) {
		return fmt.Errorf("WriteTo reports %d bytes, wrote %d", n, w.b.Len())
	}
	if !bytes.HasPrefix(m.rest(), w.b.Bytes()) {
		return fmt.Errorf("WriteTo at offset %d wrote wrong bytes", m.pos)
	}
	m.pos += n
	return nil
}

func (m *readModel) seek(c *runT, dr uio.DagReader) error {
	r := c.r
	size := int64(len(m.content))
	tgt := int64(0)
	if size > 0 {
		tgt = r.Int63n(size + 1)
	}
	if r.Intn(8) == 0 {
		tgt = size
	}
	if r.Intn(8) == 0 {
		tgt = -1 - r.Int63n(5)
	}
	if r.Intn(10) == 0 {
		tgt = m.pos
	}
	var off int64
	wh := r.Intn(3)
	if r.Intn(20) == 0 {
		wh = 3 + r.Intn(3)
	}
	switch wh {
	case io.SeekStart:
		off = tgt
	case io.SeekCurrent:
		off = tgt - m.pos
	case io.SeekEnd:
		off = tgt - size
	default:
		off = r.Int63n(size + 1)
	}
	c.logf("Seek(%d,%d) [to %d]", off, wh, tgt)
	got, err := dr.Seek(off, wh)
	if wh > 2 || tgt < 0 {
		if err == nil {
			return fmt.Errorf("Seek(%d,%d) to %d was accepted", off, wh, tgt)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("Seek(%d,%d) to %d of %d failed: %v", off, wh, tgt, size, err)
	}
	if got != tgt {
		return fmt.Errorf("Seek(%d,%d) reports %d, want %d", off, wh, got, tgt)
	}
	m.pos = tgt
	return nil
}

func refuse(c *runT, s *store) error {
	d := ft.EmptyDirNode()
	sl, err := ft.SymlinkData("target")
	must(err)
	sh, err := ft.HAMTShardData(nil, 256, 0x22)
	must(err)
	for i, n := range []ipld.Node{d, mdag.NodeWithData(sl), mdag.NodeWithData(sh)} {
		if _, err := uio.NewDagReader(context.Background(), n, s); err == nil {
			return fmt.Errorf("a reader was given for a non-file (%d: 0 directory, 1 symlink, 2 shard)", i)
		}
	}
	return nil
}

func TestC08(t *testing.T) {
	run(t, "C08", func(c *runT) error {
		s := newStore()
		nd, content := genFile(c, s)
		dr, err := uio.NewDagReader(context.Background(), nd, s)
		if err != nil {
			return fmt.Errorf("NewDagReader: %v", err)
		}
		defer dr.Close()
		if dr.Size() != uint64(len(content)) {
			return fmt.Errorf("size %d, content length %d", dr.Size(), len(content))
		}
		if c.r.Intn(6) == 0 && len(content) > 0 {
			return readFault(c, s, nd, content)
		}
		m := &readModel{content: content}
		for i, k := 0, 1+c.r.Intn(30); i < k; i++ {
			if x := c.r.Intn(24); x == 0 {
				err = m.writeTo(c, dr)
			} else if x == 1 {
				err = m.writeFail(c, dr)
			} else {
				err = m.read(c, dr)
			}
			if err != nil {
				return err
			}
		}
		if err := m.writeTo(c, dr); err != nil {
			return err
		}
		if n, err := dr.Read(make([]byte, 3)); n != 0 || err != io.EOF {
			return fmt.Errorf("after the end Read gives %d, %v", n, err)
		}
		if c.evals%50 == 1 {
			if err := refuse(c, s); err != nil {
				return err
			}
		}
		c.note(fmt.Sprintf("%s/%d", nd.Cid(), c.r.Int63()))
		return nil
	})
}

// readFault: a storage failure is never presented as the end of the file, and what was delivered is right.
func readFault(c *runT, s *store, nd ipld.Node, content []byte) error {
	s.gets = 0
	s.failGet = 1 + c.r.Intn(5)
	c.logf("load %d fails", s.failGet)
	dr, err := uio.NewDagReader(context.Background(), nd, s)
	if err != nil {
		return nil
	}
	var got []byte
	for {
		buf := make([]byte, 1+c.r.Intn(9))
		n, err := dr.CtxReadFull(context.Background(), buf)
		got = append(got, buf[:n]...)
		if n < len(buf) && err == nil {
			return errors.New("short read without an error")
		}
		if err == io.EOF {
			return diffBytes("content before end of file, with a storage failure", got, content)
		}
		if err != nil {
			if c.r.Intn(3) == 0 {
				break
			}
			// try again
			c.logf("read on after the failure at %d", len(got))
		}
		if len(got) > len(content) {
			return errors.New("more bytes than the file has")
		}
	}
	if !bytes.HasPrefix(content, got) {
		return errors.New("wrong bytes delivered before a storage failure")
	}
	return nil
}

func TestC09(t *testing.T) {
	run(t, "C09", func(c *runT) error {
		s := newStore()
		nd, content := genFile(c, s)
		dr, err := uio.NewDagReader(context.Background(), nd, s)
		if err != nil {
			return fmt.Errorf("NewDagReader: %v", err)
		}
		defer dr.Close()
		m := &readModel{content: content}
		for i, k := 0, 2+c.r.Intn(30); i < k; i++ {
			switch x := c.r.Intn(10); {
			case x == 0:
				if c.r.Intn(2) == 0 {
					err = m.writeFail(c, dr)
				} else {
					err = m.writeTo(c, dr)
				}
			case x < 5:
				err = m.read(c, dr)
			default:
				err = m.seek(c, dr)
			}
			if err != nil {
				return err
			}
			if o, err := dr.Seek(0, io.SeekCurrent); err != nil || o != m.pos {
				return fmt.Errorf("reported offset %d (%v), position is %d", o, err, m.pos)
			}
		}
		if c.r.Intn(3) == 0 {
			if err := seekFault(c, s, nd, content); err != nil {
				return err
			}
		}
		c.note(fmt.Sprintf("%s/%d", nd.Cid(), c.r.Int63()))
		return nil
	})
}

// seekFault: after a failed seek the bytes delivered belong to the offset the reader reports.
func seekFault(c *runT, s *store, nd ipld.Node, content []byte) error {
	dr, err := uio.NewDagReader(context.Background(), nd, s)
	if err != nil {
		return err
	}
	pos := int64(0)
	if c.r.Intn(2) == 0 {
		n, _ := dr.Read(make([]byte, c.r.Intn(len(content)+1)))
		pos = int64(n)
	}
	tgt := c.r.Int63n(int64(len(content)) + 1)
	s.mu.Lock()
	s.gets = 0
	s.failGet = 1 + c.r.Intn(3)
	s.mu.Unlock()
	c.logf("reader at %d: Seek(%d) while load %d fails", pos, tgt, s.failGet)
	_, err = dr.Seek(tgt, io.SeekStart)
	s.mu.Lock()
	s.failGet = 0
	s.mu.Unlock()
	o, e2 := dr.Seek(0, io.SeekCurrent)
	if e2 != nil {
		return nil
	}
	buf := make([]byte, 1+c.r.Intn(6))
	n, rerr := dr.Read(buf)
	if rerr != nil && rerr != io.EOF {
		return nil
	}
	want := []byte{}
	if o < int64(len(content)) {
		want = content[o:]
	}
	if len(want) > len(buf) {
		want = want[:len(buf)]
	}
	if err2 := diffBytes(fmt.Sprintf("read after a seek that returned %v, reported offset %d", err, o), buf[:n], want); err2 != nil {
		return err2
	}
	return nil
}

var _ = rand.Int
var _ = pb.Data_File
