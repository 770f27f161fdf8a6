package zverif

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"testing"

	ft "github.com/ipfs/go-unixfs"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
)

// snap is what a node looked like when it was handed over.
type snap struct {
	nd    ipld.Node
	cid   cid.Cid
	raw   []byte
	links []ipld.Link
	what  string
}

func takeSnap(n ipld.Node, what string) snap {
	s := snap{nd: n, cid: n.Cid(), raw: append([]byte(nil), n.RawData()...), what: what}
	for _, l := range n.Links() {
		s.links = append(s.links, *l)
	}
	return s
}

func (s snap) check() error {
	ls := s.nd.Links()
	if len(ls) != len(s.links) {
		return fmt.Errorf("%s: had %d links, has %d", s.what, len(s.links), len(ls))
	}
	for i, l := range ls {
		if l.Name != s.links[i].Name || l.Size != s.links[i].Size || !l.Cid.Equals(s.links[i].Cid) {
			return fmt.Errorf("%s: link %d changed", s.what, i)
		}
	}
	if !s.nd.Cid().Equals(s.cid) {
		return fmt.Errorf("%s: identifier changed", s.what)
	}
	if !bytes.Equal(s.nd.RawData(), s.raw) {
		return fmt.Errorf("%s: encoded form changed", s.what)
	}
	if pn, ok := s.nd.(*mdag.ProtoNode); ok {
		// what the node would encode to now, cache or not
		cp := pn.Copy().(*mdag.ProtoNode)
		b, err := cp.EncodeProtobuf(true)
		if err != nil || !bytes.Equal(b, s.raw) {
			return fmt.Errorf("%s: content changed under its identifier", s.what)
		}
	}
	return nil
}

type modModel struct {
	c     *runT
	s     *store
	dm    *mod.DagModifier
	data  []byte
	pos   int64
	snaps []snap
	prop  string
}

func newMod(c *runT, prop string) (*modModel, error) {
	r := c.r
	m := &modModel{c: c, s: newStore(), prop: prop}
	var nd ipld.Node
	switch r.Intn(5) {
	case 0:
		nd = ft.EmptyFileNode()
		if r.Intn(2) == 0 {
			nd.(*mdag.ProtoNode).SetCidBuilder(mdag.V1CidPrefix())
		}
		must(m.s.Add(context.Background(), nd))
		c.logf("empty file")
	case 1:
		m.data = genBytes(r, r.Intn(12))
		nd = mdag.NewRawNode(append([]byte(nil), m.data...))
		must(m.s.Add(context.Background(), nd))
		c.logf("raw node of %d bytes", len(m.data))
	default:
		nd, m.data = genFile(c, m.s)
		m.data = append([]byte(nil), m.data...)
	}
	if r.Intn(2) == 0 {
		var err error
		nd, err = m.s.load(nd.Cid())
		must(err)
	}
	sz := int64(1 + r.Intn(6))
	dm, err := mod.NewDagModifier(context.Background(), nd, m.s, func(rd io.Reader) chunker.Splitter { return chunker.NewSizeSplitter(rd, sz) })
	if err != nil {
		return nil, fmt.Errorf("NewDagModifier: %v", err)
	}
	if r.Intn(3) == 0 {
		dm.RawLeaves = !dm.RawLeaves
	}
	c.logf("modifier, chunks of %d, raw leaves %v", sz, dm.RawLeaves)
	m.dm = dm
	m.snaps = append(m.snaps, takeSnap(nd, "the node given to the modifier"))
	return m, nil
}

func (m *modModel) put(off int64, b []byte) {
	if len(b) == 0 {
		return
	}
	for int64(len(m.data)) < off {
		m.data = append(m.data, 0)
	}
	n := copy(m.data[off:], b)
	m.data = append(m.data, b[n:]...)
}

func (m *modModel) size() int64 { return int64(len(m.data)) }

// step performs one random operation; kinds: w write, a write-at, r read, s seek, t truncate, y sync, n node, z size
func (m *modModel) step(kinds string) error {
	c, r := m.c, m.c.r
	pick := func() int64 {
		switch r.Intn(6) {
		case 0:
			return m.pos
		case 1:
			return m.size()
		case 2:
			return m.size() + r.Int63n(12)
		}
		return r.Int63n(m.size() + 1)
	}
	switch kinds[r.Intn(len(kinds))] {
	case 'w':
		b := genBytes(r, r.Intn(9))
		if m.pos > m.size() && len(b) == 0 {
			b = []byte{7}
		}
		c.logf("Write(%d)", len(b))
		n, err := m.dm.Write(b)
		if err != nil || n != len(b) {
			return fmt.Errorf("Write of %d bytes at %d gives %d, %v", len(b), m.pos, n, err)
		}
		m.put(m.pos, b)
		m.pos += int64(len(b))
	case 'a':
		off := pick()
		b := genBytes(r, 1+r.Intn(9))
		if r.Intn(16) == 0 {
			off = -1 - r.Int63n(3)
			c.logf("WriteAt(%d,%d)", len(b), off)
			if n, err := m.dm.WriteAt(b, off); err == nil || n != 0 {
				return fmt.Errorf("WriteAt at the negative offset %d gives %d, %v", off, n, err)
			}
			return nil
		}
		c.logf("WriteAt(%d,%d)", len(b), off)
		n, err := m.dm.WriteAt(b, off)
		if err != nil || n != len(b) {
			return fmt.Errorf("WriteAt of %d bytes at %d gives %d, %v", len(b), off, n, err)
		}
		m.put(off, b)
		m.pos = off + int64(len(b))
	case 'r':
		buf := make([]byte, r.Intn(12))
		c.logf("Read(%d)", len(buf))
		var n int
		var err error
		if r.Intn(2) == 0 {
			n, err = m.dm.Read(buf)
		} else {
			n, err = m.dm.CtxReadFull(context.Background(), buf)
		}
		if err != nil && err != io.EOF {
			return fmt.Errorf("read at %d: %v", m.pos, err)
		}
		var want []byte
		if m.pos < m.size() {
			want = m.data[m.pos:]
		}
		if len(want) > len(buf) {
			want = want[:len(buf)]
		}
		if e := diffBytes(fmt.Sprintf("read of %d at %d", len(buf), m.pos), buf[:n], want); e != nil {
			return e
		}
		if n < len(buf) && err == nil {
			return errors.New("short read without an error")
		}
		m.pos += int64(n)
	case 's':
		tgt := pick()
		wh := r.Intn(3)
		off := tgt
		if wh == io.SeekCurrent {
			off = tgt - m.pos
		} else if wh == io.SeekEnd {
			off = tgt - m.size()
		}
		if r.Intn(12) == 0 {
			tgt = -1 - r.Int63n(3)
			switch wh {
			case io.SeekStart:
				off = tgt
			case io.SeekCurrent:
				off = tgt - m.pos
			default:
				off = tgt - m.size()
			}
			c.logf("Seek(%d,%d) [to %d]", off, wh, tgt)
			if o, err := m.dm.Seek(off, wh); err == nil {
				return fmt.Errorf("Seek(%d,%d) to the negative position %d gives %d", off, wh, tgt, o)
			}
			return nil
		}
		c.logf("Seek(%d,%d) [to %d]", off, wh, tgt)
		o, err := m.dm.Seek(off, wh)
		if err != nil || o != tgt {
			return fmt.Errorf("Seek(%d,%d) gives %d, %v; want %d", off, wh, o, err, tgt)
		}
		// seeking past the end extends the file with zeros
		for m.size() < tgt {
			m.data = append(m.data, 0)
		}
		m.pos = tgt
	case 't':
		sz := pick()
		if r.Intn(6) == 0 {
			sz = 0
		}
		if r.Intn(16) == 0 {
			sz = -1 - r.Int63n(3)
			c.logf("Truncate(%d)", sz)
			if err := m.dm.Truncate(sz); err == nil {
				return fmt.Errorf("Truncate to the negative size %d reports no error", sz)
			}
			return nil
		}
		c.logf("Truncate(%d)", sz)
		if err := m.dm.Truncate(sz); err != nil {
			return fmt.Errorf("Truncate(%d) of %d: %v", sz, m.size(), err)
		}
		for m.size() < sz {
			m.data = append(m.data, 0)
		}
		m.data = append([]byte(nil), m.data[:sz]...)
	case 'y':
		c.logf("Sync")
		if err := m.dm.Sync(); err != nil {
			return fmt.Errorf("Sync: %v", err)
		}
	case 'n':
		c.logf("GetNode")
		return m.node()
	case 'z':
		c.logf("Size")
		n, err := m.dm.Size()
		if err != nil || n != m.size() {
			return fmt.Errorf("Size gives %d, %v; the logical file has %d bytes", n, err, m.size())
		}
	}
	return nil
}

// node checks the node handed out now
func (m *modModel) node() error {
	nd, err := m.dm.GetNode()
	if err != nil {
		return fmt.Errorf("GetNode: %v", err)
	}
	t, err := m.s.treeOf(nd)
	if err != nil {
		return fmt.Errorf("GetNode: %v", err)
	}
	if err := diffBytes("content of the node", t.all, m.data); err != nil {
		return err
	}
	if err := t.sizes(); err != nil {
		return err
	}
	dr, err := uio.NewDagReader(context.Background(), nd, m.s)
	if err != nil {
		return err
	}
	if dr.Size() != uint64(m.size()) {
		return fmt.Errorf("size of the node is %d, want %d", dr.Size(), m.size())
	}
	var b bytes.Buffer
	if _, err := dr.WriteTo(&b); err != nil {
		return err
	}
	if err := diffBytes("content read from the node", b.Bytes(), m.data); err != nil {
		return err
	}
	m.snaps = append(m.snaps, takeSnap(nd, fmt.Sprintf("node %d handed out by the modifier", len(m.snaps))))
	if m.c.r.Intn(4) == 0 {
		if _, ok := m.s.rec(nd.Cid()); !ok {
			return errors.New("the node handed out is not stored")
		}
	}
	return nil
}

func modRun(t *testing.T, prop, kinds string, steps int, after func(m *modModel) error) {
	run(t, prop, func(c *runT) error {
		m, err := newMod(c, prop)
		if err != nil {
			return err
		}
		for i, k := 0, 1+c.r.Intn(steps); i < k; i++ {
			if err := m.step(kinds); err != nil {
				return err
			}
			if after != nil {
				if err := after(m); err != nil {
					return err
				}
			}
		}
		if err := m.node(); err != nil {
			return err
		}
		if after != nil {
			if err := after(m); err != nil {
				return err
			}
		}
		c.note(fmt.Sprintf("%d ops, %d bytes, %v", len(c.hist), len(m.data), m.snaps[0].cid))
		return nil
	})
}

func TestC11(t *testing.T) { modRun(t, "C11", "wwwaaasrty", 14, nil) }
func TestC12(t *testing.T) {
	modRun(t, "C12", "tttttwaan", 6, func(m *modModel) error {
		if m.c.r.Intn(2) == 0 { // the next operation finds what was written still pending
			return nil
		}
		return m.node()
	})
}
func TestC13(t *testing.T) {
	modRun(t, "C13", "wwarrsstnyz", 16, func(m *modModel) error {
		n, err := m.dm.Size()
		if err != nil || n != m.size() {
			return fmt.Errorf("Size gives %d, %v; the logical file has %d bytes", n, err, m.size())
		}
		return nil
	})
}
func TestC14mod(t *testing.T) {
	modRun(t, "C14", "wwaatsnn", 14, func(m *modModel) error {
		for _, s := range m.snaps {
			if err := s.check(); err != nil {
				return err
			}
		}
		return nil
	})
}
