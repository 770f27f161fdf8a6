package zverif

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"testing"
	"time"

	ft "github.com/ipfs/go-unixfs"
	imp "github.com/ipfs/go-unixfs/importer"
	"github.com/ipfs/go-unixfs/importer/balanced"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	pb "github.com/ipfs/go-unixfs/pb"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
)

type icase struct {
	chunks   [][]byte
	maxlinks int
	raw      bool
	trickle  bool
	builder  cid.Builder
	noCopy   bool
	deflt    bool // through the importer package
}

func (c icase) String() string {
	var ls []int
	for _, x := range c.chunks {
		ls = append(ls, len(x))
	}
	return fmt.Sprintf("import{trickle:%v maxlinks:%d raw:%v nocopy:%v default:%v builder:%v chunks:%d%v}", c.trickle, c.maxlinks, c.raw, c.noCopy, c.deflt, c.builder, len(ls), ls)
}

func genImport(r *rand.Rand, tr int) icase {
	c := icase{}
	c.trickle = tr == 1 || (tr < 0 && r.Intn(2) == 0)
	switch r.Intn(8) {
	case 0:
		c.maxlinks = h.DefaultLinksPerBlock
	case 1:
		c.maxlinks = 10
	case 2:
		c.maxlinks = 2
	default:
		c.maxlinks = 2 + r.Intn(5)
	}
	if c.trickle && r.Intn(8) == 0 {
		c.maxlinks = 1
	}
	var n int
	switch r.Intn(10) {
	case 0:
		n = 0
	case 1, 2:
		n = r.Intn(5)
	case 3, 4, 5, 6:
		n = r.Intn(40)
	case 7:
		// around a power of the link limit
		n = c.maxlinks
		for n < 60 && c.maxlinks > 1 && r.Intn(3) > 0 {
			n *= c.maxlinks
		}
		n += r.Intn(3) - 1
		if n > 1500 {
			n = 1500
		}
	default:
		n = r.Intn(300)
	}
	if n < 0 {
		n = 0
	}
	c.chunks = genChunks(r, n, 1+r.Intn(9))
	c.raw = r.Intn(2) == 0
	switch r.Intn(4) {
	case 0:
		c.builder = mdag.V1CidPrefix()
	case 1:
		c.builder = mdag.V0CidPrefix()
	}
	if r.Intn(12) == 0 {
		c.deflt = true
		c.maxlinks, c.raw, c.builder = h.DefaultLinksPerBlock, false, nil
	}
	return c
}

func (c icase) do(s *store, spl chunker.Splitter) (ipld.Node, error) {
	if c.deflt {
		if c.trickle {
			return imp.BuildTrickleDagFromReader(s, spl)
		}
		return imp.BuildDagFromReader(s, spl)
	}
	dbp := h.DagBuilderParams{Dagserv: s, Maxlinks: c.maxlinks, RawLeaves: c.raw, CidBuilder: c.builder, NoCopy: c.noCopy}
	db, err := dbp.New(spl)
	if err != nil {
		return nil, err
	}
	var nd ipld.Node
	if c.trickle {
		nd, err = trickle.Layout(db)
	} else {
		nd, err = balanced.Layout(db)
	}
	return nd, err
}

func (c icase) build(s *store) (ipld.Node, *tree, error) {
	nd, err := c.do(s, &chunks{cs: c.chunks})
	if err != nil {
		return nil, nil, fmt.Errorf("import failed: %v", err)
	}
	t, err := s.tree(nd.Cid())
	if err != nil {
		return nil, nil, err
	}
	return nd, t, nil
}

func TestC01(t *testing.T) {
	run(t, "C01", func(c *runT) error {
		ic := genImport(c.r, -1)
		ic.chunks = withEmpty(c.r, ic.chunks)
		c.logf("%v", ic)
		s := newStore()
		nd, tr, err := ic.build(s)
		if err != nil {
			return err
		}
		if err := diffBytes("content of the imported DAG", tr.all, join(ic.chunks)); err != nil {
			return err
		}
		// leaves hold the bytes: inner nodes carry none
		var bad error
		var rec func(t *tree)
		rec = func(t *tree) {
			if len(t.kids) > 0 && len(t.data) > 0 {
				bad = fmt.Errorf("inner node %s holds data of its own", t.cid)
			}
			for _, k := range t.kids {
				rec(k)
			}
		}
		rec(tr)
		if bad != nil {
			return bad
		}
		t2, err := s.treeOf(nd)
		if err != nil || !bytes.Equal(t2.all, tr.all) {
			return fmt.Errorf("the returned root does not have the stored content (%v)", err)
		}
		c.note(fmt.Sprintf("%v/%d/%v/%d", ic.trickle, ic.maxlinks, ic.raw, len(ic.chunks)))
		return nil
	})
}

func TestC02(t *testing.T) {
	run(t, "C02", func(c *runT) error {
		ic := genImport(c.r, -1)
		ic.chunks = withEmpty(c.r, ic.chunks)
		c.logf("%v", ic)
		s := newStore()
		_, tr, err := ic.build(s)
		if err != nil {
			return err
		}
		if err := tr.sizes(); err != nil {
			return err
		}
		if uint64(len(tr.all)) != uint64(len(join(ic.chunks))) {
			return fmt.Errorf("content length %d, input length %d", len(tr.all), len(join(ic.chunks)))
		}
		if !tr.raw && (tr.fsize == nil || *tr.fsize != uint64(len(join(ic.chunks)))) {
			return fmt.Errorf("root file size does not equal the input length %d", len(join(ic.chunks)))
		}
		c.note(fmt.Sprintf("%v/%d/%v/%d", ic.trickle, ic.maxlinks, ic.raw, len(ic.chunks)))
		return nil
	})
}

// balShape is the specified balanced shape of n leaves.
func balShape(n, m int) string {
	if n <= 1 {
		return "."
	}
	d, cp := 1, m
	for cp < n {
		cp *= m
		d++
	}
	var rec func(n, d int) string
	rec = func(n, d int) string {
		if d == 0 {
			return "."
		}
		sub := 1
		for i := 1; i < d; i++ {
			sub *= m
		}
		out := "("
		for n > 0 {
			k := n
			if k > sub {
				k = sub
			}
			out += rec(k, d-1)
			n -= k
		}
		return out + ")"
	}
	return rec(n, d)
}

func TestC03(t *testing.T) {
	run(t, "C03", func(c *runT) error {
		ic := genImport(c.r, 0)
		c.logf("%v", ic)
		s := newStore()
		_, tr, err := ic.build(s)
		if err != nil {
			return err
		}
		if g, w := tr.shape(), balShape(len(ic.chunks), ic.maxlinks); g != w {
			return fmt.Errorf("shape of %d chunks with limit %d is %s, want %s", len(ic.chunks), ic.maxlinks, g, w)
		}
		c.note(fmt.Sprintf("%d/%v/%d", ic.maxlinks, ic.raw, len(ic.chunks)))
		return nil
	})
}

// triShape is the specified trickle shape of n leaves.
func triShape(n, m int) string {
	var fill func(d int) string
	leaves := func() string {
		o := ""
		for i := 0; i < m && n > 0; i++ {
			o += "."
			n--
		}
		return o
	}
	fill = func(d int) string { // d<0: unlimited
		o := leaves()
		for dep := 1; (d < 0 || dep < d) && n > 0; dep++ {
			for k := 0; k < 4 && n > 0; k++ {
				o += "(" + fill(dep) + ")"
			}
		}
		return o
	}
	if n == 0 {
		return "."
	}
	return "(" + fill(-1) + ")"
}

func isFileNode(t *tree) bool { return !t.raw && t.typ == pb.Data_File }

// trickleOK is the independent verdict on a DAG's structure.
func trickleOK(t *tree, depth, direct int, raw bool) bool {
	leaf := func(t *tree) bool {
		if raw {
			return t.raw
		}
		return !t.raw && t.typ == pb.Data_Raw && len(t.kids) == 0
	}
	if depth == 0 {
		return leaf(t)
	}
	if t.raw || t.typ != pb.Data_File || len(t.data) > 0 {
		return false
	}
	for i, k := range t.kids {
		if i < direct {
			if !leaf(k) {
				return false
			}
		} else {
			lev := (i - direct) / 4
			if depth > 0 && lev+1 >= depth {
				return false
			}
			if !trickleOK(k, lev+1, direct, raw) {
				return false
			}
		}
	}
	return true
}

func TestC04(t *testing.T) {
	run(t, "C04", func(c *runT) error {
		if c.r.Intn(2) == 0 {
			return structCase(c)
		}
		ic := genImport(c.r, 1)
		c.logf("%v", ic)
		s := newStore()
		nd, tr, err := ic.build(s)
		if err != nil {
			return err
		}
		g, w := tr.shape(), triShape(len(ic.chunks), ic.maxlinks)
		if g != w {
			return fmt.Errorf("trickle shape of %d chunks with limit %d is %s, want %s", len(ic.chunks), ic.maxlinks, g, w)
		}
		if len(ic.chunks) > 0 {
			p := cid.Prefix{}
			err = trickle.VerifyTrickleDagStructure(nd, trickle.VerifyParams{Getter: s, Direct: ic.maxlinks, LayerRepeat: 4, Prefix: nil, RawLeaves: ic.raw})
			if err != nil {
				return fmt.Errorf("structure verifier refuses an imported DAG: %v", err)
			}
			_ = p
		}
		c.note(fmt.Sprintf("%d/%v/%d", ic.maxlinks, ic.raw, len(ic.chunks)))
		return nil
	})
}

// structCase: a random DAG near the trickle shape, verifier against the oracle.
func structCase(c *runT) error {
	r := c.r
	s := newStore()
	direct := 1 + r.Intn(3)
	raw := r.Intn(2) == 0
	muts := 0
	mleft := r.Intn(3)
	mut := func(p int) bool {
		if mleft > 0 && r.Intn(p) == 0 {
			mleft--
			muts++
			return true
		}
		return false
	}
	leaf := func() ipld.Node {
		k := 0
		if mut(12) {
			k = 1 + r.Intn(3)
		}
		d := genBytes(r, 1+r.Intn(4))
		rl := raw
		if k == 1 {
			rl = !rl
		}
		if rl {
			return mdag.NewRawNode(d)
		}
		if k == 2 {
			return mdag.NodeWithData(ft.FilePBData(d, uint64(len(d))))
		}
		return mdag.NodeWithData(ft.WrapData(d))
	}
	size := func(n ipld.Node) uint64 {
		t, err := s.treeOf(n)
		must(err)
		return uint64(len(t.all))
	}
	budget := 60
	var build func(depth int) ipld.Node
	build = func(depth int) ipld.Node {
		budget--
		if depth == 0 {
			return leaf()
		}
		typ := pb.Data_File
		if mut(15) {
			typ = pb.Data_Directory
			if r.Intn(2) == 0 {
				typ = pb.Data_Raw
			}
		}
		fs := ft.NewFSNode(typ)
		nd := new(mdag.ProtoNode)
		add := func(k ipld.Node) {
			must(s.Add(context.Background(), k))
			must(nd.AddNodeLink("", k))
			fs.AddBlockSize(size(k))
		}
		if mut(15) {
			fs.SetData([]byte("x"))
		}
		nleaf := direct
		if mut(10) {
			nleaf = r.Intn(direct + 2)
		}
		for i := 0; i < nleaf; i++ {
			add(leaf())
		}
		lim := depth
		if mut(6) {
			lim = depth + 1
		}
	outer:
		for dep := 1; dep < lim; dep++ {
			for k := 0; k < 4; k++ {
				if budget <= 0 || r.Intn(9) == 0 {
					break outer
				}
				dd := dep
				if mut(10) {
					dd = dep + 1
				}
				if mut(20) {
					dd = 0
				}
				add(build(dd))
			}
		}
		b, err := fs.GetBytes()
		must(err)
		nd.SetData(b)
		return nd
	}
	root := build(2 + r.Intn(3))
	must(s.Add(context.Background(), root))
	tr, err := s.treeOf(root)
	must(err)
	want := trickleOK(tr, -1, direct, raw)
	verr := trickle.VerifyTrickleDagStructure(root, trickle.VerifyParams{Getter: s, Direct: direct, LayerRepeat: 4, RawLeaves: raw})
	c.logf("verify{direct:%d raw:%v shape:%s mutations:%d}", direct, raw, tr.shape(), muts)
	if (verr == nil) != want {
		return fmt.Errorf("structure verifier says %v, but the DAG conforms: %v", verr, want)
	}
	c.note(fmt.Sprintf("verify/%v/%d/%s", want, direct, tr.shape()))
	return nil
}

func TestC06(t *testing.T) {
	run(t, "C06", func(c *runT) error {
		ic := genImport(c.r, -1)
		for len(ic.chunks) > 60 {
			ic.chunks = ic.chunks[:60]
		}
		c.logf("%v", ic)
		s := newStore()
		nd, tr, err := ic.build(s)
		if err != nil {
			return err
		}
		_ = tr
		total := s.adds
		if _, ok := s.rec(nd.Cid()); !ok {
			return errors.New("the root of a successful import was not stored")
		}
		// every single storage write failing must be reported
		k := 1 + c.r.Intn(total)
		s2 := newStore()
		s2.failAdd = k
		c.logf("fail write %d of %d", k, total)
		if n, err := ic.do(s2, &chunks{cs: ic.chunks}); err == nil {
			if _, terr := s2.tree(n.Cid()); terr != nil {
				return fmt.Errorf("write %d failed but the import succeeded; %v", k, terr)
			}
			return fmt.Errorf("write %d failed but the import succeeded", k)
		}
		k = 1 + c.r.Intn(len(ic.chunks)+1)
		c.logf("input fails at chunk %d", k)
		if n, err := ic.do(newStore(), &chunks{cs: ic.chunks, failAt: k}); err == nil || n != nil && false {
			return fmt.Errorf("the input failed at chunk %d but the import succeeded", k)
		}
		if err := appendFaults(c); err != nil {
			return err
		}
		c.note(fmt.Sprintf("%v/%d/%v/%d", ic.trickle, ic.maxlinks, ic.raw, len(ic.chunks)))
		return nil
	})
}

func TestC07(t *testing.T) {
	old := h.BlockSizeLimit
	defer func() { h.BlockSizeLimit = old }()
	run(t, "C07", func(c *runT) error {
		h.BlockSizeLimit = old
		ic := genImport(c.r, -1)
		ic.deflt = false
		s := newStore()
		if c.r.Intn(3) == 0 {
			// oversized chunk somewhere
			h.BlockSizeLimit = 4 + c.r.Intn(20)
			if len(ic.chunks) == 0 {
				ic.chunks = genChunks(c.r, 1, 3)
			}
			over := c.r.Intn(3) > 0
			for i := range ic.chunks {
				if len(ic.chunks[i]) > h.BlockSizeLimit {
					ic.chunks[i] = ic.chunks[i][:h.BlockSizeLimit]
				}
			}
			at := c.r.Intn(len(ic.chunks))
			if over {
				ic.chunks[at] = genBytes(c.r, h.BlockSizeLimit+1+c.r.Intn(3))
			} else {
				ic.chunks[at] = genBytes(c.r, h.BlockSizeLimit)
			}
			c.logf("limit %d, chunk %d has %d bytes; %v", h.BlockSizeLimit, at, len(ic.chunks[at]), ic)
			_, err := ic.do(s, &chunks{cs: ic.chunks})
			if over && err == nil {
				return errors.New("an oversized chunk was accepted")
			}
			if !over && err != nil {
				return fmt.Errorf("a chunk of exactly the limit was refused: %v", err)
			}
			c.note(fmt.Sprintf("limit/%v/%v/%v", over, ic.trickle, ic.raw))
			return nil
		}
		ic.noCopy = true
		data := join(ic.chunks)
		if c.r.Intn(6) == 0 {
			c.logf("no path; %v", ic)
			sp := &chunks{cs: ic.chunks, rd: bytes.NewReader(data)}
			if c.r.Intn(2) == 0 {
				sp.rd = newFileInfo("", data)
			}
			if _, err := ic.do(s, sp); err == nil {
				return errors.New("no-copy import without a path was accepted")
			}
			return nil
		}
		ic.raw = c.r.Intn(5) > 0
		c.logf("%v", ic)
		nd, err := ic.do(s, &chunks{cs: ic.chunks, rd: newFileInfo("/src/file", data)})
		if err != nil {
			return err
		}
		if len(data) == 0 {
			return nil
		}
		if !ic.raw {
			return nil
		}
		// references: with distinct leaves the stored position is unique per leaf
		_, err = s.tree(nd.Cid())
		if err != nil {
			return err
		}
		// replay the order in which leaves were stored
		off := uint64(0)
		var recs []refRec
		s3 := &refStore{store: newStore()}
		nd3, err := ic.doRef(s3, &chunks{cs: ic.chunks, rd: newFileInfo("/src/file", data)})
		if err != nil || !nd3.Cid().Equals(nd.Cid()) {
			return fmt.Errorf("second import differs: %v", err)
		}
		recs = s3.recs
		if len(recs) != len(ic.chunks) {
			return fmt.Errorf("%d leaves stored with a reference, %d chunks imported", len(recs), len(ic.chunks))
		}
		for i, rc := range recs {
			if rc.path != "/src/file" || rc.off != off {
				return fmt.Errorf("leaf %d is stored with reference (%q, %d), its bytes start at %d", i, rc.path, rc.off, off)
			}
			if !bytes.Equal(rc.data, ic.chunks[i]) {
				return fmt.Errorf("leaf %d does not hold the bytes at its offset", i)
			}
			off += uint64(len(rc.data))
		}
		c.note(fmt.Sprintf("ref/%v/%d/%d", ic.trickle, ic.maxlinks, len(ic.chunks)))
		return nil
	})
}

// ---------------------------------------------------------------- append

func genBase(c *runT, s *store, ms int) (ipld.Node, []byte, bool, int) {
	r := c.r
	ic := genImport(r, -1)
	ic.trickle = true
	ic.deflt = false
	ic.maxlinks = ms
	ic.raw = r.Intn(2) == 0
	for len(ic.chunks) > 120 {
		ic.chunks = ic.chunks[:120]
	}
	nd, tr, err := ic.build(s)
	must(err)
	c.logf("base %v", ic)
	return nd, tr.all, ic.raw, ic.maxlinks
}

func doAppend(s *store, base ipld.Node, cs [][]byte, failAt, m int, raw bool) (ipld.Node, error) {
	dbp := h.DagBuilderParams{Dagserv: s, Maxlinks: m, RawLeaves: raw}
	db, err := dbp.New(&chunks{cs: cs, failAt: failAt})
	if err != nil {
		return nil, err
	}
	return trickle.Append(context.Background(), base, db)
}

func appendFaults(c *runT) error {
	s := newStore()
	base, _, raw, m := genBase(c, s, 1+c.r.Intn(4))
	if _, ok := base.(*mdag.ProtoNode); !ok {
		return nil
	}
	cs := genChunks(c.r, 1+c.r.Intn(12), 4)
	c.logf("append %d chunks", len(cs))
	cp := func() *store {
		n := newStore()
		for k, v := range s.m {
			n.m[k] = v
		}
		return n
	}
	s1 := cp()
	nd, err := doAppend(s1, base.Copy(), cs, 0, m, raw)
	if err != nil {
		return fmt.Errorf("append failed: %v", err)
	}
	if _, err := s1.treeOf(nd); err != nil {
		return fmt.Errorf("after append: %v", err)
	}
	k := 1 + c.r.Intn(s1.adds)
	s2 := cp()
	s2.failAdd = k
	c.logf("append: write %d of %d fails", k, s1.adds)
	if nd, err := doAppend(s2, base.Copy(), cs, 0, m, raw); err == nil {
		return fmt.Errorf("write %d failed but the append succeeded (%s)", k, nd.Cid())
	}
	k = 1 + c.r.Intn(len(cs)+1)
	c.logf("append: input fails at %d", k)
	if _, err := doAppend(cp(), base.Copy(), cs, k, m, raw); err == nil {
		return fmt.Errorf("the input failed at chunk %d but the append succeeded", k)
	}
	if s1.gets > 0 {
		k = 1 + c.r.Intn(s1.gets)
		s3 := cp()
		s3.failGet = k
		c.logf("append: load %d of %d fails", k, s1.gets)
		if _, err := doAppend(s3, base.Copy(), cs, 0, m, raw); err == nil {
			return fmt.Errorf("load %d failed but the append succeeded", k)
		}
	}
	return nil
}

func TestC05(t *testing.T) {
	run(t, "C05", func(c *runT) error {
		r := c.r
		s := newStore()
		nd, content, raw, m := genBase(c, s, 1+r.Intn(5))
		native := true
		if r.Intn(4) == 0 {
			native = false
			// some other well-formed file
			ic := genImport(r, 0)
			ic.deflt, ic.noCopy = false, false
			var tr *tree
			var err error
			nd, tr, err = ic.build(s)
			must(err)
			content = tr.all
			c.logf("base replaced by balanced %v", ic)
		}
		rounds := 1 + r.Intn(5)
		for i := 0; i < rounds; i++ {
			cs := genChunks(r, r.Intn(1+r.Intn(40)), 4)
			if r.Intn(6) == 0 {
				m = 1 + r.Intn(5)
				native = false
			}
			if r.Intn(8) == 0 {
				raw = !raw
			}
			before, err := s.treeOf(nd)
			must(err)
			was := nd.Cid()
			c.logf("append %d chunks maxlinks %d raw %v", len(cs), m, raw)
			nn, err := doAppend(s, nd, cs, 0, m, raw)
			if err != nil {
				if !native {
					return nil // refused, not wrong
				}
				return fmt.Errorf("append failed: %v", err)
			}
			_, _ = before, was
			must(s.Add(context.Background(), nn))
			tr, err := s.treeOf(nn)
			if err != nil {
				return err
			}
			content = append(append([]byte(nil), content...), join(cs)...)
			if err := diffBytes("content after append", tr.all, content); err != nil {
				return err
			}
			if err := tr.sizes(); err != nil {
				return fmt.Errorf("after append: %v", err)
			}
			c.note(fmt.Sprintf("%d/%v/%d/%d", m, raw, len(tr.kids), len(cs)))
			nd, err = s.load(nn.Cid())
			must(err)
		}
		return nil
	})
}

var _ = time.Now
