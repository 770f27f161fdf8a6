package zverif

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"testing"
	"time"

	ft "github.com/ipfs/go-unixfs"
	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	"github.com/ipfs/go-unixfs/importer/balanced"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"
	pb "github.com/ipfs/go-unixfs/pb"

	"github.com/gogo/protobuf/proto"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
)

var evilNums = []uint64{0, 0, 1, 2, 3, 5, 7, 8, 16, 24, 64, 256, 256, 1000, 1024, 2048, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, ^uint64(0), ^uint64(0) - 5}

func evilNum(r *rand.Rand) uint64 {
	if r.Intn(2) == 0 {
		return uint64(r.Intn(40))
	}
	return evilNums[r.Intn(len(evilNums))]
}

func evilPB(r *rand.Rand, nlinks int) []byte {
	if r.Intn(20) == 0 {
		return genBytes(r, r.Intn(12))
	}
	d := new(pb.Data)
	t := pb.Data_DataType([]int{0, 1, 2, 2, 2, 3, 4, 5, 5, 5, 5, 6, 77, -1}[r.Intn(14)])
	d.Type = &t
	if r.Intn(4) > 0 {
		n := r.Intn(6)
		switch r.Intn(6) {
		case 0:
			n = 32
		case 1:
			n = 33
		case 2:
			n = r.Intn(200)
		}
		d.Data = genBytes(r, n)
		if r.Intn(3) == 0 {
			for i := range d.Data {
				d.Data[i] = 0
			}
			if n > 0 { // few bits
				for k := r.Intn(4); k >= 0; k-- {
					d.Data[r.Intn(n)] |= 1 << uint(r.Intn(8))
				}
			}
		}
	}
	if r.Intn(4) > 0 {
		v := evilNum(r)
		d.Filesize = &v
	}
	n := nlinks
	if r.Intn(3) == 0 {
		n = r.Intn(6)
	}
	for i := 0; i < n; i++ {
		d.Blocksizes = append(d.Blocksizes, evilNum(r))
	}
	if t == pb.Data_HAMTShard || r.Intn(4) == 0 {
		v := uint64(8 << uint(r.Intn(8)))
		if r.Intn(4) == 0 {
			v = evilNum(r)
		}
		d.Fanout = &v
		w := uint64(0x22)
		if r.Intn(10) == 0 {
			w = evilNum(r)
		}
		if r.Intn(12) > 0 {
			d.HashType = &w
		}
	}
	b, err := proto.Marshal(d)
	must(err)
	if r.Intn(10) == 0 && len(b) > 0 {
		b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
	}
	return b
}

func evilName(r *rand.Rand) string {
	switch r.Intn(7) {
	case 0:
		return ""
	case 1:
		return []string{"0", "F", "a", "z"}[r.Intn(4)]
	case 2:
		return fmt.Sprintf("%02X", r.Intn(256))
	case 3:
		return fmt.Sprintf("%03X", r.Intn(1024))
	case 4:
		return fmt.Sprintf("%X", r.Intn(16))
	case 5:
		return fmt.Sprintf("%02Xn%d", r.Intn(256), r.Intn(400))
	}
	return genName(r)
}

// evilDag builds a small DAG with arbitrary fields and returns its root.
func evilDag(r *rand.Rand, s *store) ipld.Node {
	var pool []ipld.Node
	pool = append(pool, mdag.NewRawNode(genBytes(r, r.Intn(5))))
	for n := 1 + r.Intn(5); n > 0; n-- {
		var nd *mdag.ProtoNode
		k := r.Intn(5)
		nd = mdag.NodeWithData(evilPB(r, k))
		if r.Intn(30) == 0 {
			nd = new(mdag.ProtoNode) // no data at all
		}
		for i := 0; i < k; i++ {
			t := pool[len(pool)-1-r.Intn((len(pool)+1)/2)]
			l := &ipld.Link{Name: evilName(r), Cid: t.Cid(), Size: evilNum(r) &^ (1 << 63)}
			if r.Intn(15) == 0 {
				l.Cid = mdag.NewRawNode([]byte("missing")).Cid()
			}
			must(nd.AddRawLink(l.Name, l))
		}
		pool = append(pool, nd)
	}
	for _, n := range pool {
		s.put(n)
	}
	return pool[len(pool)-1]
}

// mutated takes a well-formed DAG and spoils one field of one node on the
// leftmost or a random path.
func mutatedDag(r *rand.Rand, s *store) ipld.Node {
	var root ipld.Node
	var err error
	switch r.Intn(3) {
	case 0, 1:
		p := h.DagBuilderParams{Dagserv: s, Maxlinks: 2 + r.Intn(4), RawLeaves: r.Intn(2) == 0}
		db, e := p.New(&chunks{cs: genChunks(r, 1+r.Intn(20), 4)})
		must(e)
		if r.Intn(2) == 0 {
			root, err = balanced.Layout(db)
		} else {
			root, err = trickle.Layout(db)
		}
		must(err)
	default:
		sh, e := hamt.NewShard(s, widths[r.Intn(len(widths))])
		must(e)
		for i := r.Intn(40); i >= 0; i-- {
			nd := genNode(r)
			s.put(nd)
			if err := sh.Set(bg, genName(r), nd); err != nil && !strings.Contains(err.Error(), "too deep") {
				panic(err)
			}
		}
		root, err = sh.Node()
		must(err)
	}
	for n := 1 + r.Intn(2); n > 0; n-- {
		root = spoil(r, s, root, r.Intn(3))
	}
	return root
}

func spoil(r *rand.Rand, s *store, nd ipld.Node, depth int) ipld.Node {
	pn, ok := nd.(*mdag.ProtoNode)
	if !ok {
		return nd
	}
	pn = pn.Copy().(*mdag.ProtoNode)
	ls := pn.Links()
	if depth > 0 && len(ls) > 0 {
		i := r.Intn(len(ls))
		ch, err := s.load(ls[i].Cid)
		must(err)
		ch = spoil(r, s, ch, depth-1)
		ls2 := append([]*ipld.Link(nil), ls...)
		ls2[i] = &ipld.Link{Name: ls[i].Name, Size: ls[i].Size, Cid: ch.Cid()}
		pn.SetLinks(ls2)
		s.put(pn)
		return pn
	}
	var d pb.Data
	if proto.Unmarshal(pn.Data(), &d) != nil {
		return nd
	}
	switch r.Intn(12) {
	case 0:
		v := evilNum(r)
		d.Filesize = &v
	case 1:
		d.Filesize = nil
	case 2:
		if len(d.Blocksizes) > 0 {
			d.Blocksizes = d.Blocksizes[:r.Intn(len(d.Blocksizes))]
		}
	case 3:
		d.Blocksizes = append(d.Blocksizes, evilNum(r))
	case 4:
		if len(d.Blocksizes) > 0 {
			d.Blocksizes[r.Intn(len(d.Blocksizes))] = evilNum(r)
		}
	case 5:
		d.Data = append(d.Data, genBytes(r, 1+r.Intn(40))...)
	case 6:
		if len(d.Data) > 0 {
			d.Data = append([]byte(nil), d.Data...)
			d.Data[r.Intn(len(d.Data))] ^= 1 << uint(r.Intn(8))
		}
	case 7:
		t := pb.Data_DataType(r.Intn(7))
		d.Type = &t
	case 8:
		v := evilNum(r)
		d.Fanout = &v
	case 9:
		d.Data = nil
	default:
		ls2 := append([]*ipld.Link(nil), ls...)
		if len(ls2) > 0 {
			i := r.Intn(len(ls2))
			switch r.Intn(4) {
			case 0:
				ls2 = append(ls2[:i], ls2[i+1:]...)
			case 1:
				ls2[i] = &ipld.Link{Name: evilName(r), Size: ls2[i].Size, Cid: ls2[i].Cid}
			case 2:
				ls2 = append(ls2, ls2[i])
			case 3:
				ls2[i] = ls2[r.Intn(len(ls2))]
			}
		}
		pn.SetLinks(ls2)
	}
	b, err := proto.Marshal(&d)
	if err == nil {
		pn.SetData(b)
	}
	s.put(pn)
	return pn
}

type limited struct{ n int }

var errEnough = errors.New("enough")

func (l *limited) Write(p []byte) (int, error) {
	l.n -= len(p)
	if l.n < 0 {
		return 0, errEnough
	}
	return len(p), nil
}

func describe(s *store, nd ipld.Node, depth int) string {
	var b strings.Builder
	pn, ok := nd.(*mdag.ProtoNode)
	if !ok {
		return fmt.Sprintf("raw(%x)", nd.RawData())
	}
	fmt.Fprintf(&b, "node{%x", pn.Data())
	if depth > 0 {
		for _, l := range pn.Links() {
			fmt.Fprintf(&b, " %q:%d", l.Name, l.Size)
			if k, err := s.load(l.Cid); err == nil {
				b.WriteString(describe(s, k, depth-1))
			}
		}
	}
	b.WriteString("}")
	if b.Len() > 3000 {
		return b.String()[:3000] + "..."
	}
	return b.String()
}

func TestC22(t *testing.T) {
	run(t, "C22", func(c *runT) error {
		r := c.r
		s := newStore()
		var root ipld.Node
		if r.Intn(2) == 0 {
			root = evilDag(r, s)
		} else {
			root = mutatedDag(r, s)
		}
		s.maxGets = s.gets + 200000
		c.logf("%s", describe(s, root, 3))
		name := func() string {
			if r.Intn(2) == 0 {
				return genName(r)
			}
			return evilName(r)
		}
		var dirs []uio.Directory
		ops := []struct {
			n string
			f func()
		}{
			{"decode", func() {
				if pn, ok := root.(*mdag.ProtoNode); ok {
					if f, err := ft.FSNodeFromBytes(pn.Data()); err == nil {
						f.FileSize()
						f.GetBytes()
						f.IsDir()
					}
					ft.DataSize(pn.Data())
					ft.UnwrapData(pn.Data())
					ft.MetadataFromBytes(pn.Data())
				}
				ft.ReadUnixFSNodeData(root)
				ft.ExtractFSNode(root)
			}},
			{"read", func() {
				dr, err := uio.NewDagReader(bg, root, s)
				if err != nil {
					return
				}
				dr.Size()
				buf := make([]byte, 1+r.Intn(20))
				for i := 0; i < 300; i++ {
					if _, err := dr.Read(buf); err != nil {
						break
					}
				}
				dr.Close()
			}},
			{"seek", func() {
				dr, err := uio.NewDagReader(bg, root, s)
				if err != nil {
					return
				}
				buf := make([]byte, 1+r.Intn(20))
				for i := 0; i < 8; i++ {
					off := int64(evilNum(r))
					if r.Intn(2) == 0 {
						off = int64(r.Intn(60)) - 10
					}
					dr.Seek(off, r.Intn(4))
					switch r.Intn(3) {
					case 0:
						dr.Read(buf)
					case 1:
						dr.CtxReadFull(bg, buf)
					}
				}
			}},
			{"writeto", func() {
				dr, err := uio.NewDagReader(bg, root, s)
				if err != nil {
					return
				}
				if r.Intn(2) == 0 {
					dr.Seek(int64(r.Intn(30)), io.SeekStart)
				}
				dr.WriteTo(&limited{n: 1 << 16})
			}},
			{"opendir", func() {
				if d, err := uio.NewDirectoryFromNode(s, root); err == nil {
					dirs = append(dirs, d)
				}
			}},
			{"links", func() {
				for _, d := range dirs {
					d.Links(bg)
				}
			}},
			{"foreach", func() {
				for _, d := range dirs {
					d.ForEachLink(bg, func(*ipld.Link) error { return nil })
				}
			}},
			{"find", func() {
				for _, d := range dirs {
					for i := 0; i < 12; i++ {
						d.Find(bg, name())
					}
				}
			}},
			{"getnode", func() {
				for _, d := range dirs {
					d.GetNode()
				}
			}},
			{"resolve", func() {
				for i := 0; i < 6; i++ {
					uio.ResolveUnixfsOnce(bg, s, root, []string{name(), "x"})
				}
			}},
			{"view", func() {
				var walk func(n files.Node, depth int)
				walk = func(n files.Node, depth int) {
					n.Size()
					switch x := n.(type) {
					case files.Directory:
						if depth == 0 {
							return
						}
						it := x.Entries()
						for k := 0; k < 50 && it.Next(); k++ {
							it.Name()
							walk(it.Node(), depth-1)
						}
					case files.File:
						io.CopyN(io.Discard, x, 200)
						x.Seek(int64(r.Intn(50)), io.SeekStart)
						x.Read(make([]byte, 3))
					}
				}
				f, err := unixfile.NewUnixfsFile(bg, s, root)
				if err == nil {
					walk(f, 3)
				}
			}},
			{"hamt", func() {
				if sh, err := hamt.NewHamtFromDag(s, root); err == nil {
					sh.EnumLinks(bg)
					for i := 0; i < 6; i++ {
						sh.Find(bg, name())
					}
				}
			}},
		}
		r.Shuffle(len(ops)-5, func(i, j int) { ops[5+i], ops[5+j] = ops[5+j], ops[5+i] })
		kind := 0
		for _, o := range ops {
			progress(c, o.n)
			err := within(20*time.Second, func() error { o.f(); return nil })
			if err != nil {
				return fmt.Errorf("%s: %v", o.n, err)
			}
		}
		if len(dirs) > 0 {
			kind = 1
		}
		if pn, ok := root.(*mdag.ProtoNode); ok {
			var d pb.Data
			if proto.Unmarshal(pn.Data(), &d) == nil {
				kind += 2 + 10*int(d.GetType())
			}
			kind += 1000 * len(pn.Links())
		}
		c.note(fmt.Sprint(kind))
		return nil
	})
}

// C15: encodings round trip and the size accounting is exact.
func TestC15(t *testing.T) {
	run(t, "C15", func(c *runT) error {
		r := c.r
		dec := func(b []byte) (*pb.Data, error) {
			d := new(pb.Data)
			err := proto.Unmarshal(b, d)
			return d, err
		}
		// size accounting over a history
		types := []pb.Data_DataType{ft.TFile, ft.TRaw, ft.TDirectory, ft.TSymlink, ft.THAMTShard, ft.TMetadata}
		ty := types[r.Intn(len(types))]
		n := ft.NewFSNode(ty)
		if n.Type() != ty || n.NumChildren() != 0 || len(n.Data()) != 0 {
			return fmt.Errorf("new node is not empty")
		}
		var bs []uint64
		var data []byte
		num := func() uint64 {
			if r.Intn(8) == 0 {
				return uint64(r.Int63n(1 << 40))
			}
			return uint64(r.Intn(1000))
		}
		nops := r.Intn(40)
		for i := 0; i < nops; i++ {
			switch r.Intn(7) {
			case 0, 1, 2:
				v := num()
				n.AddBlockSize(v)
				bs = append(bs, v)
				c.logf("add %d", v)
			case 3:
				if len(bs) > 0 {
					k := r.Intn(len(bs))
					n.RemoveBlockSize(k)
					bs = append(append([]uint64{}, bs[:k]...), bs[k+1:]...)
					c.logf("remove %d", k)
				}
			case 4, 5:
				data = genBytes(r, r.Intn(30))
				if r.Intn(5) == 0 {
					data = nil
				}
				n.SetData(data)
				c.logf("data %d", len(data))
			case 6:
				if r.Intn(4) == 0 {
					n.RemoveAllBlockSizes()
					bs = nil
					c.logf("removeall")
				}
			}
			want := uint64(len(data))
			for _, v := range bs {
				want += v
			}
			b, err := n.GetBytes()
			if err != nil {
				return err
			}
			d, err := dec(b)
			if err != nil {
				return err
			}
			if d.GetFilesize() != want {
				return fmt.Errorf("recorded size %d, data and children sum to %d", d.GetFilesize(), want)
			}
			if (ty == ft.TFile || ty == ft.TRaw) && n.FileSize() != want {
				return fmt.Errorf("FileSize %d, data and children sum to %d", n.FileSize(), want)
			}
			if n.NumChildren() != len(bs) || fmt.Sprint(d.Blocksizes) != fmt.Sprint(bs) || !bytes.Equal(n.Data(), data) || !bytes.Equal(d.Data, data) || d.GetType() != ty {
				return fmt.Errorf("node holds %v %x, want %v %x", d.Blocksizes, d.Data, bs, data)
			}
			for k := range bs {
				if n.BlockSize(k) != bs[k] {
					return fmt.Errorf("BlockSize(%d) = %d, want %d", k, n.BlockSize(k), bs[k])
				}
			}
			m, err := ft.FSNodeFromBytes(b)
			if err != nil {
				return err
			}
			if m.Type() != ty || m.NumChildren() != len(bs) || !bytes.Equal(m.Data(), data) || m.FileSize() != n.FileSize() || m.HashType() != n.HashType() || m.Fanout() != n.Fanout() {
				return fmt.Errorf("decoding gives another node")
			}
			for k := range bs {
				if m.BlockSize(k) != bs[k] {
					return fmt.Errorf("decoded BlockSize(%d) = %d, want %d", k, m.BlockSize(k), bs[k])
				}
			}
			if r.Intn(4) == 0 { // go on with the decoded one
				n = m
			}
		}
		// convenience encoders
		p := genBytes(r, r.Intn(40))
		tot := num()
		check := func(what string, b []byte, err error, want pb.Data) error {
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			d, err := dec(b)
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			if d.GetType() != want.GetType() || !bytes.Equal(d.Data, want.Data) || d.GetFilesize() != want.GetFilesize() || (d.Filesize == nil) != (want.Filesize == nil) || len(d.Blocksizes) != 0 || d.GetFanout() != want.GetFanout() || d.GetHashType() != want.GetHashType() {
				return fmt.Errorf("%s: encodes %v, want %v", what, d, &want)
			}
			f, err := ft.FSNodeFromBytes(b)
			if err != nil || f.Type() != want.GetType() || !bytes.Equal(f.Data(), want.Data) || f.Fanout() != want.GetFanout() || f.HashType() != want.GetHashType() {
				return fmt.Errorf("%s: decodes to another node (%v)", what, err)
			}
			sz, err := ft.DataSize(b)
			switch want.GetType() {
			case ft.TFile, ft.TRaw:
				if err != nil || sz != want.GetFilesize() {
					return fmt.Errorf("%s: DataSize %d, %v", what, sz, err)
				}
			case ft.TSymlink:
				if err != nil || sz != uint64(len(want.Data)) {
					return fmt.Errorf("%s: DataSize %d, %v", what, sz, err)
				}
			default:
				if err == nil {
					return fmt.Errorf("%s: DataSize of a %v accepted", what, want.GetType())
				}
			}
			u, err := ft.UnwrapData(b)
			if err != nil || !bytes.Equal(u, want.Data) {
				return fmt.Errorf("%s: UnwrapData gives %x, %v", what, u, err)
			}
			return nil
		}
		ty1 := func(t pb.Data_DataType) *pb.Data_DataType { return &t }
		u := func(v uint64) *uint64 { return &v }
		if err := check("FilePBData", ft.FilePBData(p, tot), nil, pb.Data{Type: ty1(ft.TFile), Data: p, Filesize: u(tot)}); err != nil {
			return err
		}
		if err := check("FolderPBData", ft.FolderPBData(), nil, pb.Data{Type: ty1(ft.TDirectory)}); err != nil {
			return err
		}
		if err := check("WrapData", ft.WrapData(p), nil, pb.Data{Type: ty1(ft.TRaw), Data: p, Filesize: u(uint64(len(p)))}); err != nil {
			return err
		}
		b, err := ft.SymlinkData(string(p))
		if err := check("SymlinkData", b, err, pb.Data{Type: ty1(ft.TSymlink), Data: p}); err != nil {
			return err
		}
		fo, ht := num(), num()
		b, err = ft.HAMTShardData(p, fo, ht)
		if err := check("HAMTShardData", b, err, pb.Data{Type: ty1(ft.THAMTShard), Data: p, Fanout: u(fo), HashType: u(ht)}); err != nil {
			return err
		}
		md := &ft.Metadata{MimeType: string(genName(r)), Size: num()}
		b, err = ft.BytesForMetadata(md)
		if err != nil {
			return err
		}
		back, err := ft.MetadataFromBytes(b)
		if err != nil || *back != *md {
			return fmt.Errorf("metadata %+v decodes to %+v, %v", md, back, err)
		}
		if d, err := dec(b); err != nil || d.GetType() != ft.TMetadata || d.GetFilesize() != md.Size {
			return fmt.Errorf("metadata encoding: %v %v", d, err)
		}
		if d, err := dec(ft.EmptyDirNode().Data()); err != nil || d.GetType() != ft.TDirectory {
			return fmt.Errorf("EmptyDirNode: %v %v", d, err)
		}
		if d, err := dec(ft.EmptyFileNode().Data()); err != nil || d.GetType() != ft.TFile || d.GetFilesize() != 0 || len(d.Data) != 0 {
			return fmt.Errorf("EmptyFileNode: %v %v", d, err)
		}
		c.note(fmt.Sprint(ty, len(bs), len(data)))
		return nil
	})
}
