package zverif

import (
	"context"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
	"testing"

	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/hamt"
	"github.com/ipfs/go-unixfs/internal"
	pb "github.com/ipfs/go-unixfs/pb"

	proto "github.com/gogo/protobuf/proto"
	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
)

var bg = context.Background()

type entry struct {
	c    cid.Cid
	size uint64
}

type dirModel map[string]entry

func (m dirModel) names() []string {
	var ns []string
	for n := range m {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func (m dirModel) clone() dirModel {
	o := dirModel{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

// compare checks a listing against the model: each entry once, plain name.
func (m dirModel) compare(ls []*ipld.Link) error {
	seen := map[string]bool{}
	for _, l := range ls {
		e, ok := m[l.Name]
		if !ok {
			return fmt.Errorf("listing has an entry %q that is not in the directory", l.Name)
		}
		if seen[l.Name] {
			return fmt.Errorf("listing has entry %q twice", l.Name)
		}
		seen[l.Name] = true
		if !l.Cid.Equals(e.c) || l.Size != e.size {
			return fmt.Errorf("listing has the wrong link for %q", l.Name)
		}
	}
	if len(seen) != len(m) {
		for n := range m {
			if !seen[n] {
				return fmt.Errorf("listing of %d entries lacks %q (%d listed)", len(m), n, len(seen))
			}
		}
	}
	return nil
}

// hash functions that make names collide in various depths
func withHash(kind int, f func() error) error {
	old := internal.HAMTHashFunction
	defer func() { internal.HAMTHashFunction = old }()
	switch kind {
	case 1: // the first 6 bytes depend on one character only
		internal.HAMTHashFunction = func(v []byte) []byte {
			h := append([]byte(nil), old(v)...)
			var p byte
			if len(v) > 0 {
				p = v[0]
			}
			for i := 0; i < 6; i++ {
				h[i] = p * 37
			}
			return h
		}
	case 2: // few different bits in every byte
		internal.HAMTHashFunction = func(v []byte) []byte {
			h := append([]byte(nil), old(v)...)
			for i := range h {
				h[i] &= 0x41
			}
			return h
		}
	case 3: // short hash: exhausted quickly
		internal.HAMTHashFunction = func(v []byte) []byte {
			h := append([]byte(nil), old(v)...)[:3]
			for i := range h {
				h[i] &= 0x13
			}
			return h
		}
	}
	return f()
}

var hashKinds = []int{0, 1, 1, 2, 2, 3}

func genName(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return string(rune('a'+r.Intn(3))) + strings.Repeat("x", r.Intn(20))
	case 1:
		return fmt.Sprintf("%02X", r.Intn(256)) // looks like a prefix
	case 2:
		return fmt.Sprintf("%02X%d", r.Intn(256), r.Intn(3))
	case 3:
		return fmt.Sprintf("%c", 0x4e00+r.Intn(40))
	case 4:
		return "0"
	}
	return fmt.Sprintf("n%d", r.Intn(400))
}

func genNode(r *rand.Rand) ipld.Node {
	switch r.Intn(3) {
	case 0:
		n := mdag.NodeWithData(ft.FilePBData([]byte(fmt.Sprint("f", r.Intn(1000))), 4))
		if r.Intn(2) == 0 {
			n.SetCidBuilder(mdag.V1CidPrefix())
		}
		return n
	case 1:
		return mdag.NewRawNode([]byte(fmt.Sprint("r", r.Intn(1000))))
	}
	return mdag.NodeWithData([]byte(fmt.Sprint("p", r.Intn(1000))))
}

func entryOf(n ipld.Node) entry {
	s, err := n.Size()
	must(err)
	return entry{n.Cid(), s}
}

func builders(r *rand.Rand) cid.Builder {
	switch r.Intn(3) {
	case 0:
		return mdag.V0CidPrefix()
	case 1:
		return mdag.V1CidPrefix()
	}
	return nil
}

var widths = []int{8, 8, 16, 16, 32, 64, 128, 256, 256, 512, 1024}

func saveLoad(s *store, sh *hamt.Shard) (*hamt.Shard, error) {
	nd, err := sh.Node()
	if err != nil {
		return nil, fmt.Errorf("saving: %v", err)
	}
	s.mu.Lock()
	ld, err := s.load(nd.Cid())
	s.mu.Unlock()
	if err != nil {
		return nil, fmt.Errorf("the saved root was not stored: %v", err)
	}
	sh2, err := hamt.NewHamtFromDag(s, ld)
	if err != nil {
		return nil, fmt.Errorf("loading the saved form: %v", err)
	}
	return sh2, nil
}

// contents reads every entry of a stored sharded directory independently.
func (s *store) shardEntries(c cid.Cid, width int, out dirModel, top bool) error {
	n, err := s.load(c)
	if err != nil {
		return fmt.Errorf("sub-shard %s is linked but not stored", c)
	}
	pn, ok := n.(*mdag.ProtoNode)
	if !ok {
		return fmt.Errorf("shard is a %T", n)
	}
	fsn, err := ft.FSNodeFromBytes(pn.Data())
	if err != nil {
		return err
	}
	if fsn.Type() != ft.THAMTShard || fsn.HashType() != 0x22 || fsn.Fanout() != uint64(width) {
		return fmt.Errorf("shard %s: type %v, hash type %#x, fan-out %d, want a shard of width %d", c, fsn.Type(), fsn.HashType(), fsn.Fanout(), width)
	}
	bf := new(big.Int).SetBytes(fsn.Data())
	if bf.BitLen() > width {
		return fmt.Errorf("shard %s: bitfield wider than the table", c)
	}
	ls := pn.Links()
	pad := len(fmt.Sprintf("%X", width-1))
	j := 0
	for i := 0; i < width; i++ {
		if bf.Bit(i) == 0 {
			continue
		}
		if j >= len(ls) {
			return fmt.Errorf("shard %s: more bits than links", c)
		}
		pre := fmt.Sprintf("%0*X", pad, i)
		if !strings.HasPrefix(ls[j].Name, pre) {
			return fmt.Errorf("shard %s: link %d is named %q, want prefix %q", c, j, ls[j].Name, pre)
		}
		nm := ls[j].Name[pad:]
		if nm == "" {
			if err := s.shardEntries(ls[j].Cid, width, out, false); err != nil {
				return err
			}
			k, err := s.load(ls[j].Cid)
			must(err)
			sz, _ := k.Size()
			if sz != ls[j].Size {
				return fmt.Errorf("shard %s: link %q records cumulative size %d, sub-shard has %d", c, ls[j].Name, ls[j].Size, sz)
			}
		} else {
			if _, dup := out[nm]; dup {
				return fmt.Errorf("entry %q stored twice", nm)
			}
			out[nm] = entry{ls[j].Cid, ls[j].Size}
		}
		j++
	}
	if j != len(ls) {
		return fmt.Errorf("shard %s: %d links, %d bits", c, len(ls), j)
	}
	if !top && j == 0 {
		return fmt.Errorf("empty sub-shard %s", c)
	}
	if !top && j == 1 {
		if len(ls[0].Name) > pad {
			return fmt.Errorf("sub-shard %s holds a single entry", c)
		}
	}
	return nil
}

func sameModel(a, b dirModel) error {
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			return fmt.Errorf("entry %q missing", k)
		}
		if w != v {
			return fmt.Errorf("entry %q has a different link", k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return fmt.Errorf("unexpected entry %q", k)
		}
	}
	return nil
}

// hamtHistory applies a random history; returns the resulting shard and model.
func hamtHistory(c *runT, s *store, sh *hamt.Shard, m dirModel, nops int, faults bool) (*hamt.Shard, error) {
	r := c.r
	var pool []string
	for n := range m {
		pool = append(pool, n)
	}
	sort.Strings(pool)
	pick := func() string {
		if len(pool) > 0 && r.Intn(3) > 0 {
			return pool[r.Intn(len(pool))]
		}
		return genName(r)
	}
	prev := func(name string, l *ipld.Link, what string) error {
		e, ok := m[name]
		if ok != (l != nil) {
			return fmt.Errorf("%s(%q) reported previous link %v, entry existed: %v", what, name, l, ok)
		}
		if l != nil && (!l.Cid.Equals(e.c) || l.Size != e.size) {
			return fmt.Errorf("%s(%q) reported the wrong previous link", what, name)
		}
		return nil
	}
	for i := 0; i < nops; i++ {
		name := pick()
		fault := false
		if faults && r.Intn(6) == 0 {
			fault = true
			if r.Intn(3) == 0 {
				s.failAdd = s.adds + 1 + r.Intn(2)
			} else {
				s.failGet = s.gets + 1 + r.Intn(2)
			}
		}
		var err error
		switch op := r.Intn(14); {
		case op < 4:
			nd := genNode(r)
			var l *ipld.Link
			l, err = sh.Swap(bg, name, nd)
			c.logf("swap %q", name)
			if err == nil {
				if e := prev(name, l, "swap"); e != nil {
					return sh, e
				}
				m[name] = entryOf(nd)
				pool = append(pool, name)
			} else if l != nil {
				return sh, fmt.Errorf("swap failed (%v) and returned a link", err)
			}
		case op < 6:
			nd := genNode(r)
			if op == 4 {
				err = sh.Set(bg, name, nd)
			} else {
				s.put(nd)
				l, e := ipld.MakeLink(nd)
				must(e)
				l.Name = "whatever"
				err = sh.SetLink(bg, name, l)
				if l.Name != "whatever" {
					return sh, fmt.Errorf("SetLink changed the link it was given")
				}
			}
			c.logf("set %q", name)
			if err == nil {
				m[name] = entryOf(nd)
				pool = append(pool, name)
			}
		case op < 8:
			var l *ipld.Link
			l, err = sh.Take(bg, name)
			c.logf("take %q", name)
			_, had := m[name]
			if err == nil {
				if !had {
					return sh, fmt.Errorf("removing absent %q succeeded", name)
				}
				if e := prev(name, l, "take"); e != nil {
					return sh, e
				}
				delete(m, name)
			} else if !had && err != os.ErrNotExist && !fault && !strings.Contains(err.Error(), "too deep") {
				return sh, fmt.Errorf("removing absent %q: %v", name, err)
			} else if had && !fault {
				return sh, fmt.Errorf("removing %q: %v", name, err)
			}
			if err != nil {
				err = nil
			}
		case op < 9:
			_, had := m[name]
			err = sh.Remove(bg, name)
			c.logf("remove %q", name)
			if err == nil {
				if !had {
					return sh, fmt.Errorf("removing absent %q succeeded", name)
				}
				delete(m, name)
			} else if had && !fault {
				return sh, fmt.Errorf("removing %q: %v", name, err)
			}
			err = nil
		case op < 11:
			var l *ipld.Link
			l, err = sh.Find(bg, name)
			e, had := m[name]
			if err == nil {
				if !had || !l.Cid.Equals(e.c) || l.Size != e.size {
					return sh, fmt.Errorf("find %q: wrong link (entry exists: %v)", name, had)
				}
			} else {
				if had && !fault {
					return sh, fmt.Errorf("find %q: %v", name, err)
				}
				if !had && !fault && err != os.ErrNotExist && !strings.Contains(err.Error(), "too deep") {
					return sh, fmt.Errorf("find absent %q: %v", name, err)
				}
			}
			err = nil
		case op < 12:
			var ls []*ipld.Link
			s.failAdd, s.failGet = 0, 0
			ls, err = sh.EnumLinks(bg)
			c.logf("enum")
			if err == nil {
				if e := m.compare(ls); e != nil {
					return sh, e
				}
			}
		case op < 13:
			s.failAdd, s.failGet = 0, 0
			_, err = sh.Node() // save, go on with the one in memory
			c.logf("save")
		default:
			s.failAdd, s.failGet = 0, 0
			var sh2 *hamt.Shard
			sh2, err = saveLoad(s, sh)
			c.logf("reload")
			if err == nil {
				sh = sh2
			}
		}
		s.failAdd, s.failGet = 0, 0
		if err != nil && !fault && !strings.Contains(err.Error(), "too deep") {
			return sh, err
		}
	}
	return sh, nil
}

func checkAll(sh *hamt.Shard, m dirModel) error {
	for n, e := range m {
		l, err := sh.Find(bg, n)
		if err != nil {
			return fmt.Errorf("find %q: %v", n, err)
		}
		if !l.Cid.Equals(e.c) || l.Size != e.size {
			return fmt.Errorf("find %q: wrong link", n)
		}
	}
	return nil
}

func newShard(c *runT, s *store) (*hamt.Shard, int, cid.Builder) {
	w := widths[c.r.Intn(len(widths))]
	sh, err := hamt.NewShard(s, w)
	must(err)
	b := builders(c.r)
	if b != nil {
		sh.SetCidBuilder(b)
	}
	return sh, w, b
}

func TestC16(t *testing.T) {
	run(t, "C16", func(c *runT) error {
		k := hashKinds[c.r.Intn(len(hashKinds))]
		return withHash(k, func() error {
			s := newStore()
			sh, w, _ := newShard(c, s)
			c.logf("width %d, hash %d", w, k)
			m := dirModel{}
			faults := c.r.Intn(2) == 0
			if c.r.Intn(8) == 0 { // a bigger one
				for i := 0; i < 200; i++ {
					n := genName(c.r)
					nd := genNode(c.r)
					if err := sh.Set(bg, n, nd); err == nil {
						m[n] = entryOf(nd)
					} else if !strings.Contains(err.Error(), "too deep") {
						return err
					}
				}
				if c.r.Intn(2) == 0 {
					sh2, err := saveLoad(s, sh)
					if err != nil {
						return err
					}
					sh = sh2
				}
			}
			sh, err := hamtHistory(c, s, sh, m, 10+c.r.Intn(60), faults)
			if err != nil {
				return err
			}
			if err := checkAll(sh, m); err != nil {
				return err
			}
			ls, err := sh.EnumLinks(bg)
			if err != nil {
				return err
			}
			if err := m.compare(ls); err != nil {
				return err
			}
			// the empty name is no entry name: it must not be taken and lost
			if c.r.Intn(4) == 0 {
				nd := genNode(c.r)
				if err := sh.Set(bg, "", nd); err == nil {
					l, err := sh.Find(bg, "")
					if err != nil || !l.Cid.Equals(nd.Cid()) {
						return fmt.Errorf("an entry set under the empty name is lost: %v", err)
					}
					m[""] = entryOf(nd)
				}
				sh2, err := saveLoad(s, sh)
				if err != nil {
					return err
				}
				ls, err := sh2.EnumLinks(bg)
				if err != nil {
					return fmt.Errorf("after setting under the empty name: %v", err)
				}
				if err := m.compare(ls); err != nil {
					return fmt.Errorf("after setting under the empty name: %v", err)
				}
			}
			c.note(fmt.Sprint(k, w, len(m)))
			return nil
		})
	})
}

// canon builds the tree of shards for a set of entries from the description
// of the format alone.
func canon(s *store, m dirModel, names []string, w, depth int, b cid.Builder) (*mdag.ProtoNode, error) {
	lg := 0
	for 1<<lg < w {
		lg++
	}
	at := func(n string) (int, error) {
		h := internal.HAMTHashFunction([]byte(n))
		x := 0
		for i := depth * lg; i < (depth+1)*lg; i++ {
			if i/8 >= len(h) {
				return 0, errors.New("out of bits")
			}
			x = x<<1 | int(h[i/8]>>(7-i%8))&1
		}
		return x, nil
	}
	bk := map[int][]string{}
	var idx []int
	for _, n := range names {
		i, err := at(n)
		if err != nil {
			return nil, err
		}
		if bk[i] == nil {
			idx = append(idx, i)
		}
		bk[i] = append(bk[i], n)
	}
	sort.Ints(idx)
	pad := len(fmt.Sprintf("%X", w-1))
	nd := new(mdag.ProtoNode)
	nd.SetCidBuilder(b)
	field := make([]byte, w/8)
	for _, i := range idx {
		field[w/8-1-i/8] |= 1 << (i % 8)
		pre := fmt.Sprintf("%0*X", pad, i)
		if len(bk[i]) == 1 {
			n := bk[i][0]
			must(nd.AddRawLink(pre+n, &ipld.Link{Cid: m[n].c, Size: m[n].size}))
			continue
		}
		sub, err := canon(s, m, bk[i], w, depth+1, b)
		if err != nil {
			return nil, err
		}
		sz, err := sub.Size()
		must(err)
		must(nd.AddRawLink(pre, &ipld.Link{Cid: sub.Cid(), Size: sz}))
	}
	for len(field) > 0 && field[0] == 0 {
		field = field[1:]
	}
	typ, ht, fo := pb.Data_HAMTShard, uint64(0x22), uint64(w)
	p := &pb.Data{Type: &typ, HashType: &ht, Fanout: &fo}
	if len(field) > 0 {
		p.Data = field
	}
	d, err := proto.Marshal(p)
	must(err)
	nd.SetData(d)
	return nd, nil
}

// isCanon compares a directory's stored form with the only form its entries have.
func isCanon(s *store, m dirModel, w int, b cid.Builder, nd ipld.Node) error {
	cn, err := canon(s, m, m.names(), w, 0, b)
	if err != nil {
		return nil // hash too short for these names
	}
	if cn.Cid().Equals(nd.Cid()) {
		return nil
	}
	return fmt.Errorf("directory with %d entries serializes to %s; the form of these entries is %s", len(m), nd.Cid(), cn.Cid())
}

func TestC17(t *testing.T) {
	run(t, "C17", func(c *runT) error {
		k := hashKinds[c.r.Intn(len(hashKinds)-1)]
		return withHash(k, func() error {
			s := newStore()
			sh, w, b := newShard(c, s)
			c.logf("width %d, hash %d", w, k)
			m := dirModel{}
			sh, err := hamtHistory(c, s, sh, m, 10+c.r.Intn(60), c.r.Intn(3) == 0)
			if err != nil {
				return err
			}
			// remove some more, so that sub-shards collapse
			for _, n := range m.names() {
				if c.r.Intn(2) == 0 {
					if err := sh.Remove(bg, n); err != nil {
						return err
					}
					c.logf("remove %q", n)
					delete(m, n)
				}
			}
			nd, err := sh.Node()
			if err != nil {
				return err
			}
			fresh, err := hamt.NewShard(s, w)
			must(err)
			if b != nil {
				fresh.SetCidBuilder(b)
			}
			ns := m.names()
			c.r.Shuffle(len(ns), func(i, j int) { ns[i], ns[j] = ns[j], ns[i] })
			for _, n := range ns {
				if err := fresh.SetLink(bg, n, &ipld.Link{Cid: m[n].c, Size: m[n].size}); err != nil {
					return fmt.Errorf("rebuilding: %v", err)
				}
			}
			fd, err := fresh.Node()
			if err != nil {
				return err
			}
			if !fd.Cid().Equals(nd.Cid()) {
				return fmt.Errorf("directory with %d entries serializes to %s, one built afresh with the same entries to %s", len(m), nd.Cid(), fd.Cid())
			}
			if err := isCanon(s, m, w, b, nd); err != nil {
				return err
			}
			c.note(fmt.Sprint(k, w, len(m)))
			return nil
		})
	})
}

func TestC19(t *testing.T) {
	run(t, "C19", func(c *runT) error {
		k := hashKinds[c.r.Intn(len(hashKinds)-1)]
		return withHash(k, func() error {
			s := newStore()
			sh, w, b := newShard(c, s)
			c.logf("width %d, hash %d", w, k)
			m := dirModel{}
			sh, err := hamtHistory(c, s, sh, m, 10+c.r.Intn(50), false)
			if err != nil {
				return err
			}
			// reload, then load or change only some parts
			if c.r.Intn(3) > 0 {
				sh, err = saveLoad(s, sh)
				if err != nil {
					return err
				}
				c.logf("reload")
				for i := c.r.Intn(4); i > 0; i-- {
					n := genName(c.r)
					if c.r.Intn(2) == 0 {
						sh.Find(bg, n)
						c.logf("find %q", n)
					} else if nd := genNode(c.r); sh.Set(bg, n, nd) == nil {
						c.logf("set %q", n)
						m[n] = entryOf(nd)
					}
				}
				if c.r.Intn(3) == 0 {
					sh.ForEachLink(bg, func(*ipld.Link) error { return nil })
					c.logf("each")
				}
			}
			nd, err := sh.Node()
			if err != nil {
				return err
			}
			out := dirModel{}
			if err := s.shardEntries(nd.Cid(), w, out, true); err != nil {
				return err
			}
			if err := sameModel(m, out); err != nil {
				return fmt.Errorf("serialized form: %v", err)
			}
			if b != nil {
				want, got := b.(cid.Prefix), nd.Cid().Prefix()
				if want.Version != got.Version || want.Codec != got.Codec {
					return fmt.Errorf("serialized with identifier version %d, builder asks for %d", got.Version, want.Version)
				}
			}
			// every shard ever written
			for _, x := range s.written() {
				n, err := s.load(x)
				must(err)
				pn, ok := n.(*mdag.ProtoNode)
				if !ok {
					continue
				}
				if f, err := ft.FSNodeFromBytes(pn.Data()); err == nil && f.Type() == ft.THAMTShard {
					if err := s.shardEntries(x, w, dirModel{}, true); err != nil {
						return err
					}
				}
			}
			ld, err := s.load(nd.Cid())
			must(err)
			s2, err := hamt.NewHamtFromDag(s, ld)
			if err != nil {
				return err
			}
			if c.r.Intn(2) == 0 {
				if err := checkAll(s2, m); err != nil {
					return fmt.Errorf("after loading: %v", err)
				}
			}
			ls, err := s2.EnumLinks(bg)
			if err != nil {
				return err
			}
			if err := m.compare(ls); err != nil {
				return fmt.Errorf("after loading: %v", err)
			}
			nd2, err := s2.Node()
			if err != nil {
				return err
			}
			if !nd2.Cid().Equals(nd.Cid()) {
				return fmt.Errorf("loading and saving changed the directory from %s to %s", nd.Cid(), nd2.Cid())
			}
			c.note(fmt.Sprint(k, w, len(m)))
			return nil
		})
	})
}

// TestC18 observes the bit groups from outside: names get arbitrary hashes, and
// the position of every entry must be the one their consecutive big-endian
// groups of bits say; running out of bits must be an error.
func TestC18(t *testing.T) {
	run(t, "C18", func(c *runT) error {
		for i := 0; i < 20; i++ {
			v := c.r.Intn(70) - 3
			switch c.r.Intn(3) {
			case 0:
				v = 1 << uint(c.r.Intn(63))
			case 1:
				v = 1<<uint(c.r.Intn(63)) + c.r.Intn(5) - 2
			}
			lg, err := hamt.Logtwo(v)
			ok := v > 0 && v&(v-1) == 0
			if (err == nil) != ok || ok && (lg < 0 || lg > 62 || 1<<uint(lg) != v) {
				return fmt.Errorf("Logtwo(%d) = %d, %v", v, lg, err)
			}
			if v < 4096 {
				if sh, err := hamt.NewShard(newStore(), v); err == nil && !ok {
					return fmt.Errorf("a table width of %d is accepted (%v)", v, sh != nil)
				}
			}
		}
		hs := map[string][]byte{}
		var names []string
		for i := 1 + c.r.Intn(12); i > 0; i-- {
			h := make([]byte, c.r.Intn(9))
			c.r.Read(h)
			if len(names) > 0 && c.r.Intn(2) == 0 { // share a prefix with another name
				o := hs[names[c.r.Intn(len(names))]]
				k := copy(h, o)
				if k > 0 && c.r.Intn(2) == 0 {
					h[k-1] ^= 1 << uint(c.r.Intn(8))
				}
			} else if c.r.Intn(4) == 0 {
				for j := range h {
					h[j] = 0xff
				}
			}
			n := fmt.Sprintf("k%d", i)
			hs[n] = h
			names = append(names, n)
		}
		old := internal.HAMTHashFunction
		internal.HAMTHashFunction = func(b []byte) []byte { return append([]byte(nil), hs[string(b)]...) }
		defer func() { internal.HAMTHashFunction = old }()
		w := 8 << uint(c.r.Intn(8))
		s := newStore()
		sh, err := hamt.NewShard(s, w)
		must(err)
		m := dirModel{}
		for _, n := range names {
			nd := genNode(c.r)
			e := entryOf(nd)
			m[n] = e
			want, cerr := canon(s, m, m.names(), w, 0, nil)
			c.logf("width %d: set %q with hash %x", w, n, hs[n])
			err := sh.SetLink(bg, n, &ipld.Link{Cid: e.c, Size: e.size})
			if (err == nil) != (cerr == nil) {
				return fmt.Errorf("width %d, hashes %x: setting %q: %v; its bits: %v", w, hs, n, err, cerr)
			}
			if err != nil {
				break
			}
			got, err := sh.Node()
			if err != nil {
				return err
			}
			if !got.Cid().Equals(want.Cid()) {
				return fmt.Errorf("width %d, hashes %x: an entry is not where the bits of its hash put it", w, hs)
			}
			for _, x := range names {
				l, err := sh.Find(bg, x)
				if e, in := m[x]; in && (err != nil || !l.Cid.Equals(e.c)) {
					return fmt.Errorf("width %d, hashes %x: looking up %q: %v", w, hs, x, err)
				} else if !in && err == nil {
					return fmt.Errorf("width %d, hashes %x: looking up %q found an entry", w, hs, x)
				}
			}
		}
		c.note(fmt.Sprint(w, len(m)))
		return nil
	})
}
