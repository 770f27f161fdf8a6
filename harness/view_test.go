package zverif

import (
	"fmt"
	"io"
	"testing"
	"time"

	ft "github.com/ipfs/go-unixfs"
	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/importer/balanced"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"

	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
)

type vtree struct {
	nd   ipld.Node
	dir  map[string]*vtree
	link *string
	data []byte
}

func genView(c *runT, s *store, depth int) *vtree {
	r := c.r
	k := r.Intn(8)
	if depth == 0 && k >= 5 {
		k = r.Intn(5)
	}
	v := &vtree{}
	switch k {
	case 0:
		v.data = genBytes(r, r.Intn(12))
		v.nd = mdag.NewRawNode(v.data)
	case 1:
		v.data = genBytes(r, r.Intn(12))
		if r.Intn(2) == 0 {
			v.nd = mdag.NodeWithData(ft.FilePBData(v.data, uint64(len(v.data))))
		} else {
			v.nd = mdag.NodeWithData(ft.WrapData(v.data))
		}
	case 2:
		t := genName(r)
		if r.Intn(4) == 0 {
			t = "/a/../b"
		}
		v.link = &t
		b, err := ft.SymlinkData(t)
		must(err)
		v.nd = mdag.NodeWithData(b)
	case 3, 4:
		p := h.DagBuilderParams{Dagserv: s, Maxlinks: 2 + r.Intn(4), RawLeaves: r.Intn(2) == 0}
		cs := genChunks(r, r.Intn(15), 5)
		db, err := p.New(&chunks{cs: cs})
		must(err)
		if k == 3 {
			v.nd, err = balanced.Layout(db)
		} else {
			v.nd, err = trickle.Layout(db)
		}
		must(err)
		v.data = join(cs)
	default:
		v.dir = map[string]*vtree{}
		d := uio.NewDirectory(s)
		n := r.Intn(7)
		if r.Intn(6) == 0 {
			n = 30
		}
		for i := 0; i < n; i++ {
			ch := genView(c, s, depth-1)
			s.put(ch.nd)
			nm := genName(r)
			must(d.AddChild(bg, nm, ch.nd))
			v.dir[nm] = ch
		}
		var err error
		v.nd, err = d.GetNode()
		must(err)
	}
	s.put(v.nd)
	ld, err := s.load(v.nd.Cid())
	must(err)
	v.nd = ld
	return v
}

// compareView walks the file tree; loads fail when fault is set.
func compareView(c *runT, s *store, v *vtree, f files.Node, at string) error {
	switch x := f.(type) {
	case files.Directory:
		if v.dir == nil {
			return fmt.Errorf("%s: shown as a directory", at)
		}
		sz, err := x.Size()
		if want, _ := v.nd.Size(); err != nil || uint64(sz) != want {
			return fmt.Errorf("%s: directory size %d, cumulative size of its node %d", at, sz, want)
		}
		it := x.Entries()
		seen := map[string]bool{}
		for it.Next() {
			nm := it.Name()
			ch, ok := v.dir[nm]
			if !ok || seen[nm] {
				return fmt.Errorf("%s: iteration yields %q (already seen: %v)", at, nm, seen[nm])
			}
			seen[nm] = true
			if err := compareView(c, s, ch, it.Node(), at+"/"+nm); err != nil {
				return err
			}
		}
		if it.Err() != nil {
			return it.Err()
		}
		if it.Next() {
			return fmt.Errorf("%s: iteration goes on after its end", at)
		}
		if len(seen) != len(v.dir) {
			return fmt.Errorf("%s: iteration yields %d of %d entries without an error", at, len(seen), len(v.dir))
		}
	case *files.Symlink:
		if v.link == nil {
			return fmt.Errorf("%s: shown as a symlink", at)
		}
		if x.Target != *v.link {
			return fmt.Errorf("%s: symlink target %q, stored %q", at, x.Target, *v.link)
		}
	case files.File:
		if v.dir != nil || v.link != nil {
			return fmt.Errorf("%s: shown as a file", at)
		}
		sz, err := x.Size()
		if err != nil || int(sz) != len(v.data) {
			return fmt.Errorf("%s: size %d (%v), content length %d", at, sz, err, len(v.data))
		}
		if n := len(v.data); n > 0 && c.r.Intn(3) == 0 {
			o := c.r.Intn(n)
			if _, err := x.Seek(int64(o), io.SeekStart); err != nil {
				return err
			}
			b, err := io.ReadAll(x)
			if err != nil {
				return err
			}
			if err := diffBytes(at+" after seek", b, v.data[o:]); err != nil {
				return err
			}
			if _, err := x.Seek(0, io.SeekStart); err != nil {
				return err
			}
		}
		b, err := io.ReadAll(x)
		if err != nil {
			return err
		}
		return diffBytes(at, b, v.data)
	default:
		return fmt.Errorf("%s: shown as %T", at, f)
	}
	return nil
}

func TestC23(t *testing.T) {
	run(t, "C23", func(c *runT) error {
		r := c.r
		size := 0
		if r.Intn(2) == 0 {
			size = 80 + r.Intn(300)
		}
		return withSharding(size, []int{8, 16, 256}[r.Intn(3)], func() error {
			s := newStore()
			v := genView(c, s, 3)
			for i := 0; i < 5 && v.dir == nil; i++ {
				v = genView(c, s, 3)
			}
			c.logf("kind dir %v link %v", v.dir != nil, v.link != nil)
			open := func() (files.Node, error) { return unixfile.NewUnixfsFile(bg, s, v.nd) }
			f, err := open()
			if err != nil {
				return err
			}
			if err := within(30*time.Second, func() error { return compareView(c, s, v, f, "") }); err != nil {
				return err
			}
			// a failure to load something must show
			if v.dir != nil && len(v.dir) > 0 {
				s.failGet = s.gets + 1 + r.Intn(len(v.dir)+2)
				at := s.failGet
				f, err := open()
				if err != nil {
					return err
				}
				err = within(30*time.Second, func() error {
					it := f.(files.Directory).Entries()
					n := 0
					for it.Next() {
						if it.Node() == nil {
							return fmt.Errorf("entry without a node")
						}
						if _, ok := v.dir[it.Name()]; !ok {
							return fmt.Errorf("iteration yields %q", it.Name())
						}
						n++
					}
					failed := s.gets >= at
					if it.Err() == nil && (failed || n != len(v.dir)) {
						return fmt.Errorf("iteration yields %d of %d entries; a load failed: %v; no error", n, len(v.dir), failed)
					}
					if it.Err() != nil && it.Next() {
						return fmt.Errorf("iteration goes on after its error")
					}
					return nil
				})
				s.failGet = 0
				if err != nil {
					return err
				}
			}
			// an entry that cannot be shown ends the iteration with an error
			if v.dir != nil && r.Intn(3) == 0 {
				bad := mdag.NodeWithData([]byte("\xff\xff"))
				s.put(bad)
				d, err := uio.NewDirectoryFromNode(s, v.nd)
				must(err)
				must(d.AddChild(bg, "bad", bad))
				nd, err := d.GetNode()
				must(err)
				f, err := unixfile.NewUnixfsFile(bg, s, nd)
				if err != nil {
					return err
				}
				it := f.(files.Directory).Entries()
				for it.Next() {
					if it.Name() == "bad" {
						return fmt.Errorf("undecodable entry was shown")
					}
				}
				if it.Err() == nil {
					return fmt.Errorf("undecodable entry ended the iteration without an error")
				}
			}
			c.note(fmt.Sprint(len(v.dir), v.link != nil, len(v.data)))
			return nil
		})
	})
}
