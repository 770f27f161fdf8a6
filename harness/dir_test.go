package zverif

import (
	"context"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"
	"time"

	ft "github.com/ipfs/go-unixfs"
	unixfile "github.com/ipfs/go-unixfs/file"
	"github.com/ipfs/go-unixfs/hamt"
	uio "github.com/ipfs/go-unixfs/io"

	cid "github.com/ipfs/go-cid"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
)

func linkSize(name string, e entry) int { return len(name) + e.c.ByteLen() }

func (m dirModel) total() (n int) {
	for k, e := range m {
		n += linkSize(k, e)
	}
	return
}

func withSharding(size, width int, f func() error) error {
	os1, ow := uio.HAMTShardingSize, uio.DefaultShardWidth
	defer func() { uio.HAMTShardingSize, uio.DefaultShardWidth = os1, ow }()
	uio.HAMTShardingSize, uio.DefaultShardWidth = size, width
	return f()
}

func isFlat(d uio.Directory) bool {
	if dd, ok := d.(*uio.DynamicDirectory); ok {
		d = dd.Directory
	}
	_, ok := d.(*uio.BasicDirectory)
	return ok
}

func collectAsync(ch <-chan ft.LinkResult) (ls []*ipld.Link, err error) {
	for r := range ch {
		if r.Err != nil {
			err = r.Err
			continue
		}
		ls = append(ls, r.Link)
	}
	return
}

func (m dirModel) checkDir(c *runT, d uio.Directory) error {
	for n, e := range m {
		nd, err := d.Find(bg, n)
		if err != nil {
			return fmt.Errorf("find %q: %v", n, err)
		}
		if !nd.Cid().Equals(e.c) {
			return fmt.Errorf("find %q gives another node", n)
		}
	}
	switch c.r.Intn(3) {
	case 0:
		ls, err := d.Links(bg)
		if err != nil {
			return err
		}
		return m.compare(ls)
	case 1:
		var ls []*ipld.Link
		err := d.ForEachLink(bg, func(l *ipld.Link) error { cp := *l; ls = append(ls, &cp); return nil })
		if err != nil {
			return err
		}
		return m.compare(ls)
	}
	ls, err := collectAsync(d.EnumLinksAsync(bg))
	if err != nil {
		return err
	}
	return m.compare(ls)
}

func reloadDir(s *store, d uio.Directory) (uio.Directory, ipld.Node, error) {
	nd, err := d.GetNode()
	if err != nil {
		return nil, nil, err
	}
	if err := s.Add(bg, nd); err != nil {
		return nil, nil, err
	}
	ld, err := s.Get(bg, nd.Cid())
	if err != nil {
		return nil, nil, err
	}
	d2, err := uio.NewDirectoryFromNode(s, ld)
	return d2, ld, err
}

// C21: directories are maps; their form follows the entries.
func TestC21(t *testing.T) {
	run(t, "C21", func(c *runT) error {
		r := c.r
		size := 0
		if r.Intn(4) > 0 {
			size = 60 + r.Intn(500)
		}
		width := widths[r.Intn(len(widths))]
		return withSharding(size, width, func() error {
			s := newStore()
			d := uio.NewDirectory(s)
			b := builders(r)
			if b != nil {
				d.SetCidBuilder(b)
			}
			c.logf("threshold %d, width %d", size, width)
			m := dirModel{}
			faults := r.Intn(3) == 0
			big := false // the total was at or above the threshold when it became or was loaded sharded
			switches := 0
			for i := 0; i < 10+r.Intn(60); i++ {
				var pool []string = m.names()
				name := genName(r)
				if r.Intn(4) == 0 {
					name += strings.Repeat("y", r.Intn(40))
				}
				if len(pool) > 0 && r.Intn(2) == 0 {
					name = pool[r.Intn(len(pool))]
				}
				old, had := m[name]
				before := m.total()
				flat := isFlat(d)
				fault := false
				if faults && r.Intn(5) == 0 {
					fault = true
					if r.Intn(3) == 0 {
						s.failAdd = s.adds + 1
					} else {
						s.failGet = s.gets + 1 + r.Intn(3)
					}
				}
				op := r.Intn(11)
				var err error
				changed := false
				switch {
				case op < 5:
					nd := genNode(r)
					s.put(nd)
					err = d.AddChild(bg, name, nd)
					c.logf("add %q", name)
					if err == nil {
						m[name] = entryOf(nd)
						changed = true
					}
				case op < 8:
					err = d.RemoveChild(bg, name)
					c.logf("remove %q", name)
					if err == nil {
						if !had {
							return fmt.Errorf("removing absent %q succeeded", name)
						}
						delete(m, name)
						changed = true
					} else if !had && (err == os.ErrNotExist || strings.Contains(err.Error(), "too deep")) {
						err = nil
					}
				case op < 9:
					nd, e := d.Find(bg, name)
					if e == nil && (!had || !nd.Cid().Equals(old.c)) {
						return fmt.Errorf("find %q: wrong node (entry exists: %v)", name, had)
					}
					if e != nil && had {
						err = e
					}
					if e != nil && !had && e != os.ErrNotExist && !fault {
						return fmt.Errorf("find absent %q: %v", name, e)
					}
				case op < 10:
					s.failAdd, s.failGet = 0, 0
					d2, _, e := reloadDir(s, d)
					if e != nil {
						return fmt.Errorf("reload: %v", e)
					}
					c.logf("reload")
					if isFlat(d2) != isFlat(d) {
						return fmt.Errorf("reloading changed the form")
					}
					d = d2
					if !flat {
						big = size != 0 && before >= size
					}
				default:
					s.failAdd, s.failGet = 0, 0
					if e := m.checkDir(c, d); e != nil {
						return e
					}
				}
				s.failAdd, s.failGet = 0, 0
				if err != nil {
					if !fault {
						return fmt.Errorf("%s: %v", c.hist[len(c.hist)-1], err)
					}
					if isFlat(d) != flat {
						return fmt.Errorf("a failed operation changed the form")
					}
					continue
				}
				after := m.total()
				now := isFlat(d)
				if now != flat {
					switches++
				}
				if !changed || size == 0 {
					if now != flat {
						return fmt.Errorf("%s changed the form (option %d)", c.hist[len(c.hist)-1], size)
					}
					continue
				}
				what := fmt.Sprintf("%s: total %d -> %d, threshold %d", c.hist[len(c.hist)-1], before, after, size)
				switch {
				case flat && op < 5:
					if now != (after < size) {
						return fmt.Errorf("%s: flat directory became sharded: %v", what, !now)
					}
					if !now {
						big = true
					}
				case flat:
					if !now {
						return fmt.Errorf("%s: removal made the directory sharded", what)
					}
				default:
					if after >= size && now {
						return fmt.Errorf("%s: sharded directory became flat", what)
					}
					if after >= size {
						big = true
					} else if before >= size && big && !now {
						return fmt.Errorf("%s: sharded directory did not become flat", what)
					}
				}
			}
			if err := m.checkDir(c, d); err != nil {
				return err
			}
			if b != nil {
				nd, err := d.GetNode()
				if err != nil {
					return err
				}
				if w := b.(cid.Prefix); nd.Cid().Prefix().Version != w.Version {
					return fmt.Errorf("the identifier version changed to %d", nd.Cid().Prefix().Version)
				}
			}
			c.note(fmt.Sprint(size == 0, width, len(m), switches))
			return nil
		})
	})
}

// C14, directories: the node a directory was loaded from never changes.
func TestC14dir(t *testing.T) {
	run(t, "C14", func(c *runT) error {
		r := c.r
		size := 0
		if r.Intn(2) == 0 {
			size = 60 + r.Intn(500)
		}
		return withSharding(size, widths[r.Intn(len(widths))], func() error {
			s := newStore()
			d := uio.NewDirectory(s)
			for i := r.Intn(25); i > 0; i-- {
				nd := genNode(r)
				s.put(nd)
				if err := d.AddChild(bg, genName(r), nd); err != nil {
					return err
				}
			}
			var src ipld.Node
			d, src, err := reloadDir(s, d)
			if err != nil {
				return err
			}
			// with and without a cached encoding
			if pn, ok := src.(*mdag.ProtoNode); ok && r.Intn(2) == 0 {
				src = pn.Copy()
				if d, err = uio.NewDirectoryFromNode(s, src); err != nil {
					return err
				}
			}
			before := takeSnap(src, "the node the directory was loaded from")
			var names []string
			ls, err := d.Links(bg)
			if err != nil {
				return err
			}
			for _, l := range ls {
				names = append(names, l.Name)
			}
			sort.Strings(names)
			c.logf("%d entries, flat %v", len(names), isFlat(d))
			for i := 1 + r.Intn(15); i > 0; i-- {
				n := genName(r)
				if len(names) > 0 && r.Intn(2) == 0 {
					n = names[r.Intn(len(names))]
				}
				switch r.Intn(6) {
				case 0, 1:
					nd := genNode(r)
					s.put(nd)
					c.logf("add %q", n)
					d.AddChild(bg, n, nd)
				case 2, 3:
					c.logf("remove %q", n)
					d.RemoveChild(bg, n)
				case 4:
					c.logf("setbuilder")
					d.SetCidBuilder(mdag.V1CidPrefix())
				default:
					c.logf("each, getnode")
					d.ForEachLink(bg, func(*ipld.Link) error { return nil })
					d.GetNode()
				}
			}
			if err := before.check(); err != nil {
				return err
			}
			c.note(fmt.Sprint(len(names), isFlat(d)))
			return nil
		})
	})
}

// makeDir builds a directory in either form, as loaded from storage.
func makeDir(c *runT, s *store, n int, deep bool) (uio.Directory, ipld.Node, dirModel, error) {
	r := c.r
	m := dirModel{}
	var d uio.Directory
	flat := r.Intn(3) == 0
	if flat {
		d = uio.NewDirectory(s)
	} else {
		sh, err := hamt.NewShard(s, widths[r.Intn(len(widths))])
		must(err)
		nd, err := sh.Node()
		must(err)
		d, err = uio.NewDirectoryFromNode(s, nd)
		if err != nil {
			return nil, nil, nil, err
		}
	}
	for i := 0; i < n; i++ {
		nm := genName(r)
		nd := genNode(r)
		s.put(nd)
		if err := d.AddChild(bg, nm, nd); err != nil {
			if strings.Contains(err.Error(), "too deep") {
				continue
			}
			return nil, nil, nil, err
		}
		m[nm] = entryOf(nd)
	}
	c.logf("flat %v, %d entries", flat, len(m))
	if r.Intn(4) == 0 { // as built, all in memory
		nd, err := d.GetNode()
		return d, nd, m, err
	}
	d2, nd, err := reloadDir(s, d)
	return d2, nd, m, err
}

// C20: listings are complete or end in an error.
func TestC20(t *testing.T) {
	run(t, "C20", func(c *runT) error {
		r := c.r
		k := []int{0, 0, 0, 2}[r.Intn(4)]
		return withHash(k, func() error {
			return withSharding(0, 8, func() error {
				s := newStore()
				n := r.Intn(60)
				if r.Intn(10) == 0 {
					n = 400
				}
				d, nd, m, err := makeDir(c, s, n, true)
				if err != nil {
					return err
				}
				snap := takeSnap(nd, "the listed directory")
				for round := 0; round < 3; round++ {
					ctx, cancel := context.WithCancel(bg)
					what := r.Intn(6)
					mode := r.Intn(5)
					stop := -1
					switch mode {
					case 0:
					case 1:
						s.failGet = s.gets + 1 + r.Intn(12)
					case 2:
						at := s.gets + 1 + r.Intn(8)
						s.onGet = func(i int) {
							if i == at {
								cancel()
							}
						}
					case 3:
						stop = r.Intn(len(m) + 1) // cancel after so many entries were seen
					case 4:
						cancel()
					}
					c.logf("listing %d mode %d stop %d", what, mode, stop)
					var ls []*ipld.Link
					got := func(l *ipld.Link) {
						cp := *l
						ls = append(ls, &cp)
						if len(ls) == stop {
							cancel()
						}
					}
					var stopErr error
					f := func() error {
						switch what {
						case 0:
							return d.ForEachLink(ctx, func(l *ipld.Link) error { got(l); return nil })
						case 1:
							x, err := d.Links(ctx)
							ls = x
							return err
						case 2:
							var e error
							for x := range d.EnumLinksAsync(ctx) {
								if x.Err != nil {
									e = x.Err
								} else {
									got(x.Link)
								}
							}
							return e
						case 3:
							f, err := unixfile.NewUnixfsFile(ctx, s, nd)
							if err != nil {
								return err
							}
							it := f.(files.Directory).Entries()
							names := map[string]bool{}
							for it.Next() {
								nm := it.Name()
								if _, ok := m[nm]; !ok || names[nm] {
									stopErr = fmt.Errorf("iteration yields %q (twice: %v)", nm, names[nm])
								}
								names[nm] = true
								got(&ipld.Link{Name: nm, Cid: m[nm].c, Size: m[nm].size})
							}
							return it.Err()
						case 4: // an error from the callback ends the listing with that error
							if len(m) == 0 {
								return nil
							}
							at, i := r.Intn(len(m)), 0
							mine := errors.New("mine")
							err := d.ForEachLink(bg, func(l *ipld.Link) error {
								i++
								if i > at {
									if i > at+1 {
										stopErr = fmt.Errorf("callback called again after it failed")
									}
									return mine
								}
								return nil
							})
							if err == nil {
								stopErr = fmt.Errorf("the error of the callback was dropped")
							}
							return errors.New("not a complete listing")
						default:
							sh, err := hamt.NewHamtFromDag(s, nd)
							if err != nil {
								x, err := d.Links(ctx)
								ls = x
								return err
							}
							x, err := sh.EnumLinks(ctx)
							ls = x
							return err
						}
					}
					err := within(20*time.Second, f)
					s.failGet, s.onGet = 0, nil
					cancel()
					if stopErr != nil {
						return stopErr
					}
					if err == nil {
						if e := m.compare(ls); e != nil {
							return fmt.Errorf("listing %d (mode %d) reports success: %v", what, mode, e)
						}
					} else if strings.Contains(err.Error(), "panic") || strings.Contains(err.Error(), "no result within") {
						return err
					} else {
						if mode == 0 && what != 3 && what != 4 {
							return fmt.Errorf("listing %d failed: %v", what, err)
						}
						// what was delivered before the error is right too
						seen := map[string]bool{}
						for _, l := range ls {
							if e, ok := m[l.Name]; !ok || seen[l.Name] || !e.c.Equals(l.Cid) {
								return fmt.Errorf("listing %d: wrong entry %q before the error", what, l.Name)
							}
							seen[l.Name] = true
						}
					}
				}
				// listing has not changed the directory
				if err := snap.check(); err != nil {
					return err
				}
				nd2, err := d.GetNode()
				if err != nil {
					return err
				}
				if !nd2.Cid().Equals(nd.Cid()) {
					return fmt.Errorf("listing changed the directory from %s to %s", nd.Cid(), nd2.Cid())
				}
				if err := m.checkDir(c, d); err != nil {
					return err
				}
				c.note(fmt.Sprint(k, len(m), isFlat(d)))
				return nil
			})
		})
	})
}

// C24: resolving one segment agrees with lookup.
func TestC24(t *testing.T) {
	run(t, "C24", func(c *runT) error {
		r := c.r
		k := []int{0, 0, 0, 2}[r.Intn(4)]
		return withHash(k, func() error {
			return withSharding(0, 8, func() error {
				s := newStore()
				d, nd, m, err := makeDir(c, s, r.Intn(50), false)
				if err != nil {
					return err
				}
				for i := 0; i < 20; i++ {
					name := genName(r)
					if ns := m.names(); len(ns) > 0 && r.Intn(2) == 0 {
						name = ns[r.Intn(len(ns))]
					}
					rest := []string{"x", "y", "z"}[:r.Intn(4)]
					fault := r.Intn(8) == 0
					if fault {
						s.failGet = s.gets + 1
					}
					gets := s.gets
					l, left, err := uio.ResolveUnixfsOnce(bg, s, nd, append([]string{name}, rest...))
					hit := fault && s.gets > gets
					s.failGet = 0
					e, had := m[name]
					c.logf("resolve %q", name)
					if err == nil {
						if !had {
							return fmt.Errorf("resolving absent %q succeeded", name)
						}
						if !l.Cid.Equals(e.c) {
							return fmt.Errorf("resolving %q gives another link", name)
						}
						if fmt.Sprint(left) != fmt.Sprint(rest) {
							return fmt.Errorf("resolving %q leaves %q, want %q", name, left, rest)
						}
						f, err := d.Find(bg, name)
						if err != nil || !f.Cid().Equals(l.Cid) {
							return fmt.Errorf("resolving %q disagrees with lookup: %v", name, err)
						}
						continue
					}
					nf := err == os.ErrNotExist || errors.Is(err, mdag.ErrLinkNotFound) || strings.Contains(err.Error(), "too deep")
					if had && !hit {
						return fmt.Errorf("resolving %q: %v", name, err)
					}
					if !had && !hit && !nf {
						return fmt.Errorf("resolving absent %q: %v", name, err)
					}
					if hit && nf {
						return fmt.Errorf("resolving %q during a storage failure reports not-found", name)
					}
				}
				// a node that is not UnixFS is resolved by its own links
				pn := mdag.NodeWithData([]byte("\xff\xff\xffnot unixfs"))
				ch := genNode(r)
				must(pn.AddNodeLink("a", ch))
				l, left, err := uio.ResolveUnixfsOnce(bg, s, pn, []string{"a", "b"})
				if err != nil || !l.Cid.Equals(ch.Cid()) || fmt.Sprint(left) != "[b]" {
					return fmt.Errorf("node that is not UnixFS: %v %v %v", l, left, err)
				}
				if _, _, err := uio.ResolveUnixfsOnce(bg, s, pn, []string{"b"}); err == nil {
					return fmt.Errorf("node that is not UnixFS: absent link resolved")
				}
				if _, _, err := uio.ResolveUnixfsOnce(bg, s, mdag.NewRawNode([]byte("x")), []string{"b"}); err == nil {
					return fmt.Errorf("raw node: absent link resolved")
				}
				c.note(fmt.Sprint(k, len(m), isFlat(d)))
				return nil
			})
		})
	})
}
