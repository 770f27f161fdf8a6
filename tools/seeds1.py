PRELUDE = '''// A demonstration: it fails on a tree that has the change and passes without.
package internal_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"testing"

	ft "github.com/ipfs/go-unixfs"
	unixfile "github.com/ipfs/go-unixfs/file"
	hamt "github.com/ipfs/go-unixfs/hamt"
	"github.com/ipfs/go-unixfs/importer/balanced"
	"github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	"github.com/ipfs/go-unixfs/internal"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"

	cid "github.com/ipfs/go-cid"
	chunker "github.com/ipfs/go-ipfs-chunker"
	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	dag "github.com/ipfs/go-merkledag"
	mdtest "github.com/ipfs/go-merkledag/test"
)

var (
	_ = bytes.Equal
	_ = errors.New
	_ = fmt.Sprint
	_ = io.EOF
	_ = os.ErrNotExist
	_ = sort.Strings
	_ = strings.Repeat
	_ = ft.TFile
	_ = unixfile.NewUnixfsFile
	_ = hamt.NewShard
	_ = balanced.Layout
	_ = trickle.Layout
	_ = internal.HAMTHashFunction
	_ = uio.NewDagReader
	_ = mod.NewDagModifier
	_ cid.Cid
	_ files.Node
	_ ipld.Node
	_ dag.ProtoNode
	_ = mdtest.Mock
)

var ctx = context.Background()

// chunks is a splitter that delivers given chunks and then an error.
type chunks struct {
	c   [][]byte
	end error
}

func (s *chunks) NextBytes() ([]byte, error) {
	if len(s.c) == 0 {
		return nil, s.end
	}
	c := s.c[0]
	s.c = s.c[1:]
	return c, nil
}
func (s *chunks) Reader() io.Reader { return nil }

func split(n, size int) (out [][]byte, all []byte) {
	for i := 0; i < n; i++ {
		c := make([]byte, size)
		for j := range c {
			c[j] = byte(i*31 + j*7 + 1)
		}
		out = append(out, c)
		all = append(all, c...)
	}
	return
}

func builder(t *testing.T, ds ipld.DAGService, links int, raw bool, s chunker.Splitter) *helpers.DagBuilderHelper {
	p := helpers.DagBuilderParams{Maxlinks: links, RawLeaves: raw, Dagserv: ds}
	if raw {
		p.CidBuilder = dag.V1CidPrefix()
	}
	db, err := p.New(s)
	if err != nil {
		t.Fatal(err)
	}
	return db
}

func content(t *testing.T, ds ipld.DAGService, nd ipld.Node) []byte {
	r, err := uio.NewDagReader(ctx, nd, ds)
	if err != nil {
		t.Fatal(err)
	}
	b, err := io.ReadAll(r)
	if err != nil {
		t.Fatal(err)
	}
	return b
}

// sizes checks the recorded sizes of a file DAG and returns its real size.
func sizes(t *testing.T, ds ipld.DAGService, nd ipld.Node) uint64 {
	if r, ok := nd.(*dag.RawNode); ok {
		return uint64(len(r.RawData()))
	}
	fsn, err := ft.ExtractFSNode(nd)
	if err != nil {
		t.Fatal(err)
	}
	if len(nd.Links()) == 0 {
		return uint64(len(fsn.Data()))
	}
	if fsn.NumChildren() != len(nd.Links()) {
		t.Fatalf("%d sizes for %d links", fsn.NumChildren(), len(nd.Links()))
	}
	var sum uint64
	for i, l := range nd.Links() {
		c, err := l.GetNode(ctx, ds)
		if err != nil {
			t.Fatal(err)
		}
		n := sizes(t, ds, c)
		if fsn.BlockSize(i) != n {
			t.Fatalf("child %d has %d bytes, %d recorded", i, n, fsn.BlockSize(i))
		}
		sum += n
	}
	if fsn.FileSize() != sum {
		t.Fatalf("file size %d, content %d", fsn.FileSize(), sum)
	}
	return sum
}

// hashes makes the sharded directories use the first eight bytes of the name.
func hashes() func() {
	old := internal.HAMTHashFunction
	internal.HAMTHashFunction = func(v []byte) []byte {
		h := make([]byte, 8)
		copy(h, v)
		return h
	}
	return func() { internal.HAMTHashFunction = old }
}

func file(s string) *dag.ProtoNode { return dag.NodeWithData(ft.FilePBData([]byte(s), uint64(len(s)))) }
'''
DB = 'importer/helpers/dagbuilder.go'
H = 'hamt/hamt.go'
M = 'mod/dagmodifier.go'
D = 'io/directory.go'
SEEDS = [
 dict(id='C06-truncated-source', property='C06', edits=[(DB, 'if db.recvdErr == io.EOF {', 'if db.recvdErr == io.EOF || db.recvdErr == io.ErrUnexpectedEOF {')],
  needs='an input source that fails with io.ErrUnexpectedEOF (a truncated upload) after some chunks',
  breaks='the import reports success for an input that could not be read to its end',
  demo='''
func TestDemo(t *testing.T) {
	for _, layout := range []func(*helpers.DagBuilderHelper) (ipld.Node, error){balanced.Layout, trickle.Layout} {
		c, _ := split(3, 10)
		if _, err := layout(builder(t, mdtest.Mock(), 4, false, &chunks{c, io.ErrUnexpectedEOF})); err == nil {
			t.Fatal("import of a truncated input succeeded")
		}
	}
}
'''),
 dict(id='C07-raw-limit', property='C07', edits=[(DB, '''	if len(data) > BlockSizeLimit {
		return nil, ErrSizeLimitExceeded
	}

	if db.rawLeaves {''', '''	if len(data) > BlockSizeLimit && !db.rawLeaves {
		return nil, ErrSizeLimitExceeded
	}

	if db.rawLeaves {''')],
  needs='raw leaves and a chunk longer than the block size limit', breaks='an oversized raw leaf is produced instead of an error',
  demo='''
func TestDemo(t *testing.T) {
	for _, raw := range []bool{false, true} {
		c := [][]byte{{1}, make([]byte, helpers.BlockSizeLimit+1)}
		if _, err := balanced.Layout(builder(t, mdtest.Mock(), 4, raw, &chunks{c, io.EOF})); err == nil {
			t.Fatal("oversized leaf accepted, raw leaves:", raw)
		}
	}
}
'''),
 dict(id='C03-shallow-recursion', property='C03', edits=[('importer/balanced/builder.go', 'childNode, childFileSize, err = fillNodeRec(db, nil, depth-1)', '''childDepth := depth - 1
			if node.NumChildren() == 0 {
				// The first child of a node that is itself new holds what the
				// level below would have started with.
				childDepth = 1
			}
			childNode, childFileSize, err = fillNodeRec(db, nil, childDepth)''')],
  needs='a tree of depth four or more (more chunks than the cube of the link limit)', breaks='leaves are not all at the same distance from the root',
  demo='''
func TestDemo(t *testing.T) {
	for n := 1; n < 40; n++ {
		ds := mdtest.Mock()
		c, all := split(n, 3)
		nd, err := balanced.Layout(builder(t, ds, 2, false, &chunks{c, io.EOF}))
		if err != nil {
			t.Fatal(err)
		}
		if !bytes.Equal(content(t, ds, nd), all) {
			t.Fatal("content")
		}
		depths := map[int]bool{}
		var rec func(nd ipld.Node, d int)
		rec = func(nd ipld.Node, d int) {
			if len(nd.Links()) == 0 {
				depths[d] = true
			}
			for _, l := range nd.Links() {
				ch, err := l.GetNode(ctx, ds)
				if err != nil {
					t.Fatal(err)
				}
				rec(ch, d+1)
			}
		}
		rec(nd, 0)
		if len(depths) != 1 {
			t.Fatal(n, "chunks: leaf depths", depths)
		}
	}
}
'''),
 dict(id='C04-verifier-group', property='C04', edits=[('importer/trickle/trickledag.go', 'rdepth := ((i - p.Direct) / p.LayerRepeat) + 1', 'rdepth := (i-p.Direct+p.LayerRepeat-1)/p.LayerRepeat + 1'),
   ('importer/trickle/trickledag.go', 'if rdepth >= depth && depth > 0 {', 'if rdepth > depth && depth > 0 {')],
  needs='a sub-tree that is one level deeper than its position allows', breaks='the verifier accepts DAGs whose sub-trees are too deep for their slot',
  demo='''
func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	add := func(n *dag.ProtoNode) *dag.ProtoNode {
		if err := ds.Add(ctx, n); err != nil {
			t.Fatal(err)
		}
		return n
	}
	leaf := add(dag.NodeWithData(ft.WrapData([]byte("x"))))
	inner := func(children ...*dag.ProtoNode) *dag.ProtoNode {
		f := ft.NewFSNode(ft.TFile)
		n := new(dag.ProtoNode)
		for _, c := range children {
			if err := n.AddNodeLink("", c); err != nil {
				t.Fatal(err)
			}
			s, err := ft.DataSize(c.Data())
			if err != nil {
				t.Fatal(err)
			}
			f.AddBlockSize(s)
		}
		b, err := f.GetBytes()
		if err != nil {
			t.Fatal(err)
		}
		n.SetData(b)
		return add(n)
	}
	one := inner(leaf)
	two := inner(leaf, one)
	p := trickle.VerifyParams{Getter: ds, Direct: 1, LayerRepeat: 4}
	if err := trickle.VerifyTrickleDagStructure(inner(leaf, one, one), p); err != nil {
		t.Fatal(err)
	}
	if err := trickle.VerifyTrickleDagStructure(inner(leaf, one, two), p); err == nil {
		t.Fatal("a sub-tree of depth two accepted in a slot of the first group")
	}
}
'''),
 dict(id='C05-stale-size', property='C05', edits=[('importer/trickle/trickledag.go', '''	if depth == 0 {
		// If direct blocks not filled...
		if err := db.FillNodeLayer(fsn); err != nil {
			return nil, 0, err
		}
		depth++
	}
	// TODO: Same as''', '''	size := fsn.FileSize()
	if depth == 0 {
		// If direct blocks not filled...
		if err := db.FillNodeLayer(fsn); err != nil {
			return nil, 0, err
		}
		depth++
	}
	// TODO: Same as'''), ('importer/trickle/trickledag.go', '''	if depth == maxDepth {
		return fsn, fsn.FileSize(), nil
	}''', '''	if depth == maxDepth {
		return fsn, size, nil
	}''')],
  needs='an append that finishes a partly filled sub-tree of the first level', breaks='the parent records the size the sub-tree had before the append',
  demo='''
func TestDemo(t *testing.T) {
	for n := 1; n < 14; n++ {
		ds := mdtest.Mock()
		c, all := split(20, 3)
		nd, err := trickle.Layout(builder(t, ds, 3, false, &chunks{c[:n], io.EOF}))
		if err != nil {
			t.Fatal(err)
		}
		nd, err = trickle.Append(ctx, nd, builder(t, ds, 3, false, &chunks{c[n:], io.EOF}))
		if err != nil {
			t.Fatal(err)
		}
		if sizes(t, ds, nd) != uint64(len(all)) || !bytes.Equal(content(t, ds, nd), all) {
			t.Fatal("content")
		}
	}
}
'''),
 dict(id='C09-direct-copy', property='C09', edits=[('io/dagreader.go', '''		err = dr.saveNodeData(node)
		if err != nil {
			return err
		}
		// Save the leaf node file data in a buffer in case it is only
		// partially read now and future `CtxReadFull` calls reclaim the
		// rest (as each node is visited only once during `Iterate`).
		//
		// TODO''', '''		data, err := unixfs.ReadUnixFSNodeData(node)
		if err != nil {
			return err
		}
		if len(data) < len(out)-n {
			// It all fits, no need for the buffer.
			n += copy(out[n:], data)
			return nil
		}
		dr.currentNodeData = bytes.NewReader(data)
		// Save the leaf node file data in a buffer in case it is only
		// partially read now and future `CtxReadFull` calls reclaim the
		// rest (as each node is visited only once during `Iterate`).
		//
		// TODO''')],
  needs='a read that passes over at least one whole leaf, followed by a seek relative to the current position', breaks='the position reported (and used for relative seeks) misses the leaves copied directly',
  demo='''
func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	c, all := split(6, 5)
	nd, err := balanced.Layout(builder(t, ds, 3, false, &chunks{c, io.EOF}))
	if err != nil {
		t.Fatal(err)
	}
	r, err := uio.NewDagReader(ctx, nd, ds)
	if err != nil {
		t.Fatal(err)
	}
	b := make([]byte, 12)
	if n, err := r.Read(b); n != 12 || err != nil || !bytes.Equal(b, all[:12]) {
		t.Fatal(n, err)
	}
	if p, err := r.Seek(3, io.SeekCurrent); p != 15 || err != nil {
		t.Fatal("relative seek from 12 by 3 went to", p, err)
	}
	if n, err := r.Read(b); n != 12 || err != nil || !bytes.Equal(b, all[15:27]) {
		t.Fatal(n, err)
	}
}
'''),
 dict(id='C11-raw-tail', property='C11', edits=[(M, 'if offsetPlusN < len(origData) {', 'if offsetPlusN+1 < len(origData) {')],
  needs='a file with raw leaves and a write that ends one byte before the end of a leaf', breaks='the last byte of the leaf becomes zero',
  demo='''
func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	c, all := split(4, 8)
	nd, err := trickle.Layout(builder(t, ds, 3, true, &chunks{c, io.EOF}))
	if err != nil {
		t.Fatal(err)
	}
	for off := 0; off < 20; off++ {
		for n := 1; n < 10; n++ {
			dm, err := mod.NewDagModifier(ctx, nd, ds, func(r io.Reader) chunker.Splitter { return chunker.NewSizeSplitter(r, 8) })
			if err != nil {
				t.Fatal(err)
			}
			want := append([]byte(nil), all...)
			w := bytes.Repeat([]byte{200}, n)
			copy(want[off:], w)
			if _, err := dm.WriteAt(w, int64(off)); err != nil {
				t.Fatal(err)
			}
			out, err := dm.GetNode()
			if err != nil {
				t.Fatal(err)
			}
			if !bytes.Equal(content(t, ds, out), want) {
				t.Fatal("write of", n, "bytes at", off)
			}
		}
	}
}
'''),
 dict(id='C13-pending-size', property='C13', edits=[(M, '''		return int64(dm.wrBuf.Len()) + int64(dm.writeStart), nil
''', '''		return int64(dm.wrBuf.Len()) + int64(fileSize), nil
''')],
  needs='a pending write that overlaps the end of the file, and a request for the size before it is synced', breaks='the reported size counts the overlapping bytes twice',
  demo='''
func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	c, _ := split(4, 8)
	nd, err := trickle.Layout(builder(t, ds, 3, false, &chunks{c, io.EOF}))
	if err != nil {
		t.Fatal(err)
	}
	dm, err := mod.NewDagModifier(ctx, nd, ds, func(r io.Reader) chunker.Splitter { return chunker.NewSizeSplitter(r, 8) })
	if err != nil {
		t.Fatal(err)
	}
	if _, err := dm.WriteAt(make([]byte, 10), 28); err != nil {
		t.Fatal(err)
	}
	if s, err := dm.Size(); s != 38 || err != nil {
		t.Fatal("size with a pending write", s, err)
	}
}
'''),
 dict(id='C14-shared-dir-node', property='C14', edits=[(D, 'newBasicDirectoryFromNode(dserv, protoBufNode.Copy().(*mdag.ProtoNode))', 'newBasicDirectoryFromNode(dserv, protoBufNode)')],
  needs='a caller that keeps the node it loaded a directory from and then edits the directory', breaks='the caller\'s node changes its links and identifier',
  demo='''
func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	nd := ft.EmptyDirNode()
	before := nd.Cid()
	d, err := uio.NewDirectoryFromNode(ds, nd)
	if err != nil {
		t.Fatal(err)
	}
	if err := d.AddChild(ctx, "a", file("x")); err != nil {
		t.Fatal(err)
	}
	if !nd.Cid().Equals(before) || len(nd.Links()) != 0 {
		t.Fatal("the node the directory was loaded from has changed")
	}
}
'''),
 dict(id='C17-subshard-builder', property='C17', edits=[(H, '		child.builder = ds.builder\n', '')],
  needs='a directory with a CID builder other than the default and two names that share a slot', breaks='sub-shards created by insertion are written under another kind of identifier than the same sub-shards after a reload',
  demo='''
func TestDemo(t *testing.T) {
	defer hashes()()
	ds := mdtest.Mock()
	s, err := hamt.NewShard(ds, 256)
	if err != nil {
		t.Fatal(err)
	}
	s.SetCidBuilder(dag.V1CidPrefix())
	for _, n := range []string{"ab", "ac"} {
		if err := s.Set(ctx, n, file(n)); err != nil {
			t.Fatal(err)
		}
	}
	nd, err := s.Node()
	if err != nil {
		t.Fatal(err)
	}
	for _, l := range nd.Links() {
		if l.Cid.Version() != 1 {
			t.Fatal("sub-shard without the builder of its directory")
		}
	}
}
'''),
 dict(id='C16-subshard-width', property='C16', edits=[(H, 'child, err = NewShard(ds.dserv, ds.tableSize)', 'child, err = NewShard(ds.dserv, 256)')],
  needs='a directory of a width other than 256, two names that share a slot, a save and reload, and the removal of one of them', breaks='the entry that is left gets a wrong name when the sub-shard is collapsed',
  demo='''
func TestDemo(t *testing.T) {
	defer hashes()()
	ds := mdtest.Mock()
	s, err := hamt.NewShard(ds, 16)
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []string{"ab", "ac"} {
		if err := s.Set(ctx, n, file(n)); err != nil {
			t.Fatal(err)
		}
	}
	for _, n := range []string{"ab", ""} {
		nd, err := s.Node()
		if err != nil {
			t.Fatal(err)
		}
		if s, err = hamt.NewHamtFromDag(ds, nd); err != nil {
			t.Fatal(err)
		}
		if n != "" {
			if err := s.Remove(ctx, n); err != nil {
				t.Fatal(err)
			}
		}
	}
	ls, err := s.EnumLinks(ctx)
	if err != nil || len(ls) != 1 || ls[0].Name != "ac" {
		t.Fatal(err, ls)
	}
	if _, err := s.Find(ctx, "ac"); err != nil {
		t.Fatal(err)
	}
}
'''),
 dict(id='C20-listing-renames', property='C20', edits=[(H, '''	lnk2 := *lnk
	s, err''', '''	s, err'''), (H, 's.val = &lnk2', 's.val = lnk')],
  needs='a loaded sharded directory that is listed and then used or saved', breaks='listing strips the index prefix from the links of the stored node, so later lookups and saves go wrong',
  demo='''
func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	s, err := hamt.NewShard(ds, 256)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 20; i++ {
		n := fmt.Sprint("entry", i)
		if err := s.Set(ctx, n, file(n)); err != nil {
			t.Fatal(err)
		}
	}
	nd, err := s.Node()
	if err != nil {
		t.Fatal(err)
	}
	if s, err = hamt.NewHamtFromDag(ds, nd); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		ls, err := s.EnumLinks(ctx)
		if err != nil || len(ls) != 20 {
			t.Fatal(len(ls), err)
		}
		for i := 0; i < 20; i++ {
			if _, err := s.Find(ctx, fmt.Sprint("entry", i)); err != nil {
				t.Fatal(err)
			}
		}
	}
}
'''),
 dict(id='C21-replaced-entry', property='C21', edits=[(D, '''		operationSizeChange -= linksize.LinkSizeFunction(name, entryToRemove.Cid)
	}
	if nodeToAdd != nil {
		operationSizeChange += linksize.LinkSizeFunction(name, nodeToAdd.Cid())
	}

	return d.estimatedSize+''', '''		if nodeToAdd != nil && entryToRemove.Cid.Equals(nodeToAdd.Cid()) {
			// Nothing changes.
			return false, nil
		}
	}
	if nodeToAdd != nil {
		operationSizeChange += linksize.LinkSizeFunction(name, nodeToAdd.Cid())
	}

	return d.estimatedSize+''')],
  needs='the size option on and the replacement of an entry in a directory whose total is below the threshold by less than the size of that entry', breaks='the directory becomes sharded although its total stays below the threshold',
  demo='''
func TestDemo(t *testing.T) {
	old := uio.HAMTShardingSize
	defer func() { uio.HAMTShardingSize = old }()
	ds := mdtest.Mock()
	d := uio.NewDirectory(ds)
	uio.HAMTShardingSize = 3*(1+34) + 10
	for _, n := range []string{"a", "b", "c"} {
		if err := d.AddChild(ctx, n, file(n)); err != nil {
			t.Fatal(err)
		}
	}
	if err := d.AddChild(ctx, "b", file("other")); err != nil {
		t.Fatal(err)
	}
	nd, err := d.GetNode()
	if err != nil {
		t.Fatal(err)
	}
	fsn, err := ft.ExtractFSNode(nd)
	if err != nil || fsn.Type() != ft.TDirectory {
		t.Fatal("sharded below the threshold", err)
	}
}
'''),
 dict(id='C22-seek-hints', property='C22', edits=[('io/dagreader.go', 'if fsNode.NumChildren() != len(node.Links()) {', 'if fsNode.NumChildren() > len(node.Links()) {')],
  needs='a seek in a file whose root records fewer sizes than it has links', breaks='the seek panics instead of returning an error',
  demo='''
func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	c, _ := split(3, 5)
	nd, err := balanced.Layout(builder(t, ds, 3, false, &chunks{c, io.EOF}))
	if err != nil {
		t.Fatal(err)
	}
	fsn, err := ft.ExtractFSNode(nd)
	if err != nil {
		t.Fatal(err)
	}
	fsn.RemoveBlockSize(2)
	b, err := fsn.GetBytes()
	if err != nil {
		t.Fatal(err)
	}
	bad := nd.Copy().(*dag.ProtoNode)
	bad.SetData(b)
	r, err := uio.NewDagReader(ctx, bad, ds)
	if err != nil {
		t.Fatal(err)
	}
	_, _ = r.Seek(12, io.SeekStart)
}
'''),
 dict(id='C23-missing-entry', property='C23', edits=[('file/unixfile.go', '''	nd, err := l.GetNode(it.ctx, it.dserv)
	if err != nil {
		it.err = err
		return false
	}
''', '''	nd, err := l.GetNode(it.ctx, it.dserv)
	if err == ipld.ErrNotFound {
		// Removed since the directory was listed.
		return it.Next()
	}
	if err != nil {
		it.err = err
		return false
	}
''')],
  needs='a directory one of whose entries cannot be found in storage', breaks='iteration skips the entry and ends without an error',
  demo='''
func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	d := uio.NewDirectory(ds)
	for _, n := range []string{"a", "b", "c"} {
		f := file(n)
		if n != "b" {
			if err := ds.Add(ctx, f); err != nil {
				t.Fatal(err)
			}
		}
		if err := d.AddChild(ctx, n, f); err != nil {
			t.Fatal(err)
		}
	}
	nd, err := d.GetNode()
	if err != nil {
		t.Fatal(err)
	}
	f, err := unixfile.NewUnixfsFile(ctx, ds, nd)
	if err != nil {
		t.Fatal(err)
	}
	it := f.(files.Directory).Entries()
	n := 0
	for it.Next() {
		n++
	}
	if it.Err() == nil {
		t.Fatal("iteration of a directory with a missing entry ended without an error after", n)
	}
}
'''),
 dict(id='C24-raw-fallback', property='C24', edits=[('io/resolve.go', '''			out, err := s.Find(ctx, names[0])
			if err != nil {
				return nil, nil, err
			}

			return out, names[1:], nil
''', '''			out, err := s.Find(ctx, names[0])
			if err == nil {
				return out, names[1:], nil
			}
			if lnk, rest, lerr := nd.ResolveLink(names); lerr == nil {
				return lnk, rest, nil
			}
			return nil, nil, err
''')],
  needs='a sharded directory and a path segment equal to one of the internal link names (index prefix included)', breaks='a name the directory does not have resolves to an internal link',
  demo='''
func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	s, err := hamt.NewShard(ds, 256)
	if err != nil {
		t.Fatal(err)
	}
	if err := s.Set(ctx, "a", file("a")); err != nil {
		t.Fatal(err)
	}
	nd, err := s.Node()
	if err != nil {
		t.Fatal(err)
	}
	if _, _, err := uio.ResolveUnixfsOnce(ctx, ds, nd, []string{"a", "b"}); err != nil {
		t.Fatal(err)
	}
	for _, l := range nd.Links() {
		if _, _, err := uio.ResolveUnixfsOnce(ctx, ds, nd, []string{l.Name}); err != os.ErrNotExist {
			t.Fatal("resolved the internal name", l.Name, err)
		}
	}
}
'''),
 dict(id='C18-byte-shift', property='C18', edits=[('hamt/util.go', '''		out := int(mkmask(leftb) & curb)
		out <<= uint(i - leftb)
''', '''		out := int(mkmask(leftb) & curb << uint(i-leftb))
''')],
  needs='a table width above 256, so that an index straddles a byte boundary with more than eight bits', breaks='high bits of the index are lost: names are put into slots that are not those of their hash',
  demo='''
func TestDemo(t *testing.T) {
	defer hashes()()
	ds := mdtest.Mock()
	for _, w := range []int{16, 256, 512, 1024} {
		s, err := hamt.NewShard(ds, w)
		if err != nil {
			t.Fatal(err)
		}
		if err := s.Set(ctx, "\\xa5\\xc3", file("x")); err != nil {
			t.Fatal(err)
		}
		nd, err := s.Node()
		if err != nil {
			t.Fatal(err)
		}
		lg, _ := hamt.Logtwo(w)
		want := fmt.Sprintf("%0*X", len(fmt.Sprintf("%X", w-1)), 0xa5c3>>(16-uint(lg)))
		if got := strings.TrimSuffix(nd.Links()[0].Name, "\\xa5\\xc3"); got != want {
			t.Fatalf("width %d: slot %s, want %s", w, got, want)
		}
	}
}
'''),
 dict(id='C01-empty-chunk', property='C01', edits=[(DB, '	return db.nextData == nil\n', '	return len(db.nextData) == 0\n')],
  needs='a splitter that delivers an empty chunk in the middle of the input', breaks='everything after the empty chunk is left out of the file',
  demo='''
func TestDemo(t *testing.T) {
	for _, layout := range []func(*helpers.DagBuilderHelper) (ipld.Node, error){balanced.Layout, trickle.Layout} {
		ds := mdtest.Mock()
		c, all := split(4, 10)
		c = [][]byte{c[0], c[1], {}, c[2], c[3]}
		nd, err := layout(builder(t, ds, 3, false, &chunks{c, io.EOF}))
		if err != nil {
			t.Fatal(err)
		}
		if !bytes.Equal(content(t, ds, nd), all) {
			t.Fatal("content differs")
		}
	}
}
'''),
 dict(id='C02-zero-size', property='C02', edits=[(DB, '''	n.file.AddBlockSize(fileSize)
''', '''	if fileSize > 0 {
		n.file.AddBlockSize(fileSize)
	}
'''), (DB, 'return n.file.NumChildren()', 'return len(n.dag.Links())')],
  needs='an empty chunk in the input', breaks='a node records fewer sizes than it has links, so the sizes no longer match the children',
  demo='''
func TestDemo(t *testing.T) {
	for _, layout := range []func(*helpers.DagBuilderHelper) (ipld.Node, error){balanced.Layout, trickle.Layout} {
		ds := mdtest.Mock()
		c, _ := split(4, 10)
		c = [][]byte{c[0], c[1], {}, c[2], c[3]}
		nd, err := layout(builder(t, ds, 3, false, &chunks{c, io.EOF}))
		if err != nil {
			t.Fatal(err)
		}
		sizes(t, ds, nd)
	}
}
'''),
 dict(id='C12-cut-builder', property='C12', edits=[(M, '''	ndata.RemoveAllBlockSizes()
''', '''	sizes := ndata.BlockSizes()
	ndata.RemoveAllBlockSizes()
'''), (M, '''		child, err := lnk.GetNode(ctx, dm.dagserv)
		if err != nil {
			return nil, err
		}

		childsize, err := fileSize(child)
		if err != nil {
			return nil, err
		}

		// found''', '''		if i+1 < len(sizes) && size > cur+sizes[i] {
			// Not this one, no need to fetch it.
			cur += sizes[i]
			continue
		}

		child, err := lnk.GetNode(ctx, dm.dagserv)
		if err != nil {
			return nil, err
		}

		childsize, err := fileSize(child)
		if err != nil {
			return nil, err
		}

		// found''')],
  needs='truncation to a size that keeps at least one child before the one that is cut', breaks='the sizes of the skipped children are missing from the truncated node',
  demo='''
func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	c, all := split(10, 8)
	for size := 0; size <= len(all); size++ {
		nd, err := balanced.Layout(builder(t, ds, 3, false, &chunks{c, io.EOF}))
		if err != nil {
			t.Fatal(err)
		}
		dm, err := mod.NewDagModifier(ctx, nd, ds, func(r io.Reader) chunker.Splitter { return chunker.NewSizeSplitter(r, 8) })
		if err != nil {
			t.Fatal(err)
		}
		if err := dm.Truncate(int64(size)); err != nil {
			t.Fatal(err)
		}
		out, err := dm.GetNode()
		if err != nil {
			t.Fatal(err)
		}
		if !bytes.Equal(content(t, ds, out), all[:size]) {
			t.Fatal("content cut to", size)
		}
		sizes(t, ds, out)
	}
}
'''),
 dict(id='C19-collapsed-index', property='C19', edits=[(H, 'err := out.AddRawLink(ds.linkNamePrefix(childIndex)+label, lnk)', 'err := out.AddRawLink(lnk.Name[:len(lnk.Name)-len(label)]+label, lnk)')],
  needs='a sub-shard loaded from storage that is left with one entry it has not loaded, and a save', breaks='the link that moved up keeps the index it had in the sub-shard',
  demo='''
func TestDemo(t *testing.T) {
	defer hashes()()
	ds := mdtest.Mock()
	s, err := hamt.NewShard(ds, 256)
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []string{"ab", "ac"} {
		if err := s.Set(ctx, n, file(n)); err != nil {
			t.Fatal(err)
		}
	}
	nd, err := s.Node()
	if err != nil {
		t.Fatal(err)
	}
	if s, err = hamt.NewHamtFromDag(ds, nd); err != nil {
		t.Fatal(err)
	}
	if err := s.Remove(ctx, "ab"); err != nil {
		t.Fatal(err)
	}
	if nd, err = s.Node(); err != nil {
		t.Fatal(err)
	}
	if l := nd.Links(); len(l) != 1 || l[0].Name != "61ac" {
		t.Fatal(l[0].Name)
	}
}
'''),
 dict(id='C15-setdata-signed', property='C15', edits=[('unixfs.go', 'n.UpdateFilesize(int64(len(newData) - len(n.Data())))', 'n.UpdateFilesize(int64(uint32(len(newData) - len(n.Data()))))')],
  needs='replacing the data of a node by shorter data', breaks='the recorded file size is off by 2^32',
  demo='''
func TestDemo(t *testing.T) {
	n := ft.NewFSNode(ft.TFile)
	n.SetData(make([]byte, 10))
	n.AddBlockSize(7)
	n.SetData(make([]byte, 4))
	if n.FileSize() != 11 {
		t.Fatal(n.FileSize())
	}
}
'''),
]
