import os, runpy
PRELUDE = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds1.py'))['PRELUDE']
H, M, D, R = 'hamt/hamt.go', 'mod/dagmodifier.go', 'io/directory.go', 'io/dagreader.go'
SEEDS = [
 dict(id='C08-dropped-rest', property='C08', edits=[(R, '''	n, err := dr.currentNodeData.WriteTo(w)
''', '''	buf := dr.currentNodeData
	dr.currentNodeData = nil
	n, err := buf.WriteTo(w)
'''), (R, '''		return n, err
	}

	if dr.currentNodeData.Len() == 0 {
		dr.currentNodeData = nil
		// Signal that the buffer was consumed (for later `Read` calls).
		// This shouldn't return an EOF error as it's just the end of a
		// single node's data, not the entire DAG.
	}

	return n, nil
}

// WriteTo writes''', '''		return n, err
	}

	return n, nil
}

// WriteTo writes''')],
  needs='a streaming write-out whose writer fails in the middle of a leaf, and reading on afterwards', breaks='the rest of the leaf is never delivered',
  demo='''
type limited struct {
	bytes.Buffer
	left int
}

func (l *limited) Write(b []byte) (int, error) {
	if len(b) <= l.left {
		l.left -= len(b)
		return l.Buffer.Write(b)
	}
	n, _ := l.Buffer.Write(b[:l.left])
	l.left = 0
	return n, errors.New("full")
}

func TestDemo(t *testing.T) {
	for _, k := range []int{3, 9, 14} {
		ds := mdtest.Mock()
		c, all := split(5, 4)
		nd, err := balanced.Layout(builder(t, ds, 3, false, &chunks{c, io.EOF}))
		if err != nil {
			t.Fatal(err)
		}
		r, err := uio.NewDagReader(ctx, nd, ds)
		if err != nil {
			t.Fatal(err)
		}
		w := &limited{left: k}
		if _, err := r.WriteTo(w); err == nil {
			t.Fatal("the writer's error is lost")
		}
		rest, err := io.ReadAll(r)
		if err != nil || !bytes.Equal(append(w.Bytes(), rest...), all) {
			t.Fatalf("%d and %d bytes, %v", w.Len(), len(rest), err)
		}
	}
}
'''),
 dict(id='C12-expand-unsynced', property='C12', edits=[(M, '''	err := dm.Sync()
	if err != nil {
		return err
	}

	realSize, err := dm.Size()
	if err != nil {
		return err
	}
	if size == int64(realSize) {
		return nil
	}

	// Truncate can also be used to expand the file
	if size > int64(realSize) {
		return dm.expandSparse(int64(size) - realSize)
	}
''', '''	realSize, err := dm.Size()
	if err != nil {
		return err
	}
	if size == int64(realSize) {
		return nil
	}

	// Truncate can also be used to expand the file
	if size > int64(realSize) {
		return dm.expandSparse(int64(size) - realSize)
	}

	err = dm.Sync()
	if err != nil {
		return err
	}
''')],
  needs='a truncation to a larger size while a write that extends the file is pending', breaks='the pending bytes are written over the added zeros: the file is shorter than asked',
  demo='''
func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	nd := file("")
	if err := ds.Add(ctx, nd); err != nil {
		t.Fatal(err)
	}
	dm, err := mod.NewDagModifier(ctx, nd, ds, chunker.DefaultSplitter)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := dm.Write([]byte("hello")); err != nil {
		t.Fatal(err)
	}
	if err := dm.Truncate(8); err != nil {
		t.Fatal(err)
	}
	out, err := dm.GetNode()
	if err != nil {
		t.Fatal(err)
	}
	if got := content(t, ds, out); string(got) != "hello\\x00\\x00\\x00" {
		t.Fatalf("%q", got)
	}
}
'''),
 dict(id='C16-lifted-shard', property='C16', edits=[(H, '''					if schild.isValueNode() {
						ds.childer.set(schild, i)
					}
					return oldValue, nil''', '''					// Take its place, there is nothing else to look up.
					ds.childer.set(schild, i)
					return oldValue, nil''')],
  needs='two names whose hashes share the first two groups of bits and a third that shares only the first; removing the third', breaks='the sub-shard moves up one level and its entries are looked up with the wrong bits of their hashes',
  demo='''
func TestDemo(t *testing.T) {
	defer hashes()()
	ds := mdtest.Mock()
	s, err := hamt.NewShard(ds, 256)
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []string{"aab", "aac", "ab"} {
		nd := file(n)
		if err := ds.Add(ctx, nd); err != nil {
			t.Fatal(err)
		}
		if err := s.Set(ctx, n, nd); err != nil {
			t.Fatal(err)
		}
	}
	if err := s.Remove(ctx, "ab"); err != nil {
		t.Fatal(err)
	}
	for _, n := range []string{"aab", "aac"} {
		l, err := s.Find(ctx, n)
		if err != nil || l.Cid != file(n).Cid() {
			t.Fatal(n, err)
		}
	}
}
'''),
 dict(id='C20-partial-list', property='C20', edits=[(H, """		if linkResult.Err != nil {
			return links, linkResult.Err
		}
		links = append""", """		if linkResult.Err != nil {
			if len(links) > 0 {
				// List what there is.
				return links, nil
			}
			return links, linkResult.Err
		}
		links = append""")],
  needs='a sharded directory one of whose sub-shards is not in the store', breaks='the listing leaves out the entries below the missing block and reports no error',
  demo='''
func TestDemo(t *testing.T) {
	defer hashes()()
	ds := mdtest.Mock()
	s, err := hamt.NewShard(ds, 256)
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []string{"aa", "ab", "b"} {
		nd := file(n)
		if err := ds.Add(ctx, nd); err != nil {
			t.Fatal(err)
		}
		if err := s.Set(ctx, n, nd); err != nil {
			t.Fatal(err)
		}
	}
	nd, err := s.Node()
	if err != nil {
		t.Fatal(err)
	}
	s, err = hamt.NewHamtFromDag(ds, nd)
	if err != nil {
		t.Fatal(err)
	}
	if ls, err := s.EnumLinks(ctx); err != nil || len(ls) != 3 {
		t.Fatal(len(ls), err)
	}
	for _, l := range nd.Links() {
		if len(l.Name) == 2 {
			if err := ds.Remove(ctx, l.Cid); err != nil {
				t.Fatal(err)
			}
		}
	}
	if ls, err := s.EnumLinks(ctx); err == nil {
		t.Fatalf("%d entries and no error", len(ls))
	}
}
'''),
 dict(id='C21-replaced-size', property='C21', edits=[(D, '''		operationSizeChange -= linksize.LinkSizeFunction(name, entryToRemove.Cid)
	}
	if nodeToAdd != nil {
		operationSizeChange += linksize.LinkSizeFunction(name, nodeToAdd.Cid())
	}

	return d.estimatedSize+operationSizeChange >= HAMTShardingSize, nil''', '''		// Replaced: the size stays as it is.
		return d.estimatedSize >= HAMTShardingSize, nil
	}
	if nodeToAdd != nil {
		operationSizeChange += linksize.LinkSizeFunction(name, nodeToAdd.Cid())
	}

	return d.estimatedSize+operationSizeChange >= HAMTShardingSize, nil'''), (D, '''	entryToRemove, err := d.node.GetNodeLink(name)
	if err != mdag.ErrLinkNotFound {
		if err != nil {
			return false, err
		}
		// Replaced''', '''	_, err := d.node.GetNodeLink(name)
	if err != mdag.ErrLinkNotFound {
		if err != nil {
			return false, err
		}
		// Replaced''')],
  needs='replacing an entry by a node with a longer identifier such that exactly this reaches the threshold', breaks='the directory stays flat although it has reached the threshold',
  demo='''
func TestDemo(t *testing.T) {
	old := uio.HAMTShardingSize
	defer func() { uio.HAMTShardingSize = old }()
	ds := mdtest.Mock()
	v0, v1 := file("one"), dag.NewRawNode([]byte("two"))
	if len(v0.Cid().Bytes()) >= len(v1.Cid().Bytes()) {
		t.Fatal("no difference")
	}
	uio.HAMTShardingSize = len("name") + len(v1.Cid().Bytes())
	d := uio.NewDirectory(ds)
	for _, nd := range []ipld.Node{v0, v1} {
		if err := ds.Add(ctx, nd); err != nil {
			t.Fatal(err)
		}
		if err := d.AddChild(ctx, "name", nd); err != nil {
			t.Fatal(err)
		}
	}
	nd, err := d.GetNode()
	if err != nil {
		t.Fatal(err)
	}
	fsn, err := ft.ExtractFSNode(nd)
	if err != nil {
		t.Fatal(err)
	}
	if fsn.Type() != ft.THAMTShard {
		t.Fatal("flat at the threshold")
	}
}
'''),
 dict(id='C22-size-hints', property='C22', edits=[(R, '''				if fsNode.NumChildren() != len(node.Links()) {
					return ErrSeekNotSupported''', '''				if fsNode.NumChildren() == 0 {
					return ErrSeekNotSupported''')],
  needs='a file node that records fewer sizes than it has links (but some), and a seek past the recorded ones', breaks='seeking panics',
  demo='''
func TestDemo(t *testing.T) {
	ds := mdtest.Mock()
	fsn := ft.NewFSNode(ft.TFile)
	nd := new(dag.ProtoNode)
	for i, s := range []string{"abc", "def", "ghi"} {
		c := file(s)
		if err := ds.Add(ctx, c); err != nil {
			t.Fatal(err)
		}
		if err := nd.AddNodeLink("", c); err != nil {
			t.Fatal(err)
		}
		if i < 2 {
			fsn.AddBlockSize(3)
		}
	}
	b, err := fsn.GetBytes()
	if err != nil {
		t.Fatal(err)
	}
	nd.SetData(b)
	r, err := uio.NewDagReader(ctx, nd, ds)
	if err != nil {
		t.Fatal(err)
	}
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("panic: ", e)
		}
	}()
	for off := int64(1); off < 10; off++ {
		r.Seek(off, io.SeekStart)
	}
}
'''),
]
