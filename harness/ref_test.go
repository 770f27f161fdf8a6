package zverif

import (
	"bytes"
	"context"
	"os"

	"github.com/ipfs/go-unixfs/importer/balanced"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"

	chunker "github.com/ipfs/go-ipfs-chunker"
	posinfo "github.com/ipfs/go-ipfs-posinfo"
	ipld "github.com/ipfs/go-ipld-format"
)

type refRec struct {
	path string
	off  uint64
	data []byte
}

// refStore records the file references of stored nodes in order.
type refStore struct {
	*store
	recs []refRec
}

func (s *refStore) Add(ctx context.Context, n ipld.Node) error {
	if f, ok := n.(*posinfo.FilestoreNode); ok && f.PosInfo != nil {
		s.recs = append(s.recs, refRec{f.PosInfo.FullPath, f.PosInfo.Offset, n.RawData()})
	}
	return s.store.Add(ctx, n)
}

func (c icase) doRef(s *refStore, spl chunker.Splitter) (ipld.Node, error) {
	dbp := h.DagBuilderParams{Dagserv: s, Maxlinks: c.maxlinks, RawLeaves: c.raw, CidBuilder: c.builder, NoCopy: c.noCopy}
	db, err := dbp.New(spl)
	if err != nil {
		return nil, err
	}
	if c.trickle {
		return trickle.Layout(db)
	}
	return balanced.Layout(db)
}

type srcFile struct {
	*bytes.Reader
	path string
}

func (f *srcFile) Close() error                  { return nil }
func (f *srcFile) Size() (int64, error)          { return f.Reader.Size(), nil }
func (f *srcFile) AbsPath() string               { return f.path }
func (f *srcFile) Stat() os.FileInfo             { return nil }
func newFileInfo(path string, d []byte) *srcFile { return &srcFile{bytes.NewReader(d), path} }
