// Package zverif holds the bounded conformance and replay harness: it drives
// the public API of the repository with generated histories and compares the
// results with independent oracles.  It is laid into the repository by an
// overlay and never counted as proof.
package zverif

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	ft "github.com/ipfs/go-unixfs"
	pb "github.com/ipfs/go-unixfs/pb"

	"github.com/gogo/protobuf/proto"
	cid "github.com/ipfs/go-cid"
	posinfo "github.com/ipfs/go-ipfs-posinfo"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
)

// ---------------------------------------------------------------- storage

type rec struct {
	data []byte
	kind uint64 // codec
	pos  *posinfo.PosInfo
}

// store is a DAG service that keeps encoded blocks only, so nothing that
// happens to a node after it was added can reach it.
type store struct {
	mu       sync.Mutex
	mm       sync.Mutex // guards m and order: enumerations may outlive the call that started them
	m        map[string]rec
	adds     int
	gets     int
	failAdd  int // fail the n-th add (1-based), 0 never
	failGet  int
	failGets map[string]bool
	order    []cid.Cid
	delay    time.Duration
	onGet    func(n int)
	maxGets  int
}

var errStore = errors.New("injected storage failure")

// injected varies the failure with its position: code that treats one of
// these values as anything but a failure is wrong.
func injected(n int) error {
	return []error{errStore, ipld.ErrNotFound, io.ErrUnexpectedEOF, context.DeadlineExceeded, fmt.Errorf("loading: %w", errStore)}[n%5]
}

var errTooMany = errors.New("harness: too many node loads")

func newStore() *store { return &store{m: map[string]rec{}} }

func (s *store) put(n ipld.Node) {
	r := rec{data: append([]byte(nil), n.RawData()...), kind: n.Cid().Prefix().Codec}
	if f, ok := n.(*posinfo.FilestoreNode); ok {
		r.pos = f.PosInfo
	}
	// the identifier must be that of the bytes
	c, err := n.Cid().Prefix().Sum(r.data)
	if err != nil || !c.Equals(n.Cid()) {
		panic(fmt.Sprintf("node added under an identifier (%s) that is not that of its bytes (%s)", n.Cid(), c))
	}
	s.mm.Lock()
	defer s.mm.Unlock()
	s.m[n.Cid().KeyString()] = r
	s.order = append(s.order, n.Cid())
}

func (s *store) rec(c cid.Cid) (rec, bool) {
	s.mm.Lock()
	defer s.mm.Unlock()
	r, ok := s.m[c.KeyString()]
	return r, ok
}

func (s *store) written() []cid.Cid {
	s.mm.Lock()
	defer s.mm.Unlock()
	return s.order[:len(s.order):len(s.order)]
}

func (s *store) Add(ctx context.Context, n ipld.Node) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.adds++
	if s.failAdd != 0 && s.adds == s.failAdd {
		return injected(s.adds + len(s.written())/3)
	}
	s.put(n)
	return nil
}

func (s *store) AddMany(ctx context.Context, ns []ipld.Node) error {
	for _, n := range ns {
		if err := s.Add(ctx, n); err != nil {
			return err
		}
	}
	return nil
}

func (s *store) load(c cid.Cid) (ipld.Node, error) {
	r, ok := s.rec(c)
	if !ok {
		return nil, ipld.ErrNotFound
	}
	d := append([]byte(nil), r.data...)
	switch c.Prefix().Codec {
	case cid.Raw:
		return mdag.NewRawNodeWPrefix(d, c.Prefix())
	case cid.DagProtobuf:
		n, err := mdag.DecodeProtobuf(d)
		if err != nil {
			return nil, err
		}
		n.SetCidBuilder(c.Prefix())
		return n, nil
	}
	return nil, errors.New("unknown codec")
}

func (s *store) Get(ctx context.Context, c cid.Cid) (ipld.Node, error) {
	s.mu.Lock()
	s.gets++
	n := s.gets
	fail := (s.failGet != 0 && n == s.failGet) || s.failGets[c.KeyString()]
	d, og := s.delay, s.onGet
	mg := s.maxGets
	s.mu.Unlock()
	if mg > 0 && n > mg {
		panic(errTooMany)
	}
	if og != nil {
		og(n)
	}
	if d > 0 {
		select {
		case <-time.After(d):
		case <-ctx.Done():
			return nil, ctx.Err()
		}
	}
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if fail {
		return nil, injected(n + len(s.written())/3)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.load(c)
}

func (s *store) GetMany(ctx context.Context, cs []cid.Cid) <-chan *ipld.NodeOption {
	out := make(chan *ipld.NodeOption, len(cs))
	go func() {
		defer close(out)
		for _, c := range cs {
			n, err := s.Get(ctx, c)
			out <- &ipld.NodeOption{Node: n, Err: err}
		}
	}()
	return out
}
func (s *store) Remove(ctx context.Context, c cid.Cid) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.mm.Lock()
	defer s.mm.Unlock()
	delete(s.m, c.KeyString())
	return nil
}
func (s *store) RemoveMany(ctx context.Context, cs []cid.Cid) error {
	for _, c := range cs {
		s.Remove(ctx, c)
	}
	return nil
}

// ---------------------------------------------------------------- splitter

type chunks struct {
	cs     [][]byte
	i      int
	failAt int // fail instead of delivering chunk failAt (1-based)
	rd     io.Reader
}

var errSplit = errors.New("injected input failure")

func (c *chunks) Reader() io.Reader { return c.rd }
func (c *chunks) NextBytes() ([]byte, error) {
	if c.failAt != 0 && c.i+1 == c.failAt {
		return nil, []error{errSplit, io.ErrUnexpectedEOF, context.Canceled, io.ErrNoProgress, io.ErrClosedPipe}[(c.failAt+len(c.cs)/2)%5]
	}
	if c.i >= len(c.cs) {
		return nil, io.EOF
	}
	c.i++
	return append([]byte{}, c.cs[c.i-1]...), nil
}

func join(cs [][]byte) []byte { return bytes.Join(cs, nil) }

func genBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	if r.Intn(4) == 0 {
		for i := range b {
			b[i] = byte(r.Intn(2))
		}
	} else {
		r.Read(b)
	}
	return b
}

func genChunks(r *rand.Rand, n, maxlen int) [][]byte {
	var cs [][]byte
	same := r.Intn(3) == 0
	l := 1 + r.Intn(maxlen)
	for i := 0; i < n; i++ {
		if !same {
			l = 1 + r.Intn(maxlen)
		}
		cs = append(cs, genBytes(r, l))
	}
	return cs
}

// withEmpty puts a few empty chunks between the others: a splitter may
// deliver them.
func withEmpty(r *rand.Rand, cs [][]byte) [][]byte {
	if r.Intn(6) > 0 {
		return cs
	}
	var out [][]byte
	for _, c := range cs {
		if r.Intn(6) == 0 {
			out = append(out, []byte{})
		}
		out = append(out, c)
	}
	return out
}

// ---------------------------------------------------------------- oracle

// tree is an independent decoding of a stored DAG.
type tree struct {
	cid   cid.Cid
	raw   bool
	typ   pb.Data_DataType
	data  []byte
	bs    []uint64
	fsize *uint64
	kids  []*tree
	names []string
	pos   *posinfo.PosInfo
	all   []byte
}

func (s *store) tree(c cid.Cid) (*tree, error) {
	r, ok := s.rec(c)
	if !ok {
		return nil, fmt.Errorf("node %s is linked but was not stored", c)
	}
	if c.Prefix().Codec == cid.Raw {
		return &tree{cid: c, raw: true, data: r.data, all: r.data, pos: r.pos}, nil
	}
	n, err := mdag.DecodeProtobuf(r.data)
	if err != nil {
		return nil, err
	}
	return s.treeOf(n)
}

func (s *store) treeOf(nd ipld.Node) (*tree, error) {
	if f, ok := nd.(*posinfo.FilestoreNode); ok {
		t, err := s.treeOf(f.Node)
		if t != nil {
			t.pos = f.PosInfo
		}
		return t, err
	}
	if rn, ok := nd.(*mdag.RawNode); ok {
		return &tree{cid: rn.Cid(), raw: true, data: rn.RawData(), all: rn.RawData()}, nil
	}
	n, ok := nd.(*mdag.ProtoNode)
	if !ok {
		return nil, fmt.Errorf("unexpected node type %T", nd)
	}
	// decode from the encoded form: what is stored under the identifier
	n, err := mdag.DecodeProtobuf(append([]byte(nil), n.RawData()...))
	if err != nil {
		return nil, err
	}
	var d pb.Data
	if err := proto.Unmarshal(n.Data(), &d); err != nil {
		return nil, err
	}
	t := &tree{cid: nd.Cid(), typ: d.GetType(), data: d.Data, bs: d.Blocksizes, fsize: d.Filesize}
	if len(n.Links()) == 0 {
		// the content is what the leaves hold
		t.all = append(t.all, d.Data...)
	}
	for _, l := range n.Links() {
		k, err := s.tree(l.Cid)
		if err != nil {
			return nil, err
		}
		t.kids = append(t.kids, k)
		t.names = append(t.names, l.Name)
		t.all = append(t.all, k.all...)
	}
	return t, nil
}

// sizes checks the recorded sizes of a whole file DAG.
func (t *tree) sizes() error {
	if t.raw {
		return nil
	}
	if len(t.bs) != len(t.kids) {
		return fmt.Errorf("node %s has %d links but %d recorded sizes", t.cid, len(t.kids), len(t.bs))
	}
	for i, k := range t.kids {
		if t.bs[i] != uint64(len(k.all)) {
			return fmt.Errorf("node %s: recorded size %d of child %d, content length %d", t.cid, t.bs[i], i, len(k.all))
		}
		if err := k.sizes(); err != nil {
			return err
		}
	}
	if t.fsize == nil {
		if len(t.all) != 0 {
			return fmt.Errorf("node %s: no file size recorded", t.cid)
		}
	} else if *t.fsize != uint64(len(t.all)) {
		return fmt.Errorf("node %s: recorded file size %d, content length %d", t.cid, *t.fsize, len(t.all))
	}
	return nil
}

func (t *tree) shape() string {
	if len(t.kids) == 0 {
		return "."
	}
	var b strings.Builder
	b.WriteByte('(')
	for _, k := range t.kids {
		b.WriteString(k.shape())
	}
	b.WriteByte(')')
	return b.String()
}

// ---------------------------------------------------------------- driver

type runT struct {
	t       *testing.T
	prop    string
	r       *rand.Rand
	evals   int
	seen    map[string]bool
	samples []string
	known   map[string]string
	end     time.Time
	cur     int
	hist    []string
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// run repeats one generated case until the budget is used.
func run(t *testing.T, prop string, f func(c *runT) error) {
	seed := int64(envInt("VERIF_SEED", 1))
	budget := time.Duration(envInt("VERIF_BUDGET_MS", 4000)) * time.Millisecond
	one := envInt("VERIF_CASE", -1)
	c := &runT{t: t, prop: prop, seen: map[string]bool{}, end: time.Now().Add(budget), known: map[string]string{}}
	n := 0
	for ; one >= 0 || n < 20 || time.Now().Before(c.end); n++ {
		i := n
		if one >= 0 {
			i = one
		}
		// the first part of the run is the same for every seed, the rest depends on it
		s := int64(i)*7919 + 17
		if i >= 100000 || (i >= 500 && one < 0) {
			s += seed * 1000003
		}
		c.r = rand.New(rand.NewSource(s))
		c.hist = nil
		c.cur = i
		c.evals++
		progress(c, "")
		err := guard(func() error { return f(c) })
		if err != nil {
			c.report(i, s, err)
			break
		}
		if one >= 0 {
			break
		}
	}
	c.stats()
}

// progress records where a case is, for the case that takes the process down.
func progress(c *runT, what string) {
	if p := os.Getenv("VERIF_PROGRESS"); p != "" {
		b, _ := json.Marshal(map[string]interface{}{"property": c.prop, "case": c.cur, "doing": what, "history": c.hist})
		os.WriteFile(p, b, 0o644)
	}
}

func guard(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1800 {
				st = st[:1800]
			}
			err = fmt.Errorf("panic: %v\n%s", p, st)
		}
	}()
	return f()
}

func (c *runT) logf(f string, a ...interface{}) {
	c.hist = append(c.hist, fmt.Sprintf(f, a...))
}

// note counts a distinct non-trivial case.
func (c *runT) note(key string) {
	if !c.seen[key] {
		c.seen[key] = true
		if len(c.samples) < 3 {
			h := strings.Join(c.hist, "; ")
			if len(h) > 400 {
				h = h[:400] + "..."
			}
			c.samples = append(c.samples, key+" | "+h)
		}
	}
}

func (c *runT) report(i int, seed int64, err error) {
	out := map[string]interface{}{"property": c.prop, "case": i, "case_seed": seed, "failure": err.Error(), "history": c.hist}
	b, _ := json.MarshalIndent(out, "", " ")
	if p := os.Getenv("VERIF_REPLAY"); p != "" {
		os.WriteFile(p, b, 0o644)
	}
	c.t.Errorf("property %s violated in case %d: %v\nhistory: %s", c.prop, i, err, strings.Join(c.hist, "; "))
}

func (c *runT) stats() {
	p := os.Getenv("VERIF_STATS")
	if p == "" {
		return
	}
	var ks []string
	for k := range c.known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := map[string]interface{}{"evaluations": c.evals, "distinct_nontrivial": len(c.seen), "samples": c.samples, "known": ks}
	b, _ := json.Marshal(out)
	os.WriteFile(p, b, 0o644)
}

func diffBytes(what string, got, want []byte) error {
	if bytes.Equal(got, want) {
		return nil
	}
	n := len(got)
	if len(want) < n {
		n = len(want)
	}
	at := n
	for i := 0; i < n; i++ {
		if got[i] != want[i] {
			at = i
			break
		}
	}
	return fmt.Errorf("%s: got %d bytes, want %d, first difference at %d", what, len(got), len(want), at)
}

func sum(xs []int) (n int) {
	for _, x := range xs {
		n += x
	}
	return
}

func within(d time.Duration, f func() error) error {
	ch := make(chan error, 1)
	go func() { ch <- guard(f) }()
	select {
	case e := <-ch:
		return e
	case <-time.After(d):
		return fmt.Errorf("no result within %v", d)
	}
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

var _ = ft.TFile
