package hamt

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"
)

// TestC18 compares the bit slicing with arbitrary-precision arithmetic.
func TestC18(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ms, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_MS"))
	if err != nil {
		ms = 3000
	}
	r := rand.New(rand.NewSource(int64(seed)*31 + 5))
	end := time.Now().Add(time.Duration(ms) * time.Millisecond)
	evals := 0
	seen := map[string]bool{}
	var samples []string
	fail := func(f string, a ...interface{}) {
		m := fmt.Sprintf(f, a...)
		if p := os.Getenv("VERIF_REPLAY"); p != "" {
			b, _ := json.MarshalIndent(map[string]interface{}{"property": "C18", "failure": m}, "", " ")
			os.WriteFile(p, b, 0o644)
		}
		t.Fatal(m)
	}
	one := func() (msg string) {
		evals++
		hash := make([]byte, r.Intn(12))
		r.Read(hash)
		if r.Intn(3) == 0 {
			for i := range hash {
				hash[i] = 0xff
			}
		}
		total := len(hash) * 8
		v := new(big.Int).SetBytes(hash)
		hb := &hashBits{b: hash}
		fixed := 1 + r.Intn(10)
		same := r.Intn(2) == 0
		pos := 0
		var widths []int
		defer func() {
			if p := recover(); p != nil {
				msg = fmt.Sprintf("hash %x, widths %v: panic: %v", hash, widths, p)
			}
		}()
		for n := 0; n < 60; n++ {
			i := fixed
			if !same {
				i = 1 + r.Intn(20)
			}
			widths = append(widths, i)
			got, err := hb.Next(i)
			if pos+i > total {
				if err == nil {
					return fmt.Sprintf("hash %x, widths %v: drawing past the end gave index %d", hash, widths, got)
				}
				if hb.consumed != pos {
					return fmt.Sprintf("hash %x, widths %v: a failed draw consumed bits", hash, widths)
				}
				if same {
					break
				}
				continue
			}
			if err != nil {
				return fmt.Sprintf("hash %x, widths %v: %v", hash, widths, err)
			}
			w := new(big.Int).Rsh(v, uint(total-pos-i))
			w.And(w, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(i)), big.NewInt(1)))
			if int64(got) != w.Int64() {
				return fmt.Sprintf("hash %x, widths %v: index %d, want %d", hash, widths, got, w.Int64())
			}
			pos += i
		}
		k := fmt.Sprint(len(hash), same, fixed, len(widths))
		if !seen[k] {
			seen[k] = true
			if len(samples) < 3 {
				samples = append(samples, fmt.Sprintf("hash %x widths %v", hash, widths))
			}
		}
		return ""
	}
	for evals < 2000 || time.Now().Before(end) {
		if m := one(); m != "" {
			fail("%s", m)
		}
	}
	try := func(v int) {
		lg, err := Logtwo(v)
		want := -1
		for k := 0; k < 63; k++ {
			if v == 1<<uint(k) {
				want = k
			}
		}
		if (err == nil) != (want >= 0) || (err == nil && lg != want) {
			fail("Logtwo(%d) = %d, %v; want %d", v, lg, err, want)
		}
		evals++
	}
	for v := -10; v < 5000; v++ {
		try(v)
	}
	for k := 0; k < 63; k++ {
		for d := -2; d <= 2; d++ {
			try(1<<uint(k) + d)
			try(-(1 << uint(k)) + d)
		}
	}
	for _, w := range []int{8, 16, 32, 64, 128, 256, 512, 1024} {
		s, err := NewShard(nil, w)
		if err != nil {
			fail("width %d: %v", w, err)
		}
		lg, _ := Logtwo(w)
		if s.tableSizeLg2 != lg || s.tableSize != w {
			fail("width %d: index width %d", w, s.tableSizeLg2)
		}
	}
	for _, w := range []int{0, -8, 24, 40, 48, 96, 100, 255, 257, 1000} {
		if _, err := NewShard(nil, w); err == nil {
			fail("width %d accepted", w)
		}
	}
	// newConsumedHashBits continues where another stopped
	for i := 0; i < 200; i++ {
		name := fmt.Sprint("n", i)
		a := newHashBits(name)
		c := r.Intn(6)
		for j := 0; j < c; j++ {
			if _, err := a.Next(1 + (j+i)%9); err != nil {
				fail("%v", err)
			}
		}
		b := newConsumedHashBits(name, a.consumed)
		x, e1 := a.Next(5)
		y, e2 := b.Next(5)
		if x != y || (e1 == nil) != (e2 == nil) {
			fail("newConsumedHashBits(%q) differs", name)
		}
	}
	if p := os.Getenv("VERIF_STATS"); p != "" {
		b, _ := json.Marshal(map[string]interface{}{"evaluations": evals, "distinct_nontrivial": len(seen), "samples": samples, "known": []string{}})
		os.WriteFile(p, b, 0o644)
	}
}
