package h

import (
	"bytes"
	"os"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/filters"
	"github.com/go-bond/bond/zzverif/nd"
)

func init() {
	Registry["C29Seq"] = C29Seq
	Registry["C29Two"] = C29Two
}

// fileName draws a name of n characters that may stand in a file name.
func fileName(n int) string {
	s := nd.Str(n)
	for i := 0; i < n; i++ {
		c := s[i]
		nd.Assume(nd.Or(nd.And('a' <= c, c <= 'c'), c == '_', c == '.', c == '0', c == 'Z'))
	}
	nd.Assume(s != "." && s != "..")
	return s
}

// C29Seq: k steps on a store over names of n characters with a fixed start.
func C29Seq(k, n int) {
	dir, err := os.MkdirTemp("", "filters")
	must(err)
	cleanups = append(cleanups, func() { os.RemoveAll(dir) })
	s := filters.NewFSFilterStorer(dir)
	type entry struct {
		name string
		data []byte
	}
	var have []entry
	for i := 0; i < k; i++ {
		switch nd.Choose(3) {
		case 0:
			e := entry{fileName(n), nd.Bytes(nd.Choose(3))}
			noErr(s.Set([]byte(e.name), e.data, bond.Sync), "set")
			out := []entry{}
			for _, x := range have {
				if x.name != e.name {
					out = append(out, x)
				}
			}
			have = append(out, e)
		case 1:
			p := fileName(1)
			end := append([]byte(p), 0xFF)
			noErr(s.DeleteRange([]byte(p), end, bond.Sync), "delete of a range")
			out := []entry{}
			for _, x := range have {
				if x.name[0] != p[0] {
					out = append(out, x)
				}
			}
			have = out
		case 2:
			a, b := fileName(n), fileName(n)
			noErr(s.DeleteRange([]byte(a), []byte(b), bond.Sync), "delete of a range")
			out := []entry{}
			for _, x := range have {
				if x.name < a || x.name >= b {
					out = append(out, x)
				}
			}
			have = out
		}
	}
	q := fileName(n)
	got, closer, err := s.Get([]byte(q))
	var want *entry
	for i := range have {
		if have[i].name == q {
			want = &have[i]
		}
	}
	nd.Assert((err == nil) == (want != nil), "reads exactly the names that are stored")
	if err == nil {
		nd.Assert(bytes.Equal(got, want.data), "reads the bytes last written")
		noErr(closer.Close(), "close")
	}
	for _, x := range have {
		got, _, err := s.Get([]byte(x.name))
		noErr(err, "get of a stored name")
		nd.Assert(bytes.Equal(got, x.data), "reads the bytes last written")
	}
	nd.Reach("end")
}

// C29Two: k steps of two filters that keep their parts in one directory.
func C29Two(k int) {
	dir, err := os.MkdirTemp("", "filters")
	must(err)
	cleanups = append(cleanups, func() { os.RemoveAll(dir) })
	s := filters.NewFSFilterStorer(dir)
	prefix := []string{"\x00\x00\x01bf_", "\x00\x00\x02bf_b"}
	part := []string{"0", "10", "bn"}
	if nd.Bool() {
		must(os.Mkdir(dir+"/zz", 0755))
	}
	data := map[string][]byte{}
	for i := 0; i < k; i++ {
		p := prefix[nd.Choose(2)]
		if nd.Choose(2) == 0 {
			name := p + part[nd.Choose(3)]
			data[name] = nd.Bytes(nd.Choose(2) + 1)
			noErr(s.Set([]byte(name), data[name], bond.Sync), "set")
		} else if p == prefix[0] {
			// its range covers the other filter's names as well
			noErr(s.DeleteRange([]byte(p), append([]byte(p), 0xFF), bond.Sync), "delete of a range")
			data = map[string][]byte{}
		} else {
			noErr(s.DeleteRange([]byte(p), append([]byte(p), 0xFF), bond.Sync), "delete of a range")
			for _, x := range part {
				delete(data, p+x)
			}
		}
	}
	for _, p := range prefix {
		for _, x := range part {
			got, _, err := s.Get([]byte(p + x))
			want, ok := data[p+x]
			if p == prefix[0] && x == "bn" {
				continue // also a name of the other filter
			}
			nd.Assert((err == nil) == ok, "reads exactly the names that are stored")
			nd.Assert(!ok || bytes.Equal(got, want), "reads the bytes last written")
		}
	}
	nd.Reach("end")
}
