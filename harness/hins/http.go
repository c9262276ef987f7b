package hins

import (
	"context"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"strings"

	"github.com/go-bond/bond"
	"github.com/go-bond/bond/inspect"
	"github.com/go-bond/bond/zzverif/h"
	"github.com/go-bond/bond/zzverif/nd"
	"github.com/urfave/cli/v2"
)

func init() {
	h.Registry["C27Http"] = C27Http
	h.Registry["C27HttpMeta"] = C27HttpMeta
	h.Registry["C27HttpErr"] = C27HttpErr
	h.Registry["C27Cli"] = C27Cli
	h.Registry["C27Paths"] = C27Paths
}

// connect serves the inspection of the tables and returns a client of it.
func connect(headers map[string]string, infos ...bond.TableInfo) (local, remote inspect.Inspect, done func()) {
	local, _ = inspect.NewInspect(infos)
	at, done := serve(inspect.NewInspectHandler(local))
	switch nd.Choose(3) {
	case 1:
		at += "/"
	case 2:
		at += "/some/path"
	}
	return local, inspect.NewInspectRemote(at, headers), done
}

// C27Http: a query over HTTP is the table's query.
func C27Http(n, index, selMask, filterMask, afterMask, other int) {
	db, end := h.NewDBWith(recSer{})
	t := plain(db, 5, "x")
	rows := t.fill(n, false)
	s := drawRec(nd.U8(), false)
	ascii(string(s.T), s.S)
	for _, r := range rows {
		ascii(string(r.T), r.S)
	}
	_, remote, done := connect(map[string]string{"Accept": "application/json"}, t)
	t.remote = func(req request, want []Rec) {
		got, err := remote.Query(bg, "x", req.index, req.sel, req.filter, req.limit, req.after)
		nd.Assert(err == nil, "the query over HTTP succeeds")
		nd.Assert(got != nil, "a query over HTTP without rows returns an empty list")
		nd.Assert(len(got) == len(want), "the query over HTTP returns as many rows as the table query")
		for i := range got {
			g, w := got[i], want[i]
			nd.Assert(len(g) == 5, "a row over HTTP has the exported fields")
			id, ok1 := g["ID"].(float64)
			a, ok2 := g["A"].(float64)
			n, ok3 := g["N"].(float64)
			tg, ok4 := g["T"].(string)
			st, ok5 := g["S"].(string)
			nd.Assert(ok1 && ok2 && ok3 && ok4 && ok5, "a row over HTTP has numbers and strings")
			nd.Assert(nd.And(id == float64(w.ID), a == float64(w.A), n == float64(w.N), tg == string(w.T), st == w.S),
				"a row over HTTP is the row of the table query")
		}
		if len(got) > 0 {
			nd.Reach("rows")
		}
	}
	t.compare(nil, "x", index, selMask, filterMask, afterMask, other, s, nd.U64())
	done()
	end()
}

// C27HttpMeta: names and fields over HTTP are those of the tables.
func C27HttpMeta(n int) {
	db, end := h.NewDBWith(recSer{})
	names := []string{"x", "y", "z"}
	var infos []bond.TableInfo
	for i := 0; i < n; i++ {
		infos = append(infos, plain(db, bond.TableID(i+1), names[i]))
	}
	local, remote, done := connect(nil, infos...)
	ts, err := remote.Tables()
	nd.Assert(err == nil, "tables are listed over HTTP")
	sameNames(ts, names[:n], "tables over HTTP are the registered ones")
	name := names[nd.Choose(3)]
	is, err := remote.Indexes(name)
	fs, err2 := remote.EntryFields(name)
	lis, lerr := local.Indexes(name)
	lfs, lerr2 := local.EntryFields(name)
	sameError(err, lerr)
	sameError(err2, lerr2)
	sameNames(is, lis, "indexes over HTTP are those of the table")
	nd.Assert(len(fs) == len(lfs), "fields over HTTP are those of the rows")
	for k, v := range lfs {
		nd.Assert(fs[k] == v, "fields over HTTP are those of the rows")
	}
	done()
	end()
}

// sameError tells whether the remote error carries the local one.
func sameError(remote, local error) {
	nd.Assert((remote == nil) == (local == nil), "a request over HTTP fails when the local one does")
	if remote != nil {
		nd.Assert(strings.Contains(remote.Error(), local.Error()), "an error over HTTP tells the reason")
	}
}

// C27HttpErr: what fails locally fails over HTTP.
func C27HttpErr(n int) {
	db, end := h.NewDBWith(recSer{})
	t := plain(db, 5, "x")
	t.fill(n, false)
	var headers map[string]string
	refused := nd.Choose(3)
	if refused == 1 {
		headers = map[string]string{"Accept": "text/html"}
	}
	local, remote, done := connect(headers, t)
	ctx := bg
	if refused == 2 {
		c, cancel := context.WithCancel(bg)
		cancel()
		ctx = c
	}
	table, index := "x", "a"
	var sel, filter, after map[string]any
	switch nd.Choose(7) {
	case 0:
		sel = map[string]any{"A": 1.0}
	case 1:
		table = ""
	case 2:
		table = "other"
	case 3:
		index = "other"
	case 4:
		sel = map[string]any{"Q": 1.0}
	case 5:
		after = map[string]any{"A": []any{"q"}}
	case 6:
		filter = map[string]any{"A": map[string]any{}}
	}
	rows, err := remote.Query(ctx, table, index, sel, filter, 0, after)
	switch refused {
	case 0:
		want, lerr := local.Query(ctx, table, index, sel, filter, 0, after)
		sameError(err, lerr)
		nd.Assert(len(rows) == len(want), "a query over HTTP returns as many rows as the local one")
	case 1:
		nd.Assert(err != nil && len(rows) == 0, "a format that is not offered is an error")
		ts, err := remote.Tables()
		nd.Assert(err != nil && len(ts) == 0, "a format that is not offered is an error for tables")
		is, err := remote.Indexes("x")
		nd.Assert(err != nil && len(is) == 0, "a format that is not offered is an error for indexes")
		fs, err := remote.EntryFields("x")
		nd.Assert(err != nil && len(fs) == 0, "a format that is not offered is an error for fields")
	case 2:
		nd.Assert(err != nil && len(rows) == 0, "a cancelled query over HTTP is an error")
	}
	done()
	end()
}

// C27Paths: the handler answers the paths that end like its own.
func C27Paths() {
	db, end := h.NewDBWith(recSer{})
	t := plain(db, 5, "x")
	t.fill(1, false)
	local, _ := inspect.NewInspect([]bond.TableInfo{t})
	handler := inspect.NewInspectHandler(local)
	paths := []string{"/tables", "/indexes", "/entryFields", "/query", "/a/tables", "/tables/query",
		"/", "", "/table", "/tables/", "/queryx", "/entryfields"}
	p := nd.Choose(len(paths))
	bad := nd.Bool()
	body := `{"table":"x"}`
	if bad {
		body = `{"table"`
	}
	doc, _ := jsonText(body)
	a := &answer{header: http.Header{}}
	handler.ServeHTTP(a, &http.Request{Method: "POST", URL: &url.URL{Path: paths[p]}, Header: http.Header{},
		Body: io.NopCloser(strings.NewReader(doc))})
	switch {
	case p >= 6:
		nd.Assert(a.status == 404, "an unknown path is not found")
	case bad && p != 0 && p != 4:
		nd.Assert(a.status == 500, "a malformed request is an error")
	default:
		nd.Assert(a.status == 200 && len(a.body) > 0, "a known path is answered")
	}
	end()
}

// C27Cli: the command line prints what the inspection interface returns.
func C27Cli(n, what int) {
	db, end := h.NewDBWith(recSer{})
	t := plain(db, 5, "x")
	for _, r := range t.fill(n, false) {
		ascii(string(r.T), r.S)
	}
	local, _ := inspect.NewInspect([]bond.TableInfo{t})
	at, done := serve(inspect.NewInspectHandler(local))
	opened := ""
	cmd := inspect.NewInspectCLI(func(path string) (inspect.Inspect, error) {
		opened = path
		if path == "bad" {
			return nil, errors.New("no such database")
		}
		return local, nil
	})
	where := []string{"db", at, at + "/", "bad"}[nd.Choose(4)]
	args := []string{"bond-cli", "inspect", "--url", where}
	fails := where == "bad"
	if what < 4 && nd.Bool() {
		h := nd.Choose(3)
		args = append(args, "--headers", []string{"Accept=application/json", "Accept=text/html", "Accept"}[h])
		fails = fails || h > 0 && where != "db"
	}
	args = append(args, []string{"tables", "indexes", "entry-fields", "query"}[what])
	table := "x"
	if what > 0 {
		if nd.Bool() {
			table = "other"
		}
		args = append(args, "--table", table)
	}
	var want any
	var lerr error
	switch what {
	case 0:
		want, lerr = local.Tables()
	case 1:
		want, lerr = local.Indexes(table)
	case 2:
		want, lerr = local.EntryFields(table)
	case 3:
		var m [3]map[string]any
		index, limit := "primary", uint64(30)
		s := drawRec(nd.U8(), false)
		ascii(string(s.T), s.S)
		give := nd.Choose(6)
		for i, f := range []string{"--index-selector", "--filter", "--after"} {
			if give == i+1 {
				m[i] = operands(1+i, s, 2)
				b, err := json.Marshal(m[i])
				must(err)
				args = append(args, f, string(b))
			}
		}
		if give <= 1 {
			index = "a"
			args = append(args, "--index", index)
		}
		if give == 4 {
			limit = 1
			args = append(args, "--limit", "1")
		}
		if give == 5 {
			fails = true
			args = append(args, []string{"--index-selector", "--filter", "--after"}[nd.Choose(3)], "no object")
		}
		want, lerr = local.Query(bg, table, index, m[0], m[1], limit, m[2])
	}
	out, err := printed(func() error { return (&cli.App{Commands: []*cli.Command{cmd}}).Run(args) })
	nd.Assert((where == "db" || where == "bad") == (opened != ""), "a path is opened and an address is asked")
	if fails || lerr != nil {
		nd.Assert(err != nil && out == "", "what fails prints nothing on the command line")
	} else {
		nd.Assert(err == nil, "the command line succeeds")
		var got, exp any
		must(json.Unmarshal([]byte(out), &got))
		b, err := json.Marshal(want)
		must(err)
		must(json.Unmarshal(b, &exp))
		nd.Assert(reflect.DeepEqual(got, exp), "the command line prints what the inspection returns")
	}
	done()
	end()
}
