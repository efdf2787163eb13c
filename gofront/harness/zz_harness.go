// Laid into a scratch copy of the proxy's main package: runs the cases given
// on stdin, one JSON document a line, and answers each on stdout.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"strings"

	"github.com/dask/dask-gateway/dask-gateway-proxy/internal/logging"
	"github.com/dask/dask-gateway/dask-gateway-proxy/pkg/router"
)

type zzCase struct {
	Kind    string     `json:"kind"`
	Ops     [][]string `json:"ops"`
	Queries []string   `json:"queries"`
	Hits    [][]string `json:"hits"`
}

type zzTransport struct{ got []string }

func (t *zzTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	t.got = append(t.got, r.URL.Scheme+"://"+r.URL.Host+" "+r.Host+" "+r.URL.Path+"?"+r.URL.RawQuery)
	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: http.NoBody, Request: r}, nil
}

func zzURL(s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return u
}

func zzRoute(c *zzCase) interface{} {
	r := router.NewRouter()
	urls := map[*url.URL]string{}
	var out []interface{}
	ask := func() {
		var row []interface{}
		for _, q := range c.Queries {
			u, rest := r.Match(q)
			name := ""
			if u != nil {
				name = urls[u]
				if name == "" {
					name = "?"
				}
			}
			row = append(row, []interface{}{name, rest, r.HasMatch(q)})
		}
		out = append(out, row)
	}
	ask()
	for _, o := range c.Ops {
		if o[0] == "put" {
			u := zzURL(o[2])
			urls[u] = o[2]
			r.Put(o[1], u)
		} else {
			r.Delete(o[1])
		}
		ask()
	}
	return out
}

func zzServe(c *zzCase) interface{} {
	p := NewProxy(logging.ERROR)
	t := &zzTransport{}
	p.proxy.Transport = t
	for _, o := range c.Ops {
		if o[0] == "put" {
			p.router.Put(o[1], zzURL(o[2]))
		} else {
			p.router.Delete(o[1])
		}
	}
	var out []interface{}
	for _, q := range c.Queries {
		t.got = nil
		req := httptest.NewRequest("GET", "http://gateway.test/", nil)
		i := strings.Index(q, "?")
		if i < 0 {
			req.URL.Path = q
		} else {
			req.URL.Path, req.URL.RawQuery = q[:i], q[i+1:]
		}
		w := httptest.NewRecorder()
		p.ServeHTTP(w, req)
		out = append(out, []interface{}{w.Code, t.got})
	}
	return out
}

func zzOne(line []byte) (res interface{}) {
	defer func() {
		if e := recover(); e != nil {
			res = map[string]string{"panic": fmt.Sprint(e)}
		}
	}()
	var c zzCase
	if err := json.Unmarshal(line, &c); err != nil {
		panic(err)
	}
	switch c.Kind {
	case "route":
		return zzRoute(&c)
	case "serve":
		return zzServe(&c)
	}
	if f, ok := zzMore[c.Kind]; ok {
		return f(line)
	}
	panic("kind " + c.Kind)
}

var zzMore = map[string]func([]byte) interface{}{}

func init() {
	if os.Getenv("ZZ_HARNESS") == "" {
		return
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		b, err := json.Marshal(zzOne(line))
		if err != nil {
			panic(err)
		}
		out.Write(append(b, '\n'))
		out.Flush()
	}
}
