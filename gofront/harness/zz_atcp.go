package main

import (
	"bytes"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/dask/dask-gateway/dask-gateway-proxy/internal/logging"
)

func zzDump(p *Proxy) interface{} {
	p.routesLock.RLock()
	defer p.routesLock.RUnlock()
	b, err := json.Marshal(p.router)
	if err != nil {
		panic(err)
	}
	var paths map[string]string
	json.Unmarshal(b, &paths)
	sni := map[string]string{}
	for k, v := range p.sniRoutes {
		if v != "" {
			sni[k] = v
		}
	}
	return []interface{}{sni, paths}
}

type zzUpdates struct {
	Steps []struct {
		Full   []Route `json:"full"`
		Events []Event `json:"events"`
	} `json:"steps"`
}

func zzUpdate(line []byte) interface{} {
	var c zzUpdates
	if err := json.Unmarshal(line, &c); err != nil {
		panic(err)
	}
	p := NewProxy(logging.ERROR + 1)
	out := []interface{}{zzDump(p)}
	for _, s := range c.Steps {
		if s.Full != nil {
			p.UpdateFromRoutes(s.Full)
		} else {
			p.UpdateFromEvents(s.Events)
		}
		out = append(out, zzDump(p))
	}
	return out
}

// The API server: the n-th request for the table is answered by Tables[n],
// the n-th watch by the lines Watches[n] (a status when it is one number).
type zzWatch struct {
	Tables  []json.RawMessage   `json:"tables"`
	Watches [][]json.RawMessage `json:"watches"`
}

func zzWatchRoutes(line []byte) interface{} {
	var c zzWatch
	if err := json.Unmarshal(line, &c); err != nil {
		panic(err)
	}
	type msg struct {
		what string
		dump interface{}
	}
	log := make(chan msg, 1000)
	over := make(chan bool)
	var once bool
	finish := func() {
		if !once {
			once = true
			close(over)
		}
	}
	p := NewProxy(logging.ERROR + 1)
	nt, nw := 0, 0
	var answers []string
	mu := make(chan bool, 1)
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mu <- true
		defer func() { <-mu }()
		q := r.URL.Query()
		answers = append(answers, r.Header.Get("Authorization")+" "+q.Get("watch")+" "+q.Get("last_id"))
		log <- msg{"request " + q.Get("watch") + " " + q.Get("last_id"), zzDump(p)}
		if q.Get("watch") == "" {
			if nt >= len(c.Tables) {
				finish()
				<-mu
				select {}
			}
			b := c.Tables[nt]
			nt++
			if len(b) == 3 {
				w.WriteHeader(500)
				return
			}
			w.Write(b)
			return
		}
		if nw >= len(c.Watches) {
			finish()
			<-mu
			select {}
		}
		ls := c.Watches[nw]
		nw++
		if len(ls) == 1 && len(ls[0]) == 3 {
			var code int
			json.Unmarshal(ls[0], &code)
			w.WriteHeader(code)
			return
		}
		for _, l := range ls {
			if len(l) > 0 && l[0] == '"' {
				var s string
				json.Unmarshal(l, &s)
				w.Write([]byte(s))
			} else {
				w.Write(append(append([]byte{}, l...), '\n'))
			}
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
			}
		}
	}))
	go p.watchRoutes(srv.URL, "secret", time.Millisecond)
	stuck := false
	select {
	case <-over:
	case <-time.After(6 * time.Second):
		stuck = true
	}
	var out []interface{}
	for {
		select {
		case m := <-log:
			out = append(out, []interface{}{m.what, m.dump})
			continue
		default:
		}
		break
	}
	// the server stays: the proxy's loop has no end, and would ask whoever
	// listens on its port next
	return map[string]interface{}{"log": out, "stuck": stuck, "final": zzDump(p)}
}

type zzTLS struct {
	Routes map[string]int `json:"routes"` // name -> index of a target
	Name   string         `json:"name"`
	Hello  bool           `json:"hello"` // begin with a ClientHello for Name
	Body   string         `json:"body"`
	Chunks []int          `json:"chunks"`
	Mode   string         `json:"mode"` // who closes first
	Fwd    bool           `json:"fwd"`
}

type zzCapture struct {
	net.Conn
	b bytes.Buffer
}

func (c *zzCapture) Write(p []byte) (int, error)        { return c.b.Write(p) }
func (c *zzCapture) Read(p []byte) (int, error)         { return 0, io.EOF }
func (c *zzCapture) SetDeadline(t time.Time) error      { return nil }
func (c *zzCapture) SetReadDeadline(t time.Time) error  { return nil }
func (c *zzCapture) SetWriteDeadline(t time.Time) error { return nil }
func (c *zzCapture) Close() error                       { return nil }

func zzHello(name string) []byte {
	c := &zzCapture{}
	tls.Client(c, &tls.Config{ServerName: name, InsecureSkipVerify: true}).Handshake()
	b := c.b.Bytes()
	n := 5 + int(b[3])<<8 + int(b[4])
	return b[:n]
}

func zzListen() *net.TCPListener {
	l, err := net.ListenTCP("tcp", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		panic(err)
	}
	return l
}

func zzConn(line []byte) interface{} {
	var c zzTLS
	if err := json.Unmarshal(line, &c); err != nil {
		panic(err)
	}
	const reply = "REPLY-FROM-TARGET"
	const limit = 1500 * time.Millisecond
	data := []byte(c.Body)
	if c.Hello {
		data = append(zzHello(c.Name), data...)
	}
	p := NewProxy(logging.ERROR + 1)
	type got struct {
		who  string
		data []byte
		eof  bool
	}
	res := make(chan got, 16)
	serve := func(who string, x net.Conn) {
		t := x.(interface{ CloseWrite() error })
		x.SetDeadline(time.Now().Add(limit))
		var b []byte
		eof := false
		if c.Mode == "target-first" {
			// the target says all it has to say, then listens
			one := make([]byte, 1)
			if n, _ := x.Read(one); n == 1 {
				b = append(b, one...)
			}
			x.Write([]byte(reply))
			t.CloseWrite()
			more, err := io.ReadAll(x)
			b, eof = append(b, more...), err == nil
		} else {
			more, err := io.ReadAll(x)
			b, eof = more, err == nil
			x.Write([]byte(reply))
		}
		x.Close()
		res <- got{who, b, eof}
	}
	var ls []*net.TCPListener
	n := 0
	for _, i := range c.Routes {
		if i >= n {
			n = i + 1
		}
	}
	for i := 0; i < n; i++ {
		l := zzListen()
		ls = append(ls, l)
		go func(i int) {
			for {
				x, err := l.Accept()
				if err != nil {
					return
				}
				go serve(fmt.Sprintf("t%d", i), x)
			}
		}(i)
	}
	gone := zzListen()
	gone.Close()
	for name, i := range c.Routes {
		if i < 0 { // nobody listens there
			p.UpdateFromEvents([]Event{{Id: 1, Type: "PUT", Route: Route{Kind: "SNI", SNI: name, Target: "tls://" + gone.Addr().String()}}})
			continue
		}
		p.UpdateFromEvents([]Event{{Id: 1, Type: "PUT", Route: Route{Kind: "SNI", SNI: name, Target: "tls://" + ls[i].Addr().String()}}})
	}
	front := zzListen()
	ls = append(ls, front)
	var f *Forwarder
	if c.Fwd {
		f = newForwarder(front)
		go func() {
			x, _ := f.Accept()
			if x != nil {
				serve("forwarder", x)
			}
		}()
	}
	handled := make(chan bool, 1)
	go func() {
		x, err := front.Accept()
		if err == nil {
			p.handleConnection(x.(*net.TCPConn), f)
		}
		handled <- true
	}()
	defer func() {
		for _, l := range ls {
			l.Close()
		}
	}()
	k, err := net.DialTCP("tcp", nil, front.Addr().(*net.TCPAddr))
	if err != nil {
		panic(err)
	}
	defer k.Close()
	k.SetDeadline(time.Now().Add(limit))
	back := make(chan []byte, 1)
	wfail := ""
	write := func(b []byte) {
		if _, err := k.Write(b); err != nil && wfail == "" {
			wfail = "write"
		}
	}
	if c.Mode == "target-first" && len(data) > 0 {
		// the reply has come and ended before the rest is sent
		cut := len(data)
		if c.Hello {
			cut -= len(c.Body)
		} else if cut > 8 {
			cut = 8
		}
		write(data[:cut])
		b, _ := io.ReadAll(k)
		back <- b
		data2 := data[cut:]
		for len(data2) > 0 {
			m := 1000
			if m > len(data2) {
				m = len(data2)
			}
			write(data2[:m])
			data2 = data2[m:]
			time.Sleep(2 * time.Millisecond)
		}
		k.CloseWrite()
	} else {
		rest := data
		for _, m := range c.Chunks {
			if m > len(rest) {
				m = len(rest)
			}
			write(rest[:m])
			rest = rest[m:]
			time.Sleep(time.Millisecond)
		}
		write(rest)
		k.CloseWrite()
		b, _ := io.ReadAll(k)
		back <- b
	}
	out := map[string]interface{}{"back": string(<-back), "sent": len(data)}
	select {
	case g := <-res:
		out["who"], out["same"], out["n"], out["eof"] = g.who, bytes.Equal(g.data, data), len(g.data), g.eof
	case <-time.After(50 * time.Millisecond):
		select {
		case <-handled:
			handled <- true
			select {
			case g := <-res:
				out["who"], out["same"], out["n"], out["eof"] = g.who, bytes.Equal(g.data, data), len(g.data), g.eof
			case <-time.After(100 * time.Millisecond):
				out["who"] = ""
			}
		case g := <-res:
			out["who"], out["same"], out["n"], out["eof"] = g.who, bytes.Equal(g.data, data), len(g.data), g.eof
		case <-time.After(limit):
			out["who"] = "nobody answered"
		}
	}
	return out
}

func zzParse(line []byte) interface{} {
	var c struct {
		Targets []string `json:"targets"`
	}
	json.Unmarshal(line, &c)
	out := []interface{}{}
	for _, t := range c.Targets {
		u, err := url.Parse(t)
		if err != nil {
			out = append(out, nil)
		} else {
			out = append(out, []string{u.Scheme, u.String()})
		}
	}
	return out
}

func init() {
	zzMore["parse"] = zzParse
	zzMore["updates"] = zzUpdate
	zzMore["watch"] = zzWatchRoutes
	zzMore["conn"] = zzConn
	_ = sort.Strings
	_ = strings.ToUpper
}

// A listener whose Accept fails once.
type zzFlaky struct {
	net.Listener
	n int
}

func (l *zzFlaky) Accept() (net.Conn, error) {
	l.n++
	if l.n == 1 {
		return nil, fmt.Errorf("accept: too many open files")
	}
	return l.Listener.Accept()
}

func zzAccept(line []byte) (res interface{}) {
	p := NewProxy(logging.ERROR + 1)
	target, front := zzListen(), zzListen()
	defer target.Close()
	served := make(chan bool, 1)
	go func() {
		x, err := target.Accept()
		if err == nil {
			x.Close()
			served <- true
		}
	}()
	p.UpdateFromEvents([]Event{{Id: 1, Type: "PUT", Route: Route{Kind: "SNI", SNI: "a", Target: target.Addr().String()}}})
	dead := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				dead <- fmt.Sprint(e)
			}
		}()
		p.runTCP(&zzFlaky{Listener: front}, nil)
		dead <- "runTCP returned"
	}()
	k, err := net.DialTCP("tcp", nil, front.Addr().(*net.TCPAddr))
	if err != nil {
		panic(err)
	}
	defer k.Close()
	k.Write(zzHello("daskgateway-a"))
	select {
	case <-served:
		return map[string]bool{"served": true}
	case e := <-dead:
		return map[string]string{"panic": e}
	case <-time.After(3 * time.Second):
		return map[string]bool{"served": false}
	}
}

func init() { zzMore["accept"] = zzAccept }
