package main

import (
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sync"
	"time"

	"github.com/dask/dask-gateway/dask-gateway-proxy/internal/logging"
)

var vProxy *Proxy
var vListeners []*net.TCPListener
var vRefused []string

const vTargets = 4

type vTransport struct {
	out  []vM
	fail bool
}

func (t *vTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	h := vM{}
	for k, v := range r.Header {
		l := []string{}
		for _, s := range v {
			l = append(l, vText(s))
		}
		h[k] = l
	}
	t.out = append(t.out, vM{"scheme": vText(r.URL.Scheme), "host": vText(r.URL.Host), "path": vText(r.URL.Path), "query": vText(r.URL.RawQuery), "method": r.Method, "headers": h})
	if t.fail {
		return nil, io.ErrUnexpectedEOF
	}
	return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: http.NoBody, Request: r}, nil
}

func vListen() *net.TCPListener {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	return ln.(*net.TCPListener)
}

func vRoute(v any) Route {
	m := v.(vM)
	return Route{Kind: vStr(m["kind"]), SNI: vStr(m["sni"]), Path: vStr(m["path"]), Target: vStr(m["target"])}
}

func vBytes(v any) []byte {
	out := []byte{}
	for _, b := range v.([]any) {
		out = append(out, byte(b.(float64)))
	}
	return out
}

func vInts(b []byte) []int {
	out := []int{}
	for _, c := range b {
		out = append(out, int(c))
	}
	return out
}

// reads until the other side is done
func vReadAll(c net.Conn) []byte {
	c.SetReadDeadline(time.Now().Add(3 * time.Second))
	b, _ := io.ReadAll(c)
	return b
}

func vTLS(r vM) vM {
	type got struct {
		to   any
		data []byte
	}
	ch := make(chan got, 16)
	var accepting sync.WaitGroup
	var lns []*net.TCPListener
	refused := map[int]bool{}
	for _, k := range r["refused"].([]any) {
		refused[int(k.(float64))] = true
	}
	for i, ln := range vListeners {
		if refused[i] {
			ln.Close()
			continue
		}
		lns = append(lns, ln)
		ln.SetDeadline(time.Now().Add(20 * time.Second))
		accepting.Add(1)
		go func(i int, ln *net.TCPListener) {
			defer accepting.Done()
			c, err := ln.Accept()
			if err != nil {
				return
			}
			b := vReadAll(c)
			c.Close()
			ch <- got{i, b}
		}(i, ln)
	}
	front := vListen()
	defer front.Close()
	client, err := net.Dial("tcp", front.Addr().String())
	if err != nil {
		panic(err)
	}
	c, err := front.Accept()
	if err != nil {
		panic(err)
	}
	go func() {
		for _, k := range r["chunks"].([]any) {
			client.Write(vBytes(k))
			time.Sleep(3 * time.Millisecond)
		}
		if r["end"].(string) == "error" {
			client.(*net.TCPConn).SetLinger(0)
			client.Close()
			return
		}
		client.(*net.TCPConn).CloseWrite()
	}()
	var f *Forwarder
	if r["forwarder"].(bool) {
		f = newForwarder(front)
		go func() {
			conn, err := f.Accept()
			if err != nil || conn == nil {
				return
			}
			b := vReadAll(conn)
			conn.Close()
			ch <- got{"http", b}
		}()
	}
	vProxy.handleConnection(c.(*net.TCPConn), f)
	// what arrived somewhere does so at once
	var res got
	select {
	case res = <-ch:
	case <-time.After(150 * time.Millisecond):
	}
	for _, ln := range lns {
		ln.SetDeadline(time.Now())
	}
	accepting.Wait()
	client.Close()
	return vM{"to": res.to, "data": vInts(res.data)}
}

// a target that answers once it got enough and closes
func vTalk(r vM) vM {
	n := int(r["after"].(float64))
	res := vM{"to": nil, "data": []int{}, "reply": []int{}}
	done := make(chan bool, 1)
	for i, ln := range vListeners {
		go func(i int, ln *net.TCPListener) {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			b := make([]byte, n)
			c.SetReadDeadline(time.Now().Add(3 * time.Second))
			k, _ := io.ReadFull(c, b)
			res["to"], res["data"] = i, vInts(b[:k])
			c.Write(vBytes(r["reply"]))
			c.Close()
			done <- true
		}(i, ln)
	}
	front := vListen()
	defer front.Close()
	client, err := net.Dial("tcp", front.Addr().String())
	if err != nil {
		panic(err)
	}
	c, err := front.Accept()
	if err != nil {
		panic(err)
	}
	go func() {
		for _, k := range r["chunks"].([]any) {
			client.Write(vBytes(k))
			time.Sleep(3 * time.Millisecond)
		}
	}()
	go vProxy.handleConnection(c.(*net.TCPConn), nil)
	back := vReadAll(client)
	client.Close()
	select {
	case <-done:
	case <-time.After(500 * time.Millisecond):
	}
	res["reply"] = vInts(back)
	for _, ln := range vListeners {
		ln.Close()
	}
	return res
}

// one side ends what it sends before the other
func vHalves(r vM) vM {
	first, rest, reply := vBytes(r["first"]), vBytes(r["rest"]), vBytes(r["reply"])
	res := vM{"to": nil, "data": []int{}, "reply": []int{}}
	done := make(chan bool, 1)
	for i, ln := range vListeners {
		go func(i int, ln *net.TCPListener) {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			var got []byte
			if r["who"].(string) == "client" {
				got = vReadAll(c)
				c.Write(reply)
			} else {
				got = make([]byte, len(first))
				c.SetReadDeadline(time.Now().Add(3 * time.Second))
				k, _ := io.ReadFull(c, got)
				c.Write(reply)
				c.(*net.TCPConn).CloseWrite()
				got = append(got[:k], vReadAll(c)...)
			}
			res["to"], res["data"] = i, vInts(got)
			c.Close()
			done <- true
		}(i, ln)
	}
	front := vListen()
	defer front.Close()
	client, err := net.Dial("tcp", front.Addr().String())
	if err != nil {
		panic(err)
	}
	c, err := front.Accept()
	if err != nil {
		panic(err)
	}
	var back []byte
	go vProxy.handleConnection(c.(*net.TCPConn), nil)
	client.Write(first)
	if r["who"].(string) == "client" {
		client.Write(rest)
		client.(*net.TCPConn).CloseWrite()
		back = vReadAll(client)
	} else {
		back = vReadAll(client)
		time.Sleep(20 * time.Millisecond)
		client.Write(rest)
		client.(*net.TCPConn).CloseWrite()
	}
	select {
	case <-done:
	case <-time.After(500 * time.Millisecond):
	}
	client.Close()
	res["reply"] = vInts(back)
	for _, ln := range vListeners {
		ln.Close()
	}
	return res
}

type vScript struct {
	net.Listener
	script []any
	conns  []net.Conn
	over   chan bool
}

func (l *vScript) Accept() (net.Conn, error) {
	if len(l.script) == 0 {
		l.over <- true
		select {}
	}
	s := l.script[0]
	l.script = l.script[1:]
	if s == nil {
		return nil, io.ErrNoProgress
	}
	return l.Listener.Accept()
}

// what the listener hands out, and where each connection goes
func vServe(r vM) vM {
	to := []any{}
	front := vListen()
	defer front.Close()
	l := &vScript{Listener: front, over: make(chan bool, 1)}
	var clients []net.Conn
	for _, s := range r["script"].([]any) {
		l.script = append(l.script, s)
		if s == nil {
			continue
		}
		client, err := net.Dial("tcp", front.Addr().String())
		if err != nil {
			panic(err)
		}
		clients = append(clients, client)
		for _, k := range s.([]any) {
			client.Write(vBytes(k))
		}
	}
	got := map[string]int{}
	var m sync.Mutex
	for i, ln := range vListeners {
		go func(i int, ln *net.TCPListener) {
			for {
				c, err := ln.Accept()
				if err != nil {
					return
				}
				b := vReadAll(c)
				c.Close()
				m.Lock()
				got[string(b)] = i
				m.Unlock()
			}
		}(i, ln)
	}
	go vProxy.runTCP(l, nil)
	select {
	case <-l.over:
	case <-time.After(5 * time.Second):
		return vM{"stuck": "accepting"}
	}
	for _, c := range clients {
		c.(*net.TCPConn).CloseWrite()
	}
	time.Sleep(200 * time.Millisecond)
	for _, ln := range vListeners {
		ln.Close()
	}
	m.Lock()
	defer m.Unlock()
	for _, s := range r["script"].([]any) {
		if s == nil {
			continue
		}
		b := []byte{}
		for _, k := range s.([]any) {
			b = append(b, vBytes(k)...)
		}
		if i, ok := got[string(b)]; ok {
			to = append(to, i)
		} else {
			to = append(to, nil)
		}
	}
	return vM{"to": to}
}

func init() {
	vOps["proxy-new"] = func(r vM) vM {
		vProxy = NewProxy(logging.LogLevel(int(r["level"].(float64))))
		vProxy.logger.Out = io.Discard
		for _, l := range vListeners {
			l.Close()
		}
		vListeners = nil
		t := []string{}
		for i := 0; i < vTargets; i++ {
			ln := vListen()
			vListeners = append(vListeners, ln)
			t = append(t, ln.Addr().String())
		}
		return vM{"targets": t}
	}
	vOps["proxy-load"] = func(r vM) vM {
		var rs []Route
		for _, v := range r["routes"].([]any) {
			rs = append(rs, vRoute(v))
		}
		vProxy.UpdateFromRoutes(rs)
		return vM{}
	}
	vOps["proxy-events"] = func(r vM) vM {
		var es []Event
		for k, v := range r["events"].([]any) {
			m := v.(vM)
			es = append(es, Event{Id: uint64(k + 1), Type: vStr(m["type"]), Route: vRoute(m["route"])})
		}
		vProxy.UpdateFromEvents(es)
		return vM{}
	}
	vOps["proxy-http"] = func(r vM) vM {
		t := &vTransport{fail: r["fail"].(bool)}
		vProxy.proxy.Transport = t
		req := &http.Request{Method: r["method"].(string), URL: &url.URL{Path: vStr(r["path"]), RawQuery: vStr(r["query"])}, Header: http.Header{}, Host: "gateway", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, RemoteAddr: "1.2.3.4:5"}
		for k, v := range r["headers"].(vM) {
			req.Header[k] = []string{vStr(v)}
		}
		w := httptest.NewRecorder()
		vProxy.ServeHTTP(w, req)
		res := vM{"status": w.Code}
		if len(t.out) > 0 {
			res["out"] = t.out[0]
		}
		return res
	}
	vOps["proxy-tls"] = vTLS
	vOps["proxy-talk"] = vTalk
	vOps["proxy-halves"] = vHalves
	vOps["proxy-watch"] = func(r vM) vM {
		go vProxy.watchRoutes(vStr(r["url"]), vStr(r["token"]), time.Duration(r["limit"].(float64)))
		return vM{}
	}
	vOps["proxy-serve"] = vServe
}
