//go:build mcreal

package core

import (
	"net"
	"strconv"
	"sync"
	"time"

	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"verif.local/vs/ex"
)

// exec executes a plan with the unchanged code on the kernel's loopback network; a proxy
// between sender and receiver makes the pieces.  Tokens about orders have no meaning here.
func exec(plan string, trace bool) ex.Result {
	r := parse(plan)
	l, err := net.Listen("tcp4", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	port := strconv.Itoa(l.Addr().(*net.TCPAddr).Port)
	l.Close()
	var mu sync.Mutex
	delay := time.Duration(0)
	if r.late {
		delay = 300 * time.Millisecond
	}
	secs := func(n int) time.Duration { // 100 virtual seconds are 3 real ones
		if n > 3 {
			n = 3
		}
		return time.Duration(n) * time.Second
	}
	var rc chan *protobuf.Message
	if r.up == 0 {
		rc = MakeReceiveChannel(port)
	}
	go func() {
		if r.up > 0 {
			time.Sleep(secs(r.up))
			rc = MakeReceiveChannel(port)
		}
		time.Sleep(delay)
		for m := range rc {
			if r.nap > 0 {
				time.Sleep(100 * time.Millisecond)
			}
			mu.Lock()
			r.got = append(r.got, m)
			mu.Unlock()
		}
	}()
	if r.raw >= 0 || r.junk != nil {
		b := r.junk
		if b == nil {
			r.rawSent = []*protobuf.Message{payload(50, 0, 3), payload(50, 1, 9)}
			for _, m := range r.rawSent {
				b = append(b, frame(m)...)
			}
			b = b[:r.raw]
		}
		for i := 0; i <= r.more; i++ {
			b := b
			if i > 0 && r.raw >= 0 {
				b = r.part(b)
			}
			go func() {
				c, err := net.Dial("tcp4", "127.0.0.1:"+port)
				for t := 0; err != nil && t < 200; t++ { // the receiver may start later
					time.Sleep(50 * time.Millisecond)
					c, err = net.Dial("tcp4", "127.0.0.1:"+port)
				}
				if err != nil {
					return
				}
				c.Write(b)
				if r.end == "close" || r.junk != nil {
					c.Close()
				}
			}()
		}
	}
	deadPort := ""
	if r.dead >= 0 {
		l, _ := net.Listen("tcp4", "127.0.0.1:0")
		deadPort = strconv.Itoa(l.Addr().(*net.TCPAddr).Port)
		go func() {
			c, err := l.Accept()
			if err != nil {
				return
			}
			b := make([]byte, 1)
			for n := 0; n < r.dead; n++ {
				if _, err := c.Read(b); err != nil {
					break
				}
			}
			if r.stuck {
				select {}
			}
			c.Close()
		}()
	}
	if r.away >= 0 {
		l, _ := net.Listen("tcp4", "127.0.0.1:0")
		deadPort = strconv.Itoa(l.Addr().(*net.TCPAddr).Port)
		l.Close()
	}
	if r.away > 0 {
		go func() {
			time.Sleep(secs(r.away))
			for m := range MakeReceiveChannel(deadPort) {
				mu.Lock()
				r.got2 = append(r.got2, m)
				mu.Unlock()
			}
		}()
	}
	for i, sz := range r.sizes {
		var ms []*protobuf.Message
		for k, z := range sz {
			ms = append(ms, payload(10+i, k, z))
		}
		r.sent = append(r.sent, ms)
		p, _ := net.Listen("tcp4", "127.0.0.1:0")
		go r.proxy(p, port)
		i := i
		go func() {
			var ch2 chan *protobuf.Message
			if (r.dead >= 0 || r.away >= 0) && i == 0 {
				ch2 = MakeSendChannel("127.0.0.1", deadPort)
			}
			ch := MakeSendChannel("127.0.0.1", strconv.Itoa(p.Addr().(*net.TCPAddr).Port))
			for k, m := range ms {
				if r.gap > 0 && k > 0 {
					time.Sleep(200 * time.Millisecond)
				}
				if ch2 != nil {
					ch2 <- m
				}
				ch <- m
			}
			if i == 0 {
				mu.Lock()
				r.allSent = true
				mu.Unlock()
			}
		}()
	}
	var v string
	var det []string
	for t := 0; t < 200; t++ {
		time.Sleep(50 * time.Millisecond)
		mu.Lock()
		v, det = r.verdict()
		mu.Unlock()
		if v == "" && t > 2 {
			break
		}
	}
	return ex.Result{Viol: v, Detail: det}
}

func (r *run) proxy(l net.Listener, port string) {
	a, err := l.Accept()
	if err != nil {
		return
	}
	b, err := net.Dial("tcp4", "127.0.0.1:"+port)
	for t := 0; err != nil; t++ { // the receiver may start later
		if t == 100 {
			return
		}
		time.Sleep(50 * time.Millisecond)
		b, err = net.Dial("tcp4", "127.0.0.1:"+port)
	}
	b.(*net.TCPConn).SetNoDelay(true)
	off := 0
	buf := make([]byte, 1<<16)
	for {
		n, err := a.Read(buf)
		for p := 0; p < n; {
			k := n - p
			if r.chunk > 0 && k > r.chunk {
				k = r.chunk
			}
			for _, c := range r.cuts {
				if c > off && c-off < k {
					k = c - off
				}
			}
			b.Write(buf[p : p+k])
			p += k
			off += k
			if len(r.cuts) > 0 {
				time.Sleep(5 * time.Millisecond)
			}
		}
		if err != nil {
			b.Close()
			return
		}
	}
}
