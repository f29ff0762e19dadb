package main

import (
	"net"
	"strconv"
	"sync"
)

// Ports are never used twice, nor by two processes at the same time: a Sender that is still
// trying to connect to the address of a former scenario must not reach the one of another.
// They are outside of the range of the ports of clients.
const (
	portFirst = 12000
	portLast  = 32000
	portBlock = 250
)

var ports struct {
	sync.Mutex
	next, end int
	taken     []net.Listener
}

// freePort returns a port that is free with IPv4, and with IPv6 if there is such a thing
func freePort() string {
	ports.Lock()
	defer ports.Unlock()
	for {
		if ports.next >= ports.end {
			nextBlock()
		}
		p := strconv.Itoa(ports.next)
		ports.next++
		l4, err := net.Listen("tcp4", "127.0.0.1:"+p)
		if err != nil {
			continue
		}
		l6, err := net.Listen("tcp6", "[::1]:"+p)
		l4.Close()
		if err == nil {
			l6.Close()
		} else if has6() {
			continue
		}
		return p
	}
}

// nextBlock takes ports that no other process has; an abstract socket tells whose they are
func nextBlock() {
	for b := portFirst; b < portLast; b += portBlock {
		l, err := net.Listen("unix", "@syslog5424-verif-ports-"+strconv.Itoa(b))
		if err == nil {
			ports.taken = append(ports.taken, l)
			ports.next, ports.end = b, b+portBlock
			return
		}
	}
	panic("no ports")
}

var has6 = sync.OnceValue(func() bool {
	l, err := net.Listen("tcp6", "[::1]:0")
	if err == nil {
		l.Close()
	}
	return err == nil
})
