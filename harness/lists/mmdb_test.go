package lists

import (
	"encoding/binary"
	"net"
)

// mmdb writes a MaxMind database; just enough of the format for the tests.
type mmdb struct {
	nodes [][2]int // > 0 node, < 0 data (-1-offset), 0 nothing
	data  []byte
}

func newMMDB() *mmdb { return &mmdb{nodes: make([][2]int, 1)} }

// add puts a value under a prefix of the IPv6 tree; IPv4 lies in ::/96.
func (m *mmdb) add(ip net.IP, bits int, value []byte) {
	var a [16]byte
	if v4 := ip.To4(); v4 != nil {
		copy(a[12:], v4)
		bits += 96
	} else {
		copy(a[:], ip.To16())
	}
	off := len(m.data)
	m.data = append(m.data, value...)
	n := 0
	for i := 0; i < bits; i++ {
		b := int(a[i/8] >> (7 - i%8) & 1)
		if i == bits-1 {
			m.nodes[n][b] = -1 - off
			return
		}
		next := m.nodes[n][b]
		if next < 0 { // a wider network is there already: keep it on both sides
			m.nodes = append(m.nodes, [2]int{next, next})
			m.nodes[n][b] = len(m.nodes) - 1
		} else if next == 0 {
			m.nodes = append(m.nodes, [2]int{})
			m.nodes[n][b] = len(m.nodes) - 1
		}
		n = m.nodes[n][b]
	}
}

func ctl(typ, size int) []byte {
	if size >= 29 { // never so for the extended types here
		return []byte{byte(typ<<5 | 29), byte(size - 29)}
	}
	if typ > 7 {
		return []byte{byte(size), byte(typ - 7)}
	}
	return []byte{byte(typ<<5 | size)}
}

func mmString(s string) []byte { return append(ctl(2, len(s)), s...) }

func mmUint(n uint32) []byte {
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], n)
	return append(ctl(6, 4), b[:]...)
}

func mmMap(kv ...any) []byte {
	out := ctl(7, len(kv)/2)
	for i := 0; i < len(kv); i += 2 {
		out = append(out, mmString(kv[i].(string))...)
		out = append(out, kv[i+1].([]byte)...)
	}
	return out
}

func mmArray(vs ...[]byte) []byte {
	out := ctl(11, len(vs))
	for _, v := range vs {
		out = append(out, v...)
	}
	return out
}

func (m *mmdb) bytes(kind string) []byte {
	n := len(m.nodes)
	var out []byte
	for _, nd := range m.nodes {
		for _, v := range nd {
			x := n // nothing
			if v > 0 {
				x = v
			} else if v < 0 {
				x = n + 16 + (-1 - v)
			}
			out = append(out, byte(x>>16), byte(x>>8), byte(x))
		}
	}
	out = append(out, make([]byte, 16)...)
	out = append(out, m.data...)
	out = append(out, "\xab\xcd\xefMaxMind.com"...)
	return append(out, mmMap(
		"node_count", mmUint(uint32(n)),
		"record_size", mmUint(24),
		"ip_version", mmUint(6),
		"database_type", mmString(kind),
		"languages", mmArray(mmString("en")),
		"binary_format_major_version", mmUint(2),
		"binary_format_minor_version", mmUint(0),
		"build_epoch", mmUint(1700000000),
		"description", mmMap("en", mmString("test")),
	)...)
}
