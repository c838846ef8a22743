package main

import (
	"fmt"
	"net/url"
	"strconv"
	"strings"

	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
)

func must(err error, label string) { vx.Assert(err == nil, label) }

func entry(u string) (e *fs.RVTO2AddrEntry, err error) {
	crashed, _ := vx.Try(func() { e, err = fs.UrlToTOAddrEntry(u) })
	vx.Assert(!crashed, "conversion does not crash")
	vx.Assert(crashed || (err == nil) == (e != nil), "conversion gives an entry or an error")
	return
}

// host is a host in URL syntax with its address bytes, nil for a name.
type host struct {
	text string
	ip   []byte
}

func digit(name string) byte {
	c := vx.Byte(name)
	vx.Assume(c >= '0' && c <= '9')
	return c
}

func hexdigit(name string) (byte, byte) {
	c := vx.Byte(name)
	switch {
	case c >= '0' && c <= '9':
		return c, c - '0'
	case c >= 'a' && c <= 'f':
		return c, c - 'a' + 10
	case c >= 'A' && c <= 'F':
		return c, c - 'A' + 10
	}
	vx.Assume(false)
	return 0, 0
}

func aHost() host {
	switch vx.Choose("host", 6) {
	case 0: // a name with arbitrary letters, digits, dashes and dots
		n := 1 + vx.Choose("letters", vx.Bound("name letters", 2, 4))
		b := vx.Bytes("name", n)
		for _, c := range b {
			vx.Assume(vx.Or(vx.And(c >= 'a', c <= 'z'), vx.Or(c == '-', c == '.')))
		}
		return host{string(b) + "x", nil}
	case 1:
		return host{"rv.example.com", nil}
	case 2: // every value of one octet
		at := vx.Choose("octet", 4)
		ip := []byte{192, 0, 2, 1}
		ip[at] = vx.Byte("octet value")
		t := ""
		for i, o := range ip {
			if i > 0 {
				t += "."
			}
			if i != at {
				t += strconv.Itoa(int(o))
				continue
			}
			if o >= 100 {
				t += string([]byte{'0' + o/100})
			}
			if o >= 10 {
				t += string([]byte{'0' + o/10%10})
			}
			t += string([]byte{'0' + o%10})
		}
		return host{t, ip}
	case 3: // every value of one group
		var d [4]byte
		var v [4]byte
		for i := range d {
			if vx.Bound("free hex digits", 1, 3) > i {
				d[i], v[i] = hexdigit("hex")
			} else {
				d[i], v[i] = 'a', 10
			}
		}
		at := vx.Choose("group", 8)
		ip := make([]byte, 16)
		var g []string
		for i := 0; i < 8; i++ {
			if i == at {
				g = append(g, string(d[:]))
				ip[2*i], ip[2*i+1] = v[0]<<4|v[1], v[2]<<4|v[3]
			} else {
				g = append(g, strconv.Itoa(i+1))
				ip[2*i+1] = byte(i + 1)
			}
		}
		return host{"[" + strings.Join(g, ":") + "]", ip}
	case 4:
		ip := make([]byte, 16)
		ip[0], ip[1], ip[15] = 0x20, 0x01, 1
		return host{"[2001::1]", ip}
	}
	return host{"[::ffff:192.0.2.7]", []byte{192, 0, 2, 7}}
}

// aPort is a port in URL syntax, its number, and whether it is valid; none is 0 digits.
func aPort() (text string, port int, none bool) {
	n := vx.Choose("port digits", vx.Bound("port digits", 6, 7))
	if n == 0 {
		if vx.Bool("colon") {
			return ":", 0, true
		}
		return "", 0, true
	}
	b := []byte{':'}
	for i := 0; i < n; i++ {
		c := digit("port")
		b = append(b, c)
		port = port*10 + int(c-'0')
	}
	return string(b), port, false
}

var schemes = []struct {
	text string
	p    fs.TransportProtocol
	port int
}{{"http", fs.ProtHTTP, 80}, {"https", fs.ProtHTTPS, 443}, {"HTTPS", fs.ProtHTTPS, 443}, {"Http", fs.ProtHTTP, 80}}

var tails = []string{"", "/", "/a/b?c=d#e"}

func check(e *fs.RVTO2AddrEntry, h host, p fs.TransportProtocol, port int) {
	if h.ip != nil {
		vx.Assert(e.RVIP != nil && e.RVDNS == nil, "an IP address becomes an IP address")
		vx.Assert(vx.EqBytes(*e.RVIP, h.ip), "the entry has the address of the URL")
	} else {
		vx.Assert(e.RVIP == nil && e.RVDNS != nil, "a name becomes a DNS name")
		vx.Assert(vx.EqStr(*e.RVDNS, h.text), "the entry has the name of the URL")
	}
	vx.Assert(int(e.RVPort) == port, "the entry has the port of the URL or its scheme's default")
	vx.Assert(e.RVProtocol == p, "the entry has the protocol of the URL")
}

func plain() host {
	return []host{{"rv.example.com", nil}, {"192.0.2.1", []byte{192, 0, 2, 1}}, {"[2001::1]", []byte{0x20, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}}}[vx.Choose("host", 3)]
}

// Every host.
func H_host() {
	h := aHost()
	s := schemes[vx.Choose("scheme", len(schemes))]
	t, port := "", s.port
	if vx.Bool("port") {
		t, port = ":8080", 8080
	}
	e, err := entry(s.text + "://" + h.text + t + tails[vx.Choose("rest", len(tails))])
	must(err, "a URL with a host is converted")
	check(e, h, s.p, port)
}

// Every port.
func H_port() {
	s := schemes[vx.Choose("scheme", 2)]
	h := plain()
	t, port, none := aPort()
	e, err := entry(s.text + "://" + h.text + t + tails[vx.Choose("rest", 2)])
	if none {
		port = s.port
	}
	vx.Assert((err == nil) == (port <= 65535), "a port is accepted exactly when it has 16 bits")
	if err == nil {
		check(e, h, s.p, port)
	}
}

// Through a directive to the URLs used.
func H_directive() {
	s := schemes[vx.Choose("scheme", 2)]
	h := plain()
	port := 0
	t := ""
	symbolic := vx.Bool("every port")
	if !symbolic {
		port = []int{0, 1, 80, 443, 8041, 32767, 32768, 49152, 65535}[vx.Choose("given port", 9)]
		t = fmt.Sprintf(":%d", port)
		if vx.Bool("default") {
			t, port = "", s.port
		}
	} else {
		b := []byte{':'}
		n := 0
		for i := 0; i < 5; i++ {
			c := digit("port")
			b = append(b, c)
			n = n*10 + int(c-'0')
		}
		vx.Assume(n <= 65535)
		t, port = string(b), n
	}
	d, err := fs.UrlToRvDirective(s.text + "://" + h.text + t)
	must(err, "a URL becomes a directive")
	var back fs.RendezvousInfo
	must(fs.CborCust.Unmarshal(vxf.Marshal(fs.RendezvousInfo{d}), &back), "a directive is read back")
	m, err := fs.GetMappedRVInfo(back)
	must(err, "the directive of a URL is accepted")
	vx.Assert(len(m) == 1, "a URL gives one directive")
	r := m[0]
	want := fs.RVProtHttp
	if s.p == fs.ProtHTTPS {
		want = fs.RVProtHttps
	}
	vx.Assert(r.RVProtocol != nil && *r.RVProtocol == want, "the directive has the protocol of the URL")
	vx.Assert(r.RVDevPort != nil && int(*r.RVDevPort) == port && r.RVOwnerPort != nil && int(*r.RVOwnerPort) == port, "the directive has the port of the URL")
	if h.ip != nil {
		vx.Assert(r.RVDns == nil && len(r.RVIPAddresses) == 1 && vx.EqBytes(r.RVIPAddresses[0], h.ip), "the directive has the address of the URL")
	} else {
		vx.Assert(len(r.RVIPAddresses) == 0 && r.RVDns != nil && *r.RVDns == h.text, "the directive has the name of the URL")
	}
	vx.Assert(!r.RVDevOnly && !r.RVOwnerOnly && !r.RVBypass, "the directive is for everyone")
	if symbolic {
		return
	}
	us := r.GetOwnerUrls()
	vx.Assert(len(us) == 1, "a directive with one host gives one URL")
	u, err := url.Parse(us[0])
	must(err, "the URL of a directive is usable")
	vx.Assert(strings.ToLower(u.Scheme) == s.text, "the URL has the scheme of the directive")
	vx.Assert(u.Host == strings.TrimSuffix(h.text+t, "")+map[bool]string{true: fmt.Sprintf(":%d", port)}[t == ""], "the URL has the host and port of the directive")
}

// Owner URLs of directives with several hosts.
func H_owner_urls() {
	m := fs.MappedRVDirective{}
	names := []string{}
	if vx.Bool("dns") {
		s := "a.example"
		m.RVDns = &s
		names = append(names, s)
	}
	n := vx.Choose("addresses", vx.Bound("owner addresses", 6, 12))
	six := vx.Bool("ipv6")
	for i := n; i > 0; i-- {
		if six != (i == 2) {
			ip := fs.FdoIPAddress{0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, byte(i)}
			m.RVIPAddresses = append(m.RVIPAddresses, ip)
			names = append(names, fmt.Sprintf("[2001:db8::%d]", i))
		} else {
			m.RVIPAddresses = append(m.RVIPAddresses, fs.FdoIPAddress{10, 0, 0, byte(i)})
			names = append(names, fmt.Sprintf("10.0.0.%d", i))
		}
	}
	scheme, port := "https", 443
	switch vx.Choose("protocol", 4) {
	case 3: // never in the clear unless told so
		p := []fs.RVProtocolValue{fs.RVProtRest, fs.RVProtTls, fs.RVProtTcp}[vx.Choose("other protocol", 3)]
		m.RVProtocol = &p
	case 1:
		p := fs.RVProtHttp
		m.RVProtocol = &p
		scheme, port = "http", 80
	case 2:
		p := fs.RVProtHttps
		m.RVProtocol = &p
	}
	dev := uint16(1111)
	m.RVDevPort = &dev
	if vx.Bool("port") {
		p := []uint16{1, 80, 443, 8043, 32768, 65535}[vx.Choose("given port", 6)]
		m.RVOwnerPort = &p
		port = int(p)
	}
	us := m.GetOwnerUrls()
	vx.Assert(len(us) == len(names), "every host gives one URL")
	for i := range us {
		vx.Assert(us[i] == fmt.Sprintf("%s://%s:%d", scheme, names[i], port), "an owner URL names the scheme, host and owner port")
	}
}

// Several URLs keep their order; one that cannot be converted spoils the information.
func H_urls() {
	n := vx.Choose("urls", vx.Bound("urls", 9, 14))
	var in []string
	bad := false
	at := vx.Choose("bad", n+1)
	for i := 0; i < n; i++ {
		u := fmt.Sprintf("https://h%d.example:%d", i, 800+i)
		if i == at {
			u = []string{"ftp://h", "https://", "https://h:99999", "h"}[vx.Choose("kind", 4)]
			bad = true
		}
		in = append(in, u)
	}
	rv, err := fs.UrlsToRendezvousInfo(in)
	vx.Assert((err == nil) == !bad, "information is made exactly from URLs that can be converted")
	if err != nil {
		return
	}
	m, err := fs.GetMappedRVInfo(rv)
	must(err, "the directives of URLs are accepted")
	vx.Assert(len(m) == n, "every URL gives a directive")
	for i := range m {
		vx.Assert(*m[i].RVDns == fmt.Sprintf("h%d.example", i) && int(*m[i].RVDevPort) == 800+i, "the directives keep the order of the URLs")
	}
}

// Whatever the text, only http and https URLs with a host are accepted.
func H_reject() {
	var u string
	switch vx.Choose("shape", 4) {
	case 0:
		u = string(vx.Bytes("text", vx.Choose("length", vx.Bound("text", 2, 3))))
	case 1: // any scheme
		n := 1 + vx.Choose("scheme length", vx.Bound("scheme", 3, 4))
		b := vx.Bytes("scheme", n)
		for _, c := range b {
			vx.Assume(c >= 'a' && c <= 'z')
		}
		s := string(b)
		vx.Assume(!vx.EqStr(s, "http"))
		u = s + "://h.example"
	case 2: // no host
		u = []string{"http", "https"}[vx.Choose("scheme", 2)] + []string{"", ":", ":/", "://", ":///", "://:80", "://:", ":///h", ":h", ":h:80", "://[]", "://[]:80", "://?h", "://#h", "://u@", "://u:p@:80"}[vx.Choose("rest", 16)]
	case 3: // a broken host or port
		u = "https://" + []string{"h:x", "h:-1", "h:65536", "h:8 0", "[::1", "h h", "h:80:90", "%zz", "h%", "::1:80x"}[vx.Choose("rest", 10)]
	}
	_, err := entry(u)
	vx.Assert(err != nil, "a URL without supported scheme, host or valid port is rejected")
	_, err = fs.UrlToRvDirective(u)
	vx.Assert(err != nil, "no directive is made of a URL that is rejected")
}

// Addresses as text.
func H_address_text() {
	h := aHost()
	t := strings.TrimSuffix(strings.TrimPrefix(h.text, "["), "]")
	a, err := fs.FdoIPAddressFromString(t)
	vx.Assert((err == nil) == (h.ip != nil), "exactly IP addresses are converted")
	if err != nil {
		return
	}
	vx.Assert(vx.EqBytes(a, h.ip), "the address is that of the text")
	vx.Assert(a.IsValid(), "a converted address is valid")
}
