package dnssecmon

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"encoding/base64"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// A key pair, usable under any owner name.
type pair struct {
	alg  uint8
	pub  string
	priv crypto.Signer
}

var rsaPair = sync.OnceValue(func() *pair {
	k, err := rsa.GenerateKey(crand.Reader, 2048)
	if err != nil {
		panic(err)
	}
	e := []byte{3, 1, 0, 1}
	return &pair{dns.RSASHA256, base64.StdEncoding.EncodeToString(append(e, k.N.Bytes()...)), k}
})

// twins are two keys that have the same tag.
var twins = sync.OnceValue(func() [2]*pair {
	rnd := rand.New(rand.NewSource(1))
	byTag := map[uint16]*pair{}
	for {
		seed := make([]byte, 32)
		rnd.Read(seed)
		k := ed25519.NewKeyFromSeed(seed)
		p := &pair{dns.ED25519, base64.StdEncoding.EncodeToString(k.Public().(ed25519.PublicKey)), k}
		tag := p.of(".", 256).rr.KeyTag()
		if other := byTag[tag]; other != nil {
			return [2]*pair{p, other}
		}
		byTag[tag] = p
	}
})

// newPair makes a key pair. There is one RSA key for all honest zones, it takes
// long to make.
func newPair(rnd *rand.Rand, honest bool) *pair {
	switch rnd.Intn(8) {
	case 0:
		if !honest {
			return newPair(rnd, honest)
		}
		return rsaPair()
	case 1, 2, 3:
		seed := make([]byte, 32)
		rnd.Read(seed)
		k := ed25519.NewKeyFromSeed(seed)
		return &pair{dns.ED25519, base64.StdEncoding.EncodeToString(k.Public().(ed25519.PublicKey)), k}
	}
	b := make([]byte, 32)
	rnd.Read(b)
	b[0] = 0 // below the order of the curve
	k, err := ecdsa.ParseRawPrivateKey(elliptic.P256(), b)
	if err != nil {
		panic(err)
	}
	raw, err := k.PublicKey.Bytes()
	if err != nil {
		panic(err)
	}
	return &pair{dns.ECDSAP256SHA256, base64.StdEncoding.EncodeToString(raw[1:]), k}
}

// key is a key of a zone.
type key struct {
	rr   *dns.DNSKEY
	priv crypto.Signer
}

func (p *pair) of(zone string, flags uint16) *key {
	return &key{&dns.DNSKEY{Hdr: dns.RR_Header{Name: zone, Rrtype: dns.TypeDNSKEY, Class: 1, Ttl: 3600}, Flags: flags, Protocol: 3, Algorithm: p.alg, PublicKey: p.pub}, p.priv}
}

type window struct{ from, to time.Duration }

// A case takes less than a day.
var (
	current = window{-time.Hour, 30 * 24 * time.Hour}
	expired = window{-60 * 24 * time.Hour, -time.Second}
	future  = window{24 * time.Hour, 60 * 24 * time.Hour}
)

func sign(k *key, signer string, rrset []dns.RR, w window) *dns.RRSIG {
	now := time.Now()
	sig := &dns.RRSIG{Hdr: dns.RR_Header{Name: rrset[0].Header().Name, Rrtype: dns.TypeRRSIG, Class: 1, Ttl: rrset[0].Header().Ttl},
		KeyTag: k.rr.KeyTag(), Algorithm: k.rr.Algorithm, SignerName: signer,
		Inception: uint32(now.Add(w.from).Unix()), Expiration: uint32(now.Add(w.to).Unix())}
	if err := sig.Sign(k.priv, rrset); err != nil {
		panic(fmt.Sprint(err, rrset))
	}
	return sig
}

type set map[uint16][]dns.RR

type zone struct {
	name   string
	parent *zone
	signed bool // has keys and signatures
	secure bool // and an unbroken chain from the root
	evil   bool // the attacker has the keys

	ksk, zsk []*key // what signs the keys, what signs everything else
	spare    []*key // published only
	nsec3    bool
	optout   bool
	salt     string
	iter     uint16

	names map[string]set // by canonical name
	cuts  map[string]*zone

	proofs []*proof
	mu     sync.Mutex
	sigs   map[string][]dns.RR
}

// proof is one NSEC or NSEC3 record of a zone.
type proof struct {
	rr    dns.RR
	owner []byte // sort key: canonical name or hash
	next  []byte
}

func canon(s string) string { return dns.CanonicalName(s) }

// order is a sort key that puts names in canonical order.
func order(name string) []byte {
	var out []byte
	labels := rawLabels(name)
	for i := len(labels) - 1; i >= 0; i-- {
		for _, c := range labels[i] {
			if c >= 'A' && c <= 'Z' {
				c += 32
			}
			// 0 separates labels, so that shorter names come first
			if c == 0 || c == 1 {
				out = append(out, 1, c+1)
			} else {
				out = append(out, c)
			}
		}
		out = append(out, 0)
	}
	return out
}

func rawLabels(name string) [][]byte {
	buf := make([]byte, 300)
	n, err := dns.PackDomainName(dns.Fqdn(name), buf, 0, nil, false)
	if err != nil {
		panic(name + ": " + err.Error())
	}
	var l [][]byte
	for i := 0; i < n && buf[i] != 0; i += int(buf[i]) + 1 {
		l = append(l, buf[i+1:i+1+int(buf[i])])
	}
	return l
}

func under(name, zone string) bool { return dns.IsSubDomain(zone, name) }

func parentOf(name string) string {
	i, end := dns.NextLabel(name, 0)
	if end {
		return "."
	}
	return name[i:]
}

func (z *zone) child(label string) string {
	if z.name == "." {
		return label + "."
	}
	return label + "." + z.name
}

// world is a tree of zones.
type world struct {
	rnd   *rand.Rand
	root  *zone
	zones []*zone
	ttl   uint32
	extra []*key // that are trusted
	hot   []string
}

type shape struct {
	csk, ent, deep bool
}

func newZone(w *world, parent *zone, name string, signed bool) *zone {
	z := &zone{name: name, parent: parent, signed: signed, names: map[string]set{}, cuts: map[string]*zone{}, sigs: map[string][]dns.RR{}}
	z.secure = signed && (parent == nil || parent.secure)
	z.add(fmt.Sprintf("%s 3600 IN SOA ns.%s m.%s 1 2 3 4 300", name, strings.TrimPrefix(name, "."), strings.TrimPrefix(name, ".")))
	z.add(fmt.Sprintf("%s 3600 IN NS ns.test.", name))
	if signed {
		honest := !strings.HasPrefix(name, "evil.")
		z.nsec3 = w.rnd.Intn(2) == 0 && parent != nil // no root has it
		if z.nsec3 {
			z.optout = w.rnd.Intn(2) == 0
			z.salt = vt.Pick(w.rnd, "", "aabbccdd")
			z.iter = uint16(w.rnd.Intn(3))
		}
		switch w.rnd.Intn(5) {
		case 0: // one key for everything
			k := newPair(w.rnd, honest).of(name, 257)
			z.ksk, z.zsk = []*key{k}, []*key{k}
		case 1: // in the middle of a rollover
			z.ksk = []*key{newPair(w.rnd, honest).of(name, 257)}
			z.zsk = []*key{newPair(w.rnd, honest).of(name, 256), newPair(w.rnd, honest).of(name, 256)}
			z.spare = []*key{newPair(w.rnd, honest).of(name, 257), newPair(w.rnd, honest).of(name, 256), newPair(w.rnd, honest).of(name, 385)}
		default:
			z.ksk = []*key{newPair(w.rnd, honest).of(name, 257)}
			z.zsk = []*key{newPair(w.rnd, honest).of(name, 256)}
			if honest && w.rnd.Intn(4) == 0 { // a tag doesn't tell which key
				k := w.rnd.Intn(2)
				z.zsk = []*key{twins()[k].of(name, 256)}
				other := twins()[1-k].of(name, 256)
				z.spare = []*key{other}
				other.rr.Hdr.Ttl = w.ttl
				z.put(other.rr)
			}
		}
		seen := map[string]bool{}
		for _, k := range append(append(append([]*key{}, z.ksk...), z.zsk...), z.spare...) {
			k.rr.Hdr.Ttl = w.ttl
			if !seen[k.rr.String()] {
				seen[k.rr.String()] = true
				z.put(k.rr)
			}
		}
	}
	if parent != nil {
		parent.cuts[canon(name)] = z
		parent.put(dns.Copy(z.names[canon(name)][dns.TypeNS][0]))
	}
	w.zones = append(w.zones, z)
	return z
}

func (z *zone) put(rr dns.RR) {
	n := canon(rr.Header().Name)
	if z.names[n] == nil {
		z.names[n] = set{}
	}
	for _, x := range z.names[n][rr.Header().Rrtype] {
		if x.String() == rr.String() {
			return
		}
	}
	z.names[n][rr.Header().Rrtype] = append(z.names[n][rr.Header().Rrtype], rr)
}

func (z *zone) add(s string) { z.put(vt.RR("%s", s)) }

// ds puts the delegation signer records of a signed child in place.
func (z *zone) ds(c *zone) {
	for _, k := range c.ksk {
		d := k.rr.ToDS(vt.Pick[uint8](rand.New(rand.NewSource(int64(k.rr.KeyTag()))), dns.SHA256, dns.SHA384))
		d.Hdr.Ttl = 3600
		z.put(d)
	}
}

// exists reports whether a name exists in the zone, if only because something
// below it does.
func (z *zone) exists(name string) bool {
	name = canon(name)
	for n := range z.names {
		if under(n, name) {
			return true
		}
	}
	return false
}

// types lists the types at a name.
func (s set) types() []uint16 {
	var l []uint16
	for t := range s {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// seal builds the chain of denial records.
func (z *zone) seal() {
	if !z.signed {
		return
	}
	z.proofs = nil
	soa := uint32(300)
	bitmap := func(name string) []uint16 {
		s := z.names[name]
		l := s.types()
		if z.cuts[name] != nil {
			l = nil
			if len(s[dns.TypeDS]) > 0 {
				l = append(l, dns.TypeDS)
			}
			l = append(l, dns.TypeNS)
		}
		if len(l) > 0 && (z.cuts[name] == nil || len(s[dns.TypeDS]) > 0 || !z.nsec3) {
			l = append(l, dns.TypeRRSIG)
		}
		if name == z.name && z.nsec3 {
			l = append(l, dns.TypeNSEC3PARAM)
		}
		if !z.nsec3 {
			l = append(l, dns.TypeNSEC)
		}
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		return l
	}
	var names []string
	seen := map[string]bool{}
	for n := range z.names {
		if z.optout && z.cuts[n] != nil && len(z.names[n][dns.TypeDS]) == 0 {
			continue // left out of the chain
		}
		for x := n; ; x = parentOf(x) {
			if !seen[x] {
				seen[x] = true
				if x == n || z.nsec3 { // names in between have records only with NSEC3
					names = append(names, x)
				} else {
					seen[x] = false
				}
			}
			if x == z.name || x == "." {
				break
			}
		}
	}
	if !z.nsec3 {
		sort.Slice(names, func(i, j int) bool { return bytes.Compare(order(names[i]), order(names[j])) < 0 })
		for i, n := range names {
			next := names[(i+1)%len(names)]
			z.proofs = append(z.proofs, &proof{owner: order(n), next: order(next), rr: &dns.NSEC{
				Hdr: dns.RR_Header{Name: n, Rrtype: dns.TypeNSEC, Class: 1, Ttl: soa}, NextDomain: next, TypeBitMap: bitmap(n)}})
		}
		return
	}
	type hashed struct{ hash, name string }
	var hs []hashed
	for _, n := range names {
		hs = append(hs, hashed{dns.HashName(n, dns.SHA1, z.iter, z.salt), n})
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].hash < hs[j].hash })
	flags := uint8(0)
	if z.optout {
		flags = 1
	}
	for i, h := range hs {
		next := hs[(i+1)%len(hs)].hash
		z.proofs = append(z.proofs, &proof{owner: []byte(h.hash), next: []byte(next), rr: &dns.NSEC3{
			Hdr: dns.RR_Header{Name: strings.ToLower(z.child(h.hash)), Rrtype: dns.TypeNSEC3, Class: 1, Ttl: soa}, Hash: dns.SHA1, Flags: flags, Iterations: z.iter,
			SaltLength: uint8(len(z.salt) / 2), Salt: z.salt, HashLength: 20, NextDomain: next, TypeBitMap: bitmap(h.name)}})
	}
}

func (z *zone) point(name string) []byte {
	if z.nsec3 {
		return []byte(dns.HashName(canon(name), dns.SHA1, z.iter, z.salt))
	}
	return order(name)
}

// match and cover find the denial record that owns or spans a name.
func (z *zone) match(name string) *proof {
	p := z.point(name)
	for _, x := range z.proofs {
		if bytes.Equal(x.owner, p) {
			return x
		}
	}
	return nil
}

func (z *zone) cover(name string) *proof {
	p := z.point(name)
	for _, x := range z.proofs {
		after, before := bytes.Compare(x.owner, p) < 0, bytes.Compare(p, x.next) < 0
		if bytes.Compare(x.owner, x.next) < 0 && after && before || bytes.Compare(x.owner, x.next) >= 0 && (after || before) && !bytes.Equal(x.owner, p) {
			return x
		}
	}
	return nil
}

// with adds the signatures of a set of records of the zone.
func (z *zone) with(rrset []dns.RR) []dns.RR {
	return append(append([]dns.RR{}, rrset...), z.sign(rrset, current)...)
}

func (z *zone) sign(rrset []dns.RR, w window) []dns.RR {
	if !z.signed {
		return nil
	}
	h := rrset[0].Header()
	keys := z.zsk
	if h.Rrtype == dns.TypeDNSKEY {
		keys = z.ksk
	}
	id := fmt.Sprintf("%s %d %v %v", canon(h.Name), h.Rrtype, w, vt.RRStrings(rrset))
	z.mu.Lock()
	defer z.mu.Unlock()
	if z.sigs[id] == nil {
		for _, k := range keys {
			z.sigs[id] = append(z.sigs[id], sign(k, z.name, rrset, w))
		}
	}
	return z.sigs[id]
}

// zoneOf finds the zone that answers for a name and type.
func (w *world) zoneOf(name string, qtype uint16) *zone {
	name = canon(name)
	z := w.root
	for {
		var next *zone
		for n, c := range z.cuts {
			if under(name, n) && !(qtype == dns.TypeDS && n == name) {
				next = c
			}
		}
		if next == nil {
			return z
		}
		z = next
	}
}

// truth is what there is for a question in its zone.
type truth struct {
	z        *zone
	rrs      []dns.RR // answer or alias, at the name that has it
	source   string   // owner of rrs, the wildcard if it is one
	ce       string   // closest encloser for names that do not exist
	exists   bool     // the name itself
	wildcard bool     // a wildcard stands in for it
}

func (w *world) truth(name string, qtype uint16) truth {
	name = canon(name)
	z := w.zoneOf(name, qtype)
	t := truth{z: z, source: name}
	pick := func(s set) []dns.RR {
		if len(s[qtype]) > 0 {
			return s[qtype]
		}
		return s[dns.TypeCNAME]
	}
	if z.exists(name) {
		t.exists = true
		if s := z.names[name]; z.cuts[name] != nil {
			t.rrs = s[dns.TypeDS] // nothing else is asked of the parent
		} else {
			t.rrs = pick(s)
		}
		return t
	}
	t.ce = parentOf(name)
	for !z.exists(t.ce) {
		t.ce = parentOf(t.ce)
	}
	star := "*." + strings.TrimPrefix(t.ce, ".")
	if s := z.names[star]; s != nil {
		t.wildcard = true
		t.source = star
		t.rrs = pick(s)
	}
	return t
}

func nextCloser(name, ce string) string {
	for parentOf(name) != ce {
		name = parentOf(name)
	}
	return name
}

// deny adds the records that prove what is missing.
func (t truth) deny(name string) []dns.RR {
	z := t.z
	if !z.signed {
		return nil
	}
	var l []*proof
	add := func(p *proof) {
		if p == nil {
			return
		}
		for _, x := range l {
			if x == p {
				return
			}
		}
		l = append(l, p)
	}
	name = canon(name)
	star := "*." + strings.TrimPrefix(t.ce, ".")
	switch {
	case t.exists && z.match(name) != nil:
		add(z.match(name))
	case t.exists && !z.nsec3: // a name in between
		add(z.cover(name))
	case t.exists: // an unsigned delegation in an opt-out span
		ce := parentOf(name)
		for z.match(ce) == nil {
			ce = parentOf(ce)
		}
		add(z.match(ce))
		add(z.cover(nextCloser(name, ce)))
	case !z.nsec3:
		add(z.cover(name))
		if len(t.rrs) > 0 {
			break
		}
		if t.wildcard {
			add(z.match(star))
		} else {
			add(z.cover(star))
		}
	default:
		ce := t.ce
		for z.match(ce) == nil { // only in between because of opt-out
			ce = parentOf(ce)
		}
		add(z.cover(nextCloser(name, ce)))
		if len(t.rrs) > 0 {
			break
		}
		add(z.match(ce))
		star := "*." + strings.TrimPrefix(ce, ".")
		if t.wildcard {
			add(z.match(star))
		} else {
			add(z.cover(star))
		}
	}
	var out []dns.RR
	for _, p := range l {
		out = append(out, z.with([]dns.RR{p.rr})...)
	}
	return out
}

// expand renames records and their signatures.
func expand(rrs []dns.RR, name string) []dns.RR {
	var out []dns.RR
	for _, rr := range rrs {
		rr = dns.Copy(rr)
		rr.Header().Name = name
		out = append(out, rr)
	}
	return out
}

// honest answers as a resolver would, with all signatures and proofs.
func (w *world) honest(q *dns.Msg) *dns.Msg {
	a := new(dns.Msg)
	a.SetReply(q)
	a.RecursionAvailable = true
	name, qtype := q.Question[0].Name, q.Question[0].Qtype
	for i := 0; i < 8; i++ {
		t := w.truth(name, qtype)
		if len(t.rrs) > 0 {
			rrs := t.z.with(t.rrs)
			if t.wildcard {
				rrs = expand(rrs, canon(name))
				a.Ns = append(a.Ns, t.deny(name)...)
			}
			a.Answer = append(a.Answer, rrs...)
			if c, ok := t.rrs[0].(*dns.CNAME); ok && qtype != dns.TypeCNAME {
				name = c.Target
				continue
			}
			return a
		}
		if !t.exists && !t.wildcard {
			a.Rcode = dns.RcodeNameError
		}
		soa := t.z.names[t.z.name][dns.TypeSOA]
		a.Ns = append(a.Ns, t.z.with(soa)...)
		a.Ns = append(a.Ns, t.deny(name)...)
		return a
	}
	return a
}

var leaves = []string{"a", "b", "c", "www", "mail", "x", "z", "aa", "a-b", "\\000", "\\001", "a\\000", "\\200", "_dmarc", "0", "zz", "a\\.b"}

// newWorld makes a random tree of zones.
func newWorld(rnd *rand.Rand) *world {
	w := &world{rnd: rnd, ttl: vt.Pick[uint32](rnd, 60, 3600)}
	w.root = newZone(w, nil, ".", true)
	test := newZone(w, w.root, "test.", true)
	w.root.ds(test)
	org := newZone(w, w.root, "org.", true)
	w.root.ds(org)
	if rnd.Intn(2) == 0 {
		org.nsec3, org.optout = true, true
	}
	for _, z := range []*zone{test, org} {
		victim := newZone(w, z, z.child("victim"), true)
		z.ds(victim)
		evil := newZone(w, z, z.child("evil"), true)
		z.ds(evil)
		newZone(w, z, z.child("plain"), false)
		island := newZone(w, z, z.child("island"), true) // signed, but nobody vouches
		island.secure = rnd.Intn(3) == 0                 // unless it is configured
		if island.secure {
			w.extra = append(w.extra, island.ksk...)
		}
		sub := newZone(w, victim, victim.child("sub"), true)
		victim.ds(sub)
		newZone(w, victim, victim.child("un"), false)
		if rnd.Intn(2) == 0 {
			deep := newZone(w, victim, victim.child("deep.er"), true)
			victim.ds(deep)
			newZone(w, victim, victim.child("un.der"), false)
		}
	}
	for _, z := range w.zones {
		w.hot = append(w.hot, z.name)
		if !z.secure || rnd.Intn(3) == 0 {
			continue
		}
		// A wildcard with names below it that it does not apply to
		for _, l := range []string{"*.w", "b.w", "c.e.w"} {
			for k := 1 + rnd.Intn(3); k > 0; k-- {
				z.put(w.data(canon(z.child(l))))
			}
		}
		for _, l := range []string{"*.w", "b.w", "e.w", "c.e.w", "d.e.w", "d.w", "a.b.w", "w"} {
			w.hot = append(w.hot, z.child(l))
		}
	}
	for _, z := range w.zones {
		for i := rnd.Intn(8); i > 0; i-- {
			name := z.child(vt.Pick(rnd, leaves...))
			for rnd.Intn(3) == 0 && len(name) < 60 {
				name = vt.Pick(rnd, leaves...) + "." + strings.TrimPrefix(name, ".")
			}
			if rnd.Intn(6) == 0 && name != "." {
				name = "*." + name
			}
			if w.zoneOf(name, dns.TypeA) != z || z.names[canon(name)][dns.TypeCNAME] != nil {
				continue
			}
			if rnd.Intn(5) == 0 && z.names[canon(name)] == nil {
				target := w.name(rnd)
				z.put(&dns.CNAME{Hdr: dns.RR_Header{Name: canon(name), Rrtype: dns.TypeCNAME, Class: 1, Ttl: 300}, Target: target})
				continue
			}
			for k := 1 + rnd.Intn(3); k > 0; k-- {
				z.put(w.data(canon(name)))
			}
		}
	}
	for _, z := range w.zones {
		z.seal()
	}
	return w
}

// data makes a record.
func (w *world) data(name string) dns.RR {
	h := dns.RR_Header{Name: name, Class: 1, Ttl: 300}
	switch w.rnd.Intn(4) {
	case 0:
		h.Rrtype = dns.TypeTXT
		return &dns.TXT{Hdr: h, Txt: []string{vt.Label(w.rnd, 5)}}
	case 1:
		h.Rrtype = dns.TypeMX
		return &dns.MX{Hdr: h, Preference: uint16(w.rnd.Intn(9)), Mx: vt.MixCase(w.rnd, "mail.test.")}
	case 2:
		h.Rrtype = dns.TypeTLSA
		return &dns.TLSA{Hdr: h, Usage: 3, Selector: 1, MatchingType: 1, Certificate: "aabbcc" + fmt.Sprintf("%02x", w.rnd.Intn(256))}
	}
	h.Rrtype = dns.TypeA
	return &dns.A{Hdr: h, A: []byte{192, 0, 2, byte(w.rnd.Intn(256))}}
}

// name picks a name to ask for, existing ones more often.
func (w *world) name(rnd *rand.Rand) string {
	if len(w.hot) > 0 && rnd.Intn(4) == 0 {
		return vt.Pick(rnd, w.hot...)
	}
	z := vt.Pick(rnd, w.zones...)
	var name string
	switch rnd.Intn(6) {
	case 0, 1:
		var l []string
		for n := range z.names {
			l = append(l, n)
		}
		sort.Strings(l)
		name = vt.Pick(rnd, l...)
		if rnd.Intn(4) == 0 && name != z.name {
			name = parentOf(name)
		}
	case 2:
		name = z.name
	default:
		name = z.child(vt.Pick(rnd, leaves...))
	}
	for rnd.Intn(4) == 0 && len(name) < 80 {
		name = vt.Pick(rnd, leaves...) + "." + strings.TrimPrefix(name, ".")
	}
	if strings.HasPrefix(name, "*.") && rnd.Intn(2) == 0 {
		name = vt.Pick(rnd, leaves...) + name[1:]
	}
	return name
}

var asked = []uint16{dns.TypeA, dns.TypeA, dns.TypeTXT, dns.TypeMX, dns.TypeTLSA, dns.TypeNS, dns.TypeSOA, dns.TypeCNAME, dns.TypeDS, dns.TypeDNSKEY, dns.TypeAAAA}

// ask picks a question. Those about delegations are few in any zone, but a lot
// depends on them.
func (w *world) ask(rnd *rand.Rand) (string, uint16) {
	if rnd.Intn(8) == 0 {
		return vt.Pick(rnd, w.zones...).name, dns.TypeDS
	}
	return w.name(rnd), vt.Pick(rnd, asked...)
}

// anchors are the keys of the root, and of zones nobody else vouches for.
func (w *world) anchors() []rdns.TrustAnchor {
	var l []rdns.TrustAnchor
	for _, k := range append(append([]*key{}, w.root.ksk...), w.extra...) {
		d := k.rr.ToDS(vt.Pick[uint8](w.rnd, dns.SHA256, dns.SHA384))
		l = append(l, rdns.TrustAnchor{Owner: vt.MixCase(w.rnd, k.rr.Hdr.Name), KeyTag: d.KeyTag, Algorithm: d.Algorithm, DigestType: d.DigestType, Digest: d.Digest})
	}
	return l
}
