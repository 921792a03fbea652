package dnssecmon

import (
	"fmt"
	"net"
	"net/http"
	"strings"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// fetched has validators get their anchors from a server. What is in force is
// trusted, and nothing else is, whatever the server does.
func fetched(r *vt.R) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	body := map[string]func(http.ResponseWriter){}
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { body[q.URL.Path](w) })}
	n := r.N(60, 400)
	type run struct {
		w      *world
		label  string
		expect bool
		path   string
		fixed  []rdns.TrustAnchor
	}
	var runs []run
	for i := 0; i < n; i++ {
		rnd := r.Rand("fetched", i)
		w := newWorld(rnd)
		entry := func(d *dns.DS, attr string) string {
			return fmt.Sprintf(`<KeyDigest id="K%s" %s><KeyTag>%d</KeyTag><Algorithm>%d</Algorithm><DigestType>%d</DigestType><Digest>%s</Digest></KeyDigest>`, vt.Label(rnd, 5), attr, d.KeyTag, d.Algorithm, d.DigestType, vt.Pick(rnd, strings.ToLower(d.Digest), d.Digest))
		}
		past := `validFrom="2010-07-15T00:00:00+00:00" validUntil="2019-01-11T00:00:00+00:00"`
		valid := []string{`validFrom="2017-02-02T00:00:00+00:00"`, `validFrom="2017-02-02T00:00:00+00:00" validUntil="2099-01-11T00:00:00+00:00"`, `validFrom="2017-02-02T00:00:00Z" validUntil="2098-12-31T23:30:00-11:00"`}
		var entries []string
		for k := rnd.Intn(3); k > 0; k-- { // of keys that are not used
			d := newPair(rnd, false).of(".", 257).rr.ToDS(dns.SHA256)
			entries = append(entries, entry(d, vt.Pick(rnd, append(valid, past)...)))
		}
		mode := vt.Pick(rnd, "listed", "listed", "expired", "missing", "status", "garbage", "short", "configured")
		root := w.root.ksk[0].rr.ToDS(vt.Pick[uint8](rnd, dns.SHA256, dns.SHA384))
		switch mode {
		case "expired":
			entries = append(entries, entry(root, past))
		case "missing":
		default:
			entries = append(entries, entry(root, vt.Pick(rnd, valid...)))
		}
		rnd.Shuffle(len(entries), func(i, j int) { entries[i], entries[j] = entries[j], entries[i] })
		doc := `<?xml version="1.0" encoding="UTF-8"?><TrustAnchor id="X" source="http://data.iana.org/root-anchors/root-anchors.xml"><Zone>.</Zone>` + strings.Join(entries, "\n") + `</TrustAnchor>`
		code := vt.Pick(rnd, 404, 500, 403, 300)
		path := fmt.Sprintf("/%d.xml", i)
		x := run{w: w, label: fmt.Sprintf("fetched %d %s", i, mode), expect: mode == "listed" || mode == "configured", path: path}
		switch mode {
		case "garbage":
			doc = doc[:40+rnd.Intn(len(doc)-60)]
		case "configured":
			x.fixed = w.anchors()
			doc = strings.Replace(doc, root.Digest[:8], "00000000", 1)
		}
		body[path] = func(hw http.ResponseWriter) {
			switch mode {
			case "status":
				hw.WriteHeader(code)
			case "short":
				hw.Header().Set("Content-Length", fmt.Sprint(len(doc)+10))
			}
			hw.Write([]byte(doc))
		}
		runs = append(runs, x)
	}
	go srv.Serve(l)
	defer srv.Close()
	for _, x := range runs {
		r.Case("%s", x.label)
		v, err := rdns.NewDNSSECValidator(x.label, &vt.Func{Name: "up", F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			a := x.w.honest(q)
			a.Answer, a.Ns = copies(a.Answer), copies(a.Ns)
			return a, nil
		}}, rdns.DNSSECValidatorOptions{TrustAnchorURL: "http://" + l.Addr().String() + x.path, TrustAnchors: x.fixed})
		if err != nil {
			r.Violation("construct", err.Error(), x.label)
			continue
		}
		a, err := v.Resolve(vt.Query("victim.test.", dns.TypeSOA), rdns.ClientInfo{})
		ok := err == nil && a != nil && a.Rcode == dns.RcodeSuccess && a.AuthenticatedData
		r.Eval(x.label)
		r.Observe(fmt.Sprintf("fetched anchors trusted %v", x.expect), 1)
		switch {
		case x.expect && !ok:
			r.Violation("anchor-lost", fmt.Sprintf("the key of the root is a valid anchor, but what it vouches for is answered with %v, %v", a, err), x.label)
		case !x.expect && (a == nil && err == nil || a != nil && (a.AuthenticatedData || len(a.Answer) > 0)):
			r.Violation("anchor-unfounded", fmt.Sprintf("the key of the root is not an anchor, but what it vouches for is answered with %v, %v", a, err), x.label)
		}
	}
	r.Need("fetched anchors trusted true", 10)
	r.Need("fetched anchors trusted false", 10)
}
