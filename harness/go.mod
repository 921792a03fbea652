module verif/harness

go 1.25.0

require (
	github.com/0xERR0R/expiration-cache v0.2.0
	github.com/BurntSushi/toml v1.6.0
	github.com/RackSec/srslog v0.0.0-20180709174129-a4725f04ec91
	github.com/cisco/go-hpke v0.0.0-20230407100446-246075f83609
	github.com/cloudflare/odoh-go v1.0.1-0.20230926114050-f39fa019b017
	github.com/heimdalr/dag v1.5.1
	github.com/jtacoma/uritemplates v1.0.0
	github.com/miekg/dns v1.1.72
	github.com/oschwald/maxminddb-golang v1.13.1
	github.com/pion/dtls/v3 v3.1.5
	github.com/pkg/errors v0.9.1
	github.com/quic-go/quic-go v0.60.0
	github.com/redis/go-redis/v9 v9.21.0
	github.com/spf13/cobra v1.10.2
	github.com/stretchr/testify v1.11.1
	github.com/txthinking/socks5 v0.0.0-20260601051520-339b044ab0eb
	github.com/yuin/gopher-lua v1.1.2
	golang.org/x/net v0.57.0
	golang.org/x/sys v0.47.0
)

require (
	github.com/cespare/xxhash/v2 v2.3.0 // indirect
	github.com/cisco/go-tls-syntax v0.0.0-20200617162716-46b0cfb76b9b // indirect
	github.com/cloudflare/circl v1.6.4 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/emirpasic/gods v1.18.1 // indirect
	github.com/google/uuid v1.6.0 // indirect
	github.com/hashicorp/golang-lru/v2 v2.0.7 // indirect
	github.com/inconshreveable/mousetrap v1.1.0 // indirect
	github.com/kr/text v0.2.0 // indirect
	github.com/patrickmn/go-cache v2.1.0+incompatible // indirect
	github.com/pion/logging v0.2.4 // indirect
	github.com/pion/transport/v4 v4.0.2 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/quic-go/qpack v0.6.0 // indirect
	github.com/spf13/pflag v1.0.10 // indirect
	github.com/txthinking/runnergroup v0.0.0-20250224021307-5864ffeb65ae // indirect
	go.uber.org/atomic v1.11.0 // indirect
	golang.org/x/crypto v0.54.0 // indirect
	golang.org/x/mod v0.38.0 // indirect
	golang.org/x/sync v0.22.0 // indirect
	golang.org/x/text v0.40.0 // indirect
	golang.org/x/tools v0.48.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)

require github.com/folbricht/routedns v0.0.0

replace github.com/folbricht/routedns => /repo
