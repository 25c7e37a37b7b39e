module verif/harness

go 1.27

require (
	github.com/BurntSushi/toml v0.3.1
	github.com/c2h5oh/datasize v0.0.0-20200825124411-48ed595a09d2
	github.com/jumptrading/influx-spout/v2 v2.0.0
	github.com/nats-io/nats-server/v2 v2.1.8
	github.com/nats-io/nats.go v1.10.0
	github.com/spf13/afero v1.4.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/nats-io/jwt v0.3.2 // indirect
	github.com/nats-io/nkeys v0.1.4 // indirect
	github.com/nats-io/nuid v1.0.1 // indirect
	golang.org/x/crypto v0.0.0-20200323165209-0ec3e9974c59 // indirect
	golang.org/x/text v0.3.3 // indirect
)

replace github.com/jumptrading/influx-spout/v2 => /repo
