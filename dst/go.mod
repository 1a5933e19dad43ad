module verif.local/dst

go 1.23

require (
	go.f110.dev/go-memcached v0.0.0
	gopkg.in/yaml.v3 v3.0.1
)

replace go.f110.dev/go-memcached => ./repo
