module harness

go 1.27

require (
	github.com/QuangTung97/go-memcache v0.0.0
	vrt v0.0.0
)
