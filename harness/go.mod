module finchverif

go 1.20

require (
	github.com/alexflint/go-arg v1.4.3
	github.com/dustin/go-humanize v1.0.0
	github.com/go-ini/ini v1.67.0
	github.com/go-mysql/errors v0.0.0-20180603193453-03314bea68e0
	github.com/go-sql-driver/mysql v1.7.1
	github.com/go-test/deep v1.0.8
	github.com/rs/xid v1.4.0
	golang.org/x/time v0.3.0
	gopkg.in/yaml.v2 v2.4.0
)

require (
	github.com/alexflint/go-scalar v1.1.0 // indirect
	github.com/stretchr/testify v1.8.0 // indirect
)

require github.com/square/finch v0.0.0

replace github.com/square/finch => /repo
