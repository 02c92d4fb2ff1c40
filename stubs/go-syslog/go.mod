module github.com/influxdata/go-syslog

go 1.18
