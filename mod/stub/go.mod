module code.cloudfoundry.org/log-cache

go 1.20

require (
	code.cloudfoundry.org/go-envstruct v1.5.0
	code.cloudfoundry.org/go-loggregator v7.4.0+incompatible
	code.cloudfoundry.org/rfc5424 v0.0.0-20180905210152-236a6d29298a
	github.com/blang/semver v3.5.1+incompatible
	github.com/golang/protobuf v1.3.2
	github.com/grpc-ecosystem/grpc-gateway v1.11.1
	github.com/onsi/ginkgo v1.12.0
	github.com/onsi/gomega v1.7.1
	github.com/prometheus/client_golang v1.1.0
	github.com/prometheus/client_model v0.0.0-20190812154241-14fe0d1b01d4
	github.com/shirou/gopsutil v2.18.12+incompatible
	golang.org/x/net v0.0.0-20190613194153-d28f0bde5980
	google.golang.org/genproto v0.0.0-20180817151627-c66870c02cf8
	google.golang.org/grpc v1.23.0
)

require (
	github.com/beorn7/perks v1.0.1 // indirect
	github.com/hpcloud/tail v1.0.0 // indirect
	github.com/matttproud/golang_protobuf_extensions v1.0.1 // indirect
	github.com/prometheus/common v0.6.0 // indirect
	github.com/prometheus/procfs v0.0.3 // indirect
	golang.org/x/sys v0.0.0-20191120155948-bd437916bb0e // indirect
	golang.org/x/text v0.3.0 // indirect
	gopkg.in/fsnotify.v1 v1.4.7 // indirect
	gopkg.in/tomb.v1 v1.0.0-20141024135613-dd632973f1e7 // indirect
	gopkg.in/yaml.v2 v2.2.4 // indirect
)

require (
	github.com/emirpasic/gods v1.12.0
	code.cloudfoundry.org/go-batching v0.0.0-20171020220229-924d2a9b48ac
	code.cloudfoundry.org/go-diodes v0.0.0-20180905200951-72629b5276e3
	code.cloudfoundry.org/go-orchestrator v0.0.0-20181003145824-0b9b6e9c9b1a
	github.com/prometheus/prometheus v2.3.2+incompatible
	github.com/go-kit/kit v0.9.0
	github.com/opentracing/opentracing-go v1.1.0
	github.com/cespare/xxhash v1.1.0
)

replace code.cloudfoundry.org/go-loggregator => /verif/build/stubs/code.cloudfoundry.org/go-loggregator

replace github.com/emirpasic/gods => /verif/stubs/github.com/emirpasic/gods

replace code.cloudfoundry.org/go-batching => /verif/build/stubs/code.cloudfoundry.org/go-batching

replace code.cloudfoundry.org/go-diodes => /verif/build/stubs/code.cloudfoundry.org/go-diodes

replace code.cloudfoundry.org/go-orchestrator => /verif/stubs/code.cloudfoundry.org/go-orchestrator

replace github.com/prometheus/prometheus => /verif/build/stubs/github.com/prometheus/prometheus

replace github.com/go-kit/kit => /verif/stubs/github.com/go-kit/kit

replace github.com/opentracing/opentracing-go => /verif/stubs/github.com/opentracing/opentracing-go

replace github.com/cespare/xxhash => /verif/stubs/github.com/cespare/xxhash

require (
	github.com/gorilla/mux v1.7.3
	github.com/dvsekhvalnov/jose2go v0.0.0-20190725124425-0c1c5d2d5b1c
)

replace github.com/gorilla/mux => /verif/stubs/github.com/gorilla/mux

replace github.com/dvsekhvalnov/jose2go => /verif/stubs/github.com/dvsekhvalnov/jose2go

require (
	github.com/influxdata/go-syslog v2.0.1+incompatible
	code.cloudfoundry.org/tlsconfig v0.0.0-20200131000646-bbe0f8da39b3
)

replace github.com/influxdata/go-syslog => /verif/build/stubs/github.com/influxdata/go-syslog

replace code.cloudfoundry.org/tlsconfig => /verif/stubs/code.cloudfoundry.org/tlsconfig

require github.com/cloudfoundry/gosigar v1.1.0

replace github.com/cloudfoundry/gosigar => /verif/stubs/github.com/cloudfoundry/gosigar

replace google.golang.org/grpc => /verif/build/stubs/google.golang.org/grpc
