#!/bin/bash
# Puts build/stubs together: modules of the cache without the requirements of
# their own (which are not all there), and the cached release of go-loggregator
# with the metrics package it lacks.
cd "$(dirname "$0")/.." || exit 2
cache="$(go env GOMODCACHE)"
copy() { # copy MODULE CACHED-DIR PACKAGE...
	local d="build/stubs/$1" src="$cache/$2" mod="$1" t f p
	[ -f "$d/.done" ] && [ "$d/.done" -nt tools/stubs.sh ] && return 0
	mkdir -p build/stubs
	t=$(mktemp -d build/tmp.XXXXXX) || exit 2
	for p in "${@:3}"; do
		mkdir -p "$t/$p" && cp "$src/$p"/*.go "$t/$p/" || exit 2
	done
	chmod -R u+w "$t"
	find "$t" -name '*_test.go' -delete
	[ "$mod" = code.cloudfoundry.org/go-loggregator ] && cp -r stubs/metrics "$t/"
	[ "$mod" = github.com/prometheus/prometheus ] && rm -f "$PWD/$t/promql/test.go" "$PWD/$t/promql/fuzz.go"
	if [ "$mod" = github.com/influxdata/go-syslog ]; then cp stubs/syslog/syslog.go "$t/"; cp -r stubs/syslog/octetcounting "$t/"; fi
	printf 'module %s\n\ngo 1.20\n' "$mod" > "$t/go.mod"
	touch "$t/.done"
	mkdir -p "$(dirname "$d")"
	[ -d "$d" ] && mv -T "$d" "$t.old" 2>/dev/null && rm -r "$PWD/$t.old"
	mv -T "$t" "$d" 2>/dev/null || rm -r "$PWD/$t"
}
copy code.cloudfoundry.org/go-loggregator code.cloudfoundry.org/go-loggregator@v7.4.0+incompatible . rpc/loggregator_v2
copy code.cloudfoundry.org/go-batching code.cloudfoundry.org/go-batching@v0.0.0-20171020220229-924d2a9b48ac .
copy code.cloudfoundry.org/go-diodes code.cloudfoundry.org/go-diodes@v0.0.0-20231113191959-85adc333ee36 .
copy github.com/prometheus/prometheus github.com/prometheus/prometheus@v2.3.2+incompatible promql storage pkg/labels pkg/value pkg/timestamp util/stats util/strutil
# All of a module: models change it for native runs.
g=google.golang.org/grpc
copy $g $g@v1.23.0 $(cd "$cache/$g@v1.23.0" && find . -name '*.go' ! -name '*_test.go' -printf '%h\n' | sort -u | grep -Ev '^./(examples|benchmark|interop|stress|test|testdata|xds|balancer/(xds|grpclb|rls)|credentials/alts|profiling|internal/(profiling|testutils|leakcheck))' | sed 's,^\./,,')
copy github.com/influxdata/go-syslog github.com/influxdata/go-syslog@v1.0.1 rfc5424 rfc5425
exit 0
