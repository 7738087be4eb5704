#!/bin/bash
# run.sh <property> [quick|thorough] : builds the engine if needed and decides one property.
set -u
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0
unset GOROOT GOWORK GOENV GOOS GOARCH
build() {
	mkdir -p bin
	(cd engine && go build -o ../bin/gosym.new.$$ . ) && mv bin/gosym.new.$$ bin/gosym
}
if [ "$1" = setup ]; then build; exit; fi
if [ ! -x bin/gosym ] || [ -n "$(find engine -name '*.go' -newer bin/gosym -print -quit)" ]; then build || exit 2; fi
p=$(echo "$1" | tr A-Z a-z)
exec ./bin/gosym check -p "$p" -tier "${2:-quick}"
