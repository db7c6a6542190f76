# offline Go environment; nothing is written outside /verif/.cache
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GO111MODULE=on CGO_ENABLED=0
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=$here/.cache/go GOFLAGS=-mod=mod
mkdir -p "$GOCACHE"
