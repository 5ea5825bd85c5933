# Sourced: the Go toolchain of the sandbox, offline.
export HOME=${HOME:-/root} GOROOT=/opt/veriftools/go1.27.3 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=readonly -buildvcs=false" GOSUMDB=off TZ=UTC
unset GOOS GOARCH CGO_ENABLED GODEBUG
