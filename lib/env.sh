export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOMODCACHE=/root/go/pkg/mod GOCACHE=/verif/.build/gocache
unset GOFLAGS GOROOT GOPATH GOWORK
