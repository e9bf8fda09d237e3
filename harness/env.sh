# toolchain for the harness (the newest installed Go: testing/synctest)
export HOME="${HOME:-/root}"
export GOROOT=/opt/veriftools/go1.27.3
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off GOTELEMETRY=off GOFLAGS=-mod=mod
unset GOEXPERIMENT GODEBUG
