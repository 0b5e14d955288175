export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS="-mod=mod"
