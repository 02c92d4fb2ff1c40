export HOME="${HOME:-/root}"
export PATH="$PATH:/usr/local/bin:/usr/local/go/bin:/opt/veriftools/go1.27.3/bin"
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOSUMDB=off GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1 CGO_ENABLED=0
