export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOSUMDB=off CGO_ENABLED=0
