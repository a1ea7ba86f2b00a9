[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod CGO_ENABLED=0 GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
