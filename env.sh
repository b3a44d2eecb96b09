# Shared by setup and every check: an offline Go environment whose caches live inside /verif.
export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOTELEMETRY=off CGO_ENABLED=0
export GOCACHE=/verif/.cache/go-build
export GOMODCACHE=/opt/vp/cache/gomod
unset GOFLAGS
