# Sourced by the other scripts: an offline Go toolchain, and build output inside /verif/.build (ignored by git).
ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
if [ -x /opt/veriftools/go1.27.3/bin/go ]; then PATH=/opt/veriftools/go1.27.3/bin:$PATH; fi
export HOME=${HOME:-/root} PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off CGO_ENABLED=1
export GOCACHE=$ROOT/.build/gocache
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
REPO=/repo
BUILD=$ROOT/.build
