# toolchain settings shared by all scripts
if [ -d /opt/veriftools/go1.27.3/bin ]; then PATH=/opt/veriftools/go1.27.3/bin:$PATH; fi
export PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GONOSUMDB='*'
export HOME="${HOME:-/root}"
if [ -z "$GOCACHE" ] && ! mkdir -p "$HOME/.cache/go-build" 2>/dev/null; then export GOCACHE=/tmp/go-build; fi
