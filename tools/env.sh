# Sourced by setup.sh and check.sh: the offline Go tool chain in GOPATH mode, with caches of our own.
V=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export V
export HOME=${HOME:-/root}
for g in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
	[ -x $g/go ] && { export PATH=$g:$PATH; break; }
done
export GOTOOLCHAIN=local GO111MODULE=off GOPROXY=off GOFLAGS= GOWORK=off GOENV=off TZ=UTC CGO_ENABLED=0
B=$V/.build
export GOCACHE=$B/gocache
REPO=${VERIF_REPO:-/repo}
P=github.com/Symantec/tricorder
mkdir -p "$B"

# build NAME INST: builds the checker from the working tree of /repo into $B/bin/NAME.
# Prints the reason on standard error and fails when that is impossible.
prepare() {
	if [ ! -d "$GOCACHE" ]; then
		# start from the build cache of the sandbox (read only use), when there is one
		rm -rf "$B/gocache.new"
		mkdir -p "$B/gocache.new"
		[ -d /opt/vp/gocache ] && cp -r /opt/vp/gocache/. "$B/gocache.new/" 2>/dev/null
		mv "$B/gocache.new" "$GOCACHE"
	fi
	mkdir -p "$B/bin" "$B/plain/src/github.com/Symantec" "$B/inst/src"
	ln -sfn "$REPO" "$B/plain/src/$P"
	for d in plain inst; do
		ln -sfn "$V/src/mc" "$B/$d/src/mc"
		ln -sfn "$V/src/vsched" "$B/$d/src/vsched"
	done
}

build_plain() {
	GOPATH=$B/plain go build -o "$1" mc
}

build_inst() {
	(cd "$V/src/vinstr" && GOPATH=$B/plain go build -o "$B/bin/vinstr" .) || return 1
	local pkgs
	pkgs=$(GOPATH=$B/plain go list -deps mc | grep "^$P/") || return 1
	rm -rf "$B/inst/src/github.com"
	GOPATH=$B/plain "$B/bin/vinstr" -mode "$2" -out "$B/inst/src" $pkgs || return 1
	GOPATH=$B/inst go build -o "$1" mc
}
