# Sourced by check and setup.sh.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS= GOWORK=off CGO_ENABLED=0
export LANG=C.UTF-8 LC_ALL=C.UTF-8

# build_vh DIR ID: builds the binaries that property ID needs into DIR.
build_vh() {
	local d=$1 id=$2
	cp "$V/h/go.mod" "$d/go.mod" && cp "$V/h/go.sum" "$d/go.sum" || return 1
	(cd "$V/h" && go build -mod=mod -modfile="$d/go.mod" -o "$d/vh" .) || return 1
	case $id in C08|C09|C10|all)
		# the build variant with the other width table
		(cd "$V/h" && go build -tags orgxwidth -mod=mod -modfile="$d/go.mod" -o "$d/vhx" .) || return 1
	esac
	case $id in C16|C23|all)
		# the harness that decides schedules: package sync of the code under
		# test is replaced by one that asks the harness
		"$d/vh" overlay /repo "$d" &&
		(cd "$V/h" && go test -c -vet=off -overlay "$d/overlay.json" -mod=mod -modfile="$d/go.mod" -o "$d/conc" ./conc) || return 1
	esac
}
