# Sourced: build OUT [flags...] compiles the monitor in /verif/harness as a
# package inside /repo's module (an overlay: /repo itself is not touched, and
# its go.mod and go.sum are used through copies), from /repo's current tree.
if [ -r /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
build() {
	local out=$1
	shift
	local cgo=0 f sep=''
	case " $* " in *" -race "*) cgo=1 ;; esac
	cp -- "$REPO/go.mod" "$T/go.mod" && cp -- "$REPO/go.sum" "$T/go.sum" || return 1
	{
		printf '{"Replace":{'
		for f in "$V"/harness/*.go; do
			printf '%s"%s/internal/zzverif/%s":"%s"' "$sep" "$REPO" "${f##*/}" "$f"
			sep=','
		done
		printf '}}\n'
	} >"$T/overlay.json"
	(cd "$REPO" && CGO_ENABLED=$cgo go build -modfile "$T/go.mod" -overlay "$T/overlay.json" "$@" -o "$out" ./internal/zzverif)
}
