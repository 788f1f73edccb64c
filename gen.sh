# Sourced by check.sh for C23: regenerates the parser in a scratch copy of
# $REPO and builds the checker with both parsers.  Sets $bin.
gen=$(mktemp -d /tmp/mcgen.XXXXXX) || exit 2
trap 'rm -rf "$gen"' EXIT
why=
tar -C "$REPO" --exclude=./.git -cf - . | tar -C "$gen" -xf - || exit 2
rm -f "$gen/go/vimlparser.go" "$gen/go/builtin_commands.go"
(cd "$gen" && HOME=$gen timeout -s KILL 400 bash go/generate.sh </dev/null >"$gen/out" 2>&1)
if [ ! -s "$gen/go/vimlparser.go" ] || [ ! -s "$gen/go/builtin_commands.go" ]; then
	why="the generator gives no code"
else
	find "$gen" -name '*.go' -exec sed -i 's#"github.com/vim-jp/go-vimlparser\("\|/\)#"gen/vimlparser\1#' {} +
	sed -i 's#^module .*#module gen/vimlparser#' "$gen/go.mod"
	cp go.mod "$gen/mc.mod" && : >"$gen/mc.sum"
	[ -f go.sum ] && cp go.sum "$gen/mc.sum"
	printf '\nrequire gen/vimlparser v0.0.0\n\nreplace gen/vimlparser => %s\n' "$gen" >>"$gen/mc.mod"
	# in a folder of its own, so that several runs do not meet
	if go build -modfile="$gen/mc.mod" -tags gen -o "$gen/mc" ./cmd/mc 2>"$gen/err"; then
		bin=$gen/mc
	else
		why="the generated code does not fit the rest of the tree: $(head -3 "$gen/err")"
	fi
fi
[ -n "$why" ] && export MC_NOGEN=$why && echo "$why" >&2
