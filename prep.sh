# Sourced by run.sh and setup.sh with $here and $work. Makes the module files
# to build the harness with.
#
# The lattice of kagome.ipadic does not clear the nodes which it uses again, so
# that its results depend on the goroutines before (the known finding
# "stale-cost"). All checks but its demonstration use a copy which clears them.
cp "$here/harness/go.mod" "$here/harness/go.sum" "$work/" || exit 3
mkdir -p "$work/plain" && cp "$here/harness/go.mod" "$here/harness/go.sum" "$work/plain/" || exit 3
kg=$(cd "$here/harness" && go list -modfile="$work/plain/go.mod" -m -f '{{.Dir}}' github.com/ikawaha/kagome.ipadic 2>/dev/null)
export VH_KAGOME=
if [ -n "$kg" ] && grep -q 'return nodePool.Get().(\*node)' "$kg/internal/lattice/node.go" 2>/dev/null; then
	VH_KAGOME=$here/build/kagome-$(basename "$kg")
	if [ ! -d "$VH_KAGOME" ]; then
		mkdir -p "$here/build"
		tmp=$(mktemp -d "$here/build/tmp-XXXXXX") || exit 3
		cp -r "$kg" "$tmp/k" && chmod -R u+w "$tmp/k" || exit 3
		sed -i 's/return nodePool.Get().(\*node)/n := nodePool.Get().(*node); *n = node{}; return n/' "$tmp/k/internal/lattice/node.go" || exit 3
		mv -T "$tmp/k" "$VH_KAGOME" 2>/dev/null || [ -d "$VH_KAGOME" ] || exit 3
		find "$tmp" -depth -delete
	fi
	echo "replace github.com/ikawaha/kagome.ipadic => $VH_KAGOME" >> "$work/go.mod"
fi
