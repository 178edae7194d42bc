#!/bin/bash
# mkseed.sh ID : /tmp/seed/ID/{edit.py,main.go,meta.json} -> /verif/seeded/ID, after
# confirming that the change builds, passes the stable tests and that the
# demonstration tells the trees apart. Works in a scratch copy of /repo.
set -u
id=$1; src=/tmp/seed/$id; V=${VERIF:-/verif}; R=${REPO:-/repo}; dst=$V/seeded/$id
w=$(mktemp -d /tmp/seedw.XXXX); trap 'rm -rf "$w"' EXIT
cp -a "$R" "$w/repo"; cd "$w/repo" || exit 1
git checkout -q -- . 
python3 "$src/edit.py" || { echo "edit failed"; exit 1; }
git diff --quiet && { echo "no change"; exit 1; }
rm -rf "$dst"; mkdir -p "$dst"
git diff > "$dst/patch.diff"
cp "$src/main.go" "$src/meta.json" "$dst/"
cat > "$dst/demo.sh" <<'D'
#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise; run with cwd = repository
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp "$here/main.go" "$t/main.go"; cp "$repo/go.sum" "$t/go.sum"
{ echo "module demo"; echo; grep '^go ' "$repo/go.mod"; echo; sed -n '/^require/,$p' "$repo/go.mod"; echo "require github.com/pandatix/go-abnf v0.0.0"; echo "replace github.com/pandatix/go-abnf => $repo"; } > "$t/go.mod"
cd "$t" && GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local timeout 120 go run .
D
chmod +x "$dst/demo.sh"
go build ./... || { echo BUILD FAILED; exit 1; }
bash "$dst/demo.sh" >/tmp/seed/$id/out.patched 2>&1; b=$?
go test -vet=off . ./cmd/... > "$w/t.log" 2>&1; t=$?
git checkout -q -- .
bash "$dst/demo.sh" >/tmp/seed/$id/out.clean 2>&1; a=$?
echo "$id: demo clean=$a patched=$b unit=$t"; [ $t = 0 ] || grep -E '^(---|FAIL|panic)' "$w/t.log" | head
[ $a = 0 ] && [ $b != 0 ] && [ $t = 0 ]
