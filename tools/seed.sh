#!/bin/bash
# seed.sh ID: checks in a scratch copy of /repo that a planted bug applies,
# builds, passes the stable tests, and that its demonstration works.
. /opt/vp/env.sh
id=$1
s=/verif/seeded/$id
w=$(mktemp -d /tmp/seedwt-XXXXXX)
trap 'rm -rf "$w"' EXIT
git clone -q /repo "$w/repo" && cd "$w/repo" || exit 1
go build ./... || exit 1
cp -r "$s" "$w/demo"
rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
bash "$w/demo/demo.sh" >"$w/out0" 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -5 "$w/out0"; exit 1; }
git apply "$s/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
go build ./... && go vet ./analyzer ./interesting ./cmd/... >/dev/null || { echo "$id: does not build"; exit 1; }
if [ "${2:-}" != notest ]; then go test -count=1 ./... >"$w/test" 2>&1 || { echo "$id: tests fail"; grep -v '^ok' "$w/test" | head -20; exit 1; }; fi
if bash "$w/demo/demo.sh" >"$w/out1" 2>&1; then echo "$id: demo passes with the bug"; tail -5 "$w/out1"; exit 1; fi
echo "$id: ok; demo says: $(tail -2 "$w/out1" | cut -c1-300 | tr '\n' ' ')"
