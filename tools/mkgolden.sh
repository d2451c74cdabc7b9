#!/bin/sh
# Writes golden/shares.jsonl from the first commit of /repo (already done; kept for the record).
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
t=$(mktemp -d)
git -C /repo worktree add -q --detach "$t/w" 75b47121a21d829be26b21052a122b244a537f48
mkdir "$t/w/golden" && cp "$here/tools/golden.go.txt" "$t/w/golden/main.go"
(cd "$t/w" && go run ./golden) > "$here/golden/shares.jsonl"
git -C /repo worktree remove --force "$t/w"
rm -rf "$t"
