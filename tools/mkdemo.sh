# usage: mkdemo.sh id  (main.go on stdin)
mkdir -p /verif/seeded/$1; cat > /verif/seeded/$1/main.go.txt
cat > /verif/seeded/$1/demo.sh <<'X'
#!/bin/bash
# builds main.go.txt against /repo and runs it
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 99
trap 'rm -rf "$w"' EXIT
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
cp "$d/main.go.txt" "$w/main.go"
cp /repo/go.sum "$w/go.sum"
cat > "$w/go.mod" <<'M'
module demo

go 1.21

require (
	github.com/Azure/go-amqp v1.0.4
	github.com/c-kruse/vanflow v0.0.0
	github.com/cenkalti/backoff/v4 v4.2.1
)

replace github.com/c-kruse/vanflow => /repo
M
cd "$w" && go build ${DEMO_RACE} -o demo . || exit 98
timeout 120 ./demo
X
