#!/bin/bash
# Builds the harness once, which fills the Go build cache; every check builds it again from /repo's working tree.
cd "$(dirname "$0")" || exit 1
export HOME=/root GOROOT=/opt/veriftools/go1.27.3 GOTOOLCHAIN=local GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=/root/.cache/go-build GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off PATH=/opt/veriftools/go1.27.3/bin:$PATH
t=$(mktemp -d) || exit 1
cd harness && go test -c -vet=off -o "$t/props.test" ./props && go test -c -race -vet=off -o "$t/race.test" ./props &&
  go build -o "$t/yamlygen" github.com/KSpaceer/yamly/cmd/yamlygen && go build ./gensup
rc=$?
rm -rf "$t"
exit $rc
