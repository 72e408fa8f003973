#!/bin/bash
# Builds every check once, to find missing pieces early; the checks build themselves again.
cd "$(dirname "$0")/harness" || exit 1
. ./env.sh
go vet ./pbt ./sgen ./sval && go test -count=1 -run '^$' ./... >/dev/null
