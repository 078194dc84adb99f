#!/bin/bash
# Regenerates h/registry.go from the harness functions in h/.
cd "$(dirname "$0")/h" || exit 1
{ echo "// Code generated by gen_registry.sh. DO NOT EDIT."; echo; echo "package h"; echo
  echo "// Registry maps harness names to functions."; echo "var Registry = map[string]func(){"
  grep -hoE '^func C[0-9]+_[A-Za-z0-9_]+\(\)' *.go | sed -E 's/^func ([A-Za-z0-9_]+)\(\)/\1/' | LC_ALL=C sort | sed -E 's/(.*)/	"\1": \1,/'
  echo "}"; } > registry.go
gofmt -w registry.go
