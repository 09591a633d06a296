#!/bin/bash
# regenerates cmd/replay/registry.go from the H_ and S_ functions in h/
cd "$(dirname "$0")"
{
echo '// Code generated by gen.sh; DO NOT EDIT.'
echo 'package main'
echo 'import "vharness/h"'
echo 'var harnesses = map[string]func(){'
grep -ho '^func H_[A-Za-z0-9_]*()' h/*.go | sed 's/^func //; s/()//' | sort | while read n; do echo "\"$n\": h.$n,"; done
echo '}'
echo 'var setups = map[string]func(){'
grep -ho '^func S_[A-Za-z0-9_]*()' h/*.go | sed 's/^func //; s/()//' | sort | while read n; do echo "\"H_${n#S_}\": h.$n,"; done
echo '}'
} | gofmt > cmd/replay/registry.go
