#!/bin/bash
# regenerates props/registry.go from the harness functions
cd "$(dirname "$0")/props" || exit 1
{
echo '// Code generated by genreg.sh. DO NOT EDIT.'
echo
echo 'package props'
echo
echo '// Registry maps the name of a harness function to the function.'
echo 'var Registry = map[string]func(){'
grep -ho '^func C[0-9][0-9]_[A-Za-z0-9_]*()' c*.go | sed 's/^func //;s/()//' | sort | sed 's/.*/\t"&": &,/'
echo '}'
} > registry.go
gofmt -w registry.go
