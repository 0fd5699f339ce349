//go:build !prepend

package main

import "github.com/cnsgfk/xbnf"

var putBack func(base xbnf.ICharstream, chars []rune) xbnf.ICharstream
