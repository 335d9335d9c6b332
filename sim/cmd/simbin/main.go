//go:build go1.21

package main

import "github.com/hired/gevulot/zzsim/harness"

func main() { harness.Main() }
