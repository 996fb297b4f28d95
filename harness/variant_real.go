//go:build !san && !race

package main

const variant = "real"
