//go:build race

package main

const variant = "race"
