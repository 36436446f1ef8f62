//go:build noannounce

package main

func runAnnounce() {}
