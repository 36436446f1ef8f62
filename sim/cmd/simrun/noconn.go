//go:build noconn

package main

func runConn() {}
