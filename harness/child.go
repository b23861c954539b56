package main

func childMain(name string, args []string) {}
