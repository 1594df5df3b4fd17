package main

import "os"

var helpers = map[string]func([]string){}

func helperMain(name string, args []string) {
	f := helpers[name]
	if f == nil {
		os.Exit(3)
	}
	f(args)
}
